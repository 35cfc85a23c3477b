"""Lambert: number, order and direction of the solutions, stored inputs."""
from .lambert import *
from kvc import build
LEVEL = 'other'
EXPLAIN = ('Deductive for requested revolutions up to 2 and all geometries, directions and times: counts, order (which branch and how many revolutions each entry is solved for), angular momentum direction, getters, and the logic that '
           'drops a revolution when the minimum time of flight exceeds T. More revolutions (up to 40), the largest feasible revolution count against an independent minimisation and the left/right order are a bounded runtime check.')
ASSUME = ['the minimum search converges (bounded runtime check)', 'householder returns a root on the branch it is called for (bounded runtime check)']
WHAT = ('C14',)
IR = PUB
def cases(tier):
    W = dict(what=WHAT)
    L = []
    for cw in (0, 1):
        for up in (True, False): L.append(Ctor(name='constructor, %s, %s' % ('clockwise' if cw else 'counter-clockwise', 'h up' if up else 'h down'), cw=cw, up=up, weight=2, **W))
    L += [Ctor(name='constructor, hyperbola', hyp=True, weight=2, **W)]
    L += [Ctor(name='constructor, up to 1 revolution, %s' % ('clockwise' if cw else 'counter-clockwise'), multi=1, cw=cw, weight=8, **W) for cw in (0, 1)]
    L += [Ctor(name='constructor, up to 1 revolution, stationary at 0', multi=1, dt0=True, weight=7, **W), Ctor(name='constructor, up to 2 revolutions', multi=2, weight=9, **W), Ctor(name='constructor, up to 3 revolutions', multi=3, weight=12, **W)]
    return L
runtime = lam_runtime(WHAT, 2500)
