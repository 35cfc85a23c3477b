#!/usr/bin/env python3
"""Regenerates /verif/DESIGN.md: the text below and tables taken from properties.jsonl, notes.py, bugs*.py, known_findings.txt."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + '/tools')
import notes
TEXT = r'''# Deciding kep3's semantic properties by contracts on the real code

(generated by `tools/mkdesign.py`; tables come from `tools/mkprops.py`, `tools/notes.py`, `tools/bugs*.py`, `known_findings.txt`)

## 1. Method

No installed deductive verifier reads this C++20/xtensor/Boost code: Frama-C has no WP plug-in, CBMC's C++ front end is
partial and has no transcendental arithmetic, Verus and Kani are for Rust.  /verif therefore contains a small deductive
verifier, `kvc`, that works on the LLVM IR clang emits for the **unmodified** sources of /repo, anew on every run.

* **Contracts** (requires, ensures, invariants, contracts of callees and of loops) live in `contracts/Cxx.py`, one module
  per property.  Postconditions are stated against mathematical specification functions (two-body flow, Kepler's
  equation, derivative of a specification, calendar arithmetic, ...), never against a copy of the code.
* **VC generation.** `kvc` executes the IR of the function under contract symbolically for fully symbolic real arguments
  on *all* paths.  Every path and postcondition gives one obligation; additional obligations are generated without being asked for:
  no memory fault or unreachable code, no write to a global or static variable (frame), no undefined conversion,
  outcome (return or the type of the exception), preconditions of the callee contracts (for the root finder: bracket,
  derivative).  Callees that carry a contract are replaced by it (`overrides` of a case); all others are executed.
* **Discharge** (`by_backend` in the evidence): `exec` (decided by execution, e.g. outcome or frame), `pit` (exact
  polynomial/rational/trigonometric identities, below), `z3` (inequalities, path feasibility, bit-vectors).
* **Refutation.** A failed obligation starts a search for a point of that path at which code and contract differ; the
  compiled code of /repo (a shared library built from the same sources) is run there.  A reproduced difference is
  reported with its inputs; otherwise the VIOLATION line ends in `no-failing-input-found` and the replay file carries
  the obligation, the path and the two sides.  An obligation neither proved nor refuted is printed as UNDECIDED and listed in the
  evidence (there is none on the current tree); it is not an alarm.
* **Runtime contract checks.** The same postconditions are evaluated on the compiled code at random points.
  This is a bounded complement (floating point, sizes beyond the symbolic part); it is counted separately and never as a proof.

### 1.1 What keeps the verified text the code that runs
`kvc/build.py` compiles /repo's files with `clang++ -O1 -fno-inline -ffp-contract=off -fno-access-control -S -emit-llvm`; header inline
functions stay calls and so can carry contracts.  Nothing is extracted or rewritten.  `drivers/*.cpp` only contain
`extern "C"` entry points that call the real functions (needed for by-value C++ types).  What differs from the shipped binary: the
optimisation level, `NDEBUG`, and for parts that need libraries that are missing here the stand-ins of 1.4.

### 1.2 Back ends
* `kvc/llir.py` parses IR; `kvc/engine.py` executes it: byte-addressed memory with concrete addresses, symbolic doubles
  (`kvc/term.py`, hash-consed terms), exceptions, virtual calls, path forking with feasibility checks.  Doubles are real numbers; literals of the code become the
  shortest decimal or the recognised multiple of pi or square root they stand for.
* `kvc/pit.py` decides equalities: the difference is evaluated at random points of prime fields of order about 2^61; square
  roots, trigonometric and hyperbolic functions, their inverses and the angles used as arguments are algebraic variables tied by their
  addition theorems, declared ghost definitions (`basis`, `defs`) make the fields closed under the needed roots; derivatives are dual numbers.
  Error probability per obligation is below 2^-40 (Schwartz-Zippel); no numeric tolerance is involved.
* `kvc/smt.py`: z3 on the real-arithmetic abstraction, for signs and branch conditions.
* `kvc/bv.py` (C23): a second, bit-precise engine on z3 bit-vectors for the integer code of the calendar.
* **Loops.** Loops with a fixed trip count are executed.  Root-finding loops are replaced by the contract of the solver (Boost's
  `newton_raphson_iterate`, kep3's `householder`): "the returned x is a root in the bracket unless the iterations are exhausted";
  its preconditions are obligations at each call.  Loops over segments, times or solutions are executed for each size up to a
  stated bound (level `other`, see the table), or treated inductively (C20, C28, C31: invariant over one arbitrary setter call).

### 1.3 Generic position
An equality test between reals in the code that is neither provably true nor provably false (such as `r == 0`, or a
determinant being exactly zero) is followed on its generic side only, unless a case asks for both.  Each such surface is listed
under `assumptions` in the evidence (`generic: ... != 0`); cases for the relevant surfaces (e.g. zero throttles, alpha = 0,
zero time of flight, the ends of intervals) exist separately.

### 1.4 Parts of kep3 that are not built here
pagmo and heyoka (and its tanuki) are not installed, so /repo's CMake here builds only `linalg`, `lambert_problem`, `leg/sims_flanagan`, `leg/sf_checks` and
`core_astro/*` except flyby.  The unbuilt sources (`epoch`, `planet`, `udpla/*`, `flyby`, `sims_flanagan_hf`, `stark_problem`, `ta/*`) are verified from the
same working tree with stand-ins for the missing headers (`stubs_lib/heyoka`):
tanuki's type erasure forwards each call to the wrapped object; a heyoka expression is its value at an arbitrary point; the Taylor integrator
keeps state, time, parameters and tolerance, and integrating applies an arbitrary (uninterpreted) flow of these.  The stand-ins are assumptions.
Installed fmt is 9: `epoch.hpp` and others compile with it, formatting itself is not under contract.

## 2. Properties
Level `proof`: unbounded in all arguments, over the reals.  Level `other`: same, but for each size up to a bound (bounded, not counted as proof).
`quick` is the default run; `thorough` uses larger search budgets, more runtime points and sizes.

%(props)s

### Not applicable
%(na)s

## 3. Defects found in esa/kep3
All were small and repaired by separate `fix:` commits in /repo; none is left as a known finding.

%(fixed)s

Observations that are not violations of a listed property: the constructor of the impulsive leg converts `nseg*cut` to unsigned before the
checks run (undefined for NaN or negative cuts, then rejected); C18/C30 exclude throttles that are exactly zero, where the norm has no derivative
(the code returns NaN there); the test of the high-fidelity leg cannot be run here (heyoka missing), so its fixes were validated against a stand-in integrator.

## 4. Planted bugs
`tools/plant.py` builds each from `tools/bugs*.py`, confirms it (compiles, stable tests pass, demo fails with and passes without it), runs the
check of the property and writes `seeded/<id>`.  All are caught by the check of their own property.  Misses while developing led to: frame
obligations on globals and statics and call histories in the replay (c08-sigma-cache, c11-cache-mu), forking on both sides of small-threshold
branches with path repair in the witness search (c02-*, c04-*, c05-*), sizes and histories of C16, C20, C28, and a 60-digit comparison for
refuted equalities whose sides differ by less than the witness tolerance (c25-rate).

%(bugs)s

## 5. Behaviour-preserving edits
`tools/refactors.py DIR ROUND` applies refactorings to a copy of /repo (helpers extracted, statements reordered, loops rewritten, algebraically equal formulas,
members reordered, different containers of the C++ library); every check has to stay quiet with `KV_REPO=DIR`.  Two rounds (A, B) of about forty edits each were
run.  The alarms they raised at first were wrong and led to: angles wrapped by `floor`/`remainder`/`fmod` being one operator, sign-bit tests, `hypot`/`pow`/`fdim` as
definitions, path contradictions on a boundary of measure zero treated as a case of their own (C21), outcome mismatches that vanish 1e-8 away from the point not being
reported (rounding at the edge of the domain of a case), and refuted equalities needing a difference that survives 60 digits.
Drivers that read private members are compiled again with `-DKV_NOPRIV` when that fails; obligations on renamed internals are then undecided (never a violation) and the
public behaviour is still checked.

## 6. Limits
* Machine arithmetic is treated as real arithmetic: rounding, overflow and cancellation are only sampled by the runtime checks.
* Convergence of iterations (`householder`, Boost's Newton) is an assumed contract, sampled at run time.
* Trusted: clang's lowering, `kvc` itself, z3, BLAS/LAPACK, libstdc++ hashing and `tolower`, Boost archives, heyoka, tanuki.
* Static initialisation of `jpl_lp.cpp` is executed symbolically with overrides for the hash and rehash policy.
'''
props = []
for l in open(here + '/properties.jsonl'):
    d = json.loads(l)
    n = notes.NOTES.get(d['id'])
    if n is None: continue
    lev, n = n if isinstance(n, tuple) else ('proof', n)
    n = n.replace(notes.B, '')
    sys.path.insert(0, here)
    props.append('**%s (%s) %s.** %s  \nCode: %s.' % (d['id'], lev, d['title'], n, ', '.join(a['where'] for a in d['anchors']['mechanism'])))
props.insert(0, 'Common to all `proof` entries: ' + notes.B.strip())
try: extra = notes.DETAIL
except AttributeError: extra = {}
props = [p + ('  \n' + extra[p[2:5]] if p[2:5] in extra else '') for p in props]
bugs = ['| id | property | breaks | needs |', '|---|---|---|---|']
for m in ('bugs1', 'bugs2', 'bugs3', 'bugs4', 'bugs5'):
    try: M = __import__(m)
    except ImportError: continue
    B = getattr(M, 'BUGS', None) or M.B
    for k, v in B.items():
        if os.path.isdir(here + '/seeded/' + k): bugs.append('| %s | %s | %s | %s |' % (k, v['property'], v['breaks'], v['needs']))
fixed = ['* ' + l.strip()[7:] for l in open(here + '/known_findings.txt') if l.startswith('fixed:')]
open(here + '/DESIGN.md', 'w').write(TEXT % dict(props='\n\n'.join(props), na='\n'.join('* %s: %s' % x for x in notes.NA.items()), fixed='\n'.join(fixed), bugs='\n'.join(bugs)))
