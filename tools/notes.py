B = 'Proved over the reals for all inputs of the stated domain from the clang IR of the current source; assumes rounding-free arithmetic and the stated contracts of external numeric functions; paths the decider cannot settle are reported UNDECIDED and covered by a bounded runtime check of the same contract. '
NOTES = {
 'C01': B + 'Cases split by quadrant of node, pericentre and anomaly, boundaries 0 and pi included; surjectivity of the element parametrisation is classical and assumed.',
 'C02': B + 'Complete, both directions of the rejection included.',
 'C03': B + 'All three projection branches, both element sets.',
 'C04': B + 'Both element sets, ellipses and hyperbolas, all wrap-around branches.',
 'C09': B + 'The bracketed solver is an assumed contract; propagate_keplerian is verified against the contract of ic2par (C01).',
 'C11': B + 'LAPACK factorisation/inversion is an assumed contract (exact inverse).',
 'C12': ('other', 'Deductive verification of propagate_lagrangian_v for each vector length up to 6 with symbolic contents and the contract of propagate_lagrangian (bounded in the length, hence not labelled proof); lengths up to 300 by a runtime check of the same contract.'),
 'C05': B + 'The bracketed Newton solver of Boost is an assumed contract whose preconditions (bracket contains the root, derivative right) are obligations.',
 'C06': B + 'The bracketed Newton solver of Boost is an assumed contract whose preconditions are obligations.',
 'C07': B + 'Complete: all derivative identities and the Stumpff definitions.',
 'C08': B + 'The bracketed solver is an assumed contract; that its bracket contains the root is checked at run time only (bounded).',
 'C13': ('other', 'Proved: curve, derivatives, safeguarded iteration step and (for up to 2 revolutions) the constructor against the contract that the iteration ends in a root; convergence to the root and more revolutions are a bounded runtime check of the same postcondition.'),
 'C14': ('other', 'Proved for up to 3 requested revolutions against the contract that the searches end in a root / minimum of the stated branch; more revolutions and the largest feasible count are a bounded runtime check.'),
 'C15': B + 'Constructor explored with up to 2 requested revolutions.',
 'C10': B + 'The bracketed solver is an assumed contract.',
 'C16': ('other', 'serialize() of the seven classes executed symbolically, all fields symbolic, for each combination of sizes up to 5 solutions / 4 segments and several name lengths of saved object and target (bounded in the sizes, hence not labelled proof); real Boost archives at run time; heyoka and tanuki are stand-ins.'),
 'C17': ('other', 'Deductive verification symbolic in every argument against the contract of propagate_lagrangian for each segment count 1..5 and every split (bounded in the segment count, hence not labelled proof); longer legs by a runtime check of the same contract.'),
 'C18': ('other', 'As C17, every Jacobian entry against the derivative of the mismatch specification, segment counts 1..4; longer legs by a runtime check.'),
 'C19': ('other', 'Symbolic in every argument for each segment count 1..8 (bounded, hence not labelled proof); longer legs at run time.'),
 'C20': ('other', 'Inductive invariant: constructor and every setter on an arbitrary valid object, all argument values, throttle vectors of each length 0..10 (bounded in the length, hence not labelled proof); random histories with longer vectors at run time.'),
 'C21': B + 'Turn angle strictly between 0 and pi in the proof, its ends by the runtime check; planet overloads through a stand-in for the type-erasure library that is not installed.',
 'C22': B + 'Integer microsecond arithmetic taken without overflow.',
 'C23': 'Bit-precise (z3 bit-vectors over the same IR): all argument values of the calendar constructor, all digit strings of the ISO constructor; std::stoi is an assumed contract.',
 'C24': B + 'Elliptic and hyperbolic orbits with defined Keplerian angles; every pair of input and output element type; planet reached also through a stand-in for the type-erasure library that is not installed.',
 'C25': B + 'All planets and all dates symbolic; the published tables (JPL, table 1) are transcribed independently; letter cases of the names exhaustively at run time.',
 'C26': B + 'Bound and unbound orbits, any mu; planets reached through a stand-in for the type-erasure library that is not installed.',

 'C27': B + 'heyoka is not installed: its expressions and integrators are stand-ins (an expression is its value at an arbitrary point; the integrator is an assumed contract); absence of data races as an obligation that every cache access is made with the lock held.',
 'C28': ('other', 'Inductive invariant over constructor and every setter on a symbolic object, throttle vectors of each length 0..10, histories of up to 2 setters before the mismatch is read (bounded, hence not labelled proof); the Taylor integrator is an assumed contract, heyoka a stand-in; random longer histories at run time.'),
 'C30': ('other', 'Symbolic in every argument for each segment count 1..3 and every split (bounded in the segment count, hence not labelled proof) against the contract of the variational Taylor integrator (assumed; heyoka is a stand-in).'),
 'C31': B + 'Inductive over histories. heyoka is not installed: the Taylor integrator is an assumed contract (a stand-in that applies an arbitrary flow); the integrators obtained from the cache are represented by their contract (C27).',
}
NA = {
 'C29': 'Python trajectory-optimisation classes: the compiled pykep core, pygmo and heyoka they need are not available offline, and no deductive verifier for this Python numeric code is within reach.',
}
DETAIL = {
 'C01': 'Spec: state of the orbit given by (a, e, i, W, w, f) in perifocal form and its inverse; ghost half-angle tangents make all roots rational. Oracle of the runtime check: the element definitions (vectors h, e, n) in numpy.',
 'C02': 'Spec: radius, energy, angular momentum vector, eccentricity vector; rejection exactly when a(1-e) < 0 or cos f <= -1/e.',
 'C03': 'Spec: state of the equinoctial frame; three projection branches x direct/retrograde x two directions.',
 'C05': 'Spec: defining equations; the bracket obligation shows the root of E - e sin E = M lies inside, for every M.',
 'C08': 'Spec: the Lagrange coefficients of the solution of x\'\' = -mu x/|x|^3: the postcondition is that the derivative of the returned position with respect to tof is the returned velocity, that of the velocity the acceleration (dual numbers through the implicit root), and the initial value.',
 'C10': 'All 36 entries against the dual-number derivative of the flow contract.',
 'C13': 'Spec: the Lambert time equation in x, lambda; the terminal velocities satisfy the orbit equation between the positions; Householder step against derivatives of the curve (dT/dx to third order).',
 'C17': 'Spec: ghost recursion over segments (coast, impulse, coast) with the contract of propagate_lagrangian and the rocket equation.',
 'C18': 'Spec: derivative of the C17 specification with an arbitrary (uninterpreted) state transition matrix at each coast.',
 'C20': 'Invariant I(leg); each constructor and setter: {I} call {I and postcondition} or throw and leg unchanged.',
 'C23': 'Spec: days-from-civil formula over bit-vectors.',
 'C27': 'Locks are ghost counters: every cache access is an obligation that its own lock is held.',
}
