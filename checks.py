"""Which harness runs (and with which bounds) decide which property."""
import json, os
QUICK_DEADLINE = 420
THOROUGH_DEADLINE = 6000
TRACES_PER_JOB = 2
V = os.path.dirname(os.path.abspath(__file__))


class J:
    def __init__(self, h, tier='quick', opt=2, flags=(), defs=(), uf=(), time=150, ttime=1200, weight=1, **params):
        self.h, self.tier, self.opt, self.flags, self.defs, self.uf = h, tier, opt, tuple(flags), tuple(defs), tuple(uf)
        self.time, self.ttime, self.weight, self.params = time, ttime, weight, params
    def build_key(self): return (self.h, self.opt, self.defs, self.uf)
    def ufargs(self): return [x for u in self.uf for x in ('--uf', u)]
    def label(self): return self.h + ''.join(' %s=%d' % kv for kv in sorted(self.params.items())) + ''.join(' ' + d for d in self.defs)


def known_findings():
    p = V + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def finding_matches(k, model):
    return all(model.get(a) == b for a, b in k.get('model', {}).items())


ASSUMPTIONS = [
    'double arithmetic is modelled as exact real arithmetic (rounding is outside every value claim); exp, sin, cos, sqrt and log are exact functions',
    'the LLVM 18 front end and optimiser translate the sources faithfully; sampled paths are re-run against natively compiled code',
    'stream output (cerr, cout, ofstream) has no effect on the checked state',
    'frequency coefficients stay in {-1,0,1} at every summation step (a documented precondition of the library)',
]

PROPS = {}
FB = ('_ZN7AmiBase10fermi_boseEiddSt7complexIdE',)


def prop(pid, jobs, bounds, outside, assumptions=(), reach=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions), reach=list(reach))


TOPOS = 'fixed diagrams (see topo() in harness/common.hpp: 45 of them, up to 5 summations, 11 lines, 10 energies, 6 external frequencies, pole multiplicities up to 8, both line orientations) with every energy, external frequency, beta and the prefactor symbolic reals'
BIG = (6, 10, 14)
IEEE = ('--ieee', '--nomerge')
# free-form integrands (see anyCase() in harness/common.hpp)
FREET = 'any product of up to 3 lines over 2 frequencies, of 2 lines for two summations, and products of up to 5 lines of which all but 2 share a pole (coefficients in {-1,0,1})'
def FREE(h, three=1, **k):
    return [J(h, n=2, ne=2, weight=2, **k), J(h, n=3, same=1, ne=2, weight=2, **k), J(h, n=4, same=2, weight=2, **k), J(h, n=5, same=3, weight=3, **k), J(h, n=2, nint=2, nf=3, **k), J(h, n=3, nint=2, nf=3, same=1, weight=2, **k)] + \
        [J(h, 'quick' if three else 'thorough', n=3, weight=6, **k), J(h, 'thorough', n=3, nint=2, nf=3, weight=6, **k), J(h, 'thorough', n=4, same=1, weight=6, **k)]
prop('C01', [J('c01_topo', topo=t, bos=b, weight=5 if t in BIG else 1) for t in range(45) for b in (0, 1)] + FREE('c01_topo'), TOPOS + '; fermionic and bosonic external line; ' + FREET,
     'diagrams outside the list; complex frequencies (C19); arbitrary single steps are covered by C07')
prop('C02', [J('c02_terms', topo=t, bos=b, spr=1, viaint=(t + b) % 2, weight=5 if t in BIG else 1) for t in range(45) for b in (0, 1) if t not in BIG or b == 0] + [J('c02_one', nt=1, np=2, der=2), J('c02_one', nt=2, np=1, der=1)] + FREE('c02_terms', spr=1) +
     [J('c02_one', 'thorough', nt=2, np=2, der=1), J('c02_one', 'thorough', nt=1, np=2, der=3, ng=3)],
     TOPOS + '; single terms and lists of 2 terms with 2 Green\'s functions (coefficients in [-1,1], [-2,2]) and up to 2 factors with up to 2 derivatives, any sign; ' + FREET, 'larger free-form terms')
prop('C03', [J('c03_fact', topo=t, bos=b, weight=5 if t in BIG else 1) for t in range(45) for b in (0, 1) if b == 0 or t in (0, 4, 11, 12)] + FREE('c03_fact', three=0), TOPOS + '; ' + FREET.replace('3 lines', '2 lines'), 'diagrams and products outside the lists')
prop('C04', [J('c04_fact', topo=t, bos=b, weight=5 if t in BIG else 1) for t in range(45) for b in (0, 1) if b == 0 or t in (0, 4, 11, 12)] + FREE('c04_fact', three=0), TOPOS + '; ' + FREET.replace('3 lines', '2 lines'), 'diagrams and products outside the lists')
prop('C05', [J('c05_linear', 'thorough' if t in (5, 13) and w == 5 else 'quick', topo=t, what=w, zero=z, weight=2) for t in (0, 1, 2, 4, 5, 11, 12, 13, 18, 19, 20, 21) for w in range(6) for z in (0, 1)] + [J('c05_linear', topo=16, what=w) for w in (0, 1)] + [J('c05_linear', topo=t, what=w, zero=(t + w) % 2) for t in (27, 30, 33, 36, 38, 43) for w in range(5)] + [J('c05_linear', n=3, same=1, what=w, weight=2) for w in range(6)],
     TOPOS + '; any product of 2 lines, one of them doubled; all evaluators, symbolic factor and factor zero', 'diagrams outside the list')
prop('C06', [J('c06_poles', n=3, nf=2, ne=2, idx=i, drop=d) for i in (0, 1) for d in (0, 1)] + [J('c06_poles', n=3, nf=3, ne=1, idx=i, drop=1) for i in (0, 1, 2)] + [J('c06_poles', n=2, idx=i) for i in (-1, 2, 3)] +
     [J('c06_poles', n=4, nf=2, ne=2, idx=0, drop=d, weight=5) for d in (0, 1)] + [J('c06_poles', n=2, nf=3, ne=3, em=50, idx=1), J('c06_poles', n=1, nf=4, ne=4, idx=3)] + [J('c06_poles', topo=t, idx=0) for t in (27, 28, 31, 32, 44)] + [J('c06_poles', topo=37, idx=2, drop=0)] +
     [J('c06_poles', 'thorough', n=5, nf=2, ne=1, idx=0), J('c06_poles', 'thorough', n=5, nf=2, ne=2, idx=1), J('c06_poles', 'thorough', n=4, nf=3, ne=3, em=2, idx=1)],
     'any product of up to 4 lines (thorough 5) with frequency coefficients in {-1,0,1} and energy coefficients in [-1,1] (2 lines: [-50,50]), and the lines of six larger diagrams (up to 7 lines, 5 summations)', 'longer products', reach=('all distinct', 'one pole', 'outside'))
C07J = [J('c07_step', uf=FB, n=2, np=2, form=f, weight=3) for f in (0, 1)] + [J('c07_step', uf=FB, n=3, form=f, idx=f, weight=4) for f in (0, 1)] + [J('c07_step', uf=FB, n=3, form=f, same=s, weight=4) for f in (0, 1) for s in (1, 2)] + \
    [J('c07_step', uf=FB, n=n, form=f, same=s, ne=1, nf=nf, weight=4) for n, s, nf in ((4, 1, 1), (4, 2, 2), (5, 2, 1), (5, 3, 2)) for f in (0, 1)] + [J('c07_step', uf=FB, n=4, form=f, same=3, ne=1, weight=6) for f in (0, 1)] + [J('c07_step', uf=FB, n=5, form=f, same=4, ne=1, nf=1, weight=6) for f in (0, 1)]
prop('C07', C07J + [J('c07_step', uf=FB, topo=t, form=f) for t in (20, 27, 28, 31, 32, 44) for f in (0, 1)] + [J('c07_step', uf=FB, topo=37, form=0, idx=1, np=2)] + [J('c07_step', 'thorough', uf=FB, n=4, form=f) for f in (0, 1)] + [J('c07_step', 'thorough', uf=FB, n=4, nf=3, same=2, form=f) for f in (0, 1)],
     'any product of up to 3 lines (thorough 4), and products of up to 5 lines whose last lines share a pole, the lines of seven larger diagrams, over 2 frequencies and up to 2 energies, frequency coefficients in {-1,0,1}, energy coefficients in [-1,1]; evaluation point symbolic', 'longer products; energy coefficients beyond the bound',
     ('the Fermi/Bose function is uninterpreted here (its values are decided by C08)',))
prop('C08', [J('c08_stat', what=0, m=m) for m in range(13)] + [J('c08_stat', what=1, m=m) for m in range(4)] + [J('c08_stat', what=w, **k) for w, k in ((2, dict(max=13)), (3, {}), (4, {}))] + [J('c08_stat', 'thorough', what=1, m=m) for m in (4, 5)],
     'orders 0 to 12 for real and 0 to 3 (thorough 5) for complex energies, both statistics, every beta and energy', 'higher orders (the factorial overflows int beyond order 12)')
prop('C09', [J('c09_pole', uf=FB, L=l, am=a, ne=2, what=0, cplx=c) for l, a in ((1, 1), (2, 3), (3, 1), (5, 1), (40, 1)) for c in (0, 1)] + [J('c09_pole', uf=FB, L=3, am=1, ne=2, what=0, der=d) for d in (1, 2)] + [J('c09_pole', uf=FB, L=l, am=1, ne=2, what=1, np=p) for l, p in ((3, 1), (3, 3), (4, 2))] + [J('c09_pole', uf=FB, L=3, am=1, ne=1, what=1, np=2, sameder=1, cplx=c) for c in (0, 1)] + [J('c09_pole', uf=FB, L=2, am=1, ne=1, what=1, np=3, sameder=1)],
     'poles over up to 40 frequencies, every graph type, up to 3 poles per group, complex energies', 'more frequencies', ('the Fermi/Bose function is uninterpreted here (C08 decides it)',))
prop('C10', [J('c10_reg', uf=FB, L=l, ne=2, what=0, der=d, cplx=c) for l in (2, 3, 10) for d in (0, 1, 2) for c in (0, 1)] + [J('c10_reg', uf=FB, L=3, ne=2, what=1, cplx=c) for c in (0, 1)] + [J('c10_full', topo=t, dd=d, weight=4) for t in (0, 2) for d in (0, 1)],
     'any pole over up to 10 frequencies, derivative order up to 2, any regulator, real and complex energies; full evaluation of a bubble and of a double pole through all four evaluators', 'more derivatives', reach=('zero energy', 'dropped divergence', 'dropped derivative'))
prop('C13', [J('c13_pred', what=w, em=e, n1=a, n2=a, m1=b, m2=b) for w in (0, 1, 2) for e, a, b in ((2000000000, 2, 2), (4, 3, 2), (4, 1, 0), (4, 0, 1))] +
     [J('c13_pred', what=w, em=3, n1=a, n2=b, m1=c, m2=d) for w in (0, 1, 2) for a, b, c, d in ((3, 2, 2, 2), (2, 3, 2, 2), (2, 2, 1, 2), (2, 2, 2, 1), (3, 2, 1, 2))] +
     [J('c13_pred', what=3, G=g, n1=a, n2=b) for g, a, b in ((2, 2, 2), (2, 3, 3), (1, 4, 4), (2, 3, 2), (2, 2, 3), (3, 1, 1), (2, 0, 0), (6, 3, 3), (9, 3, 3), (6, 4, 4), (9, 4, 4), (30, 2, 2), (30, 3, 3))] +
     [J('c13_pred', 'thorough', what=w, em=2, n1=5, n2=5, m1=5, m2=5) for w in (0, 1, 2)] + [J('c13_pred', 'thorough', what=3, G=3, n1=5, n2=5)],
     'coefficient lists of up to 3 frequencies and 2 energies with entries in [-4,4] (2 frequencies and 2 energies: [-2e9,2e9]) (thorough: 5 and 5), all combinations of unequal lengths up to 3; factorized products of up to 4 factors (thorough 5) over up to 30 distinct Green\'s functions, any order, repetition and sign',
     'longer lists; lists whose frequency count is zero', reach=('equivalent', 'different', 'same product'))
C14P = [(11, {}), (22, {}), (121, {}), (1111, {}), (192, {}), (929, {}), (991, {}), (22, dict(long=1, ne=1)), (12, dict(sp=1)), (33, dict(am=1, em=0))]
prop('C14', [J('c14_fact', pat=p, terms=t, dirty=t, weight=3, **k) for p, k in C14P for t in (0, 1)] + [J('c14_fact', topo=t, terms=t % 2, dirty=t % 2) for t in (27, 28, 31, 35, 37, 38, 40, 41, 44)] + [J('c14_fact', topo=t, nsp=2, terms=1, rev=1) for t in (28, 37, 41)] + [J('c14_fact', 'thorough', pat=p, terms=t, **k) for p, k in ((222, {}), (2121, {}), (22, dict(nf=2, ne=2, em=2, sp=1))) for t in (0, 1)],
     'lists of up to 4 products with up to 3 lines each (patterns of product lengths in checks.py, empty products included), symbolic coefficients and species; the products left over by nine fixed diagrams, in any line order and with two species', 'longer lists')

prop('C12', [J('c12_otf', topo=t, cls=c, weight=w) for t, c, w in ((100, 12, 1), (100, 10, 1), (101, 12, 1), (101, 51, 1), (102, 123, 1), (102, 12, 1), (103, 1102, 2), (103, 1012, 3), (107, 122, 4), (104, 1, 1), (104, 11, 1), (105, 120, 1), (106, 11, 1), (108, 1, 1))] +
     [J('c12_otf', topo=t, cls=c, ref=1) for t, c in ((107, 111), (107, 1010), (107, 0), (105, 0), (105, 111), (106, 0), (101, 0))] + [J('c12_otf', topo=t, lin=l, weight=2) for t, l in ((102, 1), (102, 2), (102, 8), (103, 3), (103, 4), (103, 5), (109, 7))] + [J('c12_otf', 'thorough', topo=107, cls=5122, weight=6)] +
     [J('c12_otf', uf=FB, topo=t, cls=c, cx=x) for t, c, x in ((100, 12, 2), (100, 12, 3), (100, 12, 4), (100, 10, 1), (101, 51, 1), (102, 123, 2), (102, 12, 2), (106, 11, 2), (104, 11, 1))],
     'fixed diagrams (100 to 108 in harness/c12_otf.cpp) with up to 3 summations and 5 energies; the listed patterns of equal or opposite energy values, all values symbolic; real and complex energies (complex: values that coincide exactly, in their real parts only, or in their imaginary parts only)', 'other diagrams and coincidence patterns',
     ('the Fermi/Bose function is uninterpreted in the jobs with complex energies (C08 decides its values)',))
prop('C16', [J('c16_flag', 'thorough' if w in (0, 7) and g == 2 and c else 'quick', uf=FB, what=w, n=2, ng=g, cplx=c, time=40) for w in range(8) for g in (1, 2) for c in (0, 1)], 'up to 2 contributions of up to 2 Green\'s functions, every evaluator, symbolic cutoff and stale flag', 'more contributions',
     ('the Fermi/Bose function is uninterpreted here',), reach=('flag set', 'flag clear'))
prop('C17', [J('c17_shape', topo=t, terms=q) for t in [1, 4, 6, 10, 12, 14, 18, 19, 20, 21] + list(range(27, 45)) for q in (0, 1)] + [J('c17_shape', terms=q, **k) for q in (0, 1) for k in (dict(n=2), dict(n=3), dict(n=3, same=2), dict(n=2, nint=2), dict(n=3, nint=2, ne=1), dict(n=3, nint=2, nf=3, ne=1))],
     'any product of up to 3 lines over 2 frequencies and 2 energies (coefficients in [-1,1]) for one summation, up to 3 lines over 3 frequencies for two summations, and 28 fixed diagrams with up to 5 summations', 'larger free-form products')
C20F = dict(opt=0, flags=('--strict', '--nomerge'))
prop('C20', [J('c20_safe', topo=t, what=w, weight=3 if t == 4 else 1, **C20F) for t in (0, 1, 4, 7, 12, 16, 18, 19, 20, 21) for w in range(7) if not (t in (4, 7) and w == 2) and not (t == 16 and w in (5, 6))] + [J('c20_safe', topo=4, what=2, bos=1, weight=4, **C20F)] +
     [J('c20_safe', n=2, nf=2, ne=1, what=w, drop=(w + 1) % 2, weight=4, **C20F) for w in (0, 1, 3, 4, 5, 6)] + [J('c20_safe', n=2, nint=2, nf=2, ne=1, what=w, weight=6, **C20F) for w in (0, 4)] + [J('c20_safe', n=1, nf=2, what=2, **C20F)] +
     [J('c20_safe', eval=0, what=w, weight=3, **dict(C20F, **k)) for k in (dict(n=2, nint=2, nf=3, ne=2), dict(n=3, nint=1, nf=2, ne=1), dict(n=2, nint=3, nf=3, ne=1)) for w in (5, 6)] +
     [J('c06_poles', n=2, idx=i, **C20F) for i in (-1, 2, 3)] + [J('c20_safe', topo=t, eval=0, what=w, **C20F) for t in range(27, 45) for w in (5, 6)] + [J('c20_safe', topo=t, what=w, weight=2, **C20F) for t in (28, 30, 33, 34, 36) for w in (0, 1, 4, 5, 6)] + [J('c20_safe', topo=31, what=4, weight=2, **C20F)] + [J('c20_safe', 'thorough', topo=t, what=w, weight=4, **C20F) for t in (27, 31, 35, 37, 40, 42) for w in (0, 1, 5, 6)] +
     [J('c20_safe', 'thorough', eval=0, what=w, weight=6, **dict(C20F, **k)) for k in (dict(n=3, nint=2, nf=3), dict(n=3, ne=2), dict(n=4, nf=2, ne=1)) for w in (5, 6)] + [J('c20_safe', 'thorough', n=2, ne=1, what=2, weight=5, **C20F)] + [J('c20_safe', 'thorough', topo=6, what=w, weight=6, **C20F) for w in range(7)],
     'the whole pipeline (construction, factorization, derivative, every evaluator) on any product of 2 lines over 2 frequencies for 1 and 2 summations, construction, factorization and derivative of products of up to 3 lines, and fixed diagrams; every heap, stack and global access and every use of an indeterminate value is checked at -O0-like IR',
     'longer products; accesses inside a vector\'s capacity but beyond its size are seen only when the storage was never written', ('memory is modelled per allocation; freed storage is never reused, so use after free is always visible',), reach=('finished',))

prop('C11', [J('c11_hist', topo=t, before=b, what=w, **k) for t, b, w, k in ((0, -1, 0, {}), (0, -1, 1, {}), (1, 4, 0, {}), (1, 4, 1, {}), (0, 1, 0, dict(otf=1)), (0, 1, 1, dict(otf=1)), (4, 1, 1, dict(viaint=1)), (4, 1, 0, {}), (4, 0, 1, {}), (5, 12, 0, {}), (5, 12, 1, {}), (12, 5, 0, {}), (12, 5, 1, {}))] + [J('c11_hist', topo=t, before=5, what=w) for t in (27, 28, 31, 32, 33, 34, 36, 44) for w in (0, 1)] +
     [J('c11_hist', n=2, before=0, eval=0, what=w) for w in (0, 1)] + [J('c11_hist', n=2, before=-1, eval=1, what=w) for w in (0, 1)] + [J('c11_hist', n=3, before=-1, eval=0, what=w, weight=2) for w in (0, 1)],
     'second construction and evaluation after another construction (same or different diagram, with or without the optimized on-the-fly evaluator in between) on the same object and into the same containers, compared with a fresh object; fixed diagrams and any product of up to 3 lines over 2 frequencies and 2 energies; all values symbolic', 'longer histories')
prop('C15', [J('c15_deriv', mode=0, **k) for k in (dict(pat=1010), dict(pat=100), dict(pat=101092911, ng=3), dict(pat=100, ng=1, am=2, ev=2))] + [J('c15_deriv', mode=1, pat=1019110)] +
     [J('c15_deriv', mode=m, topo=t) for m in (2, 3) for t in (0, 1, 4, 5, 9, 13)] + [J('c15_deriv', mode=m, topo=t, twice=1) for m in (2, 3) for t in (0, 13)] + [J('c15_deriv', mode=m, topo=t, bos=1) for m in (2, 3) for t in (0, 9)] + [J('c15_deriv', mode=m, topo=t, bos=t % 2) for m in (2, 3) for t in (27, 28, 30, 31, 32, 33, 34, 36, 38, 42, 44)] +
     [J('c15_deriv', mode=m, n=2, ne=2) for m in (2, 3)] + [J('c15_deriv', mode=2, n=3, same=1), J('c15_deriv', mode=3, n=2, nint=2, nf=3), J('c15_deriv', mode=3, n=3, nint=2, nf=3, same=1), J('c15_deriv', mode=2, n=4, same=2, weight=4), J('c15_deriv', mode=2, n=2, ne=2, twice=1), J('c15_deriv', 'thorough', mode=2, n=3, weight=6)],
     'factorized tables of up to 3 distinct factors and 2 products (patterns in checks.py), symbolic coefficients, and derivatives (first and second) of 17 fixed diagrams and of any product of 2 free lines (with up to 2 more that share their poles) through arrays and terms', 'larger tables', reach=('differentiated',))
prop('C18', [J('c18_inv', what=w, topo=t, kind=k, weight=3 if t == 6 else 1, **x) for w, t, k, x in
      [(w, 0, k, {}) for w in range(4) for k in (0, 1, 3)] + [(w, 4, 3, {}) for w in (0, 1, 2, 3)] + [(0, 5, 2, {}), (1, 5, 5, {}), (2, 5, 6, {}), (3, 5, 0, {}), (2, 11, 1, {}), (1, 8, 4, {}), (0, 8, 7, {}), (0, 6, 3, {}), (0, 17, 4, dict(a=1, b=2)), (1, 17, 4, dict(a=1, b=2)), (0, 5, 7, {}), (1, 14, 7, {}), (1, 13, 1, {}), (0, 6, 1, {}), (3, 12, 3, {}), (0, 12, 5, {})]] +
     [J('c18_inv', topo=t, what=k % 4, kind=k) for t in (33, 36, 37, 38, 40, 44) for k in (0, 1, 3, 5)] + [J('c18_inv', topo=t, what=(k + 1) % 4, kind=k) for t in (27, 28, 30, 31) for k in (0, 3)] + [J('c18_inv', n=2, what=w, kind=k) for w in (0, 1) for k in (0, 3, 5)] + [J('c18_inv', n=3, what=w, kind=k, weight=2) for w in (0, 1) for k in (3, 5)] + [J('c18_inv', n=3, what=0, kind=2, ne=1, weight=2)],
     'reordering the lines, exchanging or reordering the summed frequencies, renaming the energies and flipping line orientations (with the sign that goes with it), on fixed diagrams through all four forms and on any product of up to 3 lines over 2 frequencies', 'other transformations and larger products')

prop('C19', [J('c19_cplx', uf=FB, what=0, n=n, nf=nf, am=am) for n, nf, am in ((1, 3, 2), (2, 3, 1))] + [J('c19_cplx', uf=FB, what=0, n=3, nf=1, ne=1, am=1)] + [J('c19_cplx', what=1, topo=t, form=f, bos=(t + f) % 2, uf=FB) for t in (0, 1, 2, 4, 5, 7, 8, 9, 11, 12, 13, 15, 18, 19, 20) for f in range(4)] +
     [J('c19_cplx', what=1, topo=t, form=f, **dict(dict(opaque=0), **k)) for t, f, k in ((0, 0, {}), (0, 3, {}), (2, 1, {}), (2, 2, {}), (1, 0, {}), (1, 3, {}), (12, 2, {}))] +
     [J('c19_cplx', what=1, topo=t, form=4, uf=FB, weight=2) for t in (0, 2, 18)] + [J('c19_cplx', what=1, topo=1, form=4, cf=0, uf=FB, weight=3)] +
     [J('c19_cplx', what=2, topo=t, form=f, ce=0, uf=FB) for t in (0, 1, 2, 4, 5, 9, 11, 13) for f in range(4)] + [J('c19_cplx', what=1, n=2, form=f, uf=FB) for f in (0, 1, 2, 3)] + [J('c19_cplx', what=2, n=2, form=f, ce=0, uf=FB) for f in (0, 1)] + [J('c19_cplx', what=1, topo=t, form=t % 4, uf=FB) for t in (28, 30, 33, 34, 36, 42)] + [J('c19_cplx', what=2, topo=t, form=(t + 1) % 4, ce=0, uf=FB) for t in (28, 30, 33, 34, 36, 42)] + [J('c19_cplx', 'thorough', what=1, topo=38, form=f, uf=FB, weight=5) for f in (0, 2)],
     'building blocks (Green\'s functions, pole energies, Fermi/Bose factors) on any coefficients for products of up to 3 lines; fixed diagrams 0,1,2,4,5,7,8,9,11,12,13,15,18,19,20 (28,30,33,34,36,42: one form each) with complex energies and complex external frequencies through all four evaluation forms; conjugation symmetry for real energies; any product of 2 lines', 'other diagrams; products of 3 or more free lines',
    ('the Fermi/Bose function is uninterpreted except in the jobs with opaque=0 (C08 decides its values for complex energies)',))
MP = dict(defs=('+MP',))
prop('C21', [J('c21_mp', what=w, **MP, **k) for w in range(5) for k in (dict(topo=1, cx=1), dict(topo=4, cx=1), dict(topo=0, flag=1), dict(topo=2, flag=1, bos=1), dict(n=2, flag=1), dict(n=2), dict(topo=2, reg=1, bos=1), dict(topo=16), dict(topo=5), dict(topo=0, ce=1), dict(topo=18, ce=1, cx=1), dict(topo=19), dict(topo=20, cx=1))] + [J('c21_mp', what=w, n=3, ne=1, **MP) for w in (0, 1, 4)] + [J('c21_mp', what=w, n=2, ne=2, nint=2, nf=3, weight=3, **MP) for w in (1,)] +
     [J('c21_mp', 'thorough', what=w, n=3, ne=1, **MP) for w in (2, 3)] + [J('c21_mp', 'thorough', what=w, topo=t, flag=1, weight=3, **MP) for w in range(4) for t in (1, 4, 11, 13)] + [J('c21_mp', 'thorough', what=w, topo=t, cx=1, weight=3, **MP) for w in range(4) for t in (5, 7, 8, 9, 11, 12, 13)],
     'both builds are compiled from the current sources and executed side by side on the same symbolic inputs: fixed diagrams (real and complex external frequencies, regulator) and any product of up to 3 lines over 2 frequencies, all four evaluation forms and the bare Green\'s-function product; symbolic cutoff and stale flag for the overflow rule', 'larger free-form products; rounding, which is where the two builds are meant to differ', reach=('flag set', 'flag clear'))
prop('C24', [J('c24_array', what=w, G=4, M=3, uf=FB, weight=2) for w in (0, 1, 3)] + [J('c24_array', what=2, G=g, M=m, cplx=c, uf=FB) for g, m, c in ((3, 2, 1), (4, 3, 0))] + [J('c24_array', what=w, G=1, M=30, uf=FB) for w in (0, 1)] + [J('c24_array', what=0, G=30, lo=30, M=0)] +
     [J('c24_array', what=4, dim=d, M=m, otf=o, uf=FB) for d, m in ((1, 4), (2, 3), (3, 2)) for o in (0, 1)] + [J('c24_array', what=5, G=2, M=1, uf=FB), J('c24_array', 'thorough', what=5, G=2, M=2, uf=FB), J('c24_array', 'thorough', what=4, dim=4, cap=7, uf=FB), J('c24_array', 'thorough', what=1, G=5, M=4)],
     'every shape of up to 4 groups with up to 3 entries (empty groups included), single groups of up to 30 entries, 30 empty groups, every entry symbolic and complex; whole evaluation of free tables with 1 to 3 summations; factorized contraction over every reference table of up to 2 products', 'larger shapes',
     ('the Fermi/Bose function is uninterpreted here (C08 decides it)',), reach=('empty group',))
prop('C23', [J('c23_sat', opt=1, flags=IEEE, m=m, bose=b) for m in range(6) for b in (0, 1)] + [J('c23_sat', opt=1, flags=IEEE, what=1, m=m, bose=b) for m in range(3) for b in (0, 1)] + [J('c23_sat', opt=1, flags=IEEE, what=2, topo=18, terms=t) for t in (0, 1)] +
     [J('c23_sat', 'thorough', opt=1, flags=IEEE, m=m, bose=b, weight=3) for m in (6, 7, 8, 9) for b in (0, 1)] + [J('c23_sat', 'thorough', opt=1, flags=IEEE, what=1, m=m, bose=b, weight=2) for m in (3, 4) for b in (0, 1)],
     'orders 0 to 5 (thorough 9) of both statistical functions and orders 0 to 2 (thorough 4) of a pole; every energy up to 1e308 in magnitude, every beta up to 1e308 (derivatives: 1e15), so every magnitude of the exponent; Bose: |exp(beta E) - 1| at least 1e-12', 'rounding inside the finite range (arithmetic there is exact); overflow, underflow of exp, infinities and NaN follow IEEE 754 and C Annex G; higher orders', reach=('saturated high', 'saturated low'))
PROPS['C23']['note'] = 'All paths and all values within the stated bounds. Finite results are exact reals; every point where a double would overflow, exp would overflow or underflow, or an infinity or NaN would be produced is a decided branch of the path. Counterexamples are replayed natively.'

prop('C25', [J('c25_steps', topo=t, perm=1, form=f, bos=(t + f) % 2) for t in (1, 4, 7, 8, 9, 11, 15, 19, 20, 23, 25, 26) for f in (0, 1)] + [J('c25_steps', topo=t, perm=1, form=f) for t in (33, 36, 37, 39, 41, 43) for f in (0, 1)] + [J('c25_steps', what=1, topo=t, steps=2, form=f) for t in (37, 43) for f in (0, 1)] + [J('c25_steps', topo=t, perm=q, form=(q + t) % 2) for t in (5, 14, 17) for q in range(1, 6)] + [J('c25_steps', topo=6, perm=q, form=f, weight=3) for q, f in ((1, 0), (9, 1), (16, 0), (23, 1))] +
     [J('c25_steps', topo=t, steps=k, form=f) for t, k in ((5, 1), (5, 2), (14, 0), (14, 2), (4, 1)) for f in (0, 1)] + [J('c25_steps', topo=t, steps=2, perm=1, form=f) for t in (5, 14) for f in (0, 1)] + [J('c25_steps', n=n, same=s, nint=2, nf=3, perm=1, form=f, weight=n) for n, s in ((2, 0), (3, 1), (4, 2)) for f in (0, 1)] +
     [J('c25_steps', what=1, topo=t, steps=k, form=f) for t, k in ((6, 2), (6, 0), (6, 4), (4, 1), (11, 1), (14, 2), (26, 1)) for f in (0, 1)] + [J('c25_steps', what=1, n=n, same=s, nint=2, nf=3, steps=1, form=f, weight=n) for n, s in ((2, 0), (3, 1)) for f in (0, 1)] + [J('c25_steps', what=1, n=3, nint=3, nf=3, same=1, steps=k, form=f, weight=3) for k in (1, 2) for f in (0, 1)] +
     [J('c25_steps', 'thorough', topo=6, perm=q, form=q % 2, weight=3) for q in range(24)] + [J('c25_steps', 'thorough', n=3, nint=2, nf=3, perm=1, form=f, weight=6) for f in (0, 1)] + [J('c25_steps', 'thorough', n=3, nint=3, nf=4, same=1, perm=q, form=q % 2, weight=6) for q in range(1, 6)],
     TOPOS + ', every order of two and three summations (four of the orders of four summations; thorough: all), stopping after every number of summations; any product of up to 4 lines of which 2 are free, both orders of two summations', 'other diagrams; products of 3 or more free lines')
prop('C26', [J('c26_inert', topo=t, form=f, species=s, bos=(t + f) % 2) for t in (0, 2, 4, 11, 12, 19) for f in (0, 1) for s in (0, 1) if not (s and t == 11)] + [J('c26_inert', topo=t, form=2, species=1) for t in (0, 2, 4)] + [J('c26_inert', topo=t, form=f, species=0, flag=1) for t in (0, 2, 18) for f in (0, 1, 2)] + [J('c26_inert', topo=t, form=f, reg=1, bos=(t + f) % 2, species=0) for t in (2, 4, 5, 7, 9, 10, 12, 14, 19, 25, 26) for f in (0, 1)] + [J('c26_inert', topo=t, form=f, reg=1, species=0, types=1, drops=1, weight=4) for t, f in ((1, 0), (3, 0), (24, 1), (18, 1), (2, 2))] + [J('c26_inert', topo=t, form=0, species=0) for t in (27, 31, 33, 36, 44)] + [J('c26_inert', topo=t, form=1, reg=1, species=0) for t in (27, 31, 33, 36, 44)] + [J('c26_inert', 'thorough', topo=t, form=f, reg=1, species=0, types=1, drops=1, weight=4) for t in (0, 1, 3, 4, 9, 11, 12, 24, 25, 26) for f in (0, 1, 2)] + [J('c26_inert', topo=0, form=f, verbose=0) for f in (0, 1, 2)] + [J('c26_inert', n=2, form=f, species=0) for f in (0, 1)] + [J('c26_inert', n=3, same=1, form=f, species=0, weight=2) for f in (0, 1)] + [J('c26_inert', n=2, form=f, species=1, weight=2) for f in (0, 1)],
     '23 fixed diagrams (5 of them with every graph type and every combination of the drop switches) and any product of 2 lines (with one doubled); every value of the reserved settings and of the species labels in [-1000,1000], verbose on and off, regulator, symbolic overflow threshold', 'other diagrams; what the diagnostic output says')
prop('C27', [J('c27_parts', ng=g, np=p, nf=n, idx=i, ne=1) for g, p, n, i in ((3, 2, 2, 0), (3, 2, 2, 1), (2, 3, 3, 2), (0, 3, 2, 0), (4, 0, 2, 0), (0, 0, 2, 1))] + [J('c27_parts', what=1, n=n, ne=e, nf=2, weight=2) for n, e in ((2, 2), (3, 1))] + [J('c27_parts', what=1, n=2, nint=2, nf=3, idx=1, ne=1), J('c27_parts', what=1, n=2, ne=2, nf=2, twice=1), J('c27_parts', what=1, topo=0, twice=1), J('c27_parts', what=1, topo=13)] +
     [J('c27_parts', what=2, nt=n) for n in (0, 1, 3, 6)] + [J('c27_parts', what=3, ne=e, nf=f) for e, f in ((0, 1), (2, 2), (5, 4))] + [J('c27_parts', 'thorough', ng=5, np=4, nf=2, idx=0), J('c27_parts', 'thorough', what=1, n=3, ne=2, nf=3, weight=4)],
     'any term of up to 4 lines and 3 factors with every coefficient (lines in {-1,0,1}, energies [-2,2]), any 3-line product with simple poles, lists of up to 6 terms, vectors of up to 5 entries, every argument value', 'longer terms and vectors')
