from fractions import Fraction
from engine import ga, harness, decide, report, fp, nf, part, rnd, build
from checks import common
from checks.c02 import pairs
from checks.c12 import Bounds
RULE = ('a priori rounding error analysis of each select free output term (absolute error as a posynomial in the operand sizes, relative error where no cancellation is possible): '
        'its exact value is the specified one and its error is at most LIMIT rounding units times the size of the operands (inverse, direction, magnitude: of the result)')
RULE = RULE.replace('LIMIT', '2048')
LIMIT = 2048.
F1 = Fraction(1)
def mono(**k): return {tuple(sorted((n, Fraction(e)) for n, e in k.items())): 1.}
REL = {}
PRE = '''
namespace vh {
template <class T> auto inv1(T const& a, int) -> decltype(inverse(a)) { return inverse(a); }
template <class T> auto inv1(T const& a, long) -> decltype(inverse<T>(a)) { return inverse<T>(a); }
}
'''

def one(rep, m, w, oracle, scale, default=decide.MOD, boxes=None, facts=None, what='value', limit=3000, value=True):
    """every leaf: exact value as specified, rounding error within the bound"""
    if not decide.available(rep, w, w.out if not isinstance(w.out, tuple) else 'pair of %s, %s' % w.out): return
    with rep.attempt(w.sig):
        B = decide.build_graph(m, w)
        A = nf.Algebra(); G = ga.GA(A)
        exp = oracle(G)
        R = part.Region(B.g, A, boxes=boxes, default=default, facts=facts(G) if facts else ())
        items = []
        for pn, t, e in exp:
            for k in range(t.n):
                items.append((B.out(pn, k), pn, ga.NAMES[t.comps[k]], G.comp(e, t, k)))
        rep.functions.add(w.sig)
        L = part.leaves(part.Ctx(R), [x[0] for x in items], 300)
        groups = [(L, items)]
        if L.error: groups = [(part.leaves(part.Ctx(R), [x[0]], limit), [x]) for x in items]
        worst = 0.
        for l, its in groups:
            rep.count('leaves', len(l))
            for c, rs in l:
                for r, (_, pn, comp, e) in zip(rs, its):
                    x = c.nf(r)
                    if value and not rep.hold('%s of %s, component %s: exact value' % (what, w.sig, comp), decide.equal(c, x, e), where=decide.node_loc(r), expected=decide.show(c, e), found=decide.show(c, x), path=c.describe()): continue
                    k = bound(rep, c, r, scale, A, G, '%s of %s, component %s: rounding error' % (what, w.sig, comp))
                    if k is not None: worst = max(worst, k)
        rep.sample('%s: error at most %.4g rounding units' % (w.sig, worst))

def bound(rep, c, r, scale, A, G, text, keep=()):
    s = scale(A, G) if callable(scale) else scale
    keep = set(keep) | {k for m in s for k, _ in m if not isinstance(k, str)}
    s = {tuple(sorted(m, key=lambda x: str(x[0]))): v for m, v in s.items()}
    k, why = rnd.Rounding(c, {}, keep).ratio(r, s)
    rep.hold(text, k is not None and k <= LIMIT, where=decide.node_loc(r), expected='at most %g units of rounding relative to %s' % (LIMIT, shows(A, s)),
             found=why if k is None else '%.4g units' % k, path=c.describe())
    return k

def shows(A, s):
    if not s: return 'the result'
    return ' + '.join('*'.join('size(%s)^%s' % (k if isinstance(k, str) else A.name(k), e) for k, e in m) or '1' for m in s)

def check(tier):
    rep = report.Report('C30', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit(PRE)
        jobs = []
        def add(n, ins, e, out, orc, scale, **kw):
            sig = e
            U.add(n, ins, e, out, '%s with %s' % (e, ', '.join('%s %s' % (t, v) for t, v in zip(ins, 'ab'))))
            jobs.append((n, orc, scale, kw))
        def orc(out, f): return lambda G: [('o', out, f(G))]
        for t, u in pairs():
            out = ga.smallest(t.grades | u.grades)
            add('add_%s_%s' % (t.key, u.key), (t, u), 'a+b', out, orc(out, lambda G, t=t, u=u: G.add(G.var(t, 'a'), G.var(u, 'b'))), rnd.padd(mono(a=1), mono(b=1)))
            n = 'sub_%s_%s' % (t.key, u.key)
            add(n, (t, u), 'a-b', out, orc(out, lambda G, t=t, u=u: G.sub(G.var(t, 'a'), G.var(u, 'b'))), rnd.padd(mono(a=1), mono(b=1)), value=False) # value: C03
        for t in ga.TEN:
            for u in ga.TEN:
                if t is ga.D and u is ga.D: continue
                out = ga.smallest(ga.product_grades(t, u))
                add('mul_%s_%s' % (t.key, u.key), (t, u), 'a*b', out, orc(out, lambda G, t=t, u=u: G.mul(G.var(t, 'a'), G.var(u, 'b'))), mono(a=1, b=1))
        for op, (e, fl) in {'neg': ('-a', {0, 1, 2, 3}), 'reverse': ('reverse(a)', {2, 3}), 'oddverse': ('oddverse(a)', {1, 3}), 'dirverse': ('dirverse(a)', {1, 2})}.items():
            for t in ga.NINE:
                add('%s_%s' % (op, t.key), (t,), e, t, orc(t, lambda G, t=t, fl=fl: G.grades(G.var(t, 'a'), fl)), mono(a=1))
        for t in (ga.S, ga.P, ga.C, ga.M):
            add('sq_' + t.key, (t,), 'sq(a)', t, orc(t, lambda G, t=t: G.mul(G.var(t, 'a'), G.var(t, 'a'))), mono(a=2))
            add('cube_' + t.key, (t,), 'cube(a)', t, orc(t, lambda G, t=t: G.mul(G.mul(G.var(t, 'a'), G.var(t, 'a')), G.var(t, 'a'))), mono(a=3))
        for t in ga.NINE:
            add('magsq_' + t.key, (t,), 'magSq(a)', ga.D, orc(ga.D, lambda G, t=t: ga.Elem({0: G.sumsq(G.var(t, 'a'))})), REL)
            add('mag_' + t.key, (t,), 'magnitude(a)', ga.D, orc(ga.D, lambda G, t=t: ga.Elem({0: G.A.sqrt(G.sumsq(G.var(t, 'a')))})), REL)
            def amp(G, t=t):
                a = G.var(t, 'a'); x = G.mul(a, G.dirverse(a))
                return ga.Elem({k: v for k, v in x.items() if k in (0, 7)})
            add('ampsq_' + t.key, (t,), 'ampSq(a)', ga.C, orc(ga.C, amp), mono(a=2))
            big = dict(default=fp.box(-1e150, 1e150, fp.FINITE), facts=lambda G, t=t: [common.sizefact(G, t, 'a', 1e-150, 1e150)])
            add('dir_' + t.key, (t,), 'direction(a)', t, orc(t, lambda G, t=t: G.scale(G.var(t, 'a'), G.A.inv(G.A.sqrt(G.sumsq(G.var(t, 'a')))))), REL, **big)
        for t in ga.BLADES + (ga.C,):
            def inv(G, t=t):
                a = G.var(t, 'a'); s = G.A.inv(G.sumsq(a))
                r = G.scale(a, s)
                return G.grades(r, {2, 3})
            def norm(A, G, t=t): # size of the inverse
                k = next(iter(A.sqrt(G.sumsq(G.var(t, 'a'))).n))[0][0]
                return {((k, -F1),): 1.}
            add('inv_' + t.key, (t,), 'vh::inv1(a, 0)', t, orc(t, inv), norm, default=common.zn(1e70), facts=lambda G, t=t: [common.sizefact(G, t, 'a', 1e-70, 1e70)])
        def rotor(G, t):
            A = G.A
            a = G.var(t, 'a'); b = G.part(a, {2})
            f = A.exp(a[0]) if 0 in a else A.c(1)
            s = A.sqrt(G.sumsq(b)); sn, cs = A.trig(s)
            e = ga.Elem({k: A.mul(f, A.mul(sn, A.div(v, s))) for k, v in b.items()})
            e[0] = A.mul(f, cs)
            return e
        def escale(A, G):
            e = next(iter(A.exp(A.var('a.0')).n))[0][0]
            return {((e, F1),): 1., (('a', F1), (e, F1)): 1.}
        for t in (ga.B, ga.P):
            bf = lambda G, t=t: [(G.sumsq(G.part(G.var(t, 'a'), {2})), 1e-300, 1e300)]
            add('exp_' + t.key, (t,), 'exp(a)', ga.P, orc(ga.P, lambda G, t=t: rotor(G, t)), rnd.padd(rnd.pc(1), mono(a=1)) if t is ga.B else escale,
                default=common.zn(1e150), facts=bf, boxes={'a.0': fp.box(-700., 700., common.VALID)} if t is ga.P else {})
        U.add('log', (ga.P,), 'logG2(a)', ga.P, 'logG2(Spinor)')
        U.add('root', (ga.P,), 'sqrtG2(a)', ga.P, 'sqrtG2(Spinor)')
        m = U.lower(**cfg)
        for n, o, s, kw in jobs:
            one(rep, m, U.wraps[n], o, s, **kw)
            rep.count('operations')
        for n in ('log', 'root'): spin(rep, m, U.wraps[n], n)
    rep.assume = ['no overflow or underflow', 'library functions err by at most one unit (hypot, pow: two)', 'first order in the rounding unit',
                  'logarithm and root: leaves of the general case (not the special cases next to the angles 0 and pi)']
    return rep.finish()

def spin(rep, m, w, n):
    if not decide.available(rep, w, 'Spinor'): return
    with rep.attempt(w.sig):
        B = decide.build_graph(m, w)
        A = nf.Algebra(); G = ga.GA(A)
        a = G.var(ga.P, 'a')
        S = G.sumsq(a); b2 = G.sumsq(G.part(a, {2})); bl = A.sqrt(b2)
        R = part.Region(B.g, A, default=common.zn(1e150), facts=[(S, 1e-24, 1e300)])
        ang = A.atan2(bl, a[0])
        if n == 'log': want = [A.log(A.sqrt(S))] + [A.mul(ang, A.div(a[k], bl)) for k in ga.BIV]
        else:
            rm = A.sqrt(A.sqrt(S)); sn, cs = A.trig(A.scale(ang, Fraction(1, 2)))
            want = [A.mul(rm, cs)] + [A.mul(rm, A.mul(sn, A.div(a[k], bl))) for k in ga.BIV]
        lam = next(iter(A.log(A.sqrt(S)).n))[0][0]
        one_, L_ = ((), ((lam, F1),))
        if n == 'log': scale = {(): 1., ((lam, F1),): 1.}
        else:
            ra = next(iter(A.sqrt(A.sqrt(S)).n))[0][0]
            scale = {((ra, F1),): 1., tuple(sorted(((ra, F1), (lam, F1)))): 1.}
        L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(4)])
        rep.functions.add(w.sig); rep.count('leaves', len(L))
        cnt = 0
        for c, rs in L:
            if Bounds(c, a[0], b2, S).impossible(): continue
            ns = [c.nf(r) for r in rs]
            if not all(decide.equal(c, x, e) for x, e in zip(ns, want)): continue
            cnt += 1
            for k, r in enumerate(rs): bound(rep, c, r, scale, A, G, '%s, component %s: rounding error' % (w.sig, ga.NAMES[ga.P.comps[k]]))
        rep.sample('%s: %d leaves of the general case' % (w.sig, cnt))
        if not cnt: rep.hold('%s has a general case' % w.sig, False, expected='a leaf with the specified value', found='none')
