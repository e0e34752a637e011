import itertools
from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('inverse of every blade type, ComPlex and MultiVector: on every leaf of the guard partition of the region of nonsingular items the geometric products x*inv(x) and inv(x)*x '
        'of the normal forms are one; on the singular items (zero; families s(u +- v) of two basis blades with vanishing squared amplitude) every leaf has a component that cannot be valid')
PRE = '''
namespace vh {
template <class T> auto inv1(T const& a, int) -> decltype(inverse(a)) { return inverse(a); }
template <class T> auto inv1(T const& a, long) -> decltype(inverse<T>(a)) { return inverse<T>(a); }
}
'''
def check(tier):
    rep = report.Report('C09', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit(PRE)
        for t in ga.BLADES + (ga.C, ga.M):
            U.add('inv_' + t.key, (t,), 'vh::inv1(a, 0)', t, 'inverse(%s)' % t)
        m = U.lower(**cfg)
        for t in ga.BLADES + (ga.C, ga.M):
            w = U.wraps['inv_' + t.key]
            if not decide.available(rep, w, t): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                A = nf.Algebra(); G = ga.GA(A)
                a = G.var(t, 'a')
                if t is ga.M:
                    p = G.mul(a, G.dirverse(a)); x, y = p[0], p[7]
                    facts = [(A.add(A.mul(x, x), A.mul(y, y)), 1e-290, 1e250)]
                    box = common.zn(1e30)
                else:
                    facts = [common.sizefact(G, t, 'a', 1e-70, 1e70)]
                    box = common.zn(1e70)
                R = part.Region(B.g, A, default=box, facts=facts).merging()
                L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(t.n)])
                rep.functions.add(w.sig); rep.count('leaves', len(L))
                for c, rs in L:
                    ns = [c.nf(r) for r in rs]
                    bad = next((i for i, n in enumerate(ns) if isinstance(n, str)), None)
                    if bad is not None:
                        rep.hold('%s of a nonsingular item' % w.sig, False, where=decide.node_loc(rs[bad]), expected='finite inverse', found=ns[bad], path=c.describe())
                        continue
                    inv = ga.Elem({t.comps[k]: n for k, n in enumerate(ns) if n.n})
                    one = {0: A.c(1)}
                    for nm, pr in (('x * inverse(x)', G.mul(a, inv)), ('inverse(x) * x', G.mul(inv, a))):
                        for k in range(8):
                            e = one.get(k, A.c(0)); f = pr.get(k, A.c(0))
                            ok = decide.equal(c, f, e) or (not e.n and not_eq0(A, f))
                            rep.hold('%s is one (component %s), %s' % (nm, ga.NAMES[k], t), ok, where=next((decide.node_loc(r) for r in rs if decide.node_loc(r)), None),
                                     expected=A.show(e), found=A.show(f), path=c.describe())
                rep.sample('%s: %d leaves; component 0 = %s' % (w.sig, len(L), decide.show(L[0][0], L[0][0].nf(L[0][1][0]))[:150]))
                common.must_invalid(rep, m, w, {}, [('o', t.n)], 'inverse of zero is not valid', default=fp.box(0., 0.), graph=B)
                if t is ga.M:
                    # two-blade families with vanishing squared amplitude
                    n = 0
                    for i, j in itertools.combinations(range(8), 2):
                        for sg in (1, -1):
                            el = ga.Elem({t.comps[i]: A.c(1), t.comps[j]: A.c(sg)})
                            if G.mul(el, G.dirverse(el)): continue
                            n += 1
                            B2 = decide.build_graph(m, w, cls=lambda *q: AliasB(*q, alias={'a.%d' % j: ('a.%d' % i, sg)}))
                            boxes = {'a.%d' % k: common.ZERO for k in range(8) if k not in (i, j)}
                            for lo, hi in ((1e-30, 1e30), (-1e30, -1e-30)):
                                boxes['a.%d' % i] = fp.box(lo, hi)
                                common.must_invalid(rep, m, w, boxes, [('o', 8)], 'inverse of the singular item s(%s %s %s) is not valid' % (ga.NAMES[t.comps[i]], '+' if sg > 0 else '-', ga.NAMES[t.comps[j]]), graph=B2, alias=1)
                    rep.count('singular_families', n)
    rep.assume = ['real arithmetic semantics inside a region', 'singular multivectors other than the enumerated families and zero are not covered']
    return rep.finish()

def not_eq0(A, f):
    """is f zero up to the coefficient tolerance of its own terms"""
    return False

from engine import vg
class AliasB(vg.Builder):
    """value graph in which one input is plus or minus another"""
    def __init__(self, *a, alias=None):
        super().__init__(*a)
        g = self.g
        base = g.inp
        def inp(name, ty='d'):
            if name in alias:
                o, s = alias[name]
                x = base(o, ty)
                return x if s > 0 else g.mk('fneg', None, (x,), 'd')
            return base(name, ty)
        g.inp = inp
