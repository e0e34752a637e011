from engine import ga, harness, decide, report, fp, nf, part, vg
from checks import common
from checks.c12 import Bounds
RULE = ('sqrtG2: guard partition of the region 1e-12 <= |s| <= 1e150: on every leaf the normal forms are sqrt|s| (cos(angle/2) + sin(angle/2) B/|B|) (or square to the spinor identically with a scalar part '
        'that is not negative), or the pure root sqrt|s| only on leaves that imply an angle below 1e-7, or sqrt|s| times the unit caller plane only on leaves that imply an angle above pi-1e-7; zero gives zero, NaN gives not valid')

def close(A, x, e, unit):
    """x equals e up to 1e-7 of unit"""
    if isinstance(x, str): return False
    d = A.sub(x, e)
    if not d.n: return True
    try: r = A.div(d, unit)
    except ZeroDivisionError: return False
    return r.isconst() and abs(float(r.const())) <= 1e-7

def check(tier):
    rep = report.Report('C13', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        U.add('sqrt_PB', (ga.P, ga.B), 'sqrtG2(a, b)', ga.P, 'sqrtG2(Spinor, BiVector)')
        U.add('sqrt_P', (ga.P,), 'sqrtG2(a)', ga.P, 'sqrtG2(Spinor)')
        m = U.lower(**cfg)
        for n in ('sqrt_PB', 'sqrt_P'):
            w = U.wraps[n]
            if not decide.available(rep, w, 'Spinor'): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                A = nf.Algebra(); G = ga.GA(A)
                a = G.var(ga.P, 'a')
                S = G.sumsq(a); b = G.part(a, {2}); b2 = G.sumsq(b)
                plane = G.var(ga.B, 'b') if len(w.ins) == 2 else G.const({6: 1})
                pl = G.scale(plane, A.inv(A.sqrt(G.sumsq(plane))))
                facts = [(S, 1e-24, 1e300)]
                if len(w.ins) == 2: facts.append((G.sumsq(plane), 1e-300, 1e300))
                R = part.Region(B.g, A, default=common.zn(1e150), facts=facts).merging()
                L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(4)])
                rep.functions.add(w.sig); rep.count('leaves', len(L))
                bl = A.sqrt(b2)
                rm = A.sqrt(A.sqrt(S))
                sn, cs = A.trig(A.scale(A.atan2(bl, a[0]), nf.Fraction(1, 2)))
                gen = [A.mul(rm, cs)] + [A.mul(rm, A.mul(sn, A.div(b[k], bl))) for k in ga.BIV]
                plus = [rm] + [A.c(0)]*3
                minus = [A.c(0)] + [A.mul(rm, pl.get(k, A.c(0))) for k in ga.BIV]
                pls = [pl.get(k, A.c(0)) for k in ga.BIV]
                kinds = {}
                for c, rs in L:
                    bd = Bounds(c, a[0], b2, S)
                    ns = [c.nf(r) for r in rs]
                    if bd.impossible():
                        kinds['contradictory'] = kinds.get('contradictory', 0) + 1
                        continue
                    ok = None
                    if all(decide.equal(c, x, e) for x, e in zip(ns, gen)): ok = 'general'
                    elif bd.near_plus() and all(close(A, x, e, rm) for x, e in zip(ns, plus)): ok = 'plus'
                    elif bd.near_minus() and close(A, ns[0], minus[0], rm) and all(close(A, x, e, A.mul(rm, p) if p.n else rm) for x, e, p in zip(ns[1:], minus[1:], pls)): ok = 'minus'
                    elif not any(isinstance(x, str) for x in ns):
                        r = ga.Elem({k: x for k, x in zip(ga.P.comps, ns)})
                        sq = G.mul(r, r)
                        if all(decide.equal(c, sq.get(k, A.c(0)), a[k]) for k in ga.P.comps) and (A.sign(ns[0]) == 1 or c.val(rs[0])[1] >= 0): ok = 'squares'
                    kinds[ok] = kinds.get(ok, 0) + 1
                    rep.hold('root of %s' % w.sig, ok is not None, where=decide.node_loc(rs[0]), expected='sqrt|s| at half the angle in the plane of the spinor',
                             found='scalar part %s, e23 part %s with cos in [%.17g, %.17g], sin in [%.3g, %.3g]' % (decide.show(c, ns[0]), decide.show(c, ns[1]), bd.cos[0], bd.cos[1], bd.sin[0], bd.sin[1]), path=c.describe())
                rep.sample('%s: leaves by kind %s' % (w.sig, kinds))
                zb = {'a.%d' % k: fp.box(0., 0.) for k in range(4)}
                decide.compare(rep, m, w, lambda G: [('o', ga.P, ga.Elem())], boxes=zb, default=common.zn(1e150), what='root of zero', graph=B)
                for k in range(4):
                    common.must_invalid(rep, m, w, {'a.%d' % k: common.NAN}, [('o', 4)], 'root with NaN in component %d is not valid' % k, graph=B)
    rep.assume = ['real arithmetic semantics inside a region', 'sqrt(x*x)/x is within one unit in the last place of one']
    return rep.finish()
