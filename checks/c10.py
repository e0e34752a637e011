from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('exp(BiVector) and exp(Spinor): on every leaf of the guard partition of the region 1e-150 <= |B| <= 1e150 (components zero or normal) the normal forms equal '
        'exp(s)*(cos|B|, sin|B| B/|B|); for zero the result is exactly one (times exp(s)); for NaN components every leaf has a component that cannot be valid')
def check(tier):
    rep = report.Report('C10', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        U.add('exp_B', (ga.B,), 'exp(a)', ga.P, 'exp(BiVector)')
        U.add('exp_P', (ga.P,), 'exp(a)', ga.P, 'exp(Spinor)')
        m = U.lower(**cfg)
        def rotor(G, t, zero):
            A = G.A
            a = G.var(t, 'a')
            b = G.part(a, {2})
            f = A.exp(a[0]) if 0 in a else A.c(1)
            if zero: return ga.Elem({0: f})
            s = A.sqrt(G.sumsq(b))
            sn, cs = A.trig(s)
            e = ga.Elem({k: A.mul(f, A.mul(sn, A.div(v, s))) for k, v in b.items()})
            e[0] = A.mul(f, cs)
            return e
        for t in (ga.B, ga.P):
            w = U.wraps['exp_' + t.key]
            bi = [k for k, c in enumerate(t.comps) if ga.GRADE[c] == 2]
            si = {'a.0': fp.box(-700., 700., common.VALID)} if t is ga.P else {}
            facts = lambda G: [(G.sumsq(G.part(G.var(t, 'a'), {2})), 1e-300, 1e300)]
            if not decide.compare(rep, m, w, lambda G: [('o', ga.P, rotor(G, t, False))], default=common.zn(1e150), boxes=si, facts=facts, what='exponential'): continue
            zb = {'a.%d' % k: fp.box(0., 0.) for k in bi}
            zb.update(si)
            decide.compare(rep, m, w, lambda G: [('o', ga.P, rotor(G, t, True))], boxes=zb, what='exponential of zero bivector')
            for k in range(t.n):
                bx = dict(si); bx['a.%d' % k] = common.NAN
                common.must_invalid(rep, m, w, bx, [('o', 4)], 'exponential with NaN in component %s is not valid' % ga.NAMES[t.comps[k]], default=common.zn(1e30))
    rep.assume = ['real arithmetic semantics inside a region', 'scalar exponent within +-700']
    return rep.finish()
