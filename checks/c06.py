from engine import ga, harness, decide, report
RULE = ('sq, cube, magSq and magnitude of every type are lowered to SSA and value numbered; rule: the normal form of each output equals that of the defining expression '
        '(two- and three-fold geometric product, sum of squared components, its non-negative root)')
def check(tier):
    rep = report.Report('C06', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit(); exp = {}
        def add(n, t, e, out, orc):
            U.add(n, (t,), e, out, e.replace('a)', str(t) + ')')); exp[n] = orc
        for t in (ga.D, ga.S, ga.P, ga.C, ga.M):
            def sq(G, t=t):
                a = G.var(t, 'a'); return [('o', t, G.mul(a, a))]
            def cube(G, t=t):
                a = G.var(t, 'a'); return [('o', t, G.mul(G.mul(a, a), a))]
            add('sq_' + t.key, t, 'sq(a)', t, sq)
            add('cube_' + t.key, t, 'cube(a)', t, cube)
        for t in ga.TEN:
            add('magsq_' + t.key, t, 'magSq(a)', ga.D, lambda G, t=t: [('o', ga.D, G.sumsq(G.var(t, 'a')))])
            add('mag_' + t.key, t, 'magnitude(a)', ga.D, lambda G, t=t: [('o', ga.D, G.A.sqrt(G.sumsq(G.var(t, 'a'))))])
        m = U.lower(**cfg)
        for n, orc in exp.items():
            decide.compare(rep, m, U.wraps[n], orc, what='value')
    return rep.finish()
