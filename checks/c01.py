from engine import ga, harness, decide, report

RULE = ('every overload of operator* is resolved by the compiler for each ordered pair of types, lowered to SSA, value numbered, '
        'and each output term is normalised to a polynomial that is compared coefficient by coefficient with the geometric product')

def check(tier):
    rep = report.Report('C01', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        exp = {}
        for t in ga.TEN:
            for u in ga.TEN:
                if t is ga.D and u is ga.D: continue
                n = 'mul_%s_%s' % (t.key, u.key)
                U.add(n, (t, u), 'a*b', ga.smallest(ga.product_grades(t, u)), '%s * %s' % (t, u))
                exp[n] = (t, u)
        m = U.lower(**cfg)
        for n, (t, u) in exp.items():
            w = U.wraps[n]
            decide.compare(rep, m, w, lambda G: [('o', w.out, G.mul(G.var(t, 'a'), G.var(u, 'b')))], what='product')
            rep.count('pairs')
    rep.assume = ['real arithmetic semantics of + - * /; component values finite']
    return rep.finish()
