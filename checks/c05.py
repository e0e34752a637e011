from engine import ga, harness, decide, report
RULE = ('dual of every type is lowered to SSA and value numbered; rule: each output component equals that of the geometric product of the unit trivector with the argument')
def check(tier):
    rep = report.Report('C05', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit(); exp = {}
        for t in ga.TEN:
            n = 'dual_%s' % t.key
            U.add(n, (t,), 'dual(a)', ga.smallest(frozenset(3-g for g in t.grades)), 'dual(%s)' % t)
            exp[n] = t
        m = U.lower(**cfg)
        for n, t in exp.items():
            w = U.wraps[n]
            decide.compare(rep, m, w, lambda G: [('o', w.out, G.dual(G.var(t, 'a')))], what='dual')
    return rep.finish()
