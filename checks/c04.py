from engine import ga, harness, decide, report
RULE = ('operator-, reverse, oddverse and dirverse of every type are lowered to SSA and value numbered; '
        'rule: each output component is the input component with the sign its grade demands')
OPS = {'neg': ('-a', {0, 1, 2, 3}), 'reverse': ('reverse(a)', {2, 3}), 'oddverse': ('oddverse(a)', {1, 3}), 'dirverse': ('dirverse(a)', {1, 2})}
def check(tier):
    rep = report.Report('C04', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit(); exp = {}
        for op, (e, fl) in OPS.items():
            for t in ga.NINE + ((ga.D,) if op == 'reverse' else ()):
                n = '%s_%s' % (op, t.key)
                U.add(n, (t,), e, t, '%s(%s)' % (op, t))
                exp[n] = (t, fl)
        m = U.lower(**cfg)
        for n, (t, fl) in exp.items():
            w = U.wraps[n]
            decide.compare(rep, m, w, lambda G: [('o', t, G.grades(G.var(t, 'a'), fl))], what='value')
    return rep.finish()
