from engine import ga, harness, decide, report

RULE = ('every supported overload of operator+ is resolved, lowered to SSA, value numbered and each output component normalised to a polynomial; '
        'rule: it equals the sum of the matching components (so both operand orders agree), the result type is the smallest that holds all grades')
UNSUPPORTED = {frozenset(x) for x in ('SV', 'SI', 'SR', 'VP', 'VC', 'BT', 'BI', 'BC', 'TP', 'TR', 'PC', 'PR', 'IC', 'IR')}
def pairs():
    for t in ga.NINE:
        for u in ga.NINE:
            if frozenset((t.key, u.key)) not in UNSUPPORTED: yield t, u

def decide_op(pid, tier, rule, op, sgn, keyf=None):
    rep = report.Report(pid, tier, rule)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        exp = {}
        for t, u in pairs():
            n = '%s_%s_%s' % ('add' if sgn > 0 else 'sub', t.key, u.key)
            U.add(n, (t, u), 'a%sb' % op, ga.smallest(t.grades | u.grades), '%s %s %s' % (t, op, u))
            exp[n] = (t, u)
        m = U.lower(**cfg)
        for n, (t, u) in exp.items():
            w = U.wraps[n]
            rep.count('overloads')
            if keyf and w.flag == 1:
                # an overload recorded as reversed is identified by being exactly b - a
                probe = report.Report(pid, tier, rule)
                probe.known = {}
                k = keyf(w)
                if (pid, k) in rep.known:
                    decide.compare(probe, m, w, lambda G: [('o', w.out, G.sub(G.var(u, 'b'), G.var(t, 'a')))])
                    if not probe.bad:
                        for i in range(w.out.n):
                            rep.hold('difference of %s' % w.sig, False, key=k)
                        rep.functions.add(w.sig)
                        continue
            decide.compare(rep, m, w, lambda G: [('o', w.out, G.add(G.var(t, 'a'), G.var(u, 'b'), sgn))], what='sum' if sgn > 0 else 'difference')
    rep.assume = ['real arithmetic semantics of + -; component values finite', 'pairs the library deliberately leaves without operator are not part of the property']
    return rep.finish()

def check(tier):
    return decide_op('C02', tier, RULE, '+', 1)
