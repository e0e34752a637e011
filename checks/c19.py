from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('operator== (and != where it is well formed) of every type that has it is lowered to SSA; all floating point classes are admitted for every component; '
        'on each leaf of the guard partition the order relations of the component pairs must fix the result: true only with "=" for every pair, false only with a pair that excludes "="')
TYPES = (ga.S, ga.V, ga.B, ga.W, ga.P, ga.I, ga.M)
def check(tier):
    rep = report.Report('C19', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in TYPES:
            U.add('eq_' + t.key, (t, t), 'a == b', 'bool', '%s == %s' % (t, t))
            U.add('ne_' + t.key, (t, t), 'a != b', 'bool', '%s != %s' % (t, t))
        U.add('eq_A3', ('std::array<double, 3>',)*2, 'engabra::g3::operator==(a, b)', 'bool', 'std::array<double, 3> == std::array<double, 3>')
        m = U.lower(**cfg)
        for n, w in U.wraps.items():
            k = n.split('_')[1]
            nc = 3 if k == 'A3' else ga.BY[k].n
            if n.startswith('ne_') and w.flag == 0 or k == 'A3' and w.flag != 1: continue   # not provided
            if not decide.available(rep, w, 'bool'): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                rep.functions.add(w.sig)
                r = decide.booleans(B, {}, fp.TOP)
                rep.count('leaves', len(r))
                for c, v, loc in r:
                    if v is not None and n.startswith('ne_'): v = not v
                    rels = [c.relset(B.g.inp('a.%d' % i), B.g.inp('b.%d' % i)) for i in range(nc)]
                    if v is True: ok = all(x == '=' for x in rels)
                    elif v is False: ok = any('=' not in x for x in rels)
                    else: ok = False
                    rep.hold('%s is the conjunction of %d numeric component equalities' % (w.sig, nc), ok, where=loc, expected='true exactly if all pairs are equal numbers',
                             found='%s while the pairs are %s' % (v, rels), path=c.describe())
                rep.sample('%s: %d leaves over %d component pairs' % (w.sig, len(r), nc))
    return rep.finish()
