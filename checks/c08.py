from engine import ga, harness, decide, report, fp
from checks import common
RULE = ('direction and pairMagDirFrom of every type: in the region 1e-150 <= |x| <= 1e150 (a fact about the sum of squares that decides the guards in the class x interval domain) '
        'each output normal form equals x/|x| and |x|; in the zero and null regions every leaf has a component that cannot be valid')
def check(tier):
    rep = report.Report('C08', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in ga.NINE:
            U.add('dir_' + t.key, (t,), 'direction(a)', t, 'direction(%s)' % t)
            U.addpair('pair_' + t.key, (t,), 'pairMagDirFrom(a)', ga.D, t, 'pairMagDirFrom(%s)' % t)
        m = U.lower(**cfg)
        for t in ga.NINE:
            def unit(G):
                a = G.var(t, 'a'); s = G.A.sqrt(G.sumsq(a))
                return s, G.scale(a, G.A.inv(s))
            facts = lambda G: [common.sizefact(G, t, 'a', 1e-150, 1e150)]
            box = fp.box(-1e150, 1e150, fp.FINITE)
            w = U.wraps['dir_' + t.key]
            if decide.compare(rep, m, w, lambda G: [('o', t, unit(G)[1])], default=box, facts=facts, what='direction'):
                common.must_invalid(rep, m, w, {}, [('o', t.n)], 'direction of zero is not valid', default=fp.box(0., 0.))
                common.must_invalid(rep, m, w, {}, [('o', t.n)], 'direction of null is not valid', default=common.NAN)
            w = U.wraps['pair_' + t.key]
            if decide.compare(rep, m, w, lambda G: [('o', ga.D, unit(G)[0]), ('q', t, unit(G)[1])], default=box, facts=facts, what='magnitude and direction'):
                common.must_invalid(rep, m, w, {}, [('q', t.n)], 'direction of zero is not valid', default=fp.box(0., 0.))
                common.must_invalid(rep, m, w, {}, [('o', 1), ('q', t.n)], 'magnitude and direction of null are not valid', default=common.NAN)
                decide.compare(rep, m, w, lambda G: [('o', ga.D, G.A.c(0))], default=fp.box(0., 0.), what='magnitude of zero')
    rep.assume = ['real arithmetic semantics inside a region; no overflow or underflow of the sum of squares in it']
    return rep.finish()
