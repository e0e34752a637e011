from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('isValid of double, std::array<double,N> and every type, evaluated in the floating point class domain: with every component zero or normal the result is true on every leaf; '
        'for each component and each of NaN, infinities and subnormals, all other components arbitrary, it is false on every leaf')
BADCLS = ((fp.NANS, 'NaN'), (fp.PINF, '+inf'), (fp.NINF, '-inf'), (fp.PSUB, 'positive subnormal'), (fp.NSUB, 'negative subnormal'))
GOOD = ((fp.PZERO, '+0'), (fp.NZERO, '-0'), (fp.PNORM, 'positive normal'), (fp.NNORM, 'negative normal'))
def check(tier):
    rep = report.Report('C14', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        todo = []
        for t in ga.TEN:
            U.add('val_' + t.key, (t,), 'isValid(a)', 'bool', 'isValid(%s)' % t); todo.append(('val_' + t.key, t.n))
        for k in (1, 2, 3, 4, 8):
            U.add('val_arr%d' % k, ('std::array<double, %d>' % k,), 'isValid(a)', 'bool', 'isValid(std::array<double, %d>)' % k); todo.append(('val_arr%d' % k, k))
        m = U.lower(**cfg)
        for n, nc in todo:
            w = U.wraps[n]
            if not decide.available(rep, w, 'bool'): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                rep.functions.add(w.sig)
                regions = [({}, common.zn(fp.MAXN), True, 'all components zero or normal')]
                for k in range(nc):
                    for c, nm in BADCLS: regions.append(({'a.%d' % k: fp.cls(c)}, fp.TOP, False, 'component %d %s' % (k, nm)))
                    for c, nm in GOOD: regions.append(({'a.%d' % k: fp.cls(c)}, common.zn(fp.MAXN), True, 'component %d %s, others valid' % (k, nm)))
                for boxes, default, want, nm in regions:
                    r = decide.booleans(B, boxes, default)
                    rep.count('leaves', len(r))
                    for c, v, loc in r:
                        rep.hold('%s with %s' % (w.sig, nm), v == want, where=loc, expected=want, found=v, path=c.describe())
                rep.sample('%s: %d regions' % (w.sig, len(regions)))
    return rep.finish()
