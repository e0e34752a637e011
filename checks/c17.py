import math
from engine import ga, harness, decide, report, fp
from checks import common, c14
RULE = ('every near-equality form evaluated in the floating point class domain: with a component of either operand NaN, infinite or subnormal (others arbitrary, tolerance arbitrary) and with the tolerance '
        'zero, negative or NaN (operands arbitrary) every leaf of the guard partition gives false; for identical valid operands and a positive tolerance every leaf gives true')
def forms():
    """(name, type text, components, C++ function)"""
    out = [('D', 'double', 1, f) for f in ('nearlyEquals', 'nearlyEqualsAbs', 'nearlyEqualsRel')]
    for k in (1, 2, 3, 4, 8): out.append(('A%d' % k, 'std::array<double, %d>' % k, k, 'nearlyEquals'))
    for t in ga.NINE: out.append((t.key, t.cpp, t.n, 'nearlyEquals'))
    return out
def check(tier):
    rep = report.Report('C17', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for key, t, n, f in forms():
            U.add('%s_%s' % (f, key), (t, t, 'double'), '%s(a, b, c)' % f, 'bool', '%s(%s, tol)' % (f, t))
            U.add('%s_%s_dflt' % (f, key), (t, t), '%s(a, b)' % f, 'bool', '%s(%s)' % (f, t))
            U.add('%s_%s_same' % (f, key), (t, 'double'), '%s(a, a, b)' % f, 'bool', '%s(%s) of an item with itself' % (f, t))
            U.add('%s_%s_same_dflt' % (f, key), (t,), '%s(a, a)' % f, 'bool', '%s(%s) of an item with itself, default tolerance' % (f, t))
        m = U.lower(**cfg)
        for key, t, n, f in forms():
            regs = [({'%s.%d' % (o, k): fp.cls(c)}, False, 'component %d of operand %d %s' % (k, i+1, nm)) for i, o in enumerate('ab') for k in range(n) for c, nm in c14.BADCLS]
            tols = [({'c.0': b}, False, 'tolerance ' + nm) for b, nm in ((fp.const(0.), 'zero'), (fp.const(-0.), 'negative zero'), (fp.norm(fp.NUM, -math.inf, -fp.DEN), 'negative'), (fp.cls(fp.NANS), 'NaN'))]
            pos = fp.norm(fp.NUM, fp.DEN, math.inf)
            valid = common.zn(fp.MAXN)
            for suf, rs in (('', regs + tols), ('_dflt', regs), ('_same', [({'b.0': pos}, True, 'valid components, positive tolerance')]), ('_same_dflt', [({}, True, 'valid components')])):
                w = U.wraps['%s_%s%s' % (f, key, suf)]
                if not decide.available(rep, w, 'bool'): continue
                with rep.attempt(w.sig):
                    B = decide.build_graph(m, w)
                    rep.functions.add(w.sig)
                    for boxes, want, nm in rs:
                        r = decide.booleans(B, boxes, fp.TOP if not want else valid)
                        rep.count('leaves', len(r))
                        for c, v, loc in r:
                            rep.hold('%s with %s' % (w.sig, nm), v == want, where=loc, expected=want, found=v, path=c.describe())
                    rep.sample('%s: %d regions' % (w.sig, len(rs)))
    rep.assume = ['default argument objects are evaluated by the caller as the compiler lowers them']
    return rep.finish()
