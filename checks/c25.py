from engine import ga, harness, decide, report, vg, streams
from checks import text
RULE = ('enote() with its default digit count is lowered to SSA and interpreted over the format state of its streams: every number must be written in scientific notation with a constant precision of at least 16 '
        '(16 digits after the point and one before are 17 significant digits, necessary and sufficient for binary64)')
def check(tier):
    rep = report.Report('C25', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in text.TYPES_TEXT:
            T = harness.cpp(t)
            nm = 'eno_' + (t.key if isinstance(t, ga.T) else 'd')
            U.addraw(nm, 'extern "C" void w_%s(std::string* o, %s const* a) { new (o) std::string(io::enote(*a)); }\n' % (nm, T), [('opaque', 'o'), ('in', 'a')], 'enote(%s)' % T)
            U.wraps[nm].n = t.n if isinstance(t, ga.T) else 1
        m = U.lower(**cfg)
        for nm, w in U.wraps.items():
            if not rep.hold('%s is available' % w.sig, w.flag == 1, expected='compiles', found=(w.error or '')[:300]): continue
            with rep.attempt(w.sig):
                B = text.graph(m, w)
                rep.functions.add(w.sig)
                for c, (eff,) in text.leaves(B, [B.eff]):
                    st = streams.interpret(eff, c)
                    content = st.strings.get('arg:o')
                    if content is None: raise vg.Unmodelled('result of %s' % w.sig)
                    nums = [x for x in content if x[0] == 'num']
                    if len(nums) != w.n: rep.hold('numbers in %s' % w.sig, False, where=decide.node_loc(eff), expected='%d numbers' % w.n, found=len(nums), path=c.describe())
                    for x in nums:
                        _, v, ff, prec, width, fill = x
                        lin = streams.linear(c, prec)
                        k = lin.get(1, 0) if set(lin) <= {1} else None
                        if not (v.op == 'in'): rep.hold('value written by %s' % w.sig, False, where=decide.node_loc(eff), expected='a component', found=c.short(v), path=c.describe())
                        rep.hold('default digits of %s' % w.sig, ff == 'scientific' and k is not None and 16 <= k < 1 << 31, key='default-digits:%s' % k if ff == 'scientific' else None, where=decide.node_loc(eff),
                                 expected='scientific with 16 or more digits after the point', found='%s with %s' % (ff, k), path=c.describe())
                rep.sample('%s: %s' % (w.sig, '; '.join(streams.show(x, c) for x in nums)[:200]))
    return rep.finish()
