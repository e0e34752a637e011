from engine import ga, harness, decide, report, vg, streams
from checks import text
RULE = ('fixed() and enote() of numbers, blades, spinors, imaginary spinors and multivectors are lowered to SSA with symbolic digit counts p (before) and q (after the point); each path is one chain of string and stream primitives, '
        'interpreted over format state and content. The result must consist of the numbers a.0 .. a.n-1 in order, white space only in between; precision is the term q (mod 2^32), notation fixed with field width p+q+2 padded with blanks, or scientific. '
        'Calls with default digit counts equal those with 3 and 6')
def check(tier):
    rep = report.Report('C24', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in text.TYPES_TEXT:
            T = harness.cpp(t)
            k = t.key if isinstance(t, ga.T) else 'd'
            n = t.n if isinstance(t, ga.T) else 1
            for nm, sig, args, pars, kind in (
                ('fix_' + k, 'fixed(%s, p, q)' % T, ', p, q', [('val', 'p'), ('val', 'q')], ('fixed', 'p', 'q')),
                ('fix1_' + k, 'fixed(%s, p)' % T, ', p', [('val', 'p')], ('fixed', 'p', 6)),
                ('fix0_' + k, 'fixed(%s)' % T, '', [], ('fixed', 3, 6)),
                ('eno_' + k, 'enote(%s, q)' % T, ', q', [('val', 'q')], ('scientific', None, 'q')),
                ('eno0_' + k, 'enote(%s)' % T, '', [], ('scientific', None, None))):
                f = nm[:3] == 'fix' and 'fixed' or 'enote'
                U.addraw(nm, 'extern "C" void w_%s(std::string* o, %s const* a%s) { new (o) std::string(io::%s(*a%s)); }\n' % (nm, T, ''.join(', std::size_t ' + x[1] for x in pars), f, args),
                         [('opaque', 'o'), ('in', 'a')] + pars, sig)
                U.wraps[nm].t = (n, kind)
        m = U.lower(**cfg)
        for nm, w in U.wraps.items():
            n, (kind, p, q) = w.t
            if not rep.hold('%s is available' % w.sig, w.flag == 1, expected='compiles', found=(w.error or '')[:300]): continue
            with rep.attempt(w.sig):
                B = text.graph(m, w)
                rep.functions.add(w.sig)
                L = text.leaves(B, [B.eff])
                rep.count('paths', len(L))
                for c, (eff,) in L:
                    st = streams.interpret(eff, c)
                    rep.count('stream_events', len(streams.chain(eff)))
                    where = decide.node_loc(eff)
                    def term(x):
                        if isinstance(x, int): return {1: x}
                        nd = B.g.inp(x, 'i64')
                        return streams.linear(c, nd)
                    def plus(*ts):
                        r = {}
                        for t_ in ts:
                            for k_, v in t_.items(): r[k_] = (r.get(k_, 0) + v) % (1 << 32)
                        return {k_: v for k_, v in r.items() if v}
                    def spec(tok):
                        _, v, ff, prec, width, fill = tok
                        if ff != kind: return 'notation %s' % ff
                        if q is not None and streams.linear(c, prec) != term(q): return 'precision %s instead of %s' % (streams.lin_show(c, prec), q)
                        if kind == 'fixed' and streams.linear(c, width) != plus(term(p), term(q), term(2)): return 'field width %s instead of %s+%s+2' % (streams.lin_show(c, width), p, q)
                        if fill != 32: return 'padded with character %s' % (fill,)
                    content = st.strings.get('arg:o')
                    if content is None: raise vg.Unmodelled('result of %s' % w.sig)
                    text.tokens_ok(rep, w, c, content, ['a.%d' % k for k in range(n)], spec, False, where)
                    others = [o for o, x in st.streams.items() if x.user]
                    rep.hold('streams used by %s' % w.sig, not others, where=where, expected='only local streams', found=others)
                st = streams.interpret(L[0][1][0], L[0][0])
                rep.sample('%s: %s' % (w.sig, '; '.join(streams.show(x, L[0][0]) for x in st.strings['arg:o'])[:300]))
    return rep.finish()
