from engine import ga, harness, decide, report, vg, streams
from checks import text
RULE = ('stream insertion of every entity type is lowered to SSA; each path is one chain of stream and string primitives, interpreted over the format state and content of every stream and string. '
        'Appended to the given stream: exactly the numbers a.0 .. a.n-1 in order, each in fixed notation with a constant precision, a blank before each, white space only in between. '
        'On return flags, precision and fill of the given stream are the initial ones; it is the stream returned; no other stream is written; the entity is not written')
def check(tier):
    rep = report.Report('C22', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in ga.NINE:
            U.addraw('ins_' + t.key, 'extern "C" std::ostream* w_ins_%s(std::ostream* s, %s const* a) { return &(*s << *a); }\n' % (t.key, t), [('opaque', 's'), ('in', 'a')], 'operator<<(ostream, %s)' % t)
            U.wraps['ins_' + t.key].t = t
        m = U.lower(**cfg)
        for n, w in U.wraps.items():
            t = w.t
            if not rep.hold('%s is available' % w.sig, w.flag == 1, expected='stream insertion of %s compiles' % t, found=(w.error or '')[:300]): continue
            with rep.attempt(w.sig):
                B = text.graph(m, w)
                rep.functions.add(w.sig)
                L = text.leaves(B, [B.eff, B.ret])
                rep.count('paths', len(L))
                for c, (eff, ret) in L:
                    st = streams.interpret(eff, c)
                    rep.count('stream_events', len(streams.chain(eff)))
                    where = decide.node_loc(eff)
                    s = st.streams.get('arg:s') or streams.Stream('arg:s', True)
                    def spec(tok):
                        _, v, ff, prec, width, fill = tok
                        if ff != 'fixed': return 'notation %s' % ff
                        if not isinstance(prec, int): return 'precision %s' % (prec,)
                        if width != 0 and fill != 32: return 'padded with %s' % (fill,)
                        if not isinstance(width, int): return 'width %s' % (width,)
                    names = ['a.%d' % k for k in range(t.n)]
                    text.tokens_ok(rep, w, c, s.sink, names, spec, True, where)
                    i = streams.Stream('arg:s', True)
                    same = (s.base, s.mask) == (i.base, i.mask) and s.precision == i.precision and s.fill == i.fill
                    rep.hold('format state of the stream after %s' % w.sig, same, where=where, expected='initial flags, precision and fill',
                             found='flags %s, precision %s, fill %s' % ('initial' if (s.base, s.mask) == (i.base, i.mask) else 'changed in bits %#x to %s' % (s.mask, s.floatfield()), s.precision, s.fill), path=c.describe())
                    rep.hold('result of %s' % w.sig, ret.op == 'ptr' and ret.attr == ('arg:s', 0), where=where, expected='the stream that was given', found=repr(ret))
                    others = [o for o, x in st.streams.items() if x.user and o != 'arg:s' and x.sink]
                    rep.hold('streams written by %s' % w.sig, not others, where=where, expected='only the given stream', found=others)
                rep.hold('entity is not modified by %s' % w.sig, not B.writes_to_inputs, found=B.writes_to_inputs)
                rep.sample('%s: %s' % (w.sig, '; '.join(streams.show(x, L[0][0]) for x in streams.interpret(L[0][1][0], L[0][0]).streams['arg:s'].sink)[:300]))
    return rep.finish()
