from engine import ga, harness, decide, report, fp, vg, streams
from checks import text, common
RULE = ('stream extraction of every entity type is lowered to SSA; the k-th extraction yields an unknown value and an unknown (monotone) failure state. The paths are partitioned over failure states and value classes. '
        'On every path each grade ends either NaN in all components, or with values of extractions, in order, that surely succeeded and are surely zero or normal; '
        'unless some extraction surely failed or gave a surely invalid value, component k is the value of extraction k and there are exactly as many extractions as components. '
        'Nothing but extractions is done to the stream, which is returned; no other stream is used')
def check(tier):
    rep = report.Report('C23', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in ga.NINE:
            U.addraw('ext_' + t.key, 'extern "C" std::istream* w_ext_%s(std::istream* s, %s* a) { return &(*s >> *a); }\n' % (t.key, t), [('opaque', 's'), ('inout', 'a')], 'operator>>(istream, %s)' % t)
            U.wraps['ext_' + t.key].t = t
        m = U.lower(**cfg)
        for n, w in U.wraps.items():
            t = w.t
            if not rep.hold('%s is available' % w.sig, w.flag == 1, expected='stream extraction of %s compiles' % t, found=(w.error or '')[:300]): continue
            with rep.attempt(w.sig):
                B = text.graph(m, w)
                rep.functions.add(w.sig)
                cells = [B.out('a', k) for k in range(t.n)]
                L = text.leaves(B, cells + [B.eff, B.ret], limit=20000)
                rep.count('paths', len(L))
                grades = []
                for g in sorted(t.grades): grades.append([k for k, x in enumerate(t.comps) if ga.GRADE[x] == g])
                for c, rs in L:
                    vals, eff, ret = rs[:t.n], rs[t.n], rs[t.n+1]
                    st = streams.interpret(eff, c)
                    s = st.streams.get('arg:s') or streams.Stream('arg:s', True)
                    where = decide.node_loc(eff)
                    path = c.describe()
                    ev = [x[1] for x in s.sink if x[0] == 'rd']
                    rep.count('stream_events', len(ev))
                    extra = [x for x in s.sink if x[0] != 'rd']
                    rep.hold('stream operations of %s' % w.sig, not extra and not [o for o, x in st.streams.items() if x.user and o != 'arg:s'], where=where, expected='extractions of numbers from the given stream only', found=extra, path=path)
                    rep.hold('result of %s' % w.sig, ret.op == 'ptr' and ret.attr == ('arg:s', 0), where=where, expected='the stream that was given', found=repr(ret), path=path)
                    # knowledge about each extraction
                    idx, okay, bad = {}, [], []
                    for i, e in enumerate(ev):
                        ty = e.attr[0].split(':')[1]
                        rd = B.g.mk('rd', ty, (e,), 'd' if ty == 'double' else 'f')
                        idx[rd.id] = i
                        f = known(c, B, e)
                        v = c.val(rd) if ty == 'double' else fp.TOP
                        valid = v[0] & ~common.VALID == 0
                        okay.append(f is False and valid)
                        bad.append(f is True or common.invalid(v))
                    for ks in grades:
                        nan = all(common_nan(c, vals[k]) for k in ks)
                        ii = [idx.get(vals[k].id) for k in ks]
                        rds = all(i is not None for i in ii) and all(x < y for x, y in zip(ii, ii[1:])) and all(okay[i] for i in ii)
                        rep.hold('components %s after %s' % (ks, w.sig), nan or rds, where=where, expected='all NaN, or read values that are known to be good', found=', '.join(show(c, vals[k], idx) for k in ks), path=path)
                    if not any(bad):
                        good = len(ev) == t.n and all(idx.get(v.id) == k for k, v in enumerate(vals))
                        rep.hold('complete extraction of %s' % w.sig, good, where=where, expected='component k holds the value of extraction k of %d' % t.n, found='%d extractions: %s' % (len(ev), ', '.join(show(c, v, idx) for v in vals)), path=path)
                    else: rep.count('paths_with_failure')
                rep.sample('%s: %d paths' % (w.sig, len(L)))
    return rep.finish()

def common_nan(c, r):
    v = c.val(r)
    return bool(v[0]) and not v[0] & ~fp.NANS

def known(c, B, e):
    """failure state after event e on this path: True, False or None"""
    q = B.g.mk('ioq', ('fail', 'arg:s'), (e,), 'i1')
    c2 = c
    from engine import part
    try: return c2.decide(q)
    except part.NeedSplit: return None

def show(c, r, idx):
    if r.id in idx: return 'value %d' % idx[r.id]
    return c.short(r)
