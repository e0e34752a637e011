from engine import ga, harness, decide, report, fp, nf, part, vg, build
RULE = ('operator[] of every type is lowered with a symbolic 64 bit subscript; its result is a gated pointer whose guards partition the subscript range into intervals; '
        'in range every subscript must address its own component cell, out of range the constant NaN object (multivector: a cell of the entity), and no path stores through the operand')
W = 1 << 64
def rng(t, k, lo, hi):
    """value range of an integer term for k in lo..hi"""
    if t is k: return lo, hi
    if t.op == 'ci':
        return (t.attr, t.attr)
    if t.op in ('zext', 'sext', 'trunc'): return rng(t.args[0], k, lo, hi)
    if t.op in ('add', 'sub', 'mul', 'shl'):
        a, b = rng(t.args[0], k, lo, hi), rng(t.args[1], k, lo, hi)
        if a is None or b is None: return None
        f = {'add': lambda x, y: x+y, 'sub': lambda x, y: x-y, 'mul': lambda x, y: x*y, 'shl': lambda x, y: x << y}[t.op]
        if t.op == 'shl' and b[1] > 64: return None
        v = [f(x, y) for x in a for y in b]
        l, h = min(v), max(v)
        # signed reading of negative constants
        if l//W != h//W: return None
        return l % W, h % W
    if t.op in ('and', 'urem') and t.args[1].op == 'ci':
        a = rng(t.args[0], k, lo, hi); c = t.args[1].attr
        if a is not None and a[0] == a[1]: return ((a[0] & c,)*2 if t.op == 'and' else (a[0] % c,)*2)
        return 0, (c if t.op == 'and' else c-1)
    if t.op == 'lshr' and t.args[1].op == 'ci':
        a = rng(t.args[0], k, lo, hi)
        return None if a is None else (a[0] >> t.args[1].attr, a[1] >> t.args[1].attr)
    return None
def place(B, p, k, lo, hi):
    """(object, lowest offset, highest offset) of a resolved pointer"""
    if p.op != 'ptr': return None
    obj, off = p.attr
    if not p.args: return obj, off, off
    r = rng(p.args[0], k, lo, hi)
    if r is None: return obj, None, None
    s = lambda x: x - W if x >> 63 else x
    l, h = off + r[0], off + r[1]
    if l//W != h//W: return obj, None, None
    return obj, s(l % W), s(h % W)

def check(tier):
    rep = report.Report('C20', tier, RULE)
    for cfg in decide.configs(tier) + [dict(std='c++17', extra=('-D_GLIBCXX_ASSERTIONS',))]:
        U = harness.Unit()
        for t in ga.NINE:
            for wr in ((False, True) if t is ga.M else (False,)):
                n = ('wr_' if wr else 'sub_') + t.key
                c = '' if wr else ' const'
                U.addraw(n, 'extern "C" double%s* w_%s(%s%s* a, std::size_t k) { return &(*a)[k]; }\n' % (c, n, t.cpp, c), [('inout' if wr else 'in', 'a'), ('val', 'k')],
                         '%s[k]%s' % (t, ' for writing' if wr else ''))
        m = U.lower(pipeline=build.PIPE_LIGHT, **cfg)
        for n, w in U.wraps.items():
            if not decide.available(rep, w, 'reference'): continue
            t = ga.BY[n.split('_')[1]]
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                rep.functions.add(w.sig)
                rep.hold('%s stores nothing' % w.sig, not B.writes_to_inputs and not B.mem.get('arg:a'), where=str(B.writes_to_inputs[:1]), expected='no store through the operand', found='store')
                k = B.g.inp('k', 'i64')
                A = nf.Algebra()
                roots = [B.ret] + [c for c, _, _ in B.unreach]
                L = part.leaves(part.Ctx(part.Region(B.g, A)), roots)
                rep.count('leaves', len(L))
                parts = []
                for c, rs in L:
                    lo, hi = c.ints.get(k.id, (0, W-1))
                    loc = decide.node_loc(B.ret)
                    for u, (_, wh, _) in zip(rs[1:], B.unreach):
                        rep.hold('%s returns for subscripts %d..%d' % (w.sig, lo, hi), u.attr == 0, where=wh, expected='a component', found='no return')
                    for j in range(lo, min(hi, t.n-1)+1):
                        q = place(B, rs[0], k, j, j)
                        rep.hold('%s with k=%d' % (w.sig, j), q == ('arg:a', 8*j, 8*j), where=loc, expected='component %d (%s)' % (j, ga.NAMES[t.comps[j]]), found=q, path=c.describe())
                    if hi >= t.n:
                        l = max(lo, t.n)
                        q = place(B, rs[0], k, l, hi)
                        if q and q[0] == 'arg:a':
                            ok = t is ga.M and q[1] is not None and q[1] >= 0 and q[2] <= 8*(t.n-1) and rs[0].attr[1] % 8 == 0
                        elif q and q[0].startswith('glob:') and q[1] is not None and q[1] == q[2] and not n.startswith('wr_'):
                            v = B.conv(B.global_load(q[0][5:], q[1], 8), 'd')
                            import math
                            ok = v.op == 'cd' and math.isnan(vg.unbits(v.attr)) or t is ga.M and v.op == 'cd'
                            gl = m.globals.get(q[0][5:])
                            ok = ok and gl is not None and gl['kind'] == 'constant'
                        else: ok = False
                        rep.hold('%s with k in %d..%d' % (w.sig, l, hi), ok, where=loc, expected='a cell of the entity' if t is ga.M else 'the constant NaN', found=q, path=c.describe())
                    parts.append('%d..%d' % (lo, hi))
                rep.sample('%s: subscript intervals %s' % (w.sig, ', '.join(sorted(parts))))
    return rep.finish()
