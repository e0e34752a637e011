from engine import ga, harness, decide, report, nf, part, fp
RULE = ('ampSq and amplitude of every type are lowered to SSA and value numbered; rule: ampSq equals the scalar and trivector part of x*dirverse(x) (whose other grades are checked '
        'to cancel identically) and amplitude equals the principal complex root of it (or squares to it with a scalar part that is provably not negative)')
def amp(G, t):
    a = G.var(t, 'a')
    return G.mul(a, G.dirverse(a))
def check(tier):
    rep = report.Report('C07', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for t in ga.NINE:
            U.add('ampsq_' + t.key, (t,), 'ampSq(a)', ga.C, 'ampSq(%s)' % t)
            U.add('amp_' + t.key, (t,), 'amplitude(a)', ga.C, 'amplitude(%s)' % t)
        m = U.lower(**cfg)
        for t in ga.NINE:
            def orc(G):
                p = amp(G, t)
                rep.hold('vector and bivector grades of %s * dirverse cancel' % t, all(ga.GRADE[k] in (0, 3) for k in p))
                return [('o', ga.C, p)]
            decide.compare(rep, m, U.wraps['ampsq_' + t.key], orc, what='squared amplitude')
            w = U.wraps['amp_' + t.key]
            if not decide.available(rep, w, 'ComPlex'): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                A = nf.Algebra(); G = ga.GA(A)
                p = amp(G, t)
                x, y = p.get(0, A.c(0)), p.get(7, A.c(0))
                R = part.Region(B.g, A, default=decide.MOD).merging()
                roots = [B.out('o', 0), B.out('o', 1)]
                L = part.leaves(part.Ctx(R), roots)
                rep.functions.add(w.sig)
                rep.count('leaves', len(L))
                e, f = A.csqrt(x, y)
                for c, rs in L:
                    u, v = c.nf(rs[0]), c.nf(rs[1])
                    ok = False
                    if not isinstance(u, str) and not isinstance(v, str):
                        ok = decide.equal(c, u, e) and decide.equal(c, v, f)
                        if not ok:      # polar form of the principal root
                            try:
                                s, o = A.trig(A.scale(A.atan2(y, x), .5)); h = A.sqrt(A.hypot(x, y))
                                ok = decide.equal(c, u, A.mul(h, o)) and decide.equal(c, v, A.mul(h, s))
                            except (ArithmeticError, part.NeedSplit): pass
                        if not ok:
                            sq = (A.sub(A.mul(u, u), A.mul(v, v)), A.scale(A.mul(u, v), 2))
                            ok = decide.equal(c, sq[0], x) and decide.equal(c, sq[1], y) and (A.sign(u) == 1 or c.val(rs[0])[1] >= 0)
                    rep.hold('principal root of the squared amplitude in %s' % w.sig, ok, where=decide.node_loc(rs[0]),
                             expected='(%s, %s)' % (A.show(e), A.show(f)), found='(%s, %s)' % (decide.show(c, u), decide.show(c, v)), path=c.describe())
                rep.sample('%s = (%s, %s)' % (w.sig, A.show(e)[:80], A.show(f)[:80]))
    rep.assume = ['std::sqrt(std::complex) is the principal root']
    return rep.finish()
