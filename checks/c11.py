from engine import ga, harness, decide, report, fp, nf, part, vg
from checks import common
RULE = ('exp(MultiVector): on every leaf of the guard partition (components zero or normal up to 100) all eight normal forms equal exp(Z)*(cosh w + (sinh w/w) D) with w = csqrt(D*D); '
        'on leaves that imply |w| <= 1e-8, and for D = 0, exp(Z)*(1 + D) is accepted; for a NaN component every leaf has a component that cannot be valid')
def cmulE(G, z, x):
    return G.mul(ga.Elem({0: z[0], 7: z[1]}), x)
def check(tier):
    rep = report.Report('C11', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        U.add('exp_M', (ga.M,), 'exp(a)', ga.M, 'exp(MultiVector)')
        m = U.lower(**cfg)
        w = U.wraps['exp_M']
        if not decide.available(rep, w, 'MultiVector'): continue
        with rep.attempt(w.sig):
            B = decide.build_graph(m, w)
            for region, boxes in (('general', {}), ('D = 0', {'a.%d' % k: fp.box(0., 0.) for k in range(1, 7)}),
                                  ('vector', {'a.%d' % k: fp.box(0., 0.) for k in (4, 5, 6)}), ('bivector', {'a.%d' % k: fp.box(0., 0.) for k in (1, 2, 3)})):
                A = nf.Algebra(); G = ga.GA(A)
                R = part.Region(B.g, A, boxes=boxes, default=common.zn(100.)).merging()
                a = G.var(ga.M, 'a')
                for k, c in enumerate(ga.ALL8):
                    if boxes.get('a.%d' % k): a.pop(c)
                d = G.part(a, {1, 2})
                dd = G.mul(d, d)
                x, y = dd.get(0, A.c(0)), dd.get(7, A.c(0))
                wr, wi = A.csqrt(x, y)
                ez = A.cfn('cexp', [a[0], a[7]])
                limit = cmulE(G, ez, G.add(G.const({0: 1}), d))
                if wr.n or wi.n:
                    ch, sh = A.cfn('ccosh', [wr, wi]), A.cfn('csinh', [wr, wi])
                    q = A.cdiv(sh[0], sh[1], wr, wi)
                    series = cmulE(G, ez, G.add(ga.Elem({0: ch[0], 7: ch[1]}), cmulE(G, q, d)))
                else:
                    series = limit
                wn2 = A.add(A.mul(wr, wr), A.mul(wi, wi))
                L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(8)])
                rep.functions.add(w.sig); rep.count('leaves', len(L))
                for c, rs in L:
                    ns = [c.nf(r) for r in rs]
                    small = small_w(c, A, wr, wi, wn2, x, y)
                    for k in range(8):
                        e = G.comp(series, ga.M, k)
                        ok = decide.equal(c, ns[k], e) or small and decide.equal(c, ns[k], G.comp(limit, ga.M, k))
                        rep.hold('exponential component %s of exp(MultiVector), %s' % (ga.NAMES[ga.ALL8[k]], region), ok, where=decide.node_loc(rs[k]), expected=A.show(e), found=decide.show(c, ns[k]), path=c.describe())
                rep.sample('exp(MultiVector), %s: %d leaves' % (region, len(L)))
            for k in range(8):
                common.must_invalid(rep, m, w, {'a.%d' % k: common.NAN}, [('o', 8)], 'exponential with NaN in component %s is not valid' % ga.NAMES[ga.ALL8[k]], default=common.zn(1e30), graph=B)
    rep.assume = ['real arithmetic semantics inside a region', 'std::complex functions are the principal ones']
    return rep.finish()

def small_w(c, A, wr, wi, wn2, x, y):
    """does the leaf bound |w| by 1e-8"""
    quant = {}
    for nd in c.R.g.tab.values():
        pass
    cand = [(A.sqrt(wn2), 1e-8), (wn2, 1e-16)]
    dn = A.add(A.mul(x, x), A.mul(y, y))
    if dn.n: cand += [(A.sqrt(dn), 1e-16), (dn, 1e-32)]
    if not wi.n: cand += [(wr, 1e-8)]
    if not wr.n: cand += [(wi, 1e-8)]
    nodes = {}
    for a, b, s in c.rel.values():
        nodes[a.id] = a; nodes[b.id] = b
    for t in c.trail:
        if t[0] == 'cls': nodes[t[1].id] = t[1]
    for nd in nodes.values():
        if nd.op in ('cd', 'ci') or nd.ty != 'd': continue
        try: n = c.nf(nd)
        except vg.Unmodelled: continue
        if isinstance(n, str): continue
        v = c.val(nd)
        if not fp.hasnum(v) or fp.maynan(v): continue
        h = max(abs(v[1]), abs(v[2]))
        for q, lim in cand:
            if h <= lim and A.eq(n, q): return True
    # both parts of w
    if small_node(c, A, wr, 1e-8) and small_node(c, A, wi, 1e-8): return True
    return False

def small_node(c, A, q, lim):
    if not q.n: return True
    for nd in list(c.R.g.tab.values()):
        if nd.ty == 'd' and nd.id in c.refined:
            v = c.refined[nd.id]
            if fp.hasnum(v) and not fp.maynan(v) and max(abs(v[1]), abs(v[2])) <= lim:
                try: n = c.nf(nd)
                except vg.Unmodelled: continue
                if not isinstance(n, str) and A.eq(n, q): return True
    return False
