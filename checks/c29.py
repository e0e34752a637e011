from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('exp(-B/2)*x*exp(B/2) as one term through exp and the product operators: on every leaf (1e-140 <= |B| <= 1e140, and B = 0) the normal form of the trivector (scalar) part of the rotated vector (bivector) '
        'is zero and the sum of squares of the result equals that of the argument; for B = t e12 the images of e1 and e3 are cos t e1 + sin t e2 and e3')
def check(tier):
    rep = report.Report('C29', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        U.add('rot_V', (ga.B, ga.V), 'exp(-0.5*a)*b*exp(0.5*a)', ga.I, 'exp(-B/2)*v*exp(B/2)')
        U.add('rot_B', (ga.B, ga.B), 'exp(-0.5*a)*b*exp(0.5*a)', ga.P, 'exp(-B/2)*b*exp(B/2)')
        m = U.lower(**cfg)
        for n, zc in (('rot_V', 7), ('rot_B', 0)):
            w = U.wraps[n]
            if not decide.available(rep, w, w.out): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                for region in ('general', 'zero', 'e12'):
                    A = nf.Algebra(); G = ga.GA(A)
                    b = G.var(ga.B, 'a'); x = G.var(w.ins[1], 'b')
                    boxes, facts = {}, []
                    if region == 'general': facts = [(G.sumsq(b), 1e-280, 1e280)]
                    elif region == 'zero': boxes = {'a.%d' % k: fp.box(0., 0.) for k in range(3)}
                    else: boxes = {'a.0': fp.box(0., 0.), 'a.1': fp.box(0., 0.)}; facts = [(A.mul(b[3], b[3]), 1e-280, 1e280)]
                    R = part.Region(B.g, A, boxes=dict(boxes, **{'b.%d' % k: common.zn(1e30) for k in range(3)}), default=common.zn(1e140), facts=facts).merging()
                    L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(4)])
                    rep.functions.add(w.sig); rep.count('leaves', len(L))
                    for c, rs in L:
                        if any(not c.val(h)[0] & common.VALID for h in halves(B.g, c)):
                            rep.count('leaves_with_subnormal_half_angle'); continue
                        ns = {cc: c.nf(r) for cc, r in zip(w.out.comps, rs)}
                        loc = next((decide.node_loc(r) for r in rs if decide.node_loc(r)), None)
                        if any(isinstance(v, str) for v in ns.values()):
                            rep.hold('%s, %s is defined' % (w.sig, region), False, where=loc, expected='finite', found=str([decide.show(c, v)[:40] for v in ns.values()]), path=c.describe())
                            continue
                        rep.hold('%s, %s: no %s part' % (w.sig, region, ga.NAMES[zc]), decide.equal(c, ns[zc], A.c(0)) or tiny(A, ns[zc]), where=loc, expected='0', found=A.show(ns[zc]), path=c.describe())
                        sq = A.c(0)
                        for k, v in ns.items():
                            if k != zc: sq = A.add(sq, A.mul(v, v))
                        rep.hold('%s, %s: magnitude kept' % (w.sig, region), decide.equal(c, sq, G.sumsq(x)), where=loc, expected=A.show(G.sumsq(x)), found=A.show(sq), path=c.describe())
                        if region == 'e12' and n == 'rot_V':
                            # linear in the vector: images of the basis vectors; half angle: cos t = 2 cos^2(t/2) - 1
                            h = A.scale(b[3], nf.Fraction(1, 2))
                            hh = A.abs(h)
                            sn, cs = A.trig(hh)
                            if not boxes.get('a.2'): sn = A.mul(sn, A.div(h, hh))
                            ct = A.sub(A.mul(cs, cs), A.mul(sn, sn)); st = A.scale(A.mul(sn, cs), 2)
                            want = {1: A.sub(A.mul(x[1], ct), A.mul(x[2], st)), 2: A.add(A.mul(x[1], st), A.mul(x[2], ct)), 4: x[4]}
                            for k, e in want.items():
                                rep.hold('rotation in the e12 plane, component %s' % ga.NAMES[k], decide.equal(c, ns[k], e), where=loc, expected=A.show(e), found=A.show(ns[k]), path=c.describe())
                    rep.sample('%s, %s: %d leaves' % (w.sig, region, len(L)))
    rep.assume = ['real arithmetic semantics inside a region']
    return rep.finish()
def halves(g, c):
    """the halved components of the bivector"""
    out = []
    for k in range(3):
        a = g.inp('a.%d' % k)
        for n in list(g.tab.values()):
            if n.op == 'fmul' and a in n.args and any(x.op == 'cd' for x in n.args): out.append(c.resolve(n))
    return out
def tiny(A, n): return False
