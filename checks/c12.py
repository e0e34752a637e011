from engine import ga, harness, decide, report, fp, nf, part, vg
from engine.nf import Fraction
from checks import common
RULE = ('logG2: guard partition of the region 1e-12 <= |s| <= 1e150 (components zero or normal; caller plane 1e-150..1e150): scalar part log|s| on every leaf; bivector part atan2(|B|,s) B/|B|, '
        'or zero only on leaves whose guards imply an angle below 1e-7, or pi times the unit caller plane only on leaves that imply an angle above pi-1e-7; a leaf with an undefined direction must be '
        'contradicted by its own guards (cos bounded away from +-1 while sin vanishes)')
ANG = 1e-7

class Bounds:
    """bounds which the guards of a leaf imply for the cosine and sine of the rotation angle"""
    def __init__(self, c, s, b2, S):
        A = c.alg
        self.A = A
        m, b = A.sqrt(S), A.sqrt(b2)
        self.cos, self.sin = [-1., 1.], [0., 1.]
        self.scal = [-fp.INF, fp.INF]
        self.ang = [0., 3.15]
        self.angn = A.atan2(b, s)
        cosn, sinn = A.div(s, m), A.div(b, m)
        cos2, sin2 = A.div(A.mul(s, s), S), A.div(b2, S)
        nodes = {}
        for x, y, rs in c.rel.values():
            nodes[x.id] = x; nodes[y.id] = y
        for t in c.trail:
            if t[0] == 'cls': nodes[t[1].id] = t[1]
        for i in list(c.refined):
            pass
        byid = c.R.g.__dict__.setdefault('_byid', {})
        if len(byid) != len(c.R.g.tab):
            byid.clear(); byid.update({n.id: n for n in c.R.g.tab.values()})
        for i in c.refined: nodes[i] = byid[i]
        def isq(n, q):
            """n == k*q for a positive constant k"""
            try: r = A.div(n, q)
            except ZeroDivisionError: return None
            try:
                if r.isconst() and float(r.const()) > 0: return float(r.const())
            except OverflowError:
                pass
            return None
        self.mag = None
        for nd in nodes.values():
            if nd.ty != 'd' or nd.op == 'cd': continue
            try: n = c.nf(nd)
            except (vg.Unmodelled, ZeroDivisionError): continue
            if isinstance(n, str) or not n.n: continue
            v = c.val(nd)
            if not fp.hasnum(v) or fp.maynan(v): continue
            self.take(n, v[1], v[2], isq, cosn, sinn, cos2, sin2, s)
            # direct bounds on |B| against the smallest magnitude of the region
            for q, e in ((b, 1), (b2, 2)):
                k = isq(n, q)
                if k and v[2] < fp.INF:
                    h = max(v[2], 0.)/k
                    self.sin[1] = min(self.sin[1], (h if e == 1 else h**.5)/1e-12)
        for x, y, rs in c.rel.values():
            try: nx, ny = c.nf(x), c.nf(y)
            except (vg.Unmodelled, ZeroDivisionError): continue
            if isinstance(nx, str) or isinstance(ny, str) or 'u' in rs: continue
            if not nx.n or not ny.n: continue
            sy = A.sign(ny)
            if sy in (1, -1):
                r = A.div(nx, ny)
                lo, hi = -fp.INF, fp.INF
                up, down = ('>' not in rs), ('<' not in rs)
                if sy < 0: up, down = down, up
                if up: hi = 1.
                if down: lo = 1.
                self.take(r, lo, hi, isq, cosn, sinn, cos2, sin2, None)
            sx = A.sign(nx)
            if sx in (1, -1):
                r = A.div(ny, nx)
                lo, hi = -fp.INF, fp.INF
                up, down = ('<' not in rs), ('>' not in rs)
                if sx < 0: up, down = down, up
                if up: hi = 1.
                if down: lo = 1.
                self.take(r, lo, hi, isq, cosn, sinn, cos2, sin2, None)
    def take(self, n, lo, hi, isq, cosn, sinn, cos2, sin2, s):
        k = isq(n, cosn)
        if k: self.cos = [max(self.cos[0], lo/k), min(self.cos[1], hi/k)]
        else:
            k = isq(self.A.neg(n), cosn)
            if k: self.cos = [max(self.cos[0], -hi/k), min(self.cos[1], -lo/k)]
        k = isq(n, sinn)
        if k: self.sin = [max(self.sin[0], lo/k), min(self.sin[1], hi/k)]
        k = isq(n, self.angn)
        if k: self.ang = [max(self.ang[0], lo/k), min(self.ang[1], hi/k)]
        k = isq(n, sin2)
        if k and hi >= 0: self.sin = [max(self.sin[0], max(lo, 0.)**.5/k**.5), min(self.sin[1], (hi/k)**.5)]
        if s is not None:
            k = isq(n, s)
            if k: self.scal = [max(self.scal[0], lo), min(self.scal[1], hi)]
            else:
                k = isq(self.A.neg(n), s)
                if k: self.scal = [max(self.scal[0], -hi), min(self.scal[1], -lo)]
    LIM = 1 - ANG*ANG/2
    def near_plus(self):
        return self.cos[0] >= self.LIM or self.ang[1] <= ANG or (self.sin[1] <= ANG and (self.cos[0] >= 0 or self.scal[0] >= 0))
    def near_minus(self):
        return self.cos[1] <= -self.LIM or self.ang[0] >= 3.1415926535897932 - ANG or (self.sin[1] <= ANG and (self.cos[1] <= 0 or self.scal[1] <= 0))
    def impossible(self):
        """sin and cos cannot both be this small; a rounded s/|s| of a pure scalar is at least 1-2^-53 in size"""
        top = 1 - 2.**-52
        if self.ang[1] <= 1e-9 and self.cos[1] <= top: return True
        if self.ang[0] >= 3.1415926535 and self.cos[0] >= -top: return True
        return self.sin[1] <= 1e-9 and self.cos[1] <= top and self.cos[0] >= -top

def dircheck(c, A, rs, vecs):
    return all(decide.equal(c, c.nf(r), v) for r, v in zip(rs, vecs))

def check(tier):
    rep = report.Report('C12', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        U.add('log_PB', (ga.P, ga.B), 'logG2(a, b)', ga.P, 'logG2(Spinor, BiVector)')
        U.add('log_P', (ga.P,), 'logG2(a)', ga.P, 'logG2(Spinor)')
        m = U.lower(**cfg)
        for n in ('log_PB', 'log_P'):
            w = U.wraps[n]
            if not decide.available(rep, w, 'Spinor'): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                A = nf.Algebra(); G = ga.GA(A)
                a = G.var(ga.P, 'a')
                S = G.sumsq(a); b = G.part(a, {2}); b2 = G.sumsq(b)
                plane = G.var(ga.B, 'b') if len(w.ins) == 2 else G.const({6: 1})
                pl = G.scale(plane, A.inv(A.sqrt(G.sumsq(plane))))
                facts = [(S, 1e-24, 1e300)]
                if len(w.ins) == 2: facts.append((G.sumsq(plane), 1e-300, 1e300))
                R = part.Region(B.g, A, default=common.zn(1e150), facts=facts).merging()
                L = part.leaves(part.Ctx(R), [B.out('o', k) for k in range(4)])
                rep.functions.add(w.sig); rep.count('leaves', len(L))
                bl = A.sqrt(b2)
                ang = A.atan2(bl, a[0])
                gen = [A.mul(ang, A.div(b[k], bl)) for k in ga.BIV]
                half = [A.mul(A.c(3.141592653589793), pl.get(k, A.c(0))) for k in ga.BIV]
                kinds = {}
                for c, rs in L:
                    bd = Bounds(c, a[0], b2, S)
                    if bd.impossible():
                        kinds['contradictory'] = kinds.get('contradictory', 0) + 1
                        continue
                    x = c.nf(rs[0])
                    rep.hold('scalar part of %s' % w.sig, decide.equal(c, x, A.log(A.sqrt(S))), where=decide.node_loc(rs[0]), expected='log of the magnitude', found=decide.show(c, x), path=c.describe())
                    ok = None
                    if dircheck(c, A, rs[1:], gen): ok = 'general'
                    elif dircheck(c, A, rs[1:], [A.c(0)]*3): ok = 'plus' if bd.near_plus() else None
                    elif dircheck(c, A, rs[1:], half): ok = 'minus' if bd.near_minus() else None
                    kinds[ok] = kinds.get(ok, 0) + 1
                    rep.hold('bivector part of %s' % w.sig, ok is not None, where=decide.node_loc(rs[1]), expected='angle times direction (zero or caller plane only within 1e-7 of the special angles)',
                             found='(%s, ...) with cos in [%.17g, %.17g], sin in [%.3g, %.3g]' % (decide.show(c, c.nf(rs[1])), bd.cos[0], bd.cos[1], bd.sin[0], bd.sin[1]), path=c.describe())
                rep.sample('%s: leaves by kind %s' % (w.sig, kinds))
                zb = {'a.%d' % k: fp.box(0., 0.) for k in range(4)}
                common.must_invalid(rep, m, w, zb, [('o', 4)], 'logarithm of zero is not valid', graph=B)
                for k in range(4):
                    common.must_invalid(rep, m, w, {'a.%d' % k: common.NAN}, [('o', 4)], 'logarithm with NaN in component %d is not valid' % k, graph=B)
    rep.assume = ['real arithmetic semantics inside a region', 'sqrt(x*x)/x is within one unit in the last place of one']
    return rep.finish()
