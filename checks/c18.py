import itertools, math
from engine import ga, harness, decide, report, fp, nf, part
from checks import common, c17
RULE = ('every near-equality form is lowered to SSA and its guards partition the region (reference grade zero or of moderate size); each guard is brought to the form "ratio to the tolerance against one", '
        'recognised by normal form as the documented difference of a grade (absolute, or relative to the reference); the truth value on every leaf must follow from these order relations: '
        'true exactly if every documented ratio is strictly below one')
EPS = 2.0**-52

class Order:
    """order relations among the quantities 1 (index 0) and |rho_k| (k >= 1) that a leaf establishes"""
    def __init__(self, c, ratios, tol):
        self.c, self.A = c, c.alg
        A = self.A
        self.sq = [A.c(1)] + [self.simplify(p) for p in ratios]
        self.tol = tol
        n = len(self.sq)
        # le[i][j]: 0 unknown, 1: i <= j, 2: i < j
        self.le = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        for k in range(1, n):
            if A.is0(self.sq[k]): self.add(k, 0, 2)
        self.unknown, self.half = [], []
        for a, b, s in c.rel.values(): self.atom(a, b, s)
        for k in range(n):
            for i in range(n):
                for j in range(n):
                    if self.le[i][k] and self.le[k][j]:
                        self.add(i, j, max(self.le[i][k], self.le[k][j]))
    def add(self, i, j, v):
        self.le[i][j] = max(self.le[i][j], v)
    def simplify(self, p):
        """apply the linear equalities of the leaf"""
        A = self.A
        for _ in range(12):
            done = True
            for d in decide.substitutions(self.c):
                if d.d != nf.ONE: continue
                for m, co in d.n.items():
                    if len(m) == 1 and m[0][1] == 1 and A.atoms[m[0][0]][0] == 'in':
                        k = m[0][0]
                        if any(kk == k for mm in d.n for kk, _ in mm if mm != m): continue
                        if not any(kk == k for q in (p.n, p.d) for mm in q for kk, _ in mm): continue
                        rest = nf.NF({mm: cc for mm, cc in d.n.items() if mm != m})
                        try: p = decide.subst(A, p, k, A.scale(rest, -1/nf.Fraction(co)))
                        except ZeroDivisionError: continue
                        done = False
                        break
            if done: break
        return p
    def atom(self, a, b, s):
        A, c = self.A, self.c
        if 'u' in s: self.unknown.append((a, b)); return
        va, vb = c.val(a), c.val(b)
        x, y = c.nf(a), c.nf(b)
        if isinstance(x, str) or isinstance(y, str): return
        pos = lambda v, n: v[1] > 0 or (v[1] >= 0 and not n.isconst() and self.positive(n))
        fl = {'<': '>', '>': '<', '=': '='}
        if not A.is0(x) and not A.is0(y):
            # bring to |x| against positive y
            definite = lambda v, n: v[1] >= 0 or v[2] <= 0 or pos(v, n)
            if not definite(vb, y) and definite(va, x):
                x, y, va, vb = y, x, vb, va
                s = ''.join(fl[r] for r in s)
            if vb[2] <= 0:
                x, y, va, vb = A.neg(x), A.neg(y), fp.neg(va), fp.neg(vb)
                s = ''.join(fl[r] for r in s)
            if not definite(vb, y): self.unknown.append((a, b)); return
            q = A.div(x, y)
            q = self.simplify(q)
            for i in range(len(self.sq)):
                for j in range(len(self.sq)):
                    if i == j or A.is0(self.sq[i]) or A.is0(self.sq[j]): continue
                    r = A.div(self.sq[i], self.sq[j])
                    if self.power(q, r):
                        self.relate(i, j, s, va[1] >= 0, q)
                        return
        # differences against zero:  (E - F) with E, F of the family
        if A.is0(x): x, y, s = y, x, ''.join(fl[r] for r in s)
        if A.is0(y):
            p = self.simplify(x)
            for t in self.difference(p):
                i, j, flip = t
                self.relate(i, j, ''.join(fl[r] for r in s) if flip else s, True)
                return
        self.unknown.append((a, b))
    def power(self, q, r):
        """is q, q^2 or q^4 the squared ratio r"""
        A = self.A
        for _ in range(3):
            if A.eq(q, r): return True
            if len(q.n) > 40 or len(q.d) > 40 or len(q.n)*len(q.n) > 4*len(r.n)**2 + 40: return False
            q = A.mul(q, q)
        return False
    def positive(self, n):
        return self.A.sign(n) == 1
    def difference(self, p):
        """p = k (rho_i^e - rho_j^e) * positive"""
        A = self.A
        for i in range(len(self.sq)):
            for j in range(i):
                for e in (1, 2):
                    for x, y in ((self.sq[i], self.sq[j]),):
                        d = A.sub(A.sqrt(x), A.sqrt(y)) if e == 1 else A.sub(x, y)
                        if A.is0(d): continue
                        q = A.div(p, d)
                        if q.isconst() or A.sign(q):
                            sg = A.sign(q) or (1 if q.const() > 0 else -1)
                            yield (i, j, sg < 0)
                        elif all(all(ee % 2 == 0 or A.atoms[kk][0] != 'in' or A.atoms[kk][1] in self.tol for kk, ee in m) for z in (q.n, q.d) for m in z) and len(q.n) == len(q.d) == 1:
                            c = next(iter(q.n.values()))/nf.Fraction(next(iter(q.d.values())))
                            yield (i, j, c < 0)
    def relate(self, i, j, s, nonneg, q=None):
        """rho_i s rho_j; if the left side is signed, only upper bounds of it on both signs would help: |x| < y needs both"""
        if nonneg:
            if s == '<': self.add(i, j, 2)
            elif s == '>': self.add(j, i, 2)
            elif s == '=': self.add(i, j, 1); self.add(j, i, 1)
            elif set(s) == set('<='): self.add(i, j, 1)
            elif set(s) == set('>='): self.add(j, i, 1)
        else:
            # signed left side: a lower bound on x is one on |x|
            if s == '>': self.add(j, i, 2)
            elif set(s) == set('>='): self.add(j, i, 1)
            elif s == '=': self.add(i, j, 1); self.add(j, i, 1)
            elif q is not None and '>' not in s:
                v = 2 if s == '<' else 1
                for i2, j2, q2, v2 in self.half:
                    if (i, j) == (i2, j2) and self.A.eq(q2, self.A.neg(q)): self.add(i, j, min(v, v2))
                self.half.append((i, j, q, v))
    def below(self, k): return self.le[k][0] == 2
    def notbelow(self, k): return self.le[0][k] >= 1

def judge(rep, w, B, A, ratios, boxes, facts, what, tol):
    """truth of the predicate on every leaf must be the conjunction of rho_k < 1"""
    r = decide.booleans(B, boxes, common.zn(1e90), facts=facts, alg=A)
    rep.count('leaves', len(r))
    for c, v, loc in r:
        o = Order(c, ratios, tol)
        n = range(1, len(ratios)+1)
        if v is True: ok = all(o.below(k) for k in n)
        elif v is False: ok = any(o.notbelow(k) for k in n)
        else: ok = False
        rep.hold('%s, %s' % (w.sig, what), ok, where=loc, expected='true exactly if ' + ' and '.join('%s < 1' % A.show(A.sqrt(p)) for p in ratios), found=v, path=c.describe())
    return len(r)

def check(tier):
    rep = report.Report('C18', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        for key, t, n, f in c17.forms():
            U.add('%s_%s' % (f, key), (t, t, 'double'), '%s(a, b, c)' % f, 'bool', '%s(%s, tol)' % (f, t))
            U.add('%s_%s_dflt' % (f, key), (t, t), '%s(a, b)' % f, 'bool', '%s(%s)' % (f, t))
        m = U.lower(**cfg)
        for key, t, n, f in c17.forms():
            if key in ga.BY and key != 'D':
                comps = ga.BY[key].comps
                groups = [[k for k in range(n) if ga.GRADE[comps[k]] == g] for g in range(4)]
                groups = [g for g in groups if g]
            else: groups = [list(range(n))]
            for suf in ('', '_dflt'):
                w = U.wraps['%s_%s%s' % (f, key, suf)]
                if not decide.available(rep, w, 'bool'): continue
                with rep.attempt(w.sig):
                    B = decide.build_graph(m, w)
                    rep.functions.add(w.sig)
                    for kinds in itertools.product('zn' if f != 'nearlyEqualsAbs' else 'a', repeat=len(groups)):
                        signs = ('', ) if key != 'D' or kinds != ('n',) else ('+', '-')
                        for sg in signs:
                            A = nf.Algebra()
                            tol = A.var('c.0') if suf == '' else A.c(EPS)
                            boxes, facts, ratios = {}, [], []
                            if suf == '': boxes['c.0'] = fp.box(1e-40, 1e40)
                            for g, kd in zip(groups, kinds):
                                a = [A.var('a.%d' % k) for k in g]; b = [A.var('b.%d' % k) for k in g]
                                if kd == 'z':
                                    for k, x in zip(g, a):
                                        boxes['b.%d' % k] = fp.box(0., 0.)
                                        ratios.append(A.div(A.mul(x, x), A.mul(tol, tol)))
                                    continue
                                dif, ref = A.c(0), A.c(0)
                                for x, y in zip(a, b):
                                    d = A.sub(x, y)
                                    dif = A.add(dif, A.mul(d, d)); ref = A.add(ref, A.mul(y, y))
                                if kd == 'a': ref = A.c(1)
                                else:
                                    facts.append((ref, 1e-160, 1e180))
                                    if len(g) == 1 and sg: boxes['b.%d' % g[0]] = fp.box(1e-80, 1e90) if sg == '+' else fp.box(-1e90, -1e-80)
                                    elif len(g) == 1:
                                        pass
                                ratios.append(A.div(dif, A.mul(ref, A.mul(tol, tol))))
                            nm = {'z': 'reference grade zero', 'n': 'reference grade not zero', 'a': 'absolute'}
                            k = judge(rep, w, B, A, ratios, boxes, facts, ', '.join(nm[x] for x in kinds) + (' (%s)' % sg if sg else ''), ('c.0',))
                    rep.sample('%s: grades %s, last region %d leaves' % (w.sig, groups, k))
    rep.assume = ['real arithmetic semantics of the compared expressions in the region (no overflow, reference grade zero or of magnitude 1e-80 .. 1e90)', 'references of smaller magnitude: the documented switch between absolute and relative form is not fixed by the property']
    return rep.finish()
