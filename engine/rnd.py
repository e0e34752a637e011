"""Rounding error domain: a priori bounds of |computed - exact| of a select
free value graph term, in units of the rounding unit u = 2^-53 (first order).

A value is abstracted by
  R     bound of the relative error (posynomial), or None
  alts  alternatives (V, E): |exact value| <= V, |error| <= u*E
Posynomials range over atoms of the normal form algebra and stand for their
sizes; inputs count as the largest component of their operand.
"""
import math
from fractions import Fraction
from . import vg, fp, nf

class Unbounded(Exception): pass

def pc(c): return {(): float(c)} if c else {}
def padd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items(): r[m] = r.get(m, 0.) + c
    return r
def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if not d[k]: del d[k]
    return tuple(sorted(d.items(), key=lambda x: str(x[0])))
def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0.) + c*d
    return r
def pscale(p, k): return {m: c*k for m, c in p.items()}
def pmax(p, q):
    r = dict(p)
    for m, c in q.items(): r[m] = max(r.get(m, 0.), c)
    return r
def ppow(p, e):
    """upper bound of p^e, 0 < e <= 1"""
    return {tuple((k, x*e) for k, x in m): c**float(e) for m, c in p.items()}

class Val:
    def __init__(self, R, alts): self.R, self.alts = R, alts

class Rounding:
    def __init__(self, ctx, scales, keep=()):
        self.c, self.A = ctx, ctx.alg
        self.scales = scales      # input name -> scale symbol
        self.keep = set(keep)     # atoms that occur in the specified bound
        self.memo = {}
        self.why = {}
    # ------------------------------------------------------------ normal form sizes
    def size(self, n):
        """posynomial bounding |n|"""
        if isinstance(n, str): raise Unbounded('undefined value')
        if not n.n: return {}
        if len(n.d) != 1:
            i, _ = self.A.intern('size', (n,))
            return {((i, 1),): 1.}
        (md, cd), = n.d.items()
        r = {}
        for m, c in n.n.items():
            k = mmul(tuple((a, Fraction(e)) for a, e in m), tuple((a, Fraction(-e)) for a, e in md))
            r[k] = r.get(k, 0.) + abs(float(Fraction(c)/Fraction(cd)))
        return r
    def invsize(self, n):
        """posynomial bounding 1/|n|"""
        A = self.A
        if len(n.n) == 1: return self.size(A.inv(n))
        if A.sign(n) in (1, -1):
            q = A.sqrt(n if A.sign(n) == 1 else A.neg(n))
            if len(q.n) == 1 or len(q.n) < len(n.n):
                s = self.invsize(q)
                return pmul(s, s)
        i, _ = A.intern('size', (n,))
        return {((i, Fraction(-1)),): 1.}
    def alternatives(self, l):
        out = []
        for v in l:
            if v not in out: out.append(v)
        return out[:6]
    def exactsize(self, r, val):
        """size of the exact value, from its normal form"""
        n = self.c.nf(r)
        if isinstance(n, str): return None
        if len(n.n) <= 1 and len(n.d) == 1: return self.size(n)
        return None
    # ------------------------------------------------------------ transfer
    def of(self, r):
        v = self.memo.get(r.id)
        if v is None:
            v = self.memo[r.id] = self.step(r)
        return v
    def finish(self, r, R, alts):
        if R is None:
            v = self.c.val(r) # bounded away from zero by the guards
            if fp.hasnum(v) and not fp.maynan(v) and (v[1] > 0 or v[2] < 0):
                lo = v[1] if v[1] > 0 else -v[2]
                if lo > 1e-6 and alts: R = pscale(alts[0][1], 1/lo)
        if R is not None:
            s = self.exactsize(r, None)
            if s is not None: alts = alts + [(s, pmul(R, s))]
            n = self.c.nf(r)
            if isinstance(n, nf.NF) and n.n:
                q = self.A.quotient_bound(n)
                if q is not None: alts = [(pc(q), pscale(R, q))] + alts
        if not alts:
            if R is None: raise Unbounded('no bound')
            s = self.size(self.c.nf(r))
            alts = [(s, pmul(R, s))]
        return Val(R, self.alternatives(alts))
    def step(self, r):
        op = r.op
        A = self.A
        if op == 'in':
            v = self.c.R.box(r.attr)
            if fp.singleton(v): return Val({}, [(pc(abs(v[1])), {})])
            k = next(iter(A.var(r.attr).n))[0][0]
            self.scales.setdefault(k, r.attr.split('.')[0])
            return Val({}, [({((k, Fraction(1)),): 1.}, {})])
        if op == 'cd':
            x = vg.unbits(r.attr)
            if math.isnan(x) or math.isinf(x): raise Unbounded('not finite')
            return Val({}, [(pc(abs(x)), {})])
        if op == 'fneg' or op == 'fpext': return self.of(r.args[0])
        if op == 'fptrunc' and r.args[0].ty == 'x': return self.of(r.args[0])
        if op in ('fadd', 'fsub'):
            a, b = r.args
            x, y = self.of(a), self.of(b)
            R = None
            if x.R is not None and y.R is not None:
                na, nb = self.c.nf(a), self.c.nf(b)
                sa, sb = A.sign(na), A.sign(nb)
                if op == 'fsub' and sb is not None: sb = -sb
                if not nb.n: R = x.R
                elif not na.n: R = y.R
                elif sa is not None and sa == sb: R = padd(pmax(x.R, y.R), pc(1))
                elif not x.R and not y.R: R = pc(1)   # one rounding of exact operands
            alts = []
            for V, E in x.alts:
                for W, F in y.alts:
                    s = padd(V, W)
                    alts.append((s, padd(E, F, s) if s else {}))
            return self.finish(r, R, alts)
        if op == 'fmul':
            return self.prod(r, self.of(r.args[0]), self.of(r.args[1]))
        if op == 'fdiv':
            x, y = self.of(r.args[0]), self.of(r.args[1])
            if y.R is None: raise Unbounded('division by a value without bounded relative error')
            R = padd(x.R, y.R, pc(1)) if x.R is not None else None
            d = self.c.nf(r.args[1])
            alts = []
            if isinstance(d, nf.NF) and d.n:
                s = self.invsize(d)
                for V, E in x.alts:
                    W = pmul(V, s)
                    alts.append((W, padd(pmul(E, s), pmul(W, padd(y.R, pc(1))))))
            return self.finish(r, R, alts)
        if op == 'fn': return self.func(r)
        raise vg.Unmodelled('no rounding rule for %s' % op)
    def prod(self, r, x, y, more=1):
        R = padd(x.R, y.R, pc(more)) if x.R is not None and y.R is not None else None
        alts = []
        for V, E in x.alts:
            for W, F in y.alts:
                s = pmul(V, W)
                alts.append((s, padd(pmul(E, W), pmul(V, F), pscale(s, more))))
        return self.finish(r, R, alts)
    def best(self, v):
        """error alternative without symbols in the denominator"""
        for V, E in v.alts:
            try: return V, self.reduce(E), E
            except Unbounded: pass
        raise Unbounded('argument without bounded error')
    def func(self, r):
        f = r.attr
        A = self.A
        a = [self.of(x) for x in r.args]
        if f in ('fabs', 'canonicalize'): return self.finish(r, a[0].R, a[0].alts)
        if f == 'sqrt':
            if a[0].R is None: raise Unbounded('square root of a difference')
            return self.finish(r, padd(pscale(a[0].R, .5), pc(1)), [])
        if f in ('hypot', 'cabs'):
            R = None
            if all(x.R is not None for x in a):
                R = {}
                for x in a: R = pmax(R, x.R)
                R = padd(R, pc(2))
            V, E = {}, {}
            for x in a:
                V = padd(V, x.alts[0][0]); E = padd(E, x.alts[0][1])
            return self.finish(r, R, [(V, padd(E, pscale(V, 2)))])
        if f in ('sin', 'cos'):
            _, _, e = self.best(a[0])
            alts = [(pc(1), padd(e, pc(1)))]
            if f == 'sin' and a[0].R is not None:
                s = self.exactsize(r.args[0], a[0])
                if s is not None: alts.append((s, padd(pmul(a[0].R, s), s)))
            return self.finish(r, None, alts)
        if f == 'exp' or f == ('cexp', 0) or f == ('cexp', 1):
            _, _, e = self.best(a[0])
            R = padd(e, pc(1))
            if f == 'exp': return self.finish(r, R, [])
            s = self.size(A.exp(self.c.nf(r.args[0])))
            _, _, e2 = self.best(a[1])
            E = pmul(s, padd(R, e2, pc(2)))
            return self.finish(r, None, [(s, E)])
        if f == 'log':
            if a[0].R is None: raise Unbounded('logarithm of a difference')
            s = self.size(self.c.nf(r))
            return self.finish(r, None, [(s, padd(a[0].R, s))])
        if f == ('clog', 0):
            if a[0].R is None or a[1].R is None: raise Unbounded('logarithm of a difference')
            s = self.size(self.c.nf(r))
            return self.finish(r, None, [(s, padd(pmax(a[0].R, a[1].R), s, pc(2)))])
        if f in ('atan2', 'carg', ('clog', 1)):
            if a[0].R is None or a[1].R is None: raise Unbounded('angle of a difference')
            return self.finish(r, padd(a[0].R, a[1].R, pc(1)), [])
        if f == 'atan':
            if a[0].R is None: raise Unbounded('angle of a difference')
            return self.finish(r, padd(a[0].R, pc(1)), [])
        if f in ('acos', 'asin'):
            v = self.c.val(r.args[0])
            _, _, e = self.best(a[0])
            if fp.hasnum(v) and not fp.maynan(v) and max(abs(v[1]), abs(v[2])) <= .99:
                return self.finish(r, pscale(padd(pscale(e, 8), pc(3.1416)), 8.) if f == 'acos' else None, [(pc(3.1416), padd(pscale(e, 8), pc(3.1416)))])
            raise Unbounded('%s near the ends of its range loses half of the digits' % f)
        if f == 'fma':
            alts = []
            for V, E in a[0].alts:
                for W, F in a[1].alts:
                    for X, H in a[2].alts:
                        s = padd(pmul(V, W), X)
                        alts.append((s, padd(pmul(E, W), pmul(V, F), H, s)))
            R = None
            if all(x.R is not None for x in a):
                na = [self.c.nf(x) for x in r.args]
                if any(isinstance(x, str) for x in na): raise Unbounded('undefined value')
                sg = A.sign(A.mul(na[0], na[1]))
                if sg is not None and sg == A.sign(na[2]): R = padd(pmax(padd(a[0].R, a[1].R), a[2].R), pc(1))
            return self.finish(r, R, alts)
        if f == 'pow':
            n = self.c.nf(r.args[1])
            if isinstance(n, nf.NF) and n.isconst() and a[0].R is not None:
                return self.finish(r, padd(pscale(a[0].R, abs(float(n.const()))), pc(2)), [])
            raise Unbounded('power of a difference')
        if isinstance(f, tuple) and f[0] == '__muldc3':
            pr = [(0, 2), (1, 3)] if f[1] == 0 else [(0, 3), (1, 2)]
            V, E = {}, {}
            for i, j in pr:
                (W, F), (X, H) = a[i].alts[0], a[j].alts[0]
                s = pmul(W, X)
                V = padd(V, s); E = padd(E, pmul(W, H), pmul(F, X), pscale(s, 2))
            return self.finish(r, None, [(V, E)])
        if isinstance(f, tuple) and f[0] == '__divdc3':
            # (a + bi)/(c + di): sum of two products over c^2 + d^2
            n = [self.c.nf(x) for x in r.args]
            if any(isinstance(x, str) for x in n): raise Unbounded('undefined value')
            pr = [(0, 2), (1, 3)] if f[1] == 0 else [(1, 2), (0, 3)]
            sg = 1 if f[1] == 0 else -1
            q = A.add(A.mul(n[2], n[2]), A.mul(n[3], n[3]))
            if not q.n: raise Unbounded('division by zero')
            inv = self.invsize(q)
            den = self.invsize(A.sqrt(q))
            D = pc(6) # divisor: error relative to its size
            for x in a[2:]: D = padd(D, pscale(x.R if x.R is not None else pmul(x.alts[0][1], den), 2))
            V, E, Rs, ss = {}, {}, [], []
            for t, (i, j) in enumerate(pr):
                if not n[i].n or not n[j].n: continue
                (W, F), (X, H) = a[i].alts[0], a[j].alts[0]
                s = pmul(pmul(W, X), inv)
                V = padd(V, s); E = padd(E, pmul(padd(pmul(W, H), pmul(F, X)), inv), pmul(s, padd(D, pc(2))))
                Rs.append(None if a[i].R is None else padd(a[i].R, a[j].R, D, pc(2)))
                z = A.sign(A.mul(n[i], n[j]))
                ss.append(None if z is None else z*(sg if t else 1))
            R = None
            if not Rs: R = {}
            elif None not in Rs and (len(Rs) == 1 or ss[0] is not None and ss[0] == ss[1]):
                R = Rs[0]
                for x in Rs[1:]: R = pmax(R, x)
            return self.finish(r, R, [(V, E)])
        raise vg.Unmodelled('no rounding rule for %s' % (f,))
    # ------------------------------------------------------------ elimination
    def atom(self, k):
        """posynomial over scales and kept atoms that bounds |atom|"""
        if isinstance(k, str) or k in self.keep: return {((k, Fraction(1)),): 1.}
        kd, ar = self.A.atoms[k]
        if kd == 'in': return {((self.scales.get(k, ar.split('.')[0]), Fraction(1)),): 1.}
        if kd in ('sin', 'cos'): return pc(1)
        if kd == 'atan2': return pc(3.1416)
        if kd == 'sqrt': return ppow(self.reduce(self.size(nf.NF(self.A.red[k]))), Fraction(1, 2))
        if kd == 'abs': return self.reduce(self.size(ar[0]))
        if kd == 'size': return self.reduce(self.size(ar[0])) if len(ar[0].d) == 1 else {((k, Fraction(1)),): 1.}
        return {((k, Fraction(1)),): 1.}
    def cancel(self, m):
        """x / sqrt(x^2 + nonnegative) <= 1"""
        d = dict(m)
        for k in [k for k, e in m if e < 0 and not isinstance(k, str) and self.A.atoms[k][0] in ('sqrt', 'abs')]:
            q = self.A.red.get(k)
            if q is None: continue
            for j in [j for j, e in m if e > 0 and not isinstance(j, str)]:
                while d.get(j, 0) >= 1 and d.get(k, 0) <= -1:
                    sq = self.A.red.get(j) or {((j, 2),): 1}
                    t = nf.padd(q, sq, -1)
                    if self.A.psign(t) != 1: break
                    d[j] -= 1; d[k] += 1
        return tuple((k, e) for k, e in d.items() if e)
    def reduce(self, p):
        r = {}
        for m, c in p.items():
            m = self.cancel(m)
            t = pc(c)
            for k, e in m:
                if e < 0:
                    if k in self.keep:
                        t = pmul(t, {((k, e),): 1.}); continue
                    raise Unbounded('error grows without bound as %s becomes small' % (k if isinstance(k, str) else self.A.name(k)))
                b = self.atom(k)
                w = int(e)
                for _ in range(w): t = pmul(t, b)
                if e - w: t = pmul(t, ppow(b, e - w))
            r = padd(r, t)
        return r
    def ratio(self, r, scale):
        """bound of error / (u * scale) of the term, or None with a reason"""
        try:
            v = self.of(r)
        except Unbounded as e:
            return None, str(e)
        why = 'error is not of the order of the operands'
        res = None
        if v.R is not None and not any(m for m in v.R): res = v.R.get((), 0.)
        for V, E in v.alts:
            try: p = self.reduce(E)
            except Unbounded as e:
                why = str(e); continue
            k = 0.
            for m, c in p.items():
                m = tuple(sorted(m, key=lambda x: str(x[0])))
                if c <= 0: continue
                if m not in scale:
                    k = None
                    why = 'error has a term of order %s' % ('*'.join('%s^%s' % (x if isinstance(x, str) else self.A.name(x), e) for x, e in m) or '1')
                    break
                k = max(k, c/scale[m])
            if k is not None and (res is None or k < res): res = k
        return res, why
