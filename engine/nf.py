"""Normal forms: multivariate rational functions over input atoms and interned
function atoms.  Exact coefficients; the defining relations of the function
atoms are rewrite rules applied during multiplication."""
import math
from fractions import Fraction
from . import vg

TOL = Fraction(1, 10**12)
MAXTERMS = 60000

class TooBig(vg.Unmodelled):
    pass

def num(x):
    """float/int/Fraction -> int or Fraction"""
    if isinstance(x, int): return x
    if isinstance(x, float):
        x = Fraction(x)
    return x.numerator if x.denominator == 1 else x

ONE = {(): 1}
ZERO = {}

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else -c if s == -1 else s*c)
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def pscale(a, c):
    if c == 0: return {}
    if c == 1: return a
    return {m: num(v*c) if not isinstance(v*c, int) else v*c for m, v in a.items()}
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))

class NF:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=ONE):
        self.n, self.d = n, d
    def isconst(self):
        return self.d == ONE and (not self.n or (len(self.n) == 1 and () in self.n))
    def const(self):
        return self.n.get((), 0)

class Algebra:
    def __init__(self):
        self.atoms = []         # id -> (kind, payload)
        self.byname = {}
        self.byfn = {}          # fname -> [(args, id)]
        self.red = {}           # atom id -> poly of its square
        self.nonneg = set()     # atoms known >= 0
        self.oppair = {}
        self.inputsigns = {}
    # ------------- atoms --------------------------------------------------
    def name(self, i):
        k, p = self.atoms[i]
        if k == 'in': return p
        return '%s(%s)' % (k if isinstance(k, str) else '.'.join(map(str, k)), ', '.join(self.show(x) for x in p))
    def var(self, name):
        if name not in self.byname:
            self.byname[name] = len(self.atoms)
            self.atoms.append(('in', name))
        return NF({((self.byname[name], 1),): 1})
    def new(self, kind, payload):
        self.atoms.append((kind, payload))
        return len(self.atoms) - 1
    def at(self, i, e=1):
        return NF({((i, e),): 1})
    def c(self, x):
        x = num(x)
        return NF({(): x} if x != 0 else {})
    # ------------- polynomial arithmetic with reduction ---------------------
    def pmul(self, a, b):
        if not a or not b: return {}
        if a == ONE: return b
        if b == ONE: return a
        if len(a)*len(b) > MAXTERMS*20: raise TooBig('normal form too large')
        r = {}
        red = self.red
        pend = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                bad = False
                for k, e in m:
                    if e > 1 and k in red:
                        bad = True; break
                v = c1*c2
                if bad:
                    if pend is None: pend = {}
                    w = pend.get(m, 0) + v
                    if w == 0: pend.pop(m, None)
                    else: pend[m] = w
                else:
                    w = r.get(m, 0) + v
                    if w == 0: r.pop(m, None)
                    else: r[m] = w
        if pend:
            for m, v in pend.items():
                r = padd(r, self.reduce_mono(m, v))
        for m in list(r):
            if not isinstance(r[m], int): r[m] = num(r[m])
        if len(r) > MAXTERMS: raise TooBig('normal form too large')
        return r
    def reduce_mono(self, m, v):
        keep, fac = [], []
        for k, e in m:
            if e > 1 and k in self.red:
                if e % 2: keep.append((k, 1))
                fac.append((k, e//2))
            else:
                keep.append((k, e))
        p = {tuple(keep): v}
        for k, e in fac:
            for _ in range(e):
                p = self.pmul(p, self.red[k])
        return p
    def mk(self, n, d):
        """simplified quotient"""
        if not n: return NF({})
        if d == ONE: return NF(n)
        if len(d) == 1 and () in d:
            return NF(pscale(n, Fraction(1)/d[()]))
        # common monomial
        def common(p):
            it = iter(p)
            c = dict(next(it))
            for m in it:
                dm = dict(m)
                for k in list(c):
                    e = min(c[k], dm.get(k, 0))
                    if e: c[k] = e
                    else: del c[k]
                if not c: break
            return c
        cn = common(n)
        if cn:
            cd = common(d)
            cm = {k: min(e, cd[k]) for k, e in cn.items() if k in cd}
            if cm:
                def strip(p):
                    out = {}
                    for m, c in p.items():
                        mm = tuple((k, e - cm.get(k, 0)) for k, e in m if e - cm.get(k, 0))
                        out[mm] = c
                    return out
                n, d = strip(n), strip(d)
        # proportional
        if len(n) == len(d):
            m0 = next(iter(d))
            if m0 in n:
                q = Fraction(n[m0])/d[m0]
                if all(m in n and n[m] == q*c for m, c in d.items()):
                    return self.c(q)
        # leading coefficient of the denominator 1
        lead = d[max(d)]
        if lead != 1:
            q = Fraction(1)/lead
            n, d = pscale(n, q), pscale(d, q)
        if d == ONE: return NF(n)
        if len(d) > 1 and len(n) >= len(d) and len(n)*len(d) < 20000:
            q = self.divexact(n, d)
            if q is not None: return NF(q)
        return NF(n, d)
    def divexact(self, n, d):
        """exact polynomial quotient n/d or None (no reducible atoms in d)"""
        ld = max(d)
        ldm = dict(ld); lc = d[ld]
        q = {}
        r = dict(n)
        steps = 0
        # use a graded key so that division terminates
        key = lambda m: (sum(e for _, e in m), m[::-1])
        ld = max(d, key=key); ldm = dict(ld); lc = d[ld]
        while r:
            steps += 1
            if steps > 400: return None
            lr = max(r, key=key)
            dm = dict(lr)
            for k, e in ldm.items():
                if dm.get(k, 0) < e: return None
                dm[k] -= e
            t = tuple(sorted((k, e) for k, e in dm.items() if e))
            c = num(Fraction(r[lr])/lc)
            q[t] = num(q.get(t, 0) + c)
            r = padd(r, self.pmul({t: c}, d), -1)
            if lr in r: return None
        return q
    def add(self, a, b, s=1):
        if a.d == b.d:
            return self.mk(padd(a.n, b.n, s), a.d)
        return self.mk(padd(self.pmul(a.n, b.d), self.pmul(b.n, a.d), s), self.pmul(a.d, b.d))
    def sub(self, a, b): return self.add(a, b, -1)
    def mul(self, a, b):
        # cross cancel equal factors first
        if a.n == b.d and a.n: return self.mk(b.n, a.d)
        if b.n == a.d and b.n: return self.mk(a.n, b.d)
        return self.mk(self.pmul(a.n, b.n), self.pmul(a.d, b.d))
    def inv(self, a):
        if not a.n: raise ZeroDivisionError
        return self.mk(a.d, a.n)
    def div(self, a, b):
        return self.mul(a, self.inv(b))
    def neg(self, a): return NF(pscale(a.n, -1), a.d)
    def scale(self, a, c): return NF(pscale(a.n, num(c)), a.d)
    def pow(self, a, k):
        if k < 0: return self.inv(self.pow(a, -k))
        r = self.c(1)
        for _ in range(k): r = self.mul(r, a)
        return r
    def iszero(self, p, ref):
        """is polynomial p zero up to the coefficient tolerance"""
        if not p: return True
        mx = max(abs(c) for c in ref.values()) if ref else 0
        return all(abs(c) <= TOL*mx for c in p.values())
    def eq(self, a, b):
        if a.n == b.n and a.d == b.d: return True
        if not a.n or not b.n:
            if not a.n and not b.n: return True
            # tolerance: a zero against tiny coefficients only
            return False
        if a.d == b.d:
            return self.iszero(padd(a.n, b.n, -1), a.n)
        l = self.pmul(a.n, b.d); r = self.pmul(b.n, a.d)
        return self.iszero(padd(l, r, -1), l)
    def is0(self, a): return not a.n
    # ------------- signs ------------------------------------------------------
    def psign(self, p):
        """+1: poly >= 0 always, -1: <= 0 always, None unknown"""
        if not p: return 1
        s = None
        for m, c in p.items():
            t = 1 if c > 0 else -1
            for k, e in m:
                if e % 2 and k not in self.nonneg:
                    return None
            if s is None: s = t
            elif s != t: return None
        return s
    def sign(self, a):
        x, y = self.psign(a.n), self.psign(a.d)
        if x is None or y is None: return None
        return x*y
    def quotient_bound(self, a):
        """bound of the size of x*.../sqrt(x^2 + nonnegative terms), or None"""
        if len(a.n) != 1 or len(a.d) != 1: return None
        (mn, cn), = a.n.items(); (md, cd), = a.d.items()
        facs = []
        for k, e in mn: facs += [k]*e
        k0 = abs(cn)/abs(cd)
        for k, e in md:
            if self.atoms[k][0] != 'sqrt' or e > 2: return None
            q = self.red[k]
            for _ in range(e):
                for f in facs:
                    sq = self.red.get(f) or {((f, 2),): 1}
                    r = padd(q, sq, -1)
                    if self.atoms[f][0] not in ('cos', 'sin', 'atan2') and self.psign(r) == 1:
                        facs.remove(f); break
                else:
                    return None
        for f in facs:
            kd = self.atoms[f][0]
            if kd in ('cos', 'sin'): continue
            if kd == 'atan2': k0 = k0*3.1415926535897936
            else: return None
        return float(k0)
    # ------------- functions ----------------------------------------------------
    def intern(self, fname, args, eqv=None):
        lst = self.byfn.setdefault(fname, [])
        for ar, i in lst:
            if all(self.eq(x, y) for x, y in zip(ar, args)):
                return i, False
        i = self.new(fname, args)
        lst.append((args, i))
        return i, True
    def primitive(self, p):
        """(content c > 0, monomial, primitive poly) with p = c*mono*q; sign stays in q"""
        ints = [Fraction(c) for c in p.values()]
        g = Fraction(0)
        for c in ints:
            g = Fraction(math.gcd(g.numerator*c.denominator, c.numerator*g.denominator), g.denominator*c.denominator)
        if g == 0: g = Fraction(1)
        it = iter(p)
        cm = dict(next(it))
        for m in it:
            dm = dict(m)
            for k in list(cm):
                e = min(cm[k], dm.get(k, 0))
                if e: cm[k] = e
                else: del cm[k]
        q = {}
        for m, c in p.items():
            mm = tuple((k, e - cm.get(k, 0)) for k, e in m if e - cm.get(k, 0))
            q[mm] = num(c/g) if g != 1 else c
        return num(g), cm, q
    def csqrt_const(self, c):
        c = Fraction(c)
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a*a == c.numerator and b*b == c.denominator: return num(Fraction(a, b))
        return num(math.sqrt(c))
    def polysqrt(self, p):
        """s with s*s == p, or None"""
        key = lambda m: (sum(e for _, e in m), m[::-1])
        if len(p) > 300: return None
        l = max(p, key=key)
        if any(e % 2 for _, e in l): return None
        c = Fraction(p[l])
        if c < 0: return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a*a != c.numerator or b*b != c.denominator: return None
        s = {tuple((k, e//2) for k, e in l): num(Fraction(a, b))}
        lt = next(iter(s)); lc = s[lt]
        r = padd(p, self.pmul(s, s), -1)
        steps = 0
        while r:
            steps += 1
            if steps > 60: return None
            m = max(r, key=key)
            dm = dict(m)
            for k, e in lt:
                if dm.get(k, 0) < e: return None
                dm[k] -= e
            t = tuple(sorted((k, e) for k, e in dm.items() if e))
            if t in s: return None
            if key(t) >= key(lt): return None
            s[t] = num(Fraction(r[m])/(2*lc))
            r = padd(p, self.pmul(s, s), -1)
        return s
    def psqrt(self, p):
        """square root of a polynomial (assumed >= 0)"""
        if not p: return self.c(0)
        g, cm, q = self.primitive(p)
        out = self.c(self.csqrt_const(g))
        rest = {}
        for k, e in cm.items():
            if e // 2:
                f = self.abs_atom(k)
                out = self.mul(out, self.pow(f, e//2))
            if e % 2: rest[k] = 1
        if rest:
            q = self.pmul({tuple(sorted(rest.items())): 1}, q)
        if q == ONE: return out
        s = self.polysqrt(q)
        if s is not None:
            return self.mul(out, self.abs(NF(s)))
        # c*(1-cos^2) -> |sin|
        if len(q) == 2 and () in q:
            m = next(x for x in q if x != ())
            if len(m) == 1 and m[0][1] == 2 and q[()] == -q[m]:
                k = m[0][0]
                kd, ar = self.atoms[k]
                if kd == 'cos' and q[()] > 0:
                    i, _ = self.intern('sin', ar)
                    return self.mul(self.mul(out, self.c(self.csqrt_const(q[()]))), self.abs(self.at(i)))
        i, new = self.intern('sqrt', (NF(q),))
        if new:
            self.red[i] = q
            self.nonneg.add(i)
        return self.mul(out, self.at(i))
    def sqrt(self, a):
        if a.d == ONE: return self.psqrt(a.n)
        # p/q with q > 0: sqrt(p)/sqrt(q); sign of the denominator made positive
        n, d = a.n, a.d
        if self.psign(d) == -1:
            n, d = pscale(n, -1), pscale(d, -1)
        elif self.psign(d) is None:
            # denominators are not sign definite: p*q/q^2
            n, d2 = self.pmul(n, d), d
            return self.div(self.psqrt(n), self.abs(NF(d2)))
        return self.div(self.psqrt(n), self.psqrt(d))
    def abs_atom(self, k):
        if k in self.nonneg: return self.at(k)
        i, new = self.intern('abs', (self.at(k),))
        if new:
            self.red[i] = self.pmul({((k, 1),): 1}, {((k, 1),): 1})
            self.nonneg.add(i)
        return self.at(i)
    def pabs(self, p):
        s = self.psign(p)
        if s == 1: return NF(p)
        if s == -1: return NF(pscale(p, -1))
        g, cm, q = self.primitive(p)
        out = self.c(g)
        for k, e in cm.items():
            out = self.mul(out, self.pow(self.abs_atom(k), e))
        if len(q) == 1 and () in q:
            return out if q[()] > 0 else self.neg(out) if False else self.mul(out, self.c(abs(q[()])))
        s = self.psign(q)
        if s == 1: return self.mul(out, NF(q))
        if s == -1: return self.mul(out, NF(pscale(q, -1)))
        if q[max(q)] < 0: q = pscale(q, -1)
        i, new = self.intern('abs', (NF(q),))
        if new:
            self.red[i] = self.pmul(q, q)
            self.nonneg.add(i)
        return self.mul(out, self.at(i))
    def abs(self, a):
        if a.d == ONE: return self.pabs(a.n)
        return self.div(self.pabs(a.n), self.pabs(a.d))
    def trig(self, a):
        """(sin, cos) of a"""
        if not a.n: return self.c(0), self.c(1)
        if a.isconst():
            x = float(a.const())
            return self.c(math.sin(x)), self.c(math.cos(x))
        s = 1
        if a.n[max(a.n)] < 0:
            a, s = self.neg(a), -1
        # exact inverse functions
        if a.d == ONE and len(a.n) == 1:
            m, c = next(iter(a.n.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'atan2':
                y, x = self.atoms[m[0][0]][1]
                h = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                return self.scale(self.div(y, h), s), self.div(x, h)
        # intern by argument up to sign
        for ar, i in self.byfn.get('cos', []):
            if self.eq(ar[0], a):
                ic = i; break
            if self.eq(ar[0], self.neg(a)):
                ic = i; s = -s; a = ar[0]; break
        else:
            ic, _ = self.intern('cos', (a,))
        isn, new = self.intern('sin', (self.atoms[ic][1][0],))
        if new:
            self.red[isn] = padd(ONE, {((ic, 2),): 1}, -1)
        return self.scale(self.at(isn), s), self.at(ic)
    def exp(self, a):
        if not a.n: return self.c(1)
        if a.isconst(): return self.c(math.exp(float(a.const())))
        out = self.c(1)
        if a.d == ONE:
            rest = {}
            for m, c in a.n.items():
                if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'log' and (4*Fraction(c)).denominator == 1:
                    x = self.atoms[m[0][0]][1][0]
                    k = int(4*Fraction(c))
                    if k % 4 == 0: f, k = x, k//4
                    elif k % 2 == 0: f, k = self.sqrt(x), k//2
                    else: f = self.sqrt(self.sqrt(x))
                    out = self.mul(out, self.pow(f, k))
                elif m == ():
                    out = self.mul(out, self.c(math.exp(float(c))))
                else:
                    rest[m] = c
            # one factor per term
            for m, c in sorted(rest.items()):
                out = self.mul(out, self.exp1(NF({m: abs(c)}), 1 if c > 0 else -1))
            return out
        return self.mul(out, self.exp1(a, 1))
    def exp1(self, a, s):
        for ar, i in self.byfn.get('exp', []):
            if self.eq(ar[0], a): return self.pow(self.at(i), s)
            if self.eq(ar[0], self.neg(a)): return self.pow(self.at(i), -s)
            # integer multiples
        i, new = self.intern('exp', (a,))
        self.nonneg.add(i)
        return self.pow(self.at(i), s)
    def log(self, a):
        if not a.n: raise ZeroDivisionError
        if a.isconst():
            v = float(a.const())
            if v > 0: return self.c(math.log(v))
        def plog(p):
            g, cm, q = self.primitive(p)
            out = self.c(math.log(float(g))) if g != 1 else self.c(0)
            for k, e in cm.items():
                kd, ar = self.atoms[k]
                if kd == 'sqrt':
                    t = self.scale(self.log(ar[0]), Fraction(e, 2))
                elif kd == 'exp':
                    t = self.scale(ar[0], e)
                else:
                    base = self.abs_atom(k) if e % 2 == 0 else self.at(k)
                    i, new = self.intern('log', (base,))
                    t = self.scale(self.at(i), e)
                out = self.add(out, t)
            if q != ONE:
                i, new = self.intern('log', (NF(q),))
                out = self.add(out, self.at(i))
            return out
        return self.sub(plog(a.n), plog(a.d))
    def atan2(self, y, x):
        """interned up to a common positive factor"""
        if y.isconst() and x.isconst():
            return self.c(math.atan2(float(y.const()), float(x.const())))
        if self.is0(y) and self.sign(x) == 1: return self.c(0)
        for (yy, xx), i in self.byfn.get('atan2', []):
            # y*xx == yy*x  and  common factor positive
            if self.eq(self.mul(y, xx), self.mul(yy, x)):
                k = None
                if not self.is0(xx): k = self.sign(self.div(x, xx))
                elif not self.is0(yy): k = self.sign(self.div(y, yy))
                if k is None and not self.is0(yy): k = self.sign(self.div(y, yy))
                if k == 1: return self.at(i)
            # supplementary angle
            elif not self.is0(x) and not self.is0(y) and self.sign(y) == 1 and self.sign(yy) == 1 and self.eq(self.mul(y, xx), self.neg(self.mul(yy, x))):
                if self.sign(self.div(x, xx)) == -1: return self.sub(self.c(math.pi), self.at(i))
        i, new = self.intern('atan2', (y, x))
        if self.sign(y) == 1: self.nonneg.add(i)
        return self.at(i)
    def hypot(self, *a):
        s = self.c(0)
        for x in a: s = self.add(s, self.mul(x, x))
        return self.sqrt(s)
    def cosh_sinh(self, a):
        e = self.exp(a); f = self.inv(e)
        return self.scale(self.add(e, f), Fraction(1, 2)), self.scale(self.sub(e, f), Fraction(1, 2))
    def csqrt(self, x, y):
        if self.is0(y):
            s = self.sign(x)
            if s == 1: return self.sqrt(x), self.c(0)
            if s == -1: return self.c(0), self.sqrt(self.neg(x))
        i, new = self.intern('csqrt.re', (x, y))
        j, new2 = self.intern('csqrt.im', (x, y))
        self.nonneg.add(i)
        return self.at(i), self.at(j)
    def cmul(self, a, b, c, d):
        return (self.sub(self.mul(a, c), self.mul(b, d)), self.add(self.mul(a, d), self.mul(b, c)))
    def cdiv(self, a, b, c, d):
        q = self.add(self.mul(c, c), self.mul(d, d))
        return (self.div(self.add(self.mul(a, c), self.mul(b, d)), q), self.div(self.sub(self.mul(b, c), self.mul(a, d)), q))
    def fn(self, name, a):
        """NF of a library function application"""
        if isinstance(name, tuple):
            base, k = name
            return self.cfn(base, a)[k]
        if name == 'sqrt': return self.sqrt(a[0])
        if name == 'fabs': return self.abs(a[0])
        if name == 'sin': return self.trig(a[0])[0]
        if name == 'cos': return self.trig(a[0])[1]
        if name == 'tan':
            s, c = self.trig(a[0]); return self.div(s, c)
        if name == 'exp': return self.exp(a[0])
        if name == 'exp2': return self.exp(self.scale(a[0], math.log(2.)))
        if name == 'expm1': return self.sub(self.exp(a[0]), self.c(1))
        if name == 'log': return self.log(a[0])
        if name == 'log2': return self.scale(self.log(a[0]), 1/math.log(2.))
        if name == 'log10': return self.scale(self.log(a[0]), 1/math.log(10.))
        if name == 'log1p': return self.log(self.add(a[0], self.c(1)))
        if name == 'cosh': return self.cosh_sinh(a[0])[0]
        if name == 'sinh': return self.cosh_sinh(a[0])[1]
        if name == 'tanh':
            c, s = self.cosh_sinh(a[0]); return self.div(s, c)
        if name == 'hypot' or name == 'cabs': return self.hypot(*a)
        if name == 'atan2': return self.atan2(a[0], a[1])
        if name == 'carg': return self.atan2(a[1], a[0])
        if name == 'acos': return self.atan2(self.sqrt(self.sub(self.c(1), self.mul(a[0], a[0]))), a[0])
        if name == 'asin': return self.atan2(a[0], self.sqrt(self.sub(self.c(1), self.mul(a[0], a[0]))))
        if name == 'atan': return self.atan2(a[0], self.c(1))
        if name == 'fma': return self.add(self.mul(a[0], a[1]), a[2])
        if name in ('canonicalize',): return a[0]
        if name == 'creal': return a[0]
        if name == 'cimag': return a[1]
        if name == 'pow' and a[1].isconst():
            e = Fraction(a[1].const())
            if e.denominator == 1 and abs(e) <= 16: return self.pow(a[0], int(e))
            if e.denominator == 2 and abs(e) <= 16: return self.pow(self.sqrt(a[0]), int(2*e))
        if name == 'fmax' and a[0].n == a[1].n and a[0].d == a[1].d: return a[0]
        i, new = self.intern(name, tuple(a))
        return self.at(i)
    def cfn(self, base, a):
        if base == '__muldc3': return self.cmul(*a)
        if base == '__divdc3': return self.cdiv(*a)
        if base == 'conj': return a[0], self.neg(a[1])
        if base == 'csqrt': return self.csqrt(a[0], a[1])
        if base == 'cexp':
            e = self.exp(a[0]); s, c = self.trig(a[1])
            return self.mul(e, c), self.mul(e, s)
        if base == 'clog':
            return self.log(self.hypot(a[0], a[1])), self.atan2(a[1], a[0])
        if base in ('ccosh', 'csinh'):
            ch, sh = self.cosh_sinh(a[0]); s, c = self.trig(a[1])
            if base == 'ccosh': return self.mul(ch, c), self.mul(sh, s)
            return self.mul(sh, c), self.mul(ch, s)
        if base in ('ccos', 'csin'):
            ch, sh = self.cosh_sinh(a[1]); s, c = self.trig(a[0])
            if base == 'ccos': return self.mul(c, ch), self.neg(self.mul(s, sh))
            return self.mul(s, ch), self.mul(c, sh)
        i, _ = self.intern(base + '.re', tuple(a)); j, _ = self.intern(base + '.im', tuple(a))
        return self.at(i), self.at(j)
    # ------------- printing -----------------------------------------------------
    def pshow(self, p, lim=14):
        if not p: return '0'
        out = []
        for m, c in sorted(p.items(), key=lambda x: (-sum(e for _, e in x[0]), x[0])):
            s = '*'.join(self.name(k) + ('^%d' % e if e != 1 else '') for k, e in m)
            if isinstance(c, Fraction): cs = '%.17g' % float(c)
            else: cs = str(c)
            if s:
                if c == 1: t = s
                elif c == -1: t = '-' + s
                else: t = cs + '*' + s
            else: t = cs
            out.append(t if not out or t[0] == '-' else '+' + t)
            if len(out) >= lim:
                out.append(' + ...(%d terms)' % len(p)); break
        return ' '.join(out)
    def show(self, a):
        if a.d == ONE: return self.pshow(a.n)
        return '(%s)/(%s)' % (self.pshow(a.n), self.pshow(a.d))
