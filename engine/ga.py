"""Oracle: the right-handed orthonormal 3D Euclidean algebra, independent of
the code under analysis.  A component is a bit mask of basis vectors."""
from . import nf

# documented component order (masks): sca, e1, e2, e3, e23, e31, e12, e123
SCA = (0,)
VEC = (1, 2, 4)
BIV = (6, 5, 3)
TRI = (7,)
# e31 = -e13, all other listed blades are in increasing order
SIGN = {0: 1, 1: 1, 2: 1, 4: 1, 6: 1, 5: -1, 3: 1, 7: 1}
NAMES = {0: 'sca', 1: 'e1', 2: 'e2', 4: 'e3', 6: 'e23', 5: 'e31', 3: 'e12', 7: 'e123'}
GRADE = {m: bin(m).count('1') for m in range(8)}
ALL8 = SCA + VEC + BIV + TRI

class T:
    def __init__(self, key, cpp, comps):
        self.key, self.cpp, self.comps = key, cpp, comps
        self.n = len(comps)
        self.grades = frozenset(GRADE[c] for c in comps)
    def __repr__(self): return self.cpp

D = T('D', 'double', SCA)
S = T('S', 'Scalar', SCA)
V = T('V', 'Vector', VEC)
B = T('B', 'BiVector', BIV)
W = T('T', 'TriVector', TRI)
P = T('P', 'Spinor', SCA + BIV)
I = T('I', 'ImSpin', VEC + TRI)
C = T('C', 'ComPlex', SCA + TRI)
R = T('R', 'DirPlex', VEC + BIV)
M = T('M', 'MultiVector', ALL8)
NINE = (S, V, B, W, P, I, C, R, M)
TEN = (D,) + NINE
BLADES = (S, V, B, W)
BY = {t.key: t for t in TEN}
GRADESET = {t.grades: t for t in NINE}

def smallest(grades):
    """smallest entity type that holds the grades"""
    return min((t for t in NINE if grades <= t.grades), key=lambda t: t.n)

def bsign(a, b):
    """sign of the product of two basis blades in increasing order"""
    s = 0
    a >>= 1
    while a:
        s += bin(a & b).count('1')
        a >>= 1
    return -1 if s & 1 else 1

def csign(a, b):
    """sign of the product of two documented components"""
    return SIGN[a]*SIGN[b]*SIGN[a ^ b]*bsign(a, b)

def product_grades(t, u):
    g = set()
    for a in t.comps:
        for b in u.comps:
            g.add(GRADE[a ^ b])
    return frozenset(g)

class Elem(dict):
    """component mask -> NF (absent: zero)"""

class GA:
    def __init__(self, alg):
        self.A = alg
    def var(self, t, name):
        return Elem({c: self.A.var('%s.%d' % (name, k)) for k, c in enumerate(t.comps)})
    def const(self, d):
        return Elem({k: self.A.c(v) for k, v in d.items()})
    def mul(self, x, y):
        A = self.A
        r = {}
        for a, p in x.items():
            for b, q in y.items():
                v = A.mul(p, q)
                if csign(a, b) < 0: v = A.neg(v)
                c = a ^ b
                r[c] = A.add(r[c], v) if c in r else v
        return Elem({k: v for k, v in r.items() if v.n})
    def add(self, x, y, s=1):
        r = Elem(x)
        for k, v in y.items():
            if s < 0: v = self.A.neg(v)
            r[k] = self.A.add(r[k], v) if k in r else v
        return Elem({k: v for k, v in r.items() if v.n})
    def sub(self, x, y): return self.add(x, y, -1)
    def scale(self, x, s):
        return Elem({k: self.A.mul(v, s) for k, v in x.items()})
    def grades(self, x, flip):
        return Elem({k: self.A.neg(v) if GRADE[k] in flip else v for k, v in x.items()})
    def neg(self, x): return self.grades(x, {0, 1, 2, 3})
    def reverse(self, x): return self.grades(x, {2, 3})
    def oddverse(self, x): return self.grades(x, {1, 3})
    def dirverse(self, x): return self.grades(x, {1, 2})
    def dual(self, x): return self.mul(self.const({7: 1}), x)
    def part(self, x, gr): return Elem({k: v for k, v in x.items() if GRADE[k] in gr})
    def sumsq(self, x):
        s = self.A.c(0)
        for v in x.values(): s = self.A.add(s, self.A.mul(v, v))
        return s
    def comp(self, x, t, k):
        return x.get(t.comps[k], self.A.c(0))
