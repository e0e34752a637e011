"""Floating point classes x intervals: abstract values and transfer functions
for IEEE double operations (round to nearest, default environment)."""
import math
from . import vg

NANS, NINF, NNORM, NSUB, NZERO, PZERO, PSUB, PNORM, PINF = 3, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200
ALL = 0x3ff
FINITE = 0x1f8
NUM = ALL & ~NANS
INF = math.inf
MINN = 2.2250738585072014e-308
MAXN = 1.7976931348623157e308
DEN = 5e-324
ORDER = [(NINF, -INF, -INF), (NNORM, -MAXN, -MINN), (NSUB, -(MINN-DEN), -DEN), (NZERO, 0., 0.), (PZERO, 0., 0.), (PSUB, DEN, MINN-DEN), (PNORM, MINN, MAXN), (PINF, INF, INF)]
NAMES = {NANS: 'nan', NINF: '-inf', NNORM: 'negative normal', NSUB: 'negative subnormal', NZERO: '-0', PZERO: '+0', PSUB: 'positive subnormal', PNORM: 'positive normal', PINF: '+inf'}
EMPTY = (0, INF, -INF)

def norm(mask, lo, hi):
    """mutually reduce classes and interval"""
    m = mask & NANS
    nlo, nhi = INF, -INF
    for c, a, b in ORDER:
        if mask & c:
            x, y = max(lo, a), min(hi, b)
            if x <= y:
                m |= c
                if x < nlo: nlo = x
                if y > nhi: nhi = y
    return (m, nlo, nhi)
TOP = norm(ALL, -INF, INF)

def const(x):
    if math.isnan(x): return (NANS, INF, -INF)
    if x == 0: return (NZERO if math.copysign(1, x) < 0 else PZERO, x, x)
    return norm(NUM, x, x)
def box(lo, hi, mask=NUM):
    return norm(mask, lo, hi)
def cls(mask):
    return norm(mask, -INF, INF)
def meet(a, b):
    return norm(a[0] & b[0], max(a[1], b[1]), min(a[2], b[2]))
def join(a, b):
    if not a[0]: return b
    if not b[0]: return a
    return (a[0] | b[0], min(a[1], b[1]), max(a[2], b[2]))
def hasnum(a): return bool(a[0] & NUM)
def maynan(a): return bool(a[0] & NANS)
def isnan(a): return bool(a[0]) and not (a[0] & NUM)
def singleton(a): return not maynan(a) and a[1] == a[2]

def _res(lo, hi, nan, zeros=NZERO | PZERO):
    if lo > hi: return (NANS, INF, -INF) if nan else EMPTY
    m = NUM & ~((NZERO | PZERO) & ~zeros)
    r = norm(m, lo, hi)
    return (r[0] | NANS, r[1], r[2]) if nan else r

def add(a, b):
    if not a[0] or not b[0]: return EMPTY
    nan = maynan(a) or maynan(b)
    if not hasnum(a) or not hasnum(b): return (NANS, INF, -INF)
    if (a[0] & PINF and b[0] & NINF) or (a[0] & NINF and b[0] & PINF): nan = True
    def s(x, y, d):
        r = x + y
        return d if math.isnan(r) else r
    lo = s(a[1], b[1], -INF) if not (abs(a[1]) == INF and a[1] == -b[1]) else -INF
    hi = s(a[2], b[2], INF) if not (abs(a[2]) == INF and a[2] == -b[2]) else INF
    z = NZERO | PZERO
    if not (a[0] & NZERO and b[0] & NZERO): z = PZERO
    return _res(lo, hi, nan, z)
def neg(a):
    if not a[0]: return a
    m = a[0] & NANS
    for x, y in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
        if a[0] & x: m |= y
        if a[0] & y: m |= x
    return (m, -a[2], -a[1]) if hasnum(a) else (m, INF, -INF)
def sub(a, b): return add(a, neg(b))
POS = PZERO | PSUB | PNORM | PINF
NEG = NZERO | NSUB | NNORM | NINF
ZEROS = NZERO | PZERO
INFS = NINF | PINF
NANV = (NANS, INF, -INF)
def _infs(sa, sb):
    """infinities with the sign of a product of operands with these sign masks"""
    m = 0
    if (sa & POS and sb & POS) or (sa & NEG and sb & NEG): m |= PINF
    if (sa & POS and sb & NEG) or (sa & NEG and sb & POS): m |= NINF
    return norm(m, -INF, INF)
def _fin(a):
    return norm(a[0] & FINITE, a[1], a[2])
def mul(a, b):
    if not a[0] or not b[0]: return EMPTY
    if not hasnum(a) or not hasnum(b): return NANV
    if not (a[0] | b[0]) & INFS: return _mul(a, b)
    out = EMPTY
    if maynan(a) or maynan(b): out = NANV
    for x, y in ((a, b), (b, a)):
        if x[0] & INFS:
            if y[0] & ZEROS: out = join(out, NANV)
            nz = y[0] & ~(NANS | ZEROS)
            if nz: out = join(out, _infs(x[0] & INFS, nz))
    fa, fb = _fin(a), _fin(b)
    if fa[0] and fb[0]: out = join(out, _mul(fa, fb))
    return out
def _mul(a, b):
    nan = maynan(a) or maynan(b)
    c = []
    for x in (a[1], a[2]):
        for y in (b[1], b[2]):
            c.append(x*y)
    m = NUM & ~ZEROS
    # signs of zeros
    if (a[0] & POS and b[0] & POS) or (a[0] & NEG and b[0] & NEG): m |= PZERO
    if (a[0] & POS and b[0] & NEG) or (a[0] & NEG and b[0] & POS): m |= NZERO
    r = norm(m, min(c), max(c))
    return (r[0] | NANS, r[1], r[2]) if nan else r
def sqr(a):
    """x*x of the same value"""
    if not a[0]: return EMPTY
    if not hasnum(a): return (NANS, INF, -INF)
    f = fabs(a)
    return _res(f[1]*f[1], f[2]*f[2], maynan(a), PZERO)
def div(a, b):
    if not a[0] or not b[0]: return EMPTY
    if not hasnum(a) or not hasnum(b): return NANV
    out = EMPTY
    if maynan(a) or maynan(b): out = NANV
    za, zb = a[0] & ZEROS, b[0] & ZEROS
    ia, ib = a[0] & INFS, b[0] & INFS
    if (za and zb) or (ia and ib): out = join(out, NANV)
    # something nonzero over zero, infinite over finite
    nz = a[0] & ~(NANS | ZEROS)
    if nz and zb: out = join(out, _infs(nz, zb))
    if ia and b[0] & FINITE & ~ZEROS: out = join(out, _infs(ia, b[0] & FINITE & ~ZEROS))
    z = 0
    if (a[0] & POS and b[0] & POS) or (a[0] & NEG and b[0] & NEG): z |= PZERO
    if (a[0] & POS and b[0] & NEG) or (a[0] & NEG and b[0] & POS): z |= NZERO
    # finite over infinite
    if a[0] & FINITE and ib: out = join(out, norm(z, 0., 0.))
    fa, fb = _fin(a), norm(b[0] & FINITE & ~ZEROS, b[1], b[2])
    if fa[0] and fb[0]:
        lo, hi = INF, -INF
        parts = []
        if fb[1] < 0: parts.append((fb[1], min(fb[2], -DEN)))
        if fb[2] > 0: parts.append((max(fb[1], DEN), fb[2]))
        for l, h in parts:
            for x in (fa[1], fa[2]):
                for y in (l, h):
                    try: r = x/y
                    except OverflowError: r = math.copysign(INF, x)*math.copysign(1, y)
                    lo, hi = min(lo, r), max(hi, r)
        out = join(out, norm((NUM & ~ZEROS) | z, lo, hi))
    return out
def fabs(a):
    if not a[0]: return a
    if not hasnum(a): return (NANS, INF, -INF)
    lo = 0. if a[1] <= 0 <= a[2] else min(abs(a[1]), abs(a[2]))
    # classes
    m = a[0] & NANS
    for x, y in ((NINF, PINF), (NNORM, PNORM), (NSUB, PSUB), (NZERO, PZERO)):
        if a[0] & (x | y): m |= y
    return norm(m, lo, max(abs(a[1]), abs(a[2])))
def up(x, k=4):
    for _ in range(k): x = math.nextafter(x, INF)
    return x
def dn(x, k=4):
    for _ in range(k): x = math.nextafter(x, -INF)
    return x
def sqrt(a):
    if not a[0]: return a
    if not hasnum(a): return (NANS, INF, -INF)
    nan = maynan(a) or bool(a[0] & (NINF | NNORM | NSUB))
    if a[2] < 0: return (NANS, INF, -INF)
    lo = math.sqrt(max(a[1], 0.)); hi = math.sqrt(a[2]) if a[2] < INF else INF
    r = _res(lo, hi, nan)
    if not a[0] & NZERO: r = (r[0] & ~NZERO, r[1], r[2])
    return r
def _exp(x):
    try: return math.exp(x)
    except OverflowError: return INF
def exp(a):
    if not hasnum(a): return (NANS, INF, -INF) if a[0] else a
    lo = 0. if a[1] == -INF else dn(_exp(a[1])); hi = INF if a[2] == INF else up(_exp(a[2]))
    return _res(max(lo, 0.), hi, maynan(a), PZERO)
def log(a):
    if not hasnum(a): return (NANS, INF, -INF) if a[0] else a
    nan = maynan(a) or bool(a[0] & (NINF | NNORM | NSUB))
    if a[2] < 0: return (NANS, INF, -INF)
    lo = -INF if a[1] <= 0 else dn(math.log(a[1])); hi = INF if a[2] == INF else (-INF if a[2] == 0 else up(math.log(a[2])))
    return _res(lo, hi, nan)
def sin(a):
    if not hasnum(a): return (NANS, INF, -INF) if a[0] else a
    nan = maynan(a) or bool(a[0] & (NINF | PINF))
    if not (a[0] & FINITE): return (NANS, INF, -INF)
    lo, hi = a[1], a[2]
    h = math.pi/2 - 1e-15
    if -h <= lo and hi <= h:
        l, u = math.sin(lo), math.sin(hi)
        l = l if l == 0 else dn(l); u = u if u == 0 else up(u)
        return _res(max(l, -1.), min(u, 1.), nan)
    if 0 <= lo and hi <= math.pi - 1e-15:
        l, u = min(math.sin(lo), math.sin(hi)), 1.
        l = l if l == 0 else dn(l)
        return _res(max(l, 0. if lo > 0 or True else l), u, nan)
    return _res(-1., 1., nan)
def cos(a):
    if not hasnum(a): return (NANS, INF, -INF) if a[0] else a
    nan = maynan(a) or bool(a[0] & (NINF | PINF))
    if not (a[0] & FINITE): return (NANS, INF, -INF)
    f = fabs(a)
    if f[2] <= math.pi - 1e-15:
        return _res(max(dn(math.cos(f[2])), -1.), min(up(math.cos(f[1])), 1.) if f[1] > 1e-8 else 1., nan)
    return _res(-1., 1., nan)
def atan2(y, x):
    nan = maynan(x) or maynan(y)
    if not x[0] or not y[0]: return EMPTY
    if not hasnum(x) or not hasnum(y): return (NANS, INF, -INF)
    lo, hi = -3.141592653589794, 3.141592653589794
    if y[1] >= 0 and not y[0] & (NZERO | NNORM): lo = 0.
    if y[2] < 0: hi = 0.
    if x[1] > 0:
        lo, hi = max(lo, -1.5707963267948968), min(hi, 1.5707963267948968)
    return _res(lo, hi, nan)
def hypot(*v):
    if any(not a[0] for a in v): return EMPTY
    f = [fabs(a) for a in v]
    anyinf = any(a[0] & PINF for a in f)
    nan = any(maynan(a) for a in f)
    if nan and any(isnan(a) for a in f) and not anyinf: return (NANS, INF, -INF)
    g = [a for a in f if hasnum(a)]
    lo = max(a[1] for a in g); hi = sum(a[2] for a in g); hi = up(hi) if hi > 0 else 0.
    lo2 = lo
    try: lo2 = max(lo, dn(math.sqrt(sum(a[1]*a[1] for a in g)))) if all(a[1] < 1e150 for a in g) else lo
    except OverflowError: pass
    lo = dn(lo2) if lo2 > 0 else 0.
    if any(isnan(a) for a in f): return _res(INF, INF, True)
    return _res(lo, hi, nan, PZERO)
def fmin(a, b):
    if isnan(a): return b
    if isnan(b): return a
    if maynan(a) or maynan(b):
        return _res(min(a[1], b[1]), max(a[2], b[2]), maynan(a) and maynan(b))
    return _res(min(a[1], b[1]), min(a[2], b[2]), False)
def fmax(a, b): return neg(fmin(neg(a), neg(b)))
def csqrt(k, a, b):
    if not a[0] or not b[0]: return EMPTY
    inf = (a[0] | b[0]) & (NINF | PINF)
    if (isnan(a) or isnan(b)) and not inf: return (NANS, INF, -INF)
    if maynan(a) or maynan(b) or inf: return TOP
    fa, fb = fabs(a), fabs(b)
    m = math.sqrt(fa[2]) + math.sqrt(fb[2])
    m = up(m) if m > 0 else 0.
    if k == 0:
        lo = dn(math.sqrt(a[1])) if a[1] > 0 else 0.
        if b[1] == 0 and b[2] == 0:
            if a[2] <= 0: return _res(0., 0., False, PZERO)
            if a[1] >= 0: return _res(max(lo, 0.), up(math.sqrt(a[2])), False, PZERO)
        return _res(lo, m, False, PZERO)
    if b[1] == 0 and b[2] == 0 and a[1] >= 0: return _res(0., 0., False)
    lo, hi = -m, m
    if b[1] >= 0 and not b[0] & NZERO: lo = 0.
    return _res(lo, hi, False)
def fn(name, a):
    if any(not x[0] for x in a): return EMPTY
    if isinstance(name, tuple):
        base, k = name
        if base == 'csqrt': return csqrt(k, *a)
        inf = any(x[0] & (NINF | PINF) for x in a)
        nans = [isnan(x) for x in a]
        if base in ('__muldc3',):
            if any(nans) and not inf:
                # an overflowing partial product is recovered as infinity by the runtime
                big = max([max(abs(x[1]), abs(x[2])) for x in a if hasnum(x)] or [0.])
                if big < 1e153: return (NANS, INF, -INF)
                return TOP
            if not any(maynan(x) for x in a) and not inf:
                p, q, r, s = a
                return sub(mul(p, r), mul(q, s)) if k == 0 else add(mul(p, s), mul(q, r))
            return TOP
        if base == '__divdc3':
            if any(nans) and not inf:
                # zero denominators are recovered as infinities
                return TOP if not (nans[2] or nans[3]) and (a[2][1] <= 0 <= a[2][2] and a[3][1] <= 0 <= a[3][2]) else (NANS, INF, -INF)
            if not any(maynan(x) for x in a) and not inf:
                c, d = fabs(a[2]), fabs(a[3])
                m = max(c[1], d[1])
                if m > 0:
                    h = up(fabs(a[0])[2] + fabs(a[1])[2])
                    q = h/m if m > 1e-300 else INF
                    return _res(-up(2*q) if q < INF else -INF, up(2*q) if q < INF else INF, False)
            return TOP
        if base in ('cexp', 'ccosh', 'csinh', 'ccos', 'csin', 'clog'):
            if not inf and base != 'clog':
                if nans[0] and nans[1]: return (NANS, INF, -INF)
                if nans[0] and not (a[1][0] & (NZERO | PZERO)): return (NANS, INF, -INF)
                if nans[1] and not (a[0][0] & (NZERO | PZERO)): return (NANS, INF, -INF)
                if nans[0] and base in ('cexp', 'ccosh', 'csinh') and k == 0: return (NANS, INF, -INF)
                if not maynan(a[0]) and not maynan(a[1]):
                    # modulus bounded by the exponential of the growing part; a finite angle
                    x = a[1] if base in ('ccos', 'csin') else a[0]
                    h = x[2] if base == 'cexp' else max(abs(x[1]), abs(x[2]))
                    e = up(_exp(h), 8)
                    return _res(-e, e, False)
            return TOP
        return TOP
    f = {'sqrt': sqrt, 'fabs': fabs, 'sin': sin, 'cos': cos, 'exp': exp, 'log': log}.get(name)
    if f: return f(a[0])
    if name == 'atan2': return atan2(*a)
    if name in ('hypot', 'cabs'): return hypot(*a)
    if name == 'fmin': return fmin(*a)
    if name == 'fmax': return fmax(*a)
    if name == 'fma': return add(mul(a[0], a[1]), a[2])
    if name == 'carg': return atan2(a[1], a[0])
    if name in ('creal',): return a[0]
    if name in ('cimag',): return a[1]
    if name == 'copysign':
        x = fabs(a[0])
        return join(x, neg(x))
    if name in ('acos',):
        if not hasnum(a[0]): return (NANS, INF, -INF)
        x = a[0]
        return _res(0., 3.141592653589794, maynan(x) or x[1] < -1 or x[2] > 1)
    if name == 'asin':
        x = a[0]
        if not hasnum(x): return (NANS, INF, -INF)
        return _res(-1.5707963267948968, 1.5707963267948968, maynan(x) or x[1] < -1 or x[2] > 1)
    if name in ('cosh',):
        if isnan(a[0]): return (NANS, INF, -INF)
        return _res(1., INF, maynan(a[0]))
    if name in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
        x = a[0]
        if not hasnum(x): return (NANS, INF, -INF)
        r = lambda v: v if math.isinf(v) or abs(v) >= 2.**52 else float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}.get(name, lambda z: math.floor(z) if v is x[1] else math.ceil(z))(v))
        lo, hi = r(x[1]), r(x[2])
        return _res(min(lo, hi), max(lo, hi), maynan(x))
    if name in ('fmod', 'remainder'):
        x, y = a
        if isnan(x) or isnan(y): return (NANS, INF, -INF)
        nan = maynan(x) or maynan(y) or bool(x[0] & (NINF | PINF)) or y[1] <= 0 <= y[2]
        f = fabs(y)
        k = min(f[2] if name == 'fmod' else f[2]/2, max(abs(x[1]), abs(x[2])), MAXN)
        lo = 0. if name == 'fmod' and x[1] >= 0 else -k
        hi = 0. if name == 'fmod' and x[2] <= 0 else k
        return _res(lo, hi, nan)
    if name == 'tanh': return (NANS, INF, -INF) if isnan(a[0]) else _res(-1., 1., maynan(a[0]))
    if name == 'atan': return (NANS, INF, -INF) if isnan(a[0]) else _res(-1.5707963267948968, 1.5707963267948968, maynan(a[0]))
    if name in ('log2', 'log10', 'logb', 'log1p') and hasnum(a[0]) and a[0][1] > 0:
        return _res(-1100., 1100., maynan(a[0])) if not a[0][0] & PINF else _res(-1100., INF, maynan(a[0]))
    if name == 'pow': return TOP
    if all(isnan(x) for x in a) and name in vg.FN1: return (NANS, INF, -INF)
    return TOP
REL = {'oeq': '=', 'ogt': '>', 'oge': '>=', 'olt': '<', 'ole': '<=', 'one': '<>', 'ord': '<=>', 'ueq': '=u', 'ugt': '>u', 'uge': '>=u', 'ult': '<u', 'ule': '<=u', 'une': '<>u', 'uno': 'u'}
def relations(a, b, same=False):
    """possible relations between two abstract values: subset of '<=>u'"""
    if not a[0] or not b[0]: return ''
    r = ''
    if hasnum(a) and hasnum(b):
        if same:
            r = '='
        else:
            if a[1] < b[2]: r += '<'
            if a[1] <= b[2] and b[1] <= a[2]: r += '='
            if a[2] > b[1]: r += '>'
    if maynan(a) or maynan(b): r += 'u'
    return r
