"""Conditions that depend on the floating point class of a single value:
evaluated once per class, however they are written (classification calls,
comparisons with limits, integer tests of the bit pattern, case selections)."""
from . import vg, fp

CLASSES = (fp.NANS, fp.NINF, fp.NNORM, fp.NSUB, fp.NZERO, fp.PZERO, fp.PSUB, fp.PNORM, fp.PINF)
E = 0x7ff << 52
S = 1 << 63
_POS = {fp.PZERO: (0, 0), fp.PSUB: (1, (1 << 52) - 1), fp.PNORM: (1 << 52, E - 1), fp.PINF: (E, E)}
BITS = {k: (v,) for k, v in _POS.items()}
BITS.update({n: tuple((a + S, b + S) for a, b in BITS[p]) for n, p in ((fp.NZERO, fp.PZERO), (fp.NSUB, fp.PSUB), (fp.NNORM, fp.PNORM), (fp.NINF, fp.PINF))})
BITS[fp.NANS] = ((E + 1, S - 1), (S + E + 1, 2*S - 1))
MAXNODES = 400
LOGIC = ('and', 'or', 'xor', 'not', 'select', 'icmp', 'zext', 'sext', 'trunc', 'lshr', 'shl', 'add', 'sub', 'isclass', 'fcmp', 'biteq', 'd2i', 'fpclass')

def width(ty):
    return int(ty[1:]) if ty[0] == 'i' else 64

def scan(c):
    """the single floating point value c depends on, or None"""
    base = None
    seen = set()
    todo = [c]
    while todo:
        n = todo.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if len(seen) > MAXNODES: return None
        if n.ty == 'd':
            if n.op == 'cd': continue
            if n.op == 'fneg' or (n.op == 'fn' and n.attr == 'fabs'):
                todo.append(n.args[0]); continue
            if base is not None and base is not n: return None
            base = n
            continue
        if n.op == 'ci': continue
        if n.op in LOGIC:
            todo += list(n.args); continue
        return None
    return base

def ivops(op, a, k, w):
    """interval list a, constant k, width w"""
    M = 1 << w
    out = []
    for lo, hi in a:
        if op == 'lshr': out.append((lo >> k, hi >> k) if k < w else (0, 0))
        elif op == 'shl':
            if (lo << k) >> w == (hi << k) >> w: out.append(((lo << k) % M, (hi << k) % M))
            else: out.append((0, M - 1))
        elif op == 'add':
            l, h = lo + k, hi + k
            if l // M == h // M: out.append((l % M, h % M))
            else: out += [(l % M, M - 1), (0, h % M)]
        elif op == 'and':
            if k == 0: out.append((0, 0)); continue
            z = (k & -k).bit_length() - 1
            m = k >> z
            if m & (m + 1): return None
            n = m.bit_length()
            l, h = lo >> z, hi >> z
            if l >> n == h >> n: out.append(((l & m) << z, (h & m) << z))
            else: out.append((0, k))
        elif op == 'xor':
            if k == M - 1: out.append((M - 1 - hi, M - 1 - lo))
            elif k == M >> 1 and lo >> (w-1) == hi >> (w-1): out.append((lo ^ k, hi ^ k))
            else: return None
        elif op == 'trunc':
            if lo >> w == hi >> w: out.append((lo % M, hi % M))
            else: out.append((0, M - 1))
        else: return None
    return tuple(sorted(set(out)))

def cmpiv(pred, a, b, w):
    h = 1 << (w - 1)
    def sg(v):
        out = []
        for lo, hi in v:
            if lo < h <= hi: out += [(lo, h - 1), (h - 2*h, hi - 2*h)]
            elif lo >= h: out.append((lo - 2*h, hi - 2*h))
            else: out.append((lo, hi))
        return out
    if pred[0] == 's': a, b = sg(a), sg(b); pred = 'u' + pred[1:]
    res = set()
    for al, ah in a:
        for bl, bh in b:
            if pred in ('eq', 'ne'):
                r = True if al == ah == bl == bh else False if ah < bl or bh < al else None
                if r is not None and pred == 'ne': r = not r
            else:
                lt, le = pred == 'ult', pred == 'ule'
                if pred in ('ugt', 'uge'):
                    x = (bl, bh, al, ah); strict = pred == 'ugt'
                else:
                    x = (al, ah, bl, bh); strict = lt
                r = (True if x[1] < x[2] else False if x[0] >= x[3] else None) if strict else (True if x[1] <= x[2] else False if x[0] > x[3] else None)
            res.add(r)
    return res.pop() if len(res) == 1 else None

def evaluate(c, base, k):
    memo = {}
    def ev(n):
        r = memo.get(n.id)
        if r is None:
            r = memo[n.id] = (_ev(n),)
        return r[0]
    def _ev(n):
        if n is base: return fp.cls(k)
        op = n.op
        if n.ty == 'd':
            if op == 'cd': return fp.const(vg.unbits(n.attr))
            v = ev(n.args[0])
            return fp.neg(v) if op == 'fneg' else fp.fabs(v)
        w = width(n.ty)
        if op == 'ci': return bool(n.attr & 1) if n.ty == 'i1' else ((n.attr, n.attr),)
        if op == 'select':
            q = ev(n.args[0])
            if q is not None: return ev(n.args[1] if q else n.args[2])
            x, y = ev(n.args[1]), ev(n.args[2])
            if x == y: return x
            if n.ty == 'i1' or x is None or y is None: return None
            return tuple(sorted(set(x) | set(y)))
        if n.ty == 'i1':
            if op == 'not':
                q = ev(n.args[0]); return None if q is None else not q
            if op in ('and', 'or'):
                x, y = ev(n.args[0]), ev(n.args[1]); stop = op == 'or'
                if x is stop or y is stop: return stop
                return None if x is None or y is None else (not stop)
            if op == 'xor':
                x, y = ev(n.args[0]), ev(n.args[1])
                return None if x is None or y is None else x != y
            if op == 'isclass':
                v = ev(n.args[0])
                return True if v[0] & ~n.attr == 0 else False if v[0] & n.attr == 0 else None
            if op == 'fcmp':
                a, b = ev(n.args[0]), ev(n.args[1])
                rs = fp.relations(a, b, n.args[0] is n.args[1]); want = fp.REL[n.attr]
                return True if all(x in want for x in rs) else False if not any(x in want for x in rs) else None
            if op == 'biteq':
                return cmpiv('eq', bits(ev(n.args[0])), bits(ev(n.args[1])), 64)
            if op == 'icmp':
                a, b = ev(n.args[0]), ev(n.args[1])
                if n.args[0].ty == 'i1':
                    if a is None or b is None: return None
                    a, b = ((int(a),)*2,), ((int(b),)*2,)
                    return cmpiv(n.attr, a, b, 1)
                if a is None or b is None: return None
                return cmpiv(n.attr, a, b, width(n.args[0].ty))
            if op == 'trunc':
                a = ev(n.args[0])
                a = a if a is None else ivops('trunc', a, 0, 1)
                return bool(a[0][0]) if a and len(a) == 1 and a[0][0] == a[0][1] else None
            return None
        if op == 'd2i': return bits(ev(n.args[0]))
        if op in ('zext', 'sext') and n.args[0].ty == 'i1':
            q = ev(n.args[0])
            if q is None: return ((0, 1),) if op == 'zext' else None
            return ((int(q),)*2,) if op == 'zext' else (((1 << w) - 1 if q else 0,)*2,)
        a = ev(n.args[0])
        if a is None: return None
        if op == 'zext': return a
        if op == 'trunc': return ivops('trunc', a, 0, w)
        if op in ('lshr', 'shl', 'add', 'sub', 'and', 'xor'):
            b = ev(n.args[1])
            if b is None: return None
            if op in ('add', 'and', 'xor') and len(a) == 1 and a[0][0] == a[0][1]: a, b = b, a
            if len(b) != 1 or b[0][0] != b[0][1]: return None
            kk = b[0][0]
            if op == 'sub': op, kk = 'add', (-kk) % (1 << w)
            return ivops(op, a, kk, w)
        return None
    return ev(c)

def bits(v):
    out = ()
    for k in CLASSES:
        if v[0] & k:
            if k in (fp.NNORM, fp.PNORM, fp.NSUB, fp.PSUB):
                import struct
                x = struct.unpack('<Q', struct.pack('<d', v[1]))[0] if v[1] == v[2] else None
                if x is not None: out += ((x, x),); continue
            out += BITS[k]
    return tuple(sorted(set(out)))

def mask(c):
    """(value, classes for which c is true) or None"""
    base = scan(c)
    if base is None: return None
    m = 0
    for k in CLASSES:
        r = evaluate(c, base, k)
        if r is None: return None
        if r: m |= k
    return base, m
