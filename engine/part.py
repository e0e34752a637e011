"""Guard partition of value graph terms: conditions are decided in the class x
interval domain of the region; what it leaves open partitions the region."""
import re, sys, math
from fractions import Fraction
from . import vg, fp, nf, clsfun
sys.setrecursionlimit(20000)

class NeedSplit(Exception):
    def __init__(self, atom): self.atom = atom

class Region:
    """input boxes, facts about polynomials of the inputs"""
    def __init__(self, graph, alg, boxes=None, default=None, facts=(), name=''):
        self.g, self.alg = graph, alg
        self.boxes = boxes or {}
        self.default = default if default is not None else fp.box(-1e30, 1e30)
        self.name = name
        self.facts = {}
        self.factlist = []
        for p, lo, hi in facts:
            self.fact(p, lo, hi)
        self.nfcache = {}
        self.exact_zero = False
        self.mergeable = False
    def merging(self):
        """values are compared as normal forms only: alternatives with the same value are one (finite operands)"""
        self.mergeable = all(not b[0] & ~fp.FINITE for b in [self.default] + list(self.boxes.values()))
        return self
    def fact(self, p, lo, hi):
        """p: NF with constant denominator"""
        self.factlist.append((p, lo, hi))
        k, c = self.key(p.n)
        self.facts[k] = (lo/c, hi/c) if c > 0 else (hi/c, lo/c)
    @staticmethod
    def key(p):
        """polynomial up to a constant factor"""
        c = p[max(p)]
        return frozenset((m, Fraction(v)/c) for m, v in p.items()), float(c)
    def lookup(self, p):
        k, c = self.key(p)
        f = self.facts.get(k)
        if f is None: return None
        return (f[0]*c, f[1]*c) if c > 0 else (f[1]*c, f[0]*c)
    def box(self, name):
        return self.boxes.get(name, self.default)

SLACK = 1e-11

class Ctx:
    def __init__(self, region):
        self.R = region
        self.g, self.alg = region.g, region.alg
        self.refined = {}
        self.rel = {}          # (a.id,b.id) -> (a, b, set)
        self.bools = {}
        self.ints = {}
        self.vcache = {}
        self.rcache = {}
        self.trail = []
        self.dead = False
        self.mergefail = set()
    def child(self):
        c = Ctx(self.R)
        c.refined = dict(self.refined); c.rel = dict(self.rel); c.bools = dict(self.bools); c.ints = dict(self.ints)
        c.trail = list(self.trail)
        return c
    # ---------------------------------------------------- resolved terms
    def resolve(self, nd):
        r = self.rcache.get(nd.id)
        if r is not None: return r
        if nd.op == 'select':
            try:
                r = self.resolve(nd.args[1] if self.decide(nd.args[0]) else nd.args[2])
            except NeedSplit as s:
                r = self.merged(nd, s.atom)
                if r is None: raise s
        elif nd.op == 'gap':
            raise vg.Unmodelled('a loop that may take more than %d steps at %s' % (vg.unroll.COPIES, nd.attr))
        elif not nd.args:
            r = nd
        elif nd.ty == 'i1':
            r = self.g.true if self.decide(nd) else self.g.false
        elif nd.op == 'eff':
            r = self.g.mk(nd.op, nd.attr, [self.resolve(a) for a in nd.args], nd.ty, nd.loc)
            if r.loc is None: r.loc = nd.loc
        else:
            args = [self.resolve(a) for a in nd.args]
            r = self.folded(nd, args) or self.g.mk(nd.op, nd.attr, args, nd.ty, nd.loc)
        self.rcache[nd.id] = r
        return r
    def folded(self, nd, args):
        """integer operation on constants"""
        if any(a.op != 'ci' for a in args) or nd.ty[:1] != 'i' or not nd.ty[1:].isdigit(): return None
        w = int(nd.ty[1:])
        if len(args) == 1:
            x = args[0].attr
            if nd.op in ('zext', 'trunc'): return self.g.ci(x, w)
            w0 = int(args[0].ty[1:])
            if nd.op == 'sext': return self.g.ci(x - (1 << w0) if x >> (w0-1) & 1 else x, w)
            return None
        if len(args) != 2: return None
        x, y = args[0].attr, args[1].attr
        sx = x - (1 << w) if x >> (w-1) & 1 else x
        f = {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y if y < w else None, 'lshr': lambda: x >> y if y < w else None, 'ashr': lambda: sx >> y if y < w else None,
             'udiv': lambda: x//y if y else None, 'urem': lambda: x % y if y else None}.get(nd.op)
        v = f() if f else None
        return None if v is None else self.g.ci(v, w)
    def merged(self, nd, atom):
        """alternative that has the value of the selection on both sides of the split, or None"""
        if not self.R.mergeable or nd.ty != 'd': return None
        key = (nd.id, atom[0]) + tuple(getattr(x, 'id', x) for x in atom[1:])
        if key in self.mergefail: return None
        r = None
        try:
            r = self._merged(nd, atom)
        except (NeedSplit, vg.Unmodelled, ZeroDivisionError):
            pass
        if r is None: self.mergefail.add(key)
        return r
    def _merged(self, nd, atom):
        A = self.alg
        t, f = self.resolve(nd.args[1]), self.resolve(nd.args[2])
        x, y = self.nf(t), self.nf(f)
        if isinstance(x, str) or isinstance(y, str): return None
        def wider(a, b):
            a, b = self.val(a), self.val(b)
            return not b[0] & ~a[0] and a[1] <= b[1] and b[2] <= a[2]
        d = A.sub(x, y)
        if A.is0(d): return t if wider(t, f) else f if wider(f, t) else None
        # one side of the split is an equality, on which both alternatives have the same value
        if atom[0] == 'cls':
            a = atom[1]; v = self.val(a)[0]
            eqside = [s for s in (True, False) if not v & (atom[2] if s else ~atom[2]) & ~fp.ZEROS]
            e = self.nf(a)
        elif atom[0] == 'rel':
            rs = self.relset(atom[1], atom[2])
            eqside = [s for s in (True, False) if all(x == '=' for x in rs if (x in atom[3]) == s)]
            e, b = self.nf(atom[1]), self.nf(atom[2])
            if isinstance(b, str) or isinstance(e, str): return None
            e = A.sub(e, b)
        else: return None
        if len(eqside) != 1 or isinstance(e, str) or A.is0(e): return None
        k = self.assume(atom, not eqside[0])
        if k is None: return None
        pick, other = (t, f) if k.decide(nd.args[0]) else (f, t)
        k = self.assume(atom, eqside[0])
        if k is not None and k.decide(nd.args[0]) == (pick is t): return None
        if not wider(pick, other) or A.divexact(d.n, e.n) is None: return None
        return pick
    def classmask(self, c):
        """(node, mask) if the condition is a pure predicate on the floating
        point class of one value, else None"""
        k = self.g.__dict__.setdefault('clsmemo', {})
        if c.id not in k: k[c.id] = clsfun.mask(c)
        return k[c.id]
    def decide(self, c):
        g = self.g
        if c is g.true: return True
        if c is g.false: return False
        op = c.op
        if op in ('and', 'or', 'xor', 'isclass', 'fcmp', 'select', 'icmp', 'biteq', 'trunc'):
            cm = self.classmask(c)
            if cm is not None:
                a = self.resolve(cm[0])
                v = self.val(a)
                if v[0] & ~cm[1] == 0: return True
                if v[0] & cm[1] == 0: return False
                raise NeedSplit(('cls', a, cm[1])) # partition by class of that value
        if op == 'not': return not self.decide(c.args[0])
        if op in ('and', 'or'):
            stop = op == 'or'
            try:
                if self.decide(c.args[0]) == stop: return stop
            except NeedSplit as s:
                try:
                    if self.decide(c.args[1]) == stop: return stop
                except NeedSplit:
                    pass
                raise s
            return self.decide(c.args[1])
        if op == 'select':
            return self.decide(c.args[1] if self.decide(c.args[0]) else c.args[2])
        if op == 'fcmp':
            a, b = self.resolve(c.args[0]), self.resolve(c.args[1])
            rs = self.relset(a, b)
            want = fp.REL[c.attr]
            if all(x in want for x in rs): return True
            if not any(x in want for x in rs): return False
            raise NeedSplit(('rel', a, b, want))
        if op == 'isclass':
            a = self.resolve(c.args[0])
            v = self.val(a)
            if v[0] & ~c.attr == 0: return True
            if v[0] & c.attr == 0: return False
            raise NeedSplit(('cls', a, c.attr))
        if op == 'biteq':
            a, b = self.resolve(c.args[0]), self.resolve(c.args[1])
            if a is b: return True
            va, vb = self.val(a), self.val(b)
            if va[0] & vb[0] == 0: return False
            if a.op == 'cd' and b.op == 'cd': return a.attr == b.attr
            # bit equality with zero pattern etc: by relation
            rs = self.relset(a, b)
            if '=' not in rs and 'u' not in rs: return False
            k = self.g.mk('biteq', None, (a, b), 'i1')
            if k.id in self.bools: return self.bools[k.id]
            raise NeedSplit(('bit', k))
        if op == 'icmp':
            r = self.icmp(c)
            if r is not None: return r
            if c.args[0].ty[:1] == 'i' and c.attr in ('slt', 'sle', 'sgt', 'sge'):
                x, y = (self.irange(self.resolve(z)) for z in c.args)
                if x and y:
                    if c.attr in ('sgt', 'sge'): x, y = y, x
                    strict = c.attr[2] == 't'
                    if x[1] < y[0] or x[1] == y[0] and not strict: return True
                    if x[0] > y[1] or x[0] == y[1] and strict: return False
        if op == 'ovf':
            a, b = self.resolve(c.args[0]), self.resolve(c.args[1])
            if c.attr[0] == 's':
                x, y = self.irange(a), self.irange(b)
                if x and y:
                    h = 1 << (int(a.ty[1:])-1)
                    lo, hi = self.iop(c.attr[1:], x, y)
                    if -h <= lo and hi < h: return False
                    if hi < -h or lo >= h: return True
        a = self.g.mk(op, c.attr, [self.resolve(x) for x in c.args], c.ty, c.loc) if c.args and op != 'in' else c
        if a.id in self.bools: return self.bools[a.id]
        raise NeedSplit(('bool', a))
    def icmp(self, c):
        """integer comparison of (input + const) with a constant"""
        a, b = self.resolve(c.args[0]), self.resolve(c.args[1])
        pred = c.attr
        if a.op == 'ci' and b.op != 'ci':
            a, b = b, a
            pred = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(pred, pred)
        if b.op != 'ci': return None
        w = int(b.ty[1:])
        k = b.attr
        off = 0
        base = a
        if a.op == 'ci':
            rng = [(a.attr, a.attr)]
            base = None
        else:
            if a.op == 'add' and a.args[1].op == 'ci':
                base, off = a.args[0], a.args[1].attr
            elif a.op == 'and' and a.args[1].op == 'ci':
                # x & -2^k compared with zero:  x < 2^k
                mask = a.args[1].attr
                inv = (~mask) & ((1 << w)-1)
                if inv & (inv+1) == 0 and pred in ('eq',) and k == 0:
                    base, pred, k = a.args[0], 'ule', inv
            elif a.op == 'zext':
                base = a.args[0]; w2 = int(base.ty[1:])
                if base.ty == 'i1': return None
            elif a.op == 'lshr' and a.args[1].op == 'ci' and pred == 'eq':
                base = a.args[0]; sh = a.args[1].attr
                lo_, hi_ = k << sh, (k << sh) + (1 << sh) - 1
                off = -lo_; pred, k = 'ule', hi_ - lo_
            lo, hi = self.ints.get(base.id, (0, (1 << (int(base.ty[1:]))) - 1))
            M = 1 << w
            if (lo + off) // M != (hi + off) // M:
                cut = (-off) % M     # base values >= cut wrap
                raise NeedSplit(('int', base, cut))
            lo2, hi2 = (lo + off) % M, (hi + off) % M
        if base is None: lo2 = hi2 = a.attr
        if pred in ('slt', 'sle', 'sgt', 'sge'):
            h = 1 << (w-1); M = 1 << w
            if base is not None and lo2 < h <= hi2:
                raise NeedSplit(('int', base, (h - off) % M))
            s = lambda x: x - M if x >= h else x
            lo2, hi2, k = s(lo2), s(hi2), s(k)
            pred = 'u' + pred[1:]
        if pred == 'ult': pred, k = 'ule', k - 1
        if pred == 'uge': pred, k = 'ugt', k - 1
        def split(at):
            # at: first (shifted) value of the upper part
            if base is None: return None
            lo, hi = self.ints.get(base.id, (0, (1 << (int(base.ty[1:]))) - 1))
            raise NeedSplit(('int', base, lo + (at - lo2)))
        if pred == 'ule':
            if hi2 <= k: return True
            if lo2 > k: return False
            return split(k+1)
        if pred == 'ugt':
            if hi2 <= k: return False
            if lo2 > k: return True
            return split(k+1)
        if pred == 'eq':
            if lo2 == hi2: return lo2 == k
            if k < lo2 or k > hi2: return False
            return split(k if k > lo2 else k+1)
        return None
    # ---------------------------------------------------- abstract values
    def val(self, r):
        v = self.vcache.get(r.id)
        if v is not None: return v
        v = self.transfer(r)
        x = self.refined.get(r.id)
        if x is not None: v = fp.meet(v, x)
        if self.R.exact_zero and r.op in ('fadd', 'fsub', 'fmul') and r.ty == 'd' and not fp.singleton(v):
            n = self.nf(r)
            if isinstance(n, nf.NF) and not n.n: v = fp.norm(fp.NUM, 0., 0.)
        if self.R.facts and r.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fn', 'fneg') and r.ty == 'd':
            try:
                n = self.nf(r)
            except (vg.Unmodelled, ZeroDivisionError):
                n = None
            if isinstance(n, nf.NF) and n.isconst() and n.n and 1e-200 < abs(n.const()) < 1e200:
                k = float(n.const()); e = abs(k)*1e-9
                w = fp.meet(v, fp.norm(fp.ALL, k - e, k + e))
                if w[0]: v = w
            elif isinstance(n, nf.NF) and n.d != nf.ONE and len(n.n) == 1:
                k = self.alg.quotient_bound(n)
                if k is not None:
                    num = fp.NUM if all(self.positive_atom(a) for a, _ in next(iter(n.d))) else fp.ALL
                    w = fp.meet(v, fp.norm(num, -k*(1+SLACK), k*(1+SLACK)))
                    if w[0]: v = w
            elif isinstance(n, nf.NF) and n.d == nf.ONE and n.n:
                f = self.R.lookup(n.n) or self.rootfact(n.n)
                if f is not None:
                    lo, hi = f
                    lo = lo*(1-SLACK) if lo > 0 else lo*(1+SLACK)
                    hi = hi*(1+SLACK) if hi > 0 else hi*(1-SLACK)
                    if v[1] > -math.inf or True:
                        w = fp.meet(v, fp.norm(fp.ALL, lo, hi))
                        if w[0]: v = w
        self.vcache[r.id] = v
        return v
    def rootfact(self, p):
        """bounds of a multiple of one root, from a fact about what the root is taken of"""
        if len(p) != 1: return None
        (m, co), = p.items()
        if len(m) != 1 or m[0][1] != 1 or self.alg.atoms[m[0][0]][0] != 'sqrt': return None
        f = self.R.lookup(self.alg.red[m[0][0]])
        if f is None or f[0] < 0: return None
        lo, hi = float(co)*math.sqrt(f[0]), float(co)*math.sqrt(f[1])
        return (lo, hi) if co > 0 else (hi, lo)
    def positive_atom(self, k):
        """root atom known to be nonzero: by a fact of the region or a guard of the leaf"""
        q = self.alg.red.get(k)
        if q is not None:
            f = self.R.lookup(q)
            if f is not None and f[0] > 0: return True
        for i, v in self.refined.items():
            if v[1] > 0 and not fp.maynan(v):
                n = self.R.nfcache.get(i)
                if isinstance(n, nf.NF) and len(n.n) == 1 and any(a == k for a, _ in next(iter(n.n))): return True
        return False
    def transfer(self, r):
        op = r.op
        if op == 'in': return self.R.box(r.attr) if r.ty == 'd' else fp.TOP
        if op == 'cd': return fp.const(vg.unbits(r.attr))
        if op == 'fadd':
            a, b = r.args
            if a is b: return fp.add(self.val(a), self.val(a))
            return fp.add(self.val(a), self.val(b))
        if op == 'fsub':
            a, b = r.args
            if a is b:
                v = self.val(a)
                z = fp.const(0.)
                return z if not v[0] & (fp.NANS | fp.NINF | fp.PINF) else fp.join(z, (fp.NANS, math.inf, -math.inf)) if v[0] & fp.FINITE else (fp.NANS, math.inf, -math.inf)
            v = fp.sub(self.val(a), self.val(b))
            rs = self.rel.get((a.id, b.id))
            return v
        if op == 'fmul':
            a, b = r.args
            if a is b: return fp.sqr(self.val(a))
            return fp.mul(self.val(a), self.val(b))
        if op == 'fdiv':
            a, b = r.args
            if a is b:
                v = self.val(a)
                ok = v[0] & (fp.FINITE & ~(fp.NZERO | fp.PZERO))
                bad = v[0] & ~(fp.FINITE & ~(fp.NZERO | fp.PZERO))
                one = fp.const(1.)
                nan = (fp.NANS, math.inf, -math.inf)
                return one if not bad else nan if not ok else fp.join(one, nan)
            return fp.div(self.val(a), self.val(b))
        if op == 'fneg': return fp.neg(self.val(r.args[0]))
        if op == 'fn':
            if r.attr in ('__muldc3',): return fp.TOP
            return fp.fn(r.attr, [self.val(a) for a in r.args])
        if op == 'frem': return fp.fn('fmod', [self.val(a) for a in r.args])
        if op in ('sitofp', 'uitofp') and r.ty == 'd':
            w = r.args[0].ty
            if re.match(r'i\d+$', w):
                k = self.irange(r.args[0]) if op == 'sitofp' else None
                n = int(w[1:])
                lo, hi = k or ((-2**(n-1), 2**(n-1)) if op == 'sitofp' else (0, 2**n))
                return fp.norm(fp.NUM & ~fp.NZERO, float(lo), float(hi))
        if op in ('fpext',): return self.val(r.args[0])
        if op == 'fptrunc' and r.args[0].ty == 'x': return self.val(r.args[0])
        return fp.TOP
    def irange(self, n):
        """signed range of a resolved integer term, None if nothing is known"""
        if not re.match(r'i\d+$', n.ty): return None
        w = int(n.ty[1:]); h = 1 << (w-1)
        full = (-h, h-1)
        if n.op == 'ci':
            v = n.attr & ((1 << w)-1)
            return (v - (1 << w) if v >= h else v,)*2
        if n.id in self.ints:
            lo, hi = self.ints[n.id]
            if hi < h: return lo, hi
            if lo >= h: return lo - 2*h, hi - 2*h
            return full
        if n.op == 'zext' and re.match(r'i\d+$', n.args[0].ty):
            return 0, (1 << int(n.args[0].ty[1:])) - 1
        if n.op == 'sext': return self.irange(n.args[0])
        if n.op == 'trunc':
            r = self.irange(n.args[0])
            return r if r and -h <= r[0] and r[1] < h else full
        if n.op == 'fptosi':
            v = self.val(n.args[0])
            # a conversion that does not fit is an obligation of its own
            if fp.hasnum(v): return max(-h, min(h-1, math.trunc(max(v[1], -2.**70)))), min(h-1, max(-h, math.trunc(min(v[2], 2.**70))))
            return full
        if n.op in ('add', 'sub', 'mul'):
            a, b = self.irange(n.args[0]), self.irange(n.args[1])
            if a and b:
                r = self.iop(n.op, a, b)
                if -h <= r[0] and r[1] < h: return r
            return full
        return full
    @staticmethod
    def iop(op, a, b):
        if op == 'add': return a[0] + b[0], a[1] + b[1]
        if op == 'sub': return a[0] - b[1], a[1] - b[0]
        p = [x*y for x in a for y in b]
        return min(p), max(p)
    def relset(self, a, b):
        same = a is b
        v = fp.relations(self.val(a), self.val(b), same)
        k = self.rel.get((a.id, b.id))
        if k is not None: v = ''.join(x for x in v if x in k[2])
        k = self.rel.get((b.id, a.id))
        if k is not None:
            fl = {'<': '>', '>': '<', '=': '=', 'u': 'u'}
            v = ''.join(x for x in v if fl[x] in k[2])
        # a - b decided elsewhere
        return v
    # ---------------------------------------------------- normal forms
    def nf(self, r):
        c = self.R.nfcache.get(r.id)
        if c is not None: return c
        c = self._nf(r)
        self.R.nfcache[r.id] = c
        return c
    def _nf(self, r):
        A = self.alg
        op = r.op
        if op == 'in':
            v = self.R.box(r.attr)
            if fp.isnan(v): return 'nan'
            if fp.singleton(v): return A.c(v[1])
            return A.var(r.attr)
        if op == 'cd':
            x = vg.unbits(r.attr)
            if math.isnan(x): return 'nan'
            if math.isinf(x): return 'inf'
            return A.c(x)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.nf(r.args[0]), self.nf(r.args[1])
            if isinstance(a, str) or isinstance(b, str):
                return 'nan' if 'nan' in (a, b) else 'undef' if 'undef' in (a, b) else 'inf'
            if op == 'fadd': return A.add(a, b)
            if op == 'fsub': return A.sub(a, b)
            if op == 'fmul': return A.mul(a, b)
            if A.is0(b): return 'nan' if A.is0(a) else 'inf'
            return A.div(a, b)
        if op == 'fneg':
            a = self.nf(r.args[0])
            return a if isinstance(a, str) else A.neg(a)
        if op == 'fn':
            a = [self.nf(x) for x in r.args]
            if any(isinstance(x, str) for x in a): return 'nan'
            try:
                return A.fn(r.attr, a)
            except ZeroDivisionError:
                return 'nan'
        if op == 'fpext': return self.nf(r.args[0])
        if op == 'fptrunc' and r.args[0].ty == 'x': return self.nf(r.args[0])
        if op == 'undef': return 'undef'
        if r.ty == 'd':
            # opaque value: an atom of its own
            return A.var('?%s#%d' % (op, r.id))
        if op in ('fptrunc', 'sitofp', 'uitofp'):
            a = self.nf(r.args[0]) if r.args[0].ty in 'df' else A.var('?int#%d' % r.args[0].id)
            if isinstance(a, str): return a
            i, _ = A.intern('float', (a,))
            return A.at(i)
        raise vg.Unmodelled('no normal form for %s' % op)
    # ---------------------------------------------------- refinement
    def refine(self, r, v, depth=0):
        cur = self.val(r)
        new = fp.meet(cur, v)
        if new == cur: return
        if not new[0]:
            self.dead = True
            return
        self.refined[r.id] = new
        self.vcache[r.id] = new
        self.stale = True
        if depth > 12: return
        d = depth + 1
        if r.op == 'fn':
            if r.attr == 'sqrt' and not fp.maynan(new):
                lo, hi = new[1], new[2]
                l2 = fp.dn(lo*lo) if lo > 0 else -0.0
                if lo > 0 and l2 <= 0: l2 = fp.DEN
                h2 = fp.up(hi*hi) if hi > 0 else 0.
                self.refine(r.args[0], fp.norm(fp.NUM, l2, h2), d)
            elif r.attr == 'fabs':
                m = fp.ALL if new[0] & fp.NANS else fp.NUM
                if new[1] > 0: m &= ~(fp.NZERO | fp.PZERO)
                if new[1] >= fp.MINN: m &= ~(fp.NSUB | fp.PSUB)
                self.refine(r.args[0], fp.norm(m, -new[2], new[2]), d)
            elif r.attr in ('cabs', 'hypot') and not fp.maynan(new):
                for a in r.args:
                    self.refine(a, fp.norm(fp.NUM, -fp.up(new[2]) if new[2] else 0., fp.up(new[2]) if new[2] else 0.), d)
            elif r.attr == 'exp' and not fp.maynan(new):
                lo = -math.inf if new[1] <= 0 else fp.dn(math.log(new[1]), 8); hi = math.inf if new[2] == math.inf else fp.up(math.log(new[2]), 8) if new[2] > 0 else -700.
                self.refine(r.args[0], fp.norm(fp.NUM, lo, hi), d)
        elif r.op == 'fneg':
            self.refine(r.args[0], fp.neg(new), d)
        elif r.op == 'fadd' and not fp.maynan(new):
            for a, b in ((r.args[0], r.args[1]), (r.args[1], r.args[0])):
                if self.val(b)[1] >= 0 and new[2] < math.inf and not fp.maynan(self.val(b)):
                    self.refine(a, fp.norm(fp.NUM, -math.inf, new[2]), d)
                if self.val(b)[1] == self.val(b)[2] == 0:
                    self.refine(a, fp.norm(fp.NUM, new[1], new[2]), d)
        elif r.op == 'fmul' and r.args[0] is r.args[1] and not fp.maynan(new):
            # squares may underflow: |x| <= sqrt(hi) up to the underflow bound
            h = math.sqrt(new[2]) if new[2] < math.inf else math.inf
            h = fp.up(h) if new[2] > 0 else 1.6e-162
            self.refine(r.args[0], fp.norm(fp.NUM, -h, h), d)
        elif r.op == 'fmul' and r.args[0].op == 'cd' and not fp.maynan(new):
            c = vg.unbits(r.args[0].attr)
            if c > 0 and math.frexp(c)[0] == 0.5 and new[2] > 1e-290: # power of two
                self.refine(r.args[1], fp.norm(fp.NUM, fp.dn(new[1]/c), fp.up(new[2]/c)), d)
    def assume(self, atom, side):
        """child context for one side of a split; None if infeasible"""
        c = self.child()
        k = atom[0]
        if k == 'rel':
            _, a, b, want = atom
            rs = self.relset(a, b)
            s = ''.join(x for x in rs if (x in want) == side)
            c.rel[(a.id, b.id)] = (a, b, s)
            c.trail.append(('rel', a, b, s))
        elif k == 'cls':
            _, a, m = atom
            c.dead = False
            c.refine(a, fp.cls(m if side else fp.ALL & ~m))
            c.trail.append(('cls', a, m if side else fp.ALL & ~m))
        elif k == 'bit':
            c.bools[atom[1].id] = side
            c.trail.append(('bit', atom[1], side))
            a, b = atom[1].args
            if side:
                va, vb = c.val(a), c.val(b)
                c.refine(a, vb); c.refine(b, va)
        elif k == 'bool':
            c.bools[atom[1].id] = side
            c.trail.append(('bool', atom[1], side))
        elif k == 'int':
            _, base, cut = atom
            lo, hi = self.ints.get(base.id, (0, (1 << (int(base.ty[1:]))) - 1))
            if not (lo < cut <= hi): raise vg.Unmodelled('integer split')
            c.ints[base.id] = (lo, cut-1) if side else (cut, hi)
            c.trail.append(('int', base, c.ints[base.id]))
        if c.dead: return None
        c.vcache = {}
        if not c.propagate(): return None
        return c
    def propagate(self):
        for rnd in range(4):
            self.stale = False
            for a, b, s in list(self.rel.values()):
                rs = self.relset(a, b)
                if not rs: return False
                if 'u' not in rs:
                    self.refine(a, fp.norm(fp.NUM, -math.inf, math.inf)); self.refine(b, fp.norm(fp.NUM, -math.inf, math.inf))
                    va, vb = self.val(a), self.val(b)
                    if rs == '=':
                        self.refine(a, fp.norm(fp.NUM, vb[1], vb[2])); self.refine(b, fp.norm(fp.NUM, va[1], va[2]))
                    if '>' not in rs:
                        st = '=' not in rs
                        self.refine(a, fp.norm(fp.NUM, -math.inf, fp.dn(vb[2], 1) if st and vb[2] > -math.inf else vb[2]))
                        self.refine(b, fp.norm(fp.NUM, fp.up(va[1], 1) if st and va[1] < math.inf else va[1], math.inf))
                    if '<' not in rs:
                        st = '=' not in rs
                        self.refine(b, fp.norm(fp.NUM, -math.inf, fp.dn(va[2], 1) if st and va[2] > -math.inf else va[2]))
                        self.refine(a, fp.norm(fp.NUM, fp.up(vb[1], 1) if st and vb[1] < math.inf else vb[1], math.inf))
                elif rs == 'u':
                    va, vb = self.val(a), self.val(b)
                    if not fp.maynan(va): self.refine(b, (fp.NANS, math.inf, -math.inf))
                    if not fp.maynan(vb): self.refine(a, (fp.NANS, math.inf, -math.inf))
                if self.dead: return False
            if not self.stale: break
            self.vcache = {}
        # facts must remain satisfiable
        for p, lo, hi in self.R.factlist:
            iv = self.polyrange(p)
            if iv is None: continue
            if iv[1] < lo*(1-SLACK) - 0. and lo > 0 and iv[1] < lo*(1-1e-6): return False
            if iv[0] > hi*(1+1e-6) and hi >= 0: return False
        return True
    def polyrange(self, p):
        lo = hi = 0.
        for m, c in p.n.items():
            l = h = 1.
            for k, e in m:
                kd, nm = self.alg.atoms[k]
                if kd != 'in': return None
                nd = self.g.tab.get(('in', nm, (), 'd'))
                v = self.val(nd) if nd is not None else self.R.box(nm)
                if not fp.hasnum(v) or fp.maynan(v) or math.isinf(v[1]) or math.isinf(v[2]): return None
                for _ in range(e // 2):
                    f = fp.fabs(v)
                    cand = [l*f[1]*f[1], l*f[2]*f[2], h*f[1]*f[1], h*f[2]*f[2]]
                    l, h = min(cand), max(cand)
                if e % 2:
                    cand = [l*v[1], l*v[2], h*v[1], h*v[2]]
                    l, h = min(cand), max(cand)
            c = float(c)
            lo += min(c*l, c*h); hi += max(c*l, c*h)
        return lo, hi
    # ---------------------------------------------------- printing
    def describe(self):
        out = []
        for t in self.trail:
            if t[0] == 'rel':
                out.append('%s [%s] %s' % (self.short(t[1]), t[3].replace('u', 'unordered'), self.short(t[2])))
            elif t[0] == 'cls':
                out.append('class(%s) in %#x' % (self.short(t[1]), t[2]))
            elif t[0] == 'int':
                out.append('%s in [%d,%d]' % ((self.short(t[1]),) + t[2]))
            else:
                out.append('%s is %s' % (self.short(t[1]), t[2]))
        return '; '.join(out) if out else 'unconditionally'
    def short(self, r):
        if r.op == 'cd': return '%.17g' % vg.unbits(r.attr)
        if r.op == 'in': return str(r.attr)
        try:
            n = self.nf(r)
            s = n if isinstance(n, str) else self.alg.show(n)
        except Exception:
            s = repr(r)
        return s if len(s) < 160 else s[:157] + '...'

class Leaves(list):
    """leaves of a partition; iterating over one that had to be given up
    raises after the leaves that were completed"""
    error = None
    def __iter__(self):
        yield from list.__iter__(self)
        if self.error: raise vg.Unmodelled(self.error)

def leaves(ctx, roots, limit=3000):
    """partition of ctx in which every root is select free"""
    out = Leaves()
    stack = [ctx]
    n = 0
    while stack:
        c = stack.pop()
        n += 1
        if n > limit:
            out.error = 'more than %d guard combinations' % limit
            break
        try:
            out.append((c, [c.resolve(r) for r in roots]))
        except NeedSplit as s:
            kids = [c.assume(s.atom, side) for side in (False, True)]
            kids = [k for k in kids if k is not None]
            stack.extend(kids)
        except vg.Unmodelled as u: # the other leaves still get their verdict
            out.error = out.error or str(u)
    return out
