"""Gated value graph: global value numbering of an (acyclic) SSA function.
Every output cell of the function becomes one hash-consed term."""
import re, struct, math
from . import ir, build, unroll

class Unmodelled(Exception):
    """construct outside the analysed fragment"""

class NeverReturns(Unmodelled):
    """no path through the function reaches a return"""

def bits(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]
def unbits(b):
    return struct.unpack('>d', struct.pack('>Q', b & ((1 << 64)-1)))[0]

class Node:
    __slots__ = ('op', 'attr', 'args', 'id', 'ty', 'loc')
    def __repr__(self):
        return '%s%s' % (self.op, '' if self.attr is None else '<%s>' % (self.attr,))

SIMPLE = ('isclass', 'fcmp', 'icmp', 'in', 'ci', 'biteq', 'ioq', 'ret', 'trunc')

class Graph:
    def __init__(self):
        self.busy = False
        self.tab = {}
        self.byid = {}
        self.n = 0
        self.canons = {}
        self.true = self.mk('ci', 1, (), 'i1')
        self.false = self.mk('ci', 0, (), 'i1')
    def node(self, i): return self.byid.get(i)
    def mk(self, op, attr, args, ty, loc=None):
        key = (op, attr, tuple(a.id for a in args), ty)
        nd = self.tab.get(key)
        if nd is None:
            nd = Node()
            nd.op, nd.attr, nd.args, nd.ty, nd.loc = op, attr, tuple(args), ty, loc
            nd.id = self.n
            self.n += 1
            self.tab[key] = self.byid[nd.id] = nd
        if ty == 'i1' and args: return self.canon(nd)
        return nd
    def canon(self, nd):
        """a condition on the class of one value, however written, is one node"""
        r = self.canons.get(nd.id)
        if r is None:
            r = nd
            if nd.op in clsfun.LOGIC:
                m = clsfun.mask(nd)
                if m is not None:
                    r = self.isclass(m[0], m[1], nd.loc)
            self.canons[nd.id] = r
        return r
    def isclass(self, base, mask, loc=None):
        if mask == 0: return self.false
        if mask == 0x3ff: return self.true
        r = self.mkraw('isclass', mask, (base,), 'i1', loc)
        self.canons[r.id] = r
        return r
    def mkraw(self, op, attr, args, ty, loc=None):
        key = (op, attr, tuple(a.id for a in args), ty)
        nd = self.tab.get(key)
        if nd is None:
            nd = Node()
            nd.op, nd.attr, nd.args, nd.ty, nd.loc = op, attr, tuple(args), ty, loc
            nd.id = self.n
            self.n += 1
            self.tab[key] = nd
        return nd
    # --- constructors ------------------------------------------------
    def cd(self, x):
        return self.mk('cd', bits(x), (), 'd')
    def ci(self, v, w):
        return self.mk('ci', v & ((1 << w)-1), (), 'i%d' % w)
    def inp(self, name, ty='d'):
        return self.mk('in', name, (), ty)
    def not_(self, a):
        if a is self.true: return self.false
        if a is self.false: return self.true
        if a.op == 'not': return a.args[0]
        if a.op == 'isclass': return self.isclass(a.args[0], 0x3ff & ~a.attr, a.loc)
        return self.mkraw('not', None, (a,), 'i1')
    def lits(self, op, n):
        out = []
        todo = [n]
        while todo:
            x = todo.pop()
            if x.op == op: todo += [x.args[1], x.args[0]]
            else: out.append(x)
        return out
    def chain(self, op, lits):
        """conjunction or disjunction of literals; those about the class of
        the same value are merged"""
        zero, one = (self.false, self.true) if op == 'and' else (self.true, self.false)
        out = []
        pos = {}
        seen = set()
        for x in lits:
            if x is zero: return zero
            if x is one or x.id in seen: continue
            seen.add(x.id)
            n = self.not_(x)
            if n.id in seen: return zero
            if x.op == 'isclass':
                i = pos.get(x.args[0].id)
                if i is not None:
                    y = out[i]
                    m = y.attr & x.attr if op == 'and' else y.attr | x.attr
                    x = self.isclass(x.args[0], m, y.loc)
                    if x is zero: return zero
                    out[i] = x
                    seen.add(x.id)
                    continue
                pos[x.args[0].id] = len(out)
            out.append(x)
        out = [x for x in out if x is not one]
        if not out: return one
        # a compound literal simplifies under the other ones
        if not self.busy and any(x.op not in SIMPLE for x in out):
            self.busy = True
            try:
                for i, x in enumerate(out):
                    if x.op in SIMPLE: continue
                    known = {(y if op == 'and' else self.not_(y)).id for j, y in enumerate(out) if j != i}
                    y = self.under(x, known)
                    if y is not x:
                        self.busy = False
                        return self.chain(op, out[:i] + self.lits(op, y) + out[i+1:])
            finally:
                self.busy = False
        r = out[0]
        for x in out[1:]: r = self.mkraw(op, None, (r, x), 'i1')
        return r
    def under(self, n, known):
        """n where the conditions `known` (ids) hold; n itself if nothing is gained"""
        memo = {}
        budget = [400]
        def go(x):
            if x.id in known: return self.true
            if x.op in ('ci', 'isclass', 'fcmp', 'icmp', 'in'):
                return self.false if self.not_(x).id in known else x
            if x.id in memo: return memo[x.id]
            budget[0] -= 1
            if budget[0] < 0: return x
            if x.op == 'not': r = self.not_(go(x.args[0]))
            elif x.op in ('and', 'or'):
                if self.not_(x).id in known: return self.false
                a, b = go(x.args[0]), go(x.args[1])
                r = x if a is x.args[0] and b is x.args[1] else self.and_(a, b) if x.op == 'and' else self.or_(a, b)
            else: r = self.false if self.not_(x).id in known else x
            memo[x.id] = r
            return r
        r = go(n)
        return n if budget[0] < 0 else r
    def and_(self, a, b):
        if a is self.false or b is self.false: return self.false
        if a is self.true: return b
        if b is self.true: return a
        if a is b: return a
        return self.chain('and', self.lits('and', a) + self.lits('and', b))
    def or_(self, a, b):
        if a is self.true or b is self.true: return self.true
        if a is self.false: return b
        if b is self.false: return a
        if a is b: return a
        la, lb = self.lits('and', a), self.lits('and', b)
        if len(la) > 1 or len(lb) > 1:
            ia, ib = {x.id for x in la}, {x.id for x in lb}
            common = [x for x in la if x.id in ib]
            ra, rb = [x for x in la if x.id not in ib], [x for x in lb if x.id not in ia]
            if not ra: return a
            if not rb: return b
            # x | (y & q) = x | q  if  x | y is true
            for p, q in ((ra, rb), (rb, ra)):
                if len(p) == 1 and len(q) > 1:
                    keep = [y for y in q if self.or_(p[0], y) is not self.true]
                    if len(keep) < len(q):
                        rest = self.or_(p[0], self.chain('and', keep))
                        return self.chain('and', common + self.lits('and', rest))
            if common:
                rest = self.or_(self.chain('and', ra), self.chain('and', rb))
                return self.chain('and', common + self.lits('and', rest))
        return self.chain('or', self.lits('or', a) + self.lits('or', b))
    def select(self, c, a, b, loc=None):
        if c is self.true: return a
        if c is self.false: return b
        if a is b: return a
        if c.op == 'not':
            c, a, b = c.args[0], b, a
        if a.ty == 'i1':
            if a is self.true and b is self.false: return c
            if a is self.false and b is self.true: return self.not_(c)
            if a is self.true: return self.or_(c, b)
            if a is self.false: return self.and_(self.not_(c), b)
            if b is self.false: return self.and_(c, a)
            if b is self.true: return self.or_(self.not_(c), a)
        return self.mk('select', None, (c, a, b), a.ty, loc)
    def ptr(self, obj, off=0, dyn=None):
        return self.mk('ptr', (obj, off), (dyn,) if dyn is not None else (), 'p')

FN1 = {'sqrt','sin','cos','tan','exp','log','exp2','log2','log10','fabs','sinh','cosh','tanh','asin','acos','atan','expm1','log1p','cbrt',
       'floor','ceil','trunc','rint','nearbyint','round','roundeven','canonicalize', 'erf', 'erfc', 'tgamma', 'lgamma', 'logb', 'exp10'}
FN2 = {'atan2','hypot','pow','fmod','copysign','fmin','fmax','minnum','maxnum','minimum','maximum','remainder','fdim','ldexp','nextafter', 'powi'}
FN3 = {'fma','fmuladd'}
CPX = {'csqrt','cexp','clog','csin','ccos','csinh','ccosh','ctan','ctanh','cpow','cacos','casin','catan','__muldc3','__divdc3','conj','cproj', 'casinh', 'cacosh', 'catanh', 'clog10'}
CPR = {'cabs','carg','creal','cimag'}

class Builder:
    """value graph of one function.  `params`: list parallel to the function
    parameters: ('in', name) | ('out', name) | ('inout', name) | ('opaque', name) | ('val', name)"""
    def __init__(self, mod, fname, params, graph=None, writes=None, dem=None, locprefix=None):
        self.m = mod
        self.f = mod.functions.get(fname)
        if self.f is None or not self.f.defined:
            raise Unmodelled('function %s not found' % fname)
        self.fname = fname
        self.g = graph or Graph()
        self.params = params
        self.effects = []
        self.kind = {}
        self.dem = dem or {}
        self.writes_to_inputs = []
        self.mutable_globals = []
        self.localmut = {}
        self.prefix = locprefix or build.REPO
        self.calls = 0
        self.loccache = {}
    def where(self, dbg):
        if dbg is None: return None
        if dbg not in self.loccache:
            self.loccache[dbg] = self.m.location(dbg, self.prefix)
        return self.loccache[dbg]
    # ---- graph of the whole function -----------------------------------
    def run(self):
        f, g = self.f, self.g
        self.gaps = []
        if unroll.cyclic(f):
            body = unroll.Body(f).expand()
            if body is None:
                raise Unmodelled('loop outside the analysed forms in %s' % self.fname)
            params = f.params
            f = body
            f.params = params
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                s = list(t.extra)
            elif t.op == 'switch':
                s = [t.extra[0]] + [c[1] for c in t.extra[1]]
            elif t.op == 'invoke':
                s = [t.extra[1]]
            elif t.op in ('ret', 'unreachable', 'resume', 'gap'):
                s = []
            else:
                raise Unmodelled('terminator %s' % t.op)
            succ[b] = s
        # topological order; a cycle is a residual loop
        state = {}
        order = []
        stack = [(f.order[0], iter(succ[f.order[0]]))]
        state[f.order[0]] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s) == 1:
                    raise Unmodelled('loop with data dependent trip count in %s at %s' % (self.fname, self.where(f.blocks[b][-1].dbg)))
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.env = {}
        for (t, nm, at), spec in zip(f.params, self.params):
            if spec[0] == 'val':
                ty = self.ty(t)
                self.env[nm] = g.inp(spec[1], ty)
            else:
                obj = 'arg:' + spec[1]
                self.kind[obj] = spec[0]
                self.env[nm] = g.ptr(obj)
        self.cond = {}
        edge = {}            # (pred, succ) -> condition
        mem_out = {}         # block -> state
        eff_out = {}
        self.rets = []
        self.unreach = []; self.innermost = []
        for b in order:
            if b == f.order[0]:
                self.cond[b] = g.true
                self.mem, self.eff = {}, g.mk('eff0', None, (), 'e')
                inc = []
            else:
                inc = []
                seen = set()
                for p in order:
                    if p in mem_out and b in succ[p] and (p, b) in edge and p not in seen:
                        seen.add(p)
                        if edge[(p, b)] is not g.false:
                            inc.append((p, edge[(p, b)]))
                if not inc:
                    continue
                c = g.false
                for p, e in inc:
                    c = g.or_(c, e)
                self.cond[b] = c
                # relative merge conditions
                self.mem = self.merge_mem([(e, mem_out[p]) for p, e in inc])
                self.eff = self.gate([(e, eff_out[p]) for p, e in inc])
            self.cur = b
            for I in f.blocks[b]:
                self.step(I, inc)
            mem_out[b], eff_out[b] = self.mem, self.eff
            t = f.blocks[b][-1]
            if t.op == 'br' and len(t.extra) == 2:
                c = self.val(t.args[0], ('int', 1))
                s1, s2 = t.extra
                e1 = g.and_(self.cond[b], c); e2 = g.and_(self.cond[b], g.not_(c))
                if s1 == s2:
                    edge[(b, s1)] = self.cond[b]
                else:
                    edge[(b, s1)], edge[(b, s2)] = e1, e2
            elif t.op == 'br':
                edge[(b, t.extra[0])] = self.cond[b]
            elif t.op == 'invoke':
                edge[(b, t.extra[1])] = self.cond[b]
            elif t.op == 'switch':
                v = self.val(t.args[0], t.ty)
                rest = self.cond[b]
                for cv, tgt in t.extra[1]:
                    k = g.ci(cv[1], t.ty[1])
                    e = self.icmp('eq', v, k)
                    edge[(b, tgt)] = g.or_(edge.get((b, tgt), g.false), g.and_(rest, e))
                    rest = g.and_(rest, g.not_(e))
                edge[(b, t.extra[0])] = g.or_(edge.get((b, t.extra[0]), g.false), rest)
            elif t.op == 'ret':
                rv = self.val(t.args[0], t.ty) if t.args else None
                self.rets.append((self.cond[b], rv, self.mem, self.eff))
            elif t.op == 'gap':
                self.gaps.append((self.cond[b], self.where(t.dbg)))
            elif t.op in ('unreachable', 'resume'):
                self.unreach.append((self.cond[b], self.where(t.dbg), self.eff))
                self.innermost.append(self.m.location(t.dbg, '\0') if t.dbg else None)
        if not self.rets:
            raise NeverReturns('%s never returns' % self.fname)
        self.mem = self.merge_mem([(r[0], r[2]) for r in self.rets])
        self.eff = self.gate([(r[0], r[3]) for r in self.rets])
        if self.rets[0][1] is not None:
            self.ret = self.gate([(r[0], r[1]) for r in self.rets])
        else:
            self.ret = None
        self.eff = self.gapped(self.eff)
        if self.ret is not None: self.ret = tuple(map(self.gapped, self.ret)) if isinstance(self.ret, tuple) else self.gapped(self.ret)
        return self
    def gapped(self, nd):
        """the value, unless the bounded copies of a loop were left unfinished"""
        for c, wh in self.gaps:
            nd = self.g.select(c, self.g.mk('gap', wh, (), nd.ty), nd)
        return nd
    def gate(self, items):
        """items: [(cond, node)] exactly one cond true -> node"""
        g = self.g
        v0 = items[0][1]
        if all(v is v0 for _, v in items):
            return v0
        # group equal values
        groups = []
        for c, v in items:
            for gr in groups:
                if gr[1] is v:
                    gr[0] = g.or_(gr[0], c); break
            else:
                groups.append([c, v])
        out = groups[-1][1]
        for c, v in reversed(groups[:-1]):
            if isinstance(v, tuple) or isinstance(out, tuple):
                out = tuple(g.select(c, a, b) for a, b in zip(v, out))
            else:
                out = g.select(c, v, out)
        return out
    def merge_mem(self, items):
        if len(items) == 1:
            return {o: dict(c) for o, c in items[0][1].items()}
        res = {}
        objs = set()
        for _, m in items: objs |= set(m)
        for o in objs:
            offs = set()
            for _, m in items:
                offs |= set(m.get(o, {}))
            cells = {}
            for off in offs:
                vals = []
                size = None
                if off == '*':
                    toks = [(e, m.get(o, {}).get('*')) for e, m in items]
                    if all(t is not None for _, t in toks):
                        cells['*'] = (0, self.gate([(e, t[1]) for e, t in toks]))
                    else:
                        present = [t for _, t in toks if t is not None]
                        cells['*'] = (0, self.gate([(e, (t[1] if t is not None else self.g.mk('eff0', None, (), 'e'))) for e, t in toks]))
                    continue
                ok = True
                for e, m in items:
                    c = m.get(o, {}).get(off)
                    if c is None:
                        sz = next(mm[o][off][0] for _, mm in items if off in mm.get(o, {}))
                        v = self.peek(m, o, off, sz)
                        if v is None:
                            v = self.g.mk('undef', (o, off), (), 'u%d' % sz)
                        c = (sz, v)
                    if size is None: size = c[0]
                    if c[0] != size: ok = False
                    vals.append((e, c[1]))
                if ok:
                    tys = {v.ty for _, v in vals if not v.ty.startswith('u')}
                    if len(tys) > 1:
                        vals = [(e, self.conv(v, 'd' if 'd' in tys else sorted(tys)[0])) for e, v in vals]
                    elif len(tys) == 1:
                        t = next(iter(tys))
                        vals = [(e, v if not v.ty.startswith('u') else self.g.mk('undef', None, (), t)) for e, v in vals]
                    cells[off] = (size, self.gate(vals))
            res[o] = cells
        return res
    # ---- memory ---------------------------------------------------------
    def peek(self, mem, obj, off, size):
        """raw cell content or None"""
        g = self.g
        cells = mem.get(obj, {})
        c = cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is not None and c[0] > size and c[1].op == 'ci' :
            return g.ci(c[1].attr, size*8)
        # zero filled or wider constant cover
        for o2, (s2, v2) in cells.items():
            if o2 == '*': continue
            if o2 <= off and off + size <= o2 + s2 and (o2, s2) != (off, size):
                if v2.op == 'zerofill':
                    return g.ci(0, size*8)
                if v2.op == 'ci':
                    return g.ci(v2.attr >> (8*(off-o2)), size*8)
                if v2.op == 'undef':
                    return v2
                raise Unmodelled('partial load of %s+%d' % (obj, off))
            if o2 < off + size and off < o2 + s2 and (o2, s2) != (off, size):
                if v2.op == 'zerofill' or v2.op == 'undef':
                    continue
                # assemble from pieces: only constants
                raise Unmodelled('overlapping access of %s+%d' % (obj, off))
        if '*' in cells:
            return g.mk('oload', (obj, off, size), (cells['*'][1],), 'd' if size == 8 else 'i%d' % (8*size))
        if obj.startswith('glob:'):
            return self.global_load(obj[5:], off, size)
        k = self.kind.get(obj)
        if k in ('in', 'inout'):
            if size == 8:
                if off % 8: raise Unmodelled('misaligned input access')
                return g.inp('%s.%d' % (obj[4:], off//8), 'd')
            return g.mk('inraw', (obj[4:], off, size), (), 'i%d' % (size*8))
        if k == 'int':
            return g.inp(obj[4:] , 'i%d' % (8*size))
        if k == 'opaque' or obj.startswith('mem:'):
            return g.mk('oload', (obj, off, size), (g.mk('eff0', None, (), 'e'),), 'd' if size == 8 else 'i%d' % (8*size))
        if k == 'out' or obj.startswith('alloca:'):
            return None
        return None
    def global_load(self, name, off, size):
        g = self.g
        gl = self.m.globals.get(name)
        if gl is None:
            return g.mk('gload', (name, off, size), (), 'd' if size == 8 else 'i%d' % (8*size))
        if gl['kind'] != 'constant' or gl['init'] is None:
            self.mutable_globals.append(name)
            return g.mk('gload', (name, off, size), (), 'd' if size == 8 else 'i%d' % (8*size))
        r = self.const_at(gl['type'], gl['init'], off, size)
        if r is None:
            return g.mk('gload', (name, off, size), (), 'd' if size == 8 else 'i%d' % (8*size))
        return r
    def const_at(self, t, v, off, size):
        g = self.g
        t = self.m.resolve(t)
        if v[0] == 'zero':
            return g.ci(0, size*8)
        if t[0] in ('array', 'struct', 'vector') and v[0] == 'agg':
            for k, (et, ev) in enumerate(v[1]):
                eo, _ = self.m.field(t, k)
                es, _ = self.m.sizealign(et)
                if eo <= off and off + size <= eo + es:
                    return self.const_at(et, ev, off-eo, size)
            return None
        if v[0] == 'str':
            return None
        if off == 0 and v[0] == 'f' and size == 8 and t[0] == 'double':
            return g.cd(v[1])
        if off == 0 and v[0] == 'i':
            return g.ci(v[1], size*8)
        return None
    def conv(self, nd, ty):
        """reinterpret raw cell as type ty"""
        g = self.g
        if nd.ty == ty: return nd
        if nd.op == 'undef' or nd.op == 'zerofill':
            if nd.op == 'zerofill':
                return g.cd(0.) if ty == 'd' else g.ci(0, int(ty[1:])) if ty[0] == 'i' else g.ptr('null')
            return g.mk('undef', nd.attr, (), ty)
        if nd.op == 'select':
            return g.select(nd.args[0], self.conv(nd.args[1], ty), self.conv(nd.args[2], ty))
        if ty == 'd':
            if nd.op == 'ci': return g.cd(unbits(nd.attr))
            if nd.op == 'd2i': return nd.args[0]
            if nd.ty == 'i64': return g.mk('i2d', None, (nd,), 'd')
        if ty == 'i64':
            if nd.op == 'cd': return g.ci(nd.attr, 64)
            if nd.op == 'i2d': return nd.args[0]
            if nd.op in ('oload', 'gload'): return g.mk(nd.op, nd.attr, nd.args, 'i64')
            if nd.ty == 'd': return g.mk('d2i', None, (nd,), 'i64')
        if ty == 'p':
            if nd.op in ('oload', 'gload'):
                return g.ptr('mem:%d' % nd.id)
            if nd.op == 'ci' and nd.attr == 0: return g.ptr('null')
            if nd.ty == 'd' or nd.ty == 'i64':
                return g.ptr('mem:%d' % nd.id)
        if ty[0] == 'i' and nd.ty[0] == 'i' and nd.op == 'ci':
            return g.ci(nd.attr, int(ty[1:]))
        if nd.ty == 'i8' and ty == 'i1' or nd.ty == 'i1' and ty == 'i8':
            return self.trunc(nd, ty) if ty == 'i1' else g.mk('zext', None, (nd,), ty)
        if nd.op == 'oload' or nd.op == 'gload':
            return g.mk(nd.op, nd.attr, nd.args, ty)
        raise Unmodelled('conversion %s -> %s' % (nd.ty, ty))
    def trunc(self, nd, ty):
        g = self.g
        w = int(ty[1:])
        if nd.op == 'ci': return g.ci(nd.attr, w)
        if nd.op == 'zext' or nd.op == 'sext':
            if nd.args[0].ty == ty: return nd.args[0]
        if nd.op == 'select':
            return g.select(nd.args[0], self.trunc(nd.args[1], ty), self.trunc(nd.args[2], ty))
        return g.mk('trunc', None, (nd,), ty)
    def load(self, p, size):
        """raw load through pointer node"""
        g = self.g
        if p.op == 'select':
            a = self.load(p.args[1], size); b = self.load(p.args[2], size)
            if a.ty != b.ty:
                t = 'd' if 'd' in (a.ty, b.ty) else a.ty
                a, b = self.conv(a, t), self.conv(b, t)
            return g.select(p.args[0], a, b)
        if p.op == 'ptr':
            obj, off = p.attr
            if p.args:
                if self.kind.get(obj) == 'opaque' or '*' in self.mem.get(obj, {}) or obj.startswith('mem:'):
                    tok = self.mem.get(obj, {}).get('*')
                    return g.mk('oload', (obj, ('dyn', off), size), (tok[1] if tok else g.mk('eff0', None, (), 'e'), p.args[0]), 'd' if size == 8 else 'i%d' % (8*size))
                return self.dynload(obj, off, p.args[0], size)
            r = self.peek(self.mem, obj, off, size)
            if r is None:
                return g.mk('undef', (obj, off), (), 'd' if size == 8 else 'i%d' % (8*size))
            return r
        raise Unmodelled('load through %s' % p)
    def dynload(self, obj, off, dyn, size):
        """load from a table: selection over the cells the object has; anything else is out of bounds"""
        g = self.g
        offs = []
        if obj.startswith('alloca:'):
            offs = [o for o, (s, v) in self.mem.get(obj, {}).items() if s == size]
        elif obj.startswith('glob:'):
            gl = self.m.globals.get(obj[5:])
            if gl is not None and gl['kind'] == 'constant' and gl['init'] is not None:
                n, _ = self.m.sizealign(gl['type'])
                if n <= 64*size: offs = list(range(off % size, n - size + 1, size))
        if not offs: raise Unmodelled('load with data dependent offset in %s' % obj)
        vals = [(o, self.load(g.ptr(obj, o), size)) for o in sorted(offs)]
        ty = next((v.ty for _, v in vals if v.op != 'undef'), vals[0][1].ty)
        r = g.mk('undef', ('out of bounds', obj), (), ty)
        for o, v in vals:
            if v.ty != ty: v = self.conv(v, ty)
            r = g.select(self.dyneq(dyn, o - off), v, r)
        return r
    def dyneq(self, dyn, k):
        """dyn == k for a scaled index (no wrap of an in bounds address)"""
        g = self.g
        if dyn.op == 'mul' and dyn.args[1].op == 'ci':
            c = dyn.args[1].attr
            return self.dyneq(dyn.args[0], k//c) if k % c == 0 else g.false
        if dyn.op == 'add' and dyn.args[1].op == 'ci':
            c = dyn.args[1].attr
            return self.dyneq(dyn.args[0], k - (c - (1 << 64) if c >> 63 else c))
        return self.icmp('eq', dyn, g.ci(k, 64))
    def store(self, p, nd, size, loc):
        g = self.g
        if p.op == 'select':
            for arm, c in ((p.args[1], p.args[0]), (p.args[2], g.not_(p.args[0]))):
                old = self.load(arm, size)
                if old.ty != nd.ty:
                    old = self.conv(old, nd.ty)
                self.store(arm, g.select(c, nd, old), size, loc)
            return
        if p.op != 'ptr':
            raise Unmodelled('store through %s' % p)
        obj, off = p.attr
        k = self.kind.get(obj)
        if k == 'in':
            self.writes_to_inputs.append((obj, off, loc))
        if obj.startswith('glob:'):
            self.mutable_globals.append(obj[5:])
        if p.args or k == 'opaque' or obj.startswith('mem:') or '*' in self.mem.get(obj, {}):
            if p.args and not (k == 'opaque' or obj.startswith('mem:') or '*' in self.mem.get(obj, {})):
                raise Unmodelled('store with data dependent offset in %s' % obj)
            # opaque object: ordered raw store
            self.effect('rawstore', [p, nd], loc)
            self.clobber(obj)
            return
        cells = self.mem.setdefault(obj, {})
        for o2 in list(cells):
            if o2 == '*': continue
            s2, v2 = cells[o2]
            if o2 < off + size and off < o2 + s2 and (o2, s2) != (off, size):
                if v2.op in ('zerofill', 'undef'):
                    del cells[o2]
                    for q in range(o2, o2+s2, 8 if (off - o2) % 8 == 0 and size == 8 else 1):
                        step = 8 if (off - o2) % 8 == 0 and size == 8 else 1
                        if not (q < off + size and off < q + step):
                            cells[q] = (min(step, o2+s2-q), v2 if v2.op == 'undef' else g.mk('zerofill', None, (), 'u8'))
                elif off <= o2 and o2 + s2 <= off + size:
                    del cells[o2]
                elif v2.op == 'ci':
                    del cells[o2]
                    for q in range(o2, o2+s2):
                        if not (off <= q < off+size):
                            cells[q] = (1, g.ci(v2.attr >> (8*(q-o2)), 8))
                else:
                    raise Unmodelled('partial overwrite in %s+%d' % (obj, off))
        if nd.op == 'undef' and False:
            return
        cells[off] = (size, nd)
    def clobber(self, obj):
        if obj in ('null',): return
        self.mem[obj] = {'*': (0, self.eff)}
    def effect(self, name, args, loc):
        g = self.g
        flat = []
        for a in args:
            if isinstance(a, tuple): flat.extend(a)
            elif a is not None: flat.append(a)
        self.calls += 1
        self.eff = g.mk('eff', (name, self.calls), tuple([self.eff] + flat), 'e', loc)
        self.eff.loc = loc
        return self.eff
    # ---- values -----------------------------------------------------------
    def ty(self, t):
        t = self.m.resolve(t)
        if t[0] == 'double': return 'd'
        if t[0] == 'int': return 'i%d' % t[1]
        if t[0] == 'ptr': return 'p'
        if t[0] == 'float': return 'f'
        if t[0] == 'x86_fp80': return 'x'
        raise Unmodelled('type %s' % (t,))
    def val(self, v, t):
        g = self.g
        k = v[0]
        if k == 'local':
            r = self.env.get(v[1])
            if r is None:
                raise Unmodelled('undefined local %s in %s' % (v[1], self.fname))
            return r
        t = self.m.resolve(t)
        if k == 'i':
            return g.ci(v[1], t[1])
        if k == 'f':
            nd = g.cd(v[1])
            if t[0] == 'double': return nd
            return g.mk('cd', nd.attr, (), self.ty(t))
        if k == 'null':
            return g.ptr('null')
        if k == 'global':
            return g.ptr('glob:' + v[1])
        if k == 'undef':
            if t[0] == 'struct':
                return tuple(self.val(v, e) for e in t[1])
            if t[0] in ('array', 'vector'):
                return tuple(self.val(v, t[2]) for _ in range(t[1]))
            return g.mk('undef', None, (), self.ty(t))
        if k == 'zero':
            if t[0] == 'struct':
                return tuple(self.val(v, e) for e in t[1])
            if t[0] in ('array', 'vector'):
                return tuple(self.val(v, t[2]) for _ in range(t[1]))
            if t[0] == 'ptr': return g.ptr('null')
            return g.cd(0.) if t[0] == 'double' else g.ci(0, t[1])
        if k == 'agg':
            return tuple(self.val(x[1], x[0]) for x in v[1])
        if k == 'cgep':
            base = self.val(v[2][0][1], v[2][0][0])
            return self.gep(base, v[1], v[2][1:])
        raise Unmodelled('constant %s' % (v,))
    def gep(self, base, bt, idx):
        g = self.g
        if base.op == 'select':
            return g.select(base.args[0], self.gep(base.args[1], bt, idx), self.gep(base.args[2], bt, idx))
        if base.op != 'ptr':
            raise Unmodelled('gep on %s' % base)
        obj, off = base.attr
        dyn = base.args[0] if base.args else None
        first = True
        t = bt
        for (it, iv) in idx:
            n = self.val(iv, it)
            if first:
                scale, _ = self.m.sizealign(t)
                first = False
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.m.field(rt, n.attr)
                    off += o
                    continue
                scale, _ = self.m.sizealign(rt[2])
                t = rt[2]
            if n.op == 'ci':
                w = int(n.ty[1:])
                x = n.attr - (1 << w) if n.attr >> (w-1) else n.attr
                off += scale*x
            else:
                if n.ty != 'i64':
                    n = g.mk('sext', None, (n,), 'i64')
                # (n + c) * scale  -> constant part
                if n.op == 'add' and n.args[1].op == 'ci':
                    c = n.args[1].attr
                    c = c - (1 << 64) if c >> 63 else c
                    off += scale*c
                    n = n.args[0]
                term = n if scale == 1 else g.mk('mul', None, (n, g.ci(scale, 64)), 'i64')
                dyn = term if dyn is None else g.mk('add', None, (dyn, term), 'i64')
        return g.ptr(obj, off, dyn)
    NEG = {'oeq':'une','une':'oeq','ogt':'ule','ole':'ugt','olt':'uge','oge':'ult','one':'ueq','ueq':'one','ord':'uno','uno':'ord','ugt':'ole','uge':'olt','ult':'oge','ule':'ogt'}
    def icmp(self, pred, a, b):
        g = self.g
        if a.op == 'select' and (a.args[1].op in ('ci', 'ptr') or a.args[2].op in ('ci', 'ptr')):
            return g.select(a.args[0], self.icmp(pred, a.args[1], b), self.icmp(pred, a.args[2], b))
        if b.op == 'select' and (b.args[1].op in ('ci', 'ptr') or b.args[2].op in ('ci', 'ptr')):
            return g.select(b.args[0], self.icmp(pred, a, b.args[1]), self.icmp(pred, a, b.args[2]))
        if a.op == 'ci' and b.op == 'ci':
            w = int(a.ty[1:])
            x, y = a.attr, b.attr
            sx = x - (1 << w) if x >> (w-1) else x
            sy = y - (1 << w) if y >> (w-1) else y
            r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pred]
            return g.true if r else g.false
        if a is b and pred in ('eq', 'ule', 'uge', 'sle', 'sge'): return g.true
        if a is b: return g.false
        if a.ty == 'p' and a.op == 'ptr' and b.op == 'ptr' and not a.args and not b.args:
            if a.attr == b.attr:
                return g.true if pred in ('eq', 'ule', 'uge') else g.false
            if a.attr[0] == b.attr[0] and a.attr[0] != 'null': # addresses inside one object
                x, y = a.attr[1], b.attr[1]
                r = {'eq': False, 'ne': True, 'ult': x < y, 'ule': x < y, 'ugt': x > y, 'uge': x > y}.get(pred)
                if r is not None: return g.true if r else g.false
            if a.attr[0] != b.attr[0] and pred in ('eq', 'ne'):
                if not a.attr[0].startswith('mem:') and not b.attr[0].startswith('mem:') and not (self.kind.get(a.attr[0]) and self.kind.get(b.attr[0])):
                    return g.false if pred == 'eq' else g.true
        if a.ty == 'i1' and b.op == 'ci':
            # comparison of a truth value with a constant
            if pred in ('eq', 'ne'):
                return a if (b.attr == 1) == (pred == 'eq') else g.not_(a)
        if a.op in ('zext', 'sext') and a.args[0].ty == 'i1' and b.op == 'ci':
            v1 = 1 if a.op == 'zext' else (1 << int(a.ty[1:])) - 1
            return g.select(a.args[0], self.icmp(pred, g.ci(v1, int(a.ty[1:])), b), self.icmp(pred, g.ci(0, int(a.ty[1:])), b))
        if pred == 'ne':
            return g.not_(self.icmp('eq', a, b))
        if a.op == 'd2i' and (b.op == 'd2i' or b.op == 'ci') and pred == 'eq':
            o = b.args[0] if b.op == 'd2i' else g.cd(unbits(b.attr))
            return g.mk('biteq', None, (a.args[0], o), 'i1')
        if pred == 'eq' and b.op == 'ci' and b.attr == 0 and a.ty != 'i1': # no bit of either
            if a.op == 'or': return g.and_(self.icmp('eq', a.args[0], b), self.icmp('eq', a.args[1], b))
            if a.op == 'and' and a.args[0].op == 'or' and a.args[1].op == 'ci':
                return g.and_(*[self.icmp('eq', self.intop('and', x, a.args[1]), b) for x in a.args[0].args])
        return g.mk('icmp', pred, (a, b), 'i1')
    # ---- one instruction ----------------------------------------------------
    def step(self, I, inc):
        g = self.g
        op = I.op
        loc = self.where(I.dbg)
        r = None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.val(I.args[0], I.ty), self.val(I.args[1], I.ty)
            if isinstance(a, tuple):
                r = tuple(g.mk(op, None, (x, y), x.ty, loc) for x, y in zip(a, b))
            else:
                r = g.mk(op, None, (a, b), a.ty, loc)
        elif op == 'fneg':
            a = self.val(I.args[0], I.ty)
            if isinstance(a, tuple):
                r = tuple(g.mk('fneg', None, (x,), x.ty, loc) for x in a)
            else:
                r = g.mk('fneg', None, (a,), a.ty, loc)
        elif op == 'fcmp':
            a, b = self.val(I.args[0], I.ty), self.val(I.args[1], I.ty)
            if isinstance(a, tuple):
                raise Unmodelled('vector compare')
            if I.extra == 'true': r = g.true
            elif I.extra == 'false': r = g.false
            else: r = g.mk('fcmp', I.extra, (a, b), 'i1', loc)
        elif op == 'icmp':
            a, b = self.val(I.args[0], I.ty), self.val(I.args[1], I.ty)
            r = self.icmp(I.extra, a, b)
        elif op == 'select':
            c = self.val(I.args[0], I.extra); a = self.val(I.args[1], I.ty); b = self.val(I.args[2], I.ty)
            if isinstance(a, tuple):
                r = tuple(g.select(c, x, y, loc) for x, y in zip(a, b)) if not isinstance(c, tuple) else tuple(g.select(z, x, y, loc) for z, x, y in zip(c, a, b))
            elif a.ty == 'i1':
                # keep boolean structure
                if a is g.true: r = g.or_(c, b)
                elif b is g.false: r = g.and_(c, a)
                elif a is g.false: r = g.and_(g.not_(c), b)
                elif b is g.true: r = g.or_(g.not_(c), a)
                else: r = g.select(c, a, b, loc)
            else:
                r = g.select(c, a, b, loc)
        elif op == 'phi':
            items = []
            d = {b: v for v, b in I.args}
            for p, e in inc:
                if p not in d:
                    raise Unmodelled('phi')
                v = d[p]
                items.append((e, self.val(v, I.ty)))
            r = self.gate(items)
        elif op == 'load':
            if I.extra: raise Unmodelled('volatile load')
            p = self.val(I.args[0], ('ptr',))
            t = self.m.resolve(I.ty)
            if t[0] in ('vector', 'array', 'struct'):
                if t[0] == 'vector' or t[0] == 'array':
                    n, et = t[1], t[2]
                    sz, _ = self.m.sizealign(et)
                    r = tuple(self.conv(self.load(self.gep(p, ('int', 8), [(('int', 64), ('i', k*sz))]), sz), self.ty(et)) for k in range(n))
                else:
                    r = []
                    for k, et in enumerate(t[1]):
                        o, _ = self.m.field(t, k); sz, _ = self.m.sizealign(et)
                        r.append(self.conv(self.load(self.gep(p, ('int', 8), [(('int', 64), ('i', o))]), sz), self.ty(et)))
                    r = tuple(r)
            elif t[0] == 'int' and t[1] == 128:
                raise Unmodelled('i128 load')
            else:
                sz, _ = self.m.sizealign(t)
                r = self.conv(self.load(p, sz), self.ty(t))
        elif op == 'store':
            v = self.val(I.args[0], I.ty); p = self.val(I.args[1], ('ptr',))
            t = self.m.resolve(I.ty)
            if isinstance(v, tuple):
                ets = t[1] if t[0] == 'struct' else [t[2]]*t[1]
                for k, (x, et) in enumerate(zip(v, ets)):
                    o, _ = self.m.field(t, k); sz, _ = self.m.sizealign(et)
                    self.store(self.gep(p, ('int', 8), [(('int', 64), ('i', o))]), x, sz, loc)
            else:
                sz, _ = self.m.sizealign(t)
                self.store(p, v, sz, loc)
            return
        elif op == 'getelementptr':
            base = self.val(I.args[0][1], I.args[0][0])
            r = self.gep(base, I.extra, I.args[1:])
        elif op == 'alloca':
            obj = 'alloca:' + I.res
            self.kind[obj] = 'alloca'
            r = g.ptr(obj)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            r = self.intop(op, self.val(I.args[0], I.ty), self.val(I.args[1], I.ty))
        elif op == 'bitcast':
            a = self.val(I.args[0], I.extra)
            r = self.conv(a, self.ty(I.ty)) if not isinstance(a, tuple) else a
        elif op in ('zext', 'sext'):
            a = self.val(I.args[0], I.extra); t = self.ty(I.ty)
            if a.op == 'ci':
                w = int(a.ty[1:]); x = a.attr
                if op == 'sext' and x >> (w-1): x -= 1 << w
                r = g.ci(x, int(t[1:]))
            else:
                r = g.mk(op, None, (a,), t)
        elif op == 'trunc':
            r = self.trunc(self.val(I.args[0], I.extra), self.ty(I.ty))
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            a = self.val(I.args[0], I.extra); t = self.ty(I.ty)
            if op == 'sitofp' and a.op == 'ci':
                w = int(a.ty[1:]); x = a.attr - (1 << w) if a.attr >> (w-1) else a.attr
                r = g.mk('cd', bits(float(x)), (), t)
            elif op == 'uitofp' and a.op == 'ci':
                r = g.mk('cd', bits(float(a.attr)), (), t)
            else:
                r = g.mk(op, None, (a,), t, loc)
        elif op == 'freeze':
            r = self.val(I.args[0], I.ty)
        elif op in ('ptrtoint', 'inttoptr'):
            a = self.val(I.args[0], I.extra)
            r = g.mk(op, None, (a,), self.ty(I.ty)) if op == 'ptrtoint' else g.ptr('mem:%d' % a.id)
        elif op == 'extractvalue':
            a = self.val(I.args[0], I.ty)
            for k in I.extra: a = a[k]
            r = a
        elif op == 'insertvalue':
            a = self.val(I.args[0], I.ty); st = self.m.resolve(I.ty)
            if len(I.extra) != 1: raise Unmodelled('nested insertvalue')
            et = st[1][I.extra[0]] if st[0] == 'struct' else st[2]
            v = self.val(I.args[1], et)
            a = list(a); a[I.extra[0]] = v; r = tuple(a)
        elif op == 'extractelement':
            a = self.val(I.args[0], I.ty); k = self.val(I.args[1], ('int', 64))
            if k.op != 'ci': raise Unmodelled('extractelement')
            r = a[k.attr]
        elif op == 'insertelement':
            a = list(self.val(I.args[0], I.ty)); vt = self.m.resolve(I.ty); k = self.val(I.args[2], ('int', 64))
            if k.op != 'ci': raise Unmodelled('insertelement')
            a[k.attr] = self.val(I.args[1], vt[2]); r = tuple(a)
        elif op == 'shufflevector':
            a = self.val(I.args[0], I.ty); b = self.val(I.args[1], I.ty)
            mask = I.args[2]
            if mask[0] == 'zero':
                n = self.m.resolve(I.extra)[1]; ids = [0]*n
            elif mask[0] == 'agg':
                ids = [x[1][1] if x[1][0] == 'i' else 0 for x in mask[1]]
            else: raise Unmodelled('shuffle')
            ab = tuple(a) + tuple(b); r = tuple(ab[k] for k in ids)
        elif op in ('call', 'invoke'):
            r = self.call(I, loc)
        elif op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'landingpad', 'fence', 'gap'):
            return
        else:
            raise Unmodelled('instruction %s' % op)
        if I.res is not None:
            self.env[I.res] = r
    def leafs(self, n, k):
        """number left of k after the constants of a tree of choices; 0 if there are more, or others"""
        if n.op == 'ci': return k - 1
        if n.op != 'select' or not k: return 0
        k = self.leafs(n.args[1], k)
        return k and self.leafs(n.args[2], k)
    def intop(self, op, a, b):
        g = self.g
        if isinstance(a, tuple):
            raise Unmodelled('integer vector op')
        w = int(a.ty[1:])
        mask = (1 << w) - 1
        if a.ty == 'i1':
            if op == 'and': return g.and_(a, b)
            if op == 'or': return g.or_(a, b)
            if op == 'xor':
                if b is g.true: return g.not_(a)
                if a is g.true: return g.not_(b)
                if b is g.false: return a
                return g.select(a, g.not_(b), b)
        if a.op == 'ci' and b.op == 'ci':
            x, y = a.attr, b.attr
            sx = x - (1 << w) if x >> (w-1) else x
            r = {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx >> y, 'udiv': lambda: x//y if y else 0, 'urem': lambda: x % y if y else 0}.get(op)
            if r: return g.ci(r(), w)
        # a choice of constants stays one
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'select' and y.op == 'ci' and w < 64 and self.leafs(x, 16):
                def push(n): return g.select(n.args[0], push(n.args[1]), push(n.args[2])) if n.op == 'select' else self.intop(op, y, n) if sw else self.intop(op, n, y)
                return push(x)
        # truth values widened to integers
        def isb(n): return n.op in ('zext', 'sext') and n.args[0].ty == 'i1' or (n.op == 'ci' and n.attr in (0, 1)) or (n.op == 'select' and isb(n.args[1]) and isb(n.args[2]))
        def asb(n):
            if n.op == 'ci': return g.true if n.attr & 1 else g.false
            if n.op == 'select': return g.select(n.args[0], asb(n.args[1]), asb(n.args[2]))
            return n.args[0]
        if op in ('and', 'or', 'xor') and isb(a) and isb(b) and not (a.op == 'sext' or b.op == 'sext'):
            return g.mk('zext', None, (self.intop(op, asb(a), asb(b)),), a.ty)
        # sign bit tricks on doubles
        if a.op == 'd2i' and b.op == 'ci' and w == 64:
            d = a.args[0]
            if op == 'and' and b.attr == (1 << 63)-1: return self.conv(g.mk('fn', 'fabs', (d,), 'd'), 'i64')
            if op == 'xor' and b.attr == 1 << 63: return self.conv(g.mk('fneg', None, (d,), 'd'), 'i64')
        if op == 'sub' and b.op == 'ci':
            return self.intop('add', a, g.ci(-b.attr, w))
        if op == 'add' and a.op == 'ci': a, b = b, a
        if op == 'add' and b.op == 'ci' and b.attr == 0: return a
        if op == 'add' and b.op == 'ci' and a.op == 'add' and a.args[1].op == 'ci':
            return self.intop('add', a.args[0], g.ci(a.args[1].attr + b.attr, w))
        if op == 'or' and b.op == 'ci' and b.attr == 0: return a
        return g.mk(op, None, (a, b), a.ty)
    def call(self, I, loc):
        g = self.g
        callee = I.extra if I.op == 'call' else I.extra[0]
        name = callee[1:].strip('"')
        def args():
            return [self.val(a[1], a[0]) for a in I.args if a[0][0] != 'metadata']
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.donothing', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore')):
                return g.ptr('null') if self.m.resolve(I.ty)[0] == 'ptr' else None
            if name.startswith('llvm.expect'):
                return args()[0]
            if name.startswith(('llvm.memcpy', 'llvm.memmove')):
                d, s, n, v = args()
                self.memcpy(d, s, n, loc)
                return None
            if name.startswith('llvm.memset'):
                d, v, n, vol = args()
                self.memset(d, v, n, loc)
                return None
            if name.startswith('llvm.is.fpclass'):
                a, m = args()
                return g.mk('isclass', m.attr, (a,), 'i1', loc)
            if name.startswith('llvm.is.constant'):
                return g.false
            base = name.split('.')[1]
            a = args()
            if base in FN1 and len(a) == 1 or base in FN2 and len(a) == 2 or base in FN3 and len(a) == 3:
                base = {'minnum': 'fmin', 'maxnum': 'fmax', 'fmuladd': 'fma'}.get(base, base)
                if isinstance(a[0], tuple):
                    return tuple(g.mk('fn', base, tuple(x), 'd', loc) for x in zip(*a))
                return g.mk('fn', base, tuple(a), 'd', loc)
            if base in ('umax', 'umin', 'smax', 'smin') and a[0].ty != 'i1':
                pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base]
                return g.select(self.icmp(pred, a[0], a[1]), a[0], a[1])
            if re.match(r'[su](add|sub|mul)$', base) and '.with.overflow.' in name and a[0].ty != 'i1':
                return (g.mk(base[1:], None, (a[0], a[1]), a[0].ty, loc), g.mk('ovf', base, (a[0], a[1]), 'i1', loc))
            if base in ('trap', 'ubsantrap', 'debugtrap'):
                self.effect('llvm.trap', [], loc)
                return None
            raise Unmodelled('intrinsic %s' % name)
        if name.startswith('vsa_unknown_'):     # contents of an object that was not written (c32)
            k = 'unwritten.%s' % args()[0].attr
            return g.ptr('mem:' + k) if name[12:] == 'ptr' else g.inp(k, {'double': 'd'}.get(name[12:], name[12:]))
        a = None
        if name in FN1 or name in FN2 or name in FN3:
            a = args()
            if all(not isinstance(x, tuple) and x.ty == 'd' for x in a):
                return g.mk('fn', name, tuple(a), 'd', loc)
        if name in CPR:
            a = args()
            if len(a) == 2:
                return g.mk('fn', name, tuple(a), 'd', loc)
        if name in CPX:
            a = args()
            if all(x.ty == 'd' for x in a):
                return tuple(g.mk('fn', (name, k), tuple(a), 'd', loc) for k in (0, 1))
        if name in ('sincos',):
            a = args()
            self.store(a[1], g.mk('fn', 'sin', (a[0],), 'd', loc), 8, loc)
            self.store(a[2], g.mk('fn', 'cos', (a[0],), 'd', loc), 8, loc)
            return None
        a = args()
        if name in ('bcmp', 'memcmp') and a[2].op == 'ci' and a[2].attr % 8 == 0:
            ok = g.true
            for k in range(0, a[2].attr, 8):
                ix = [(('int', 64), ('i', k))]
                x = self.conv(self.load(self.gep(a[0], ('int', 8), ix), 8), 'i64')
                y = self.conv(self.load(self.gep(a[1], ('int', 8), ix), 8), 'i64')
                ok = g.and_(ok, self.icmp('eq', x, y))
            return g.select(ok, g.ci(0, 32), g.ci(1, 32))
        return self.opaque_call(I, name, a, loc)
    RETSELF = ()
    def opaque_call(self, I, name, a, loc):
        """call with effects: ordered, clobbers what it is given"""
        g = self.g
        e = self.effect(name, a, loc)
        for x in a:
            for obj in self.targets(x):
                k = self.kind.get(obj)
                if k in ('in',):
                    continue
                if obj.startswith('glob:'):
                    continue
                self.clobber(obj)
        return self.retval(I, name, a, e)
    def retval(self, I, name, a, e):
        g = self.g
        t = self.m.resolve(I.ty)
        if t[0] == 'void': return None
        if t[0] == 'ptr':
            return g.ptr('mem:r%d' % e.id)
        if t[0] == 'struct':
            return tuple(g.mk('ret', k, (e,), self.ty(x)) if self.ty(x) != 'p' else g.ptr('mem:r%d.%d' % (e.id, k)) for k, x in enumerate(t[1]))
        return g.mk('ret', 0, (e,), self.ty(t))
    def targets(self, x):
        if isinstance(x, tuple) or x is None: return []
        if x.op == 'ptr': return [x.attr[0]]
        if x.op == 'select' and x.ty == 'p': return self.targets(x.args[1]) + self.targets(x.args[2])
        return []
    def memcpy(self, d, s, n, loc):
        if n.op != 'ci': raise Unmodelled('memcpy of variable length')
        vals = []
        k = 0
        while k < n.attr:
            sz = 8 if n.attr - k >= 8 else (4 if n.attr - k >= 4 else 1)
            vals.append((k, sz, self.load(self.gep(s, ('int', 8), [(('int', 64), ('i', k))]), sz)))
            k += sz
        for k, sz, v in vals:
            self.store(self.gep(d, ('int', 8), [(('int', 64), ('i', k))]), v, sz, loc)
    def memset(self, d, v, n, loc):
        g = self.g
        if n.op != 'ci' or v.op != 'ci': raise Unmodelled('memset')
        k = 0
        while k < n.attr:
            sz = 8 if n.attr - k >= 8 else (4 if n.attr - k >= 4 else 1)
            x = 0
            for _ in range(sz): x = (x << 8) | v.attr
            self.store(self.gep(d, ('int', 8), [(('int', 64), ('i', k))]), g.ci(x, 8*sz), sz, loc)
            k += sz
    # ---- outputs ---------------------------------------------------------
    def out(self, name, k, ty='d', size=8):
        """k-th cell of the object behind parameter `name` at return"""
        r = self.peek(self.mem, 'arg:' + name, k*size, size)
        if r is None:
            return self.gapped(self.g.mk('undef', (name, k), (), ty))
        return self.gapped(self.conv(r, ty))

from . import clsfun
