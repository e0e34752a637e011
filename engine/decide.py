"""Shared deciding steps: value graph of a wrapper, leaves of its guard
partition, comparison of normal forms with the oracle."""
import re, os
from . import vg, nf, fp, part, ga, build

FIN = fp.box(-fp.MAXN, fp.MAXN, fp.FINITE)
MOD = fp.box(-1e30, 1e30, fp.NUM & ~(fp.NSUB | fp.PSUB))

def ncomp(t):
    return t.n if isinstance(t, ga.T) else {'bool': 1, 'double': 1}.get(t, 0)

def available(rep, w, expected_type):
    """is the operation there, with the right type"""
    if w.flag == 1: return True
    if w.flag == 0:
        rep.hold('%s is available' % w.sig, False, where='overload set', expected='a result of type %s' % expected_type, found='no viable overload')
    elif w.flag == 2:
        rep.hold('%s has result type %s' % (w.sig, expected_type), False, where='overload set', expected=expected_type, found='a different type')
    else:
        m = re.search(r'(%s/[^ :]*:\d+):\d+: error: (.*)' % re.escape(build.REPO), w.error or '')
        if not m: raise build.BuildError('wrapper of %s does not compile: %s' % (w.sig, (w.error or '')[:600]))
        rep.hold('%s compiles' % w.sig, False, where=m.group(1) if m else None, expected='well formed', found=m.group(2) if m else (w.error or '')[:300])
    return False

def node_loc(r, seen=None):
    """best source position of a term"""
    todo = [r]
    seen = set()
    while todo:
        n = todo.pop(0)
        if n.id in seen: continue
        seen.add(n.id)
        if n.loc: return n.loc
        todo += list(n.args)
        if len(seen) > 200: break
    return None

def build_graph(mod, w, params=None, cls=vg.Builder):
    return cls(mod, '@w_' + w.name, params or w.params).run()

def substitutions(c):
    """equalities of the leaf usable as input := polynomial"""
    A = c.alg
    out = []
    for a, b, s in c.rel.values():
        if s == '=':
            x, y = c.nf(a), c.nf(b)
            if isinstance(x, str) or isinstance(y, str): continue
            d = A.sub(x, y)
            out.append(d)
    for e in c.trail:
        if e[0] == 'cls' and not c.val(e[1])[0] & ~fp.ZEROS:
            x = c.nf(e[1])
            if not isinstance(x, str) and not A.is0(x): out.append(x)
    return out

def remainder(A, p, ds):
    """remainder of polynomial p by the polynomials ds (vanishing ones)"""
    key = lambda m: (sum(e for _, e in m), m[::-1])
    ds = [(dict(max(d, key=key)), d[max(d, key=key)], d) for d in ds]
    rest, r = {}, dict(p)
    for step in range(600):
        if not r: return rest
        lr = max(r, key=key)
        for lm, lc, d in ds:
            dm = dict(lr)
            if any(dm.get(k, 0) < e for k, e in lm.items()): continue
            for k, e in lm.items(): dm[k] -= e
            t = tuple(sorted((k, e) for k, e in dm.items() if e))
            s = nf.padd(r, A.pmul({t: nf.num(nf.Fraction(r[lr])/lc)}, d), -1)
            if lr not in s: r = s; break
        else:
            rest[lr] = r.pop(lr)
    return p

def subst(A, x, k, y):
    """x with atom k replaced by NF y (polynomial atoms only)"""
    def sp(p):
        r = A.c(0)
        for m, c in p.items():
            t = A.c(c)
            for kk, e in m:
                f = y if kk == k else A.at(kk)
                t = A.mul(t, A.pow(f, e))
            r = A.add(r, t)
        return r
    n, d = sp(x.n), sp(x.d)
    if not d.n: raise ZeroDivisionError
    return A.div(n, d)

def zeroinputs(c):
    """inputs that can only be zero on this leaf"""
    A = c.alg
    out = set()
    for i, v in c.refined.items():
        if v[0] & ~fp.ZEROS: continue
        nd = c.g.node(i)
        if nd is not None and nd.op == 'in' and nd.attr in A.byname: out.add(A.byname[nd.attr])
    return out

def zeroed(A, x, Z):
    """x with the inputs in Z set to zero, also inside of roots and other functions"""
    memo = {}
    def atom(k):
        if k not in memo:
            kd, ar = A.atoms[k]
            if kd == 'in': memo[k] = A.c(0) if k in Z else A.at(k)
            else:
                na = [rec(a) for a in ar]
                if all(A.eq(a, b) for a, b in zip(na, ar)): memo[k] = A.at(k)
                elif isinstance(kd, str): memo[k] = A.fn('fabs' if kd == 'abs' else kd, na)
                else: raise ZeroDivisionError
        return memo[k]
    def poly(p):
        r = A.c(0)
        for m, co in p.items():
            t = A.c(co)
            for k, e in m: t = A.mul(t, A.pow(atom(k), e))
            r = A.add(r, t)
        return r
    def rec(a):
        n, d = poly(a.n), poly(a.d)
        if not d.n: raise ZeroDivisionError
        return A.div(n, d)
    return rec(x)

def equal(c, x, y, tol=None):
    """are two normal forms equal on this leaf"""
    A = c.alg
    if isinstance(x, str) or isinstance(y, str): return x == y
    if A.eq(x, y): return True
    Z = zeroinputs(c)
    if Z:
        try:
            if A.eq(zeroed(A, x, Z), zeroed(A, y, Z)): return True
        except ZeroDivisionError:
            pass
    ds = [d for d in substitutions(c) if not A.is0(d)]
    if not ds: return False
    if not remainder(A, A.sub(x, y).n, [d.n for d in ds]): return True
    for d in ds:
        # a linear input atom with constant coefficient
        if d.d != nf.ONE: continue
        for m, co in d.n.items():
            if len(m) == 1 and m[0][1] == 1 and A.atoms[m[0][0]][0] == 'in':
                k = m[0][0]
                if any(kk == k for mm in d.n for kk, _ in mm if mm != m): continue
                rest = nf.NF({mm: cc for mm, cc in d.n.items() if mm != m})
                try:
                    sol = A.scale(rest, -1/nf.Fraction(co))
                    if A.eq(subst(A, x, k, sol), subst(A, y, k, sol)): return True
                except ZeroDivisionError:
                    pass
    return False

def show(c, x):
    return x if isinstance(x, str) else c.alg.show(x)

def compare(rep, mod, w, oracle, default=FIN, boxes=None, facts=None, what=None, keyf=None, outs=None, graph=None, limit=3000):
    """all output components of wrapper w against oracle(GA) on every leaf"""
    if not available(rep, w, w.out if not isinstance(w.out, tuple) else 'pair of %s, %s' % w.out): return None
    res = None
    with rep.attempt(w.sig):
        res = _compare(rep, mod, w, oracle, default, boxes, facts, what, keyf, graph, limit)
    return res

def _compare(rep, mod, w, oracle, default, boxes, facts, what, keyf, graph, limit):
    B = graph or build_graph(mod, w)
    A = nf.Algebra()
    G = ga.GA(A)
    exp = oracle(G)          # list of (param, type, Elem | NF)
    fs = facts(G) if facts else ()
    R = part.Region(B.g, A, boxes=boxes, default=default, facts=fs).merging()
    want = []
    roots = []
    for pn, t, e in exp:
        for k in range(ncomp(t)):
            roots.append(B.out(pn, k))
            comp = ga.NAMES[t.comps[k]] if isinstance(t, ga.T) else ''
            want.append((pn, comp, G.comp(e, t, k) if isinstance(t, ga.T) and isinstance(e, ga.Elem) else e))
    L = part.leaves(part.Ctx(R), roots, min(limit, 300))
    groups = [(L, want)]
    if L.error: # components have guards of their own: partition for each component
        groups = [(part.leaves(part.Ctx(R), [r], limit), [x]) for r, x in zip(roots, want)]
        L = groups[0][0]
    rep.functions.add(w.sig)
    rep.count('value_graph_nodes', B.g.n)
    rep.count('leaves', sum(len(l) for l, _ in groups))
    good = True
    for c, rs, ws in ((c, rs, ws) for l, ws in groups for c, rs in l):
        for r, (pn, comp, e) in zip(rs, ws):
            x = c.nf(r)
            ok = equal(c, x, e)
            good &= rep.hold('%s component %s of %s' % (what or 'value', comp, w.sig), ok, key=keyf(w) if keyf else None, where=node_loc(r),
                             expected=show(c, e), found=show(c, x), path=c.describe() if len(L) > 1 else None)
    if good: rep.sample('%s: %d leaves, %d components equal to the oracle; e.g. %s = %s' % (w.sig, len(L), len(roots), want[-1][1], show(L[0][0], want[-1][2])[:200]))
    return B, L

CONFIGS = {'quick': [dict(std='c++17')], 'thorough': [dict(std='c++17'), dict(std='c++20'), dict(std='c++17', extra=('-DNDEBUG',))]}
def configs(tier):
    return CONFIGS[tier]

def truth(r):
    """boolean value of a resolved result cell"""
    if r.op in ('zext', 'trunc') and r.args[0].ty == 'i1': r = r.args[0]
    if r.op == 'ci': return bool(r.attr & 1)
    return None

def booleans(B, boxes, default, out='o', facts=(), alg=None, pre=None, limit=3000):
    """[(ctx, truth value, loc)] per leaf of a predicate"""
    A = alg or nf.Algebra()
    R = part.Region(B.g, A, boxes=boxes, default=default, facts=facts)
    root = B.out(out, 0, 'i8', 1) if isinstance(out, str) else out
    c0 = part.Ctx(R)
    if pre: pre(c0)
    res = part.Leaves()
    L = part.leaves(c0, [root], limit)
    for c, (r,) in list.__iter__(L):
        res.append((c, truth(r), node_loc(root)))
    res.error = L.error
    return res
