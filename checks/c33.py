import concurrent.futures, multiprocessing, re
from engine import ga, harness, decide, report, vg
from checks import c02
RULE = ('compound expressions over the library\'s own operations (nested products and sums of all type triples, involutions, duals and negations of products, operands that are named, '
        'constant, modifiable or temporary) are resolved by the compiler, lowered to SSA as a whole and value numbered; rule: both sides of every law have the same type and the same '
        'polynomial normal form, namely that of the algebra')
SUMS = {(t.key, u.key) for t, u in c02.pairs()}
def prod(t, u): return ga.smallest(ga.product_grades(t, u))
def summ(t, u): return ga.smallest(t.grades | u.grades) if (t.key, u.key) in SUMS else None

class E:
    """an expression: text, type, value in the algebra; operands are a, b, c"""
    def __init__(self, s, t, v, prec=9): self.s, self.t, self.v, self.prec = s, t, v, prec
def var(n, t): return E(n, t, lambda G: G.var(t, n))
def mul(x, y): return E('(%s*%s)' % (x.s, y.s), prod(x.t, y.t), lambda G: G.mul(x.v(G), y.v(G)))
def add(x, y):
    t = summ(x.t, y.t)
    return E('(%s + %s)' % (x.s, y.s), t, lambda G: G.add(x.v(G), y.v(G))) if t else None
FL = {'reverse': {2, 3}, 'oddverse': {1, 3}, 'dirverse': {1, 2}}
def un(f, x): return E('%s(%s)' % (f, x.s), x.t, lambda G: G.grades(x.v(G), FL[f]))
def neg(x): return E('(-%s)' % x.s, x.t, lambda G: G.neg(x.v(G)))
def dual(x): return E('dual(%s)' % x.s, ga.smallest(frozenset(3 - g for g in x.t.grades)), lambda G: G.dual(x.v(G)))

def laws(t):
    """[(law, [expressions that are equal])] with first operand of type t"""
    a = var('a', t)
    for u in ga.NINE:
        b = var('b', u)
        p = mul(a, b)
        if t is ga.D:
            yield 'numbers commute with %s' % u, (t, u), [p, mul(b, a)]
            for w in ga.NINE:
                c = var('c', w)
                yield 'numbers move through products', (t, u, w), [mul(a, mul(b, c)), mul(mul(a, b), c), mul(b, mul(a, c))]
                if summ(u, w): yield 'numbers distribute over sums', (t, u, w), [mul(a, add(b, c)), add(mul(a, b), mul(a, c))]
            continue
        for f in ('reverse', 'dirverse'): yield '%s of a product' % f, (t, u), [un(f, p), mul(un(f, b), un(f, a))]
        yield 'oddverse of a product', (t, u), [un('oddverse', p), mul(un('oddverse', a), un('oddverse', b))]
        yield 'dual of a product', (t, u), [dual(p), mul(dual(a), b), mul(a, dual(b))]
        yield 'negation of a product', (t, u), [neg(p), mul(neg(a), b), mul(a, neg(b))]
        if u is ga.S or u is ga.W: yield 'scalars and trivectors commute', (t, u), [p, mul(b, a)]
        if summ(t, u):
            yield 'sums commute', (t, u), [add(a, b), add(b, a)]
            for f in FL: yield '%s of a sum' % f, (t, u), [un(f, add(a, b)), add(un(f, a), un(f, b))]
            yield 'dual of a sum', (t, u), [dual(add(a, b))] + [x for x in [add(dual(a), dual(b))] if x]
            yield 'negation of a sum', (t, u), [neg(add(a, b)), add(neg(a), neg(b))]
        for w in ga.NINE:
            c = var('c', w)
            yield 'products associate', (t, u, w), [mul(mul(a, b), c), mul(a, mul(b, c))]
            if summ(u, w): yield 'products distribute over sums from the left', (t, u, w), [x for x in [mul(a, add(b, c)), add(mul(a, b), mul(a, c))] if x]
            if summ(t, u): yield 'products distribute over sums from the right', (t, u, w), [x for x in [mul(add(a, b), c), add(mul(a, c), mul(b, c))] if x]
            s = [x for x in [add(a, b) and add(add(a, b), c), add(b, c) and add(a, add(b, c))] if x]
            if s: yield 'sums associate', (t, u, w), s
    for f in FL if t is not ga.D else ('reverse',): yield '%s twice' % f, (t,), [a] + [un(f, un(f, a))]
    if t is not ga.D: yield 'sums with itself', (t,), [E('(a + a)', t, lambda G: G.scale(G.var(t, 'a'), G.A.c(2))), E('(2.*a)', t, lambda G: G.scale(G.var(t, 'a'), G.A.c(2)))]

def categories(t, U):
    """binary operations on modifiable and temporary operands"""
    for u in ga.TEN:
        for op, ty in (('*', prod(t, u) if not (t is u is ga.D) else None), ('+', summ(t, u) if t is not ga.D is not u else None)):
            if ty is None: continue
            for k in ('xx', 'mm', 'xm', 'mx', 'xk', 'kx', 'mk', 'km'):
                def opd(c, n, tt): return {'x': '*' + n, 'm': 'std::move(*%s)' % n, 'k': '*static_cast<%s const*>(%s)' % (tt.cpp, n)}[c]
                n = 'cat_%s%s_%s_%s' % ('m' if op == '*' else 'a', k, t.key, u.key)
                e = '%s %s %s' % (opd(k[0], 'a', t), op, opd(k[1], 'b', u))
                f = 'namespace { constexpr auto f_%s = [](auto* a, auto* b) -> decltype(%s) { return %s; }; }\n' % (n, e, e)
                f += 'extern "C" { extern const int flag_%s; const int flag_%s = vl::chk<%s, decltype(f_%s), %s*, %s*>(f_%s);\n' % (n, n, ty.cpp, n, t.cpp, u.cpp, n)
                f += 'void w_%s(%s* a, %s* b, %s* o) { vh::run<%s>(f_%s, o, a, b); } }\n' % (n, t.cpp, u.cpp, ty.cpp, ty.cpp, n)
                U.addraw(n, f, [('inout', 'a'), ('inout', 'b'), ('out', 'o')], '%s %s %s with %s operands' % (t, op, u, ' and '.join({'x': 'modifiable', 'm': 'temporary', 'k': 'constant'}[x] for x in k)))
                U.wraps[n].out = ty; U.wraps[n].cat = (op, t, u)
                U.wraps[n].kind = k

PRE = '''
namespace vl { // the result is an object of its own: no reference
template <class R, class F, class... P> constexpr int chk(F const& f) {
  if constexpr (std::is_invocable_v<F const&, P...>) return std::is_reference_v<std::invoke_result_t<F const&, P...>> ? 2 : vh::chk<R, F, P...>(f);
  else return 0;
}
}
'''
UNARY = {'neg': ('-%s', {0, 1, 2, 3}), 'rev': ('reverse(%s)', {2, 3}), 'odd': ('oddverse(%s)', {1, 3}), 'dir': ('dirverse(%s)', {1, 2}), 'dual': ('dual(%s)', None)}
def unary(t, U):
    if t is ga.D: return
    for f, (s, fl) in UNARY.items():
        ty = t if fl else ga.smallest(frozenset(3 - g for g in t.grades))
        for k, x in (('x', '*a'), ('m', 'std::move(*a)'), ('k', '*static_cast<%s const*>(a)' % t.cpp)):
            n, e = 'una_%s%s_%s' % (f, k, t.key), s % x
            g = 'namespace { constexpr auto f_%s = [](auto* a) -> decltype(%s) { return %s; }; }\n' % (n, e, e)
            g += 'extern "C" { extern const int flag_%s; const int flag_%s = vl::chk<%s, decltype(f_%s), %s*>(f_%s);\n' % (n, n, ty.cpp, n, t.cpp, n)
            g += 'void w_%s(%s* a, %s* o) { vh::run<%s>(f_%s, o, a); } }\n' % (n, t.cpp, ty.cpp, ty.cpp, n)
            U.addraw(n, g, [('inout', 'a'), ('out', 'o')], '%s of a %s operand' % (s % t, {'x': 'modifiable', 'm': 'temporary', 'k': 'constant'}[k]))
            U.wraps[n].out = ty; U.wraps[n].cat = (f, t, None)

def worker(arg):
    t, cfg, tier = arg
    t = ga.BY[t]
    rep = report.Report('C33', tier, RULE)
    U = harness.Unit(PRE); exp = {}; seen = {}
    for law, ts, es in laws(t):
        ty = {e.t for e in es}
        rep.count('laws')
        for e in es:
            k = (e.s, tuple(x.key for x in ts))
            if e.s == 'a' or k in seen: continue
            n = 'l%d_%s' % (len(seen), t.key); seen[k] = n
            U.add(n, ts, e.s, es[0].t, '%s, %s' % (e.s, ', '.join('%s:%s' % (v, x) for v, x in zip('abc', ts))))
            exp[n] = (law, e)
    categories(t, U); unary(t, U)
    m = U.lower(**cfg)
    for n, (law, e) in exp.items():
        w = U.wraps[n]
        decide.compare(rep, m, w, lambda G: [('o', w.out, e.v(G))], what=law)
    for n, w in U.wraps.items():
        if n in exp: continue
        if not decide.available(rep, w, w.out): continue
        op, x, u = w.cat
        def orc(G):
            p = G.var(x, 'a')
            if u is None: return [('o', w.out, G.grades(p, UNARY[op][1]) if UNARY[op][1] else G.dual(p)), ('a', x, p)]
            q = G.var(u, 'b')
            return [('o', w.out, G.mul(p, q) if op == '*' else G.add(p, q))] + [(v, tt, el) for v, tt, el in (('a', x, p), ('b', u, q))]
        decide.compare(rep, m, w, orc, what='value')
    rep.count('expressions', len(U.wraps))
    return {k: getattr(rep, k) for k in ('obl', 'ok', 'bad', 'samples', 'counts', 'functions', 'gaps', 'found')}

def check(tier):
    rep = report.Report('C33', tier, RULE)
    for cfg in decide.configs(tier):
        with concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('fork')) as ex:
            for r in ex.map(worker, [(t.key, cfg, tier) for t in (ga.M, ga.P, ga.I, ga.R, ga.C, ga.V, ga.B, ga.D, ga.S, ga.W)]):
                rep.obl += r['obl']; rep.ok += r['ok']; rep.bad += r['bad']; rep.gaps += [g for g in r['gaps'] if g not in rep.gaps]; rep.functions |= r['functions']
                for s in r['samples'][:2]: rep.sample(s)
                for k, v in r['counts'].items(): rep.count(k, v)
    rep.assume = ['real arithmetic semantics of + - *; component values finite', 'sums the library deliberately leaves without operator are not part of the property']
    return rep.finish()
