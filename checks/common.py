"""regions shared by several checks"""
from engine import ga, fp, nf, part, decide, vg, config
VALID = fp.NNORM | fp.PNORM | fp.NZERO | fp.PZERO
ZERO = fp.const(0.)
NAN = fp.const(float('nan'))
def zn(lim):
    """zero or normal, |x| <= lim"""
    return fp.box(-lim, lim, VALID)
def sizefact(G, t, name, lo, hi):
    """lo <= magnitude <= hi"""
    return (G.sumsq(G.var(t, name)), lo*lo, hi*hi)
def invalid(v):
    """abstract value of which no concrete value is valid"""
    return v[0] & VALID == 0
def zero(t, name, box=ZERO):
    return {'%s.%d' % (name, k): box for k in range(t.n)}

def must_invalid(rep, mod, w, boxes, outs, what, default=None, only=None, graph=None, alias=None, limit=3000, cut=None):
    """on every leaf some component of each output is not valid; `only`: that component index must be NaN
    outs: list of (param, n)"""
    good = False
    with rep.attempt(w.sig):
        good = _must_invalid(rep, mod, w, boxes, outs, what, default, only, graph, alias, limit)
    return good

def _must_invalid(rep, mod, w, boxes, outs, what, default, only, graph, alias, limit):
    B = graph or decide.build_graph(mod, w)
    A = nf.Algebra()
    R = part.Region(B.g, A, boxes=boxes, default=default if default is not None else zn(1e30))
    R.exact_zero = alias is not None
    L = part.leaves(part.Ctx(R), [B.out(p, k) for p, n in outs for k in range(n)], limit)
    rep.functions.add(w.sig)
    if L.error: # one component that is never valid is enough
        for p, k in [(p, k) for p, n in outs for k in range(n) if only is None or k == only]:
            L1 = part.leaves(part.Ctx(R), [B.out(p, k)], limit)
            if L1.error or len(outs) > 1 or not all((v[0] and invalid(v)) if only is None else v[0] and not v[0] & ~fp.NANS for v in (c.val(r) for c, (r,) in L1)): continue
            rep.count('leaves', len(L1))
            return rep.hold('%s: %s' % (w.sig, what), True)
    rep.count('leaves', len(L))
    good = True
    for c, rs in L:
        i = 0
        for p, n in outs:
            part_ = rs[i:i+n]; i += n
            vs = [c.val(r) for r in part_]
            if only is not None:
                ok = vs[only][0] and not vs[only][0] & ~fp.NANS
            else:
                ok = any(v[0] and invalid(v) for v in vs)
            bad = next((r for r, v in zip(part_, vs) if not invalid(v)), part_[0])
            good &= rep.hold('%s: %s' % (w.sig, what), ok, where=decide.node_loc(bad),
                             expected='a component that is not valid' if only is None else 'NaN in component %d' % only,
                             found='possible classes: ' + ', '.join(classes(v) for v in vs), path=c.describe())
    return good

def classes(v):
    if not v[0]: return 'none'
    n = [nm for m, nm in fp.NAMES.items() if v[0] & m]
    return '{' + '|'.join(n) + '}' if len(n) < 8 else '{any}'

def fpmode(rep):
    """no part of the library may ask for arithmetic that ignores NaN"""
    l = config.fp_mode()
    rep.hold('floating point semantics of the library text', not l, where=l[0] if l else None, expected='no directive or attribute that relaxes floating point', found='; '.join(l))
