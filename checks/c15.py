import math
from engine import ga, harness, decide, report, fp, nf, part, vg, build, ir
RULE = ('each constant is read from a wrapper that returns it: after value numbering every component must be a literal with the documented bit pattern; in the unoptimised IR the constants '
        'must be constant data (no dynamic initialiser), and null/zero/one of every type must fold to literals')
def lit(n):
    """double literal of a value graph term"""
    if n.op == 'cd': return vg.unbits(n.attr)
    return None
def check(tier):
    rep = report.Report('C15', tier, RULE)
    cfgs = list(decide.configs(tier))
    for cfg in cfgs:
        U = harness.Unit()
        want = {}
        def add(n, e, t, vals):
            U.add(n, (), e, t, e); want[n] = (t, vals)
        nan = float('nan')
        for t in ga.TEN:
            add('null_' + t.key, 'null<%s>()' % t, t, [nan]*t.n)
            add('zero_' + t.key, 'zero<%s>()' % t, t, [0.]*t.n)
        for t in (ga.D, ga.S, ga.P, ga.M):
            add('one_' + t.key, 'one<%s>()' % t, t, [1.] + [0.]*(t.n-1))
        for t in (ga.V, ga.B):
            add('one_' + t.key, 'one<%s>()' % t, t, [0.]*3)
        for t, names in ((ga.S, ('e0',)), (ga.V, ('e1', 'e2', 'e3')), (ga.B, ('e23', 'e31', 'e12')), (ga.W, ('e123',))):
            for i, nm in enumerate(names):
                add('c_' + nm, nm, t, [1. if k == i else 0. for k in range(t.n)])
        for nm, v in (('pi', math.pi), ('piHalf', math.pi/2), ('piQtr', math.pi/4), ('turnFull', 2*math.pi), ('turnHalf', math.pi), ('turnQtr', math.pi/2), ('nan', nan)):
            add('c_' + nm, 'engabra::g3::' + nm, ga.D, [v])
        m = U.lower(**cfg)
        for n, (t, vals) in want.items():
            w = U.wraps[n]
            if not decide.available(rep, w, t): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                rep.functions.add(w.sig)
                for k, v in enumerate(vals):
                    o = B.out('o', k)
                    x = lit(o)
                    ok = x is not None and (math.isnan(x) if math.isnan(v) else x == v)
                    rep.hold('component %d of %s' % (k, w.sig), ok, where=decide.node_loc(o) or m.functions['@w_' + n].name, expected=v, found=x if x is not None else 'not a compile-time value (%s)' % o.op)
                rep.sample('%s = %s' % (w.sig, vals))
        # static initialisation
        text, _ = build.front(U.source(), extra=cfg.get('extra', ()), std=cfg['std'])
        um = ir.Module(text, parse_bodies=False)
        names = {g: build.demangle([g[1:].strip('"')]).get(g[1:].strip('"'), g) for g in um.globals if 'engabra' in g}
        for g, d in names.items():
            if um.globals[g]['init'] is None: continue
            rep.count('static_data_members')
            rep.hold('%s is constant initialised' % d, um.globals[g]['kind'] == 'constant', where=d, expected='constant data', found='storage initialised at run time')
    return rep.finish()
