from engine import ga, harness, decide, report, fp, part, nf
from checks import common, c02, c09
RULE = ('every operation is lowered to SSA and value numbered; for each operand component in turn the class domain is evaluated with that component NaN and all others zero or normal of moderate size: '
        'on every leaf some output component must be definitely not valid (element-by-element operations: exactly the matching component definitely NaN)')

def check(tier):
    rep = report.Report('C16', tier, RULE)
    common.fpmode(rep)
    for cfg in decide.configs(tier):
        U = harness.Unit(c09.PRE)
        ops = {}       # name -> (ins, outs, elementwise map or None)
        def add(n, ins, e, out, sig, elem=None):
            U.add(n, ins, e, out, sig); ops[n] = (ins, [('o', out.n)], elem)
        for t in ga.TEN:
            for u in ga.TEN:
                if t is ga.D and u is ga.D: continue
                add('mul_%s_%s' % (t.key, u.key), (t, u), 'a*b', ga.smallest(ga.product_grades(t, u)), '%s * %s' % (t, u))
        for t, u in c02.pairs():
            out = ga.smallest(t.grades | u.grades)
            for nm, op in (('add', '+'), ('sub', '-')):
                add('%s_%s_%s' % (nm, t.key, u.key), (t, u), 'a%sb' % op, out, '%s %s %s' % (t, op, u), lambda c, out=out: out.comps.index(c))
        for t in ga.NINE:
            same = lambda c, t=t: t.comps.index(c)
            add('neg_' + t.key, (t,), '-a', t, '-%s' % t, same)
            for f in ('reverse', 'oddverse', 'dirverse'):
                add(f + '_' + t.key, (t,), f + '(a)', t, '%s(%s)' % (f, t), same)
            add('ampsq_' + t.key, (t,), 'ampSq(a)', ga.C, 'ampSq(%s)' % t)
            add('amp_' + t.key, (t,), 'amplitude(a)', ga.C, 'amplitude(%s)' % t)
            add('dir_' + t.key, (t,), 'direction(a)', t, 'direction(%s)' % t)
            if t in ga.BLADES + (ga.C, ga.M): add('inv_' + t.key, (t,), 'vh::inv1(a, 0)', t, 'inverse(%s)' % t)
            n = 'pair_' + t.key
            U.addpair(n, (t,), 'pairMagDirFrom(a)', ga.D, t, 'pairMagDirFrom(%s)' % t)
            ops[n] = ((t,), [('o', 1), ('q', t.n)], None)
        for t in ga.TEN:
            du = ga.smallest(frozenset(3-g for g in t.grades))
            add('dual_' + t.key, (t,), 'dual(a)', du, 'dual(%s)' % t, lambda c, du=du: du.comps.index(7 ^ c))
            add('magsq_' + t.key, (t,), 'magSq(a)', ga.D, 'magSq(%s)' % t)
            add('mag_' + t.key, (t,), 'magnitude(a)', ga.D, 'magnitude(%s)' % t)
        for t in (ga.D, ga.S, ga.P, ga.C, ga.M):
            add('sq_' + t.key, (t,), 'sq(a)', t, 'sq(%s)' % t)
            add('cube_' + t.key, (t,), 'cube(a)', t, 'cube(%s)' % t)
        add('exp_B', (ga.B,), 'exp(a)', ga.P, 'exp(BiVector)')
        add('exp_P', (ga.P,), 'exp(a)', ga.P, 'exp(Spinor)')
        add('exp_M', (ga.M,), 'exp(a)', ga.M, 'exp(MultiVector)')
        add('log', (ga.P, ga.B), 'logG2(a, b)', ga.P, 'logG2(Spinor, plane)')
        add('log1', (ga.P,), 'logG2(a)', ga.P, 'logG2(Spinor)')
        add('sqrt', (ga.P, ga.B), 'sqrtG2(a, b)', ga.P, 'sqrtG2(Spinor, plane)')
        add('sqrt1', (ga.P,), 'sqrtG2(a)', ga.P, 'sqrtG2(Spinor)')
        m = U.lower(**cfg)
        for n, (ins, outs, elem) in ops.items():
            w = U.wraps[n]
            if not decide.available(rep, w, w.out): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                nin = 1 if n in ('log', 'sqrt') else len(ins)    # the plane is not used for every spinor
                lim = 1e30
                for i in range(nin):
                    for k in range(ins[i].n):
                        nm = '%s.%d' % ('ab'[i], k)
                        only = elem(ins[i].comps[k]) if elem else None
                        common.must_invalid(rep, m, w, {nm: common.NAN}, outs, 'component %d of operand %d null' % (k, i+1), default=common.zn(lim), only=only, graph=B)
    rep.assume = ['the caller-supplied plane of logG2 and sqrtG2 counts as operand only where it is used (C12, C13)']
    return rep.finish()
