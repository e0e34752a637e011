from engine import ga, harness, decide, report, fp, nf, part
from checks import common
RULE = ('every multivector constructor, ComPlex::from, the conversion to std::complex<double> and the grade members of every type are lowered to SSA and value numbered; '
        'each output component must be the input component of the same grade and position itself (or equal to it in normal form and in floating point class for every class), all others the literal zero')
CLS = (fp.NANS, fp.PINF, fp.NINF, fp.PNORM, fp.NNORM, fp.PSUB, fp.NSUB)
Z = 'std::complex<double>'
def check(tier):
    rep = report.Report('C21', tier, RULE)
    for cfg in decide.configs(tier):
        U = harness.Unit()
        want = {}     # name -> list of input component names or None for zero
        def add(n, ins, e, out, exp, sig):
            U.add(n, ins, e, out, sig); want[n] = exp
        def promote(ins):
            d = {}
            for v, t in zip('abcdefgh', ins):
                for k, c in enumerate(t.comps): d[c] = '%s.%d' % (v, k)
            return [d.get(c) for c in ga.M.comps]
        for ins in [(t,) for t in ga.TEN] + [(ga.C, ga.R), (ga.S, ga.V, ga.B, ga.W)]:
            if ins == (ga.M,): continue
            add('ctor_' + ''.join(t.key for t in ins), ins, 'MultiVector(%s)' % ', '.join('abcd'[:len(ins)]), ga.M, promote(ins), 'MultiVector(%s)' % ', '.join(map(str, ins)))
            add('brace_' + ''.join(t.key for t in ins), ins, 'MultiVector{%s}' % ', '.join('abcd'[:len(ins)]), ga.M, promote(ins), 'MultiVector{%s}' % ', '.join(map(str, ins)))
        add('ctor_8', (ga.D,)*8, 'MultiVector(a,b,c,d,e,f,g,h)', ga.M, ['%s.0' % v for v in 'abcdefgh'], 'MultiVector(8 numbers)')
        add('copy', (ga.M,), 'MultiVector(a)', ga.M, ['a.%d' % k for k in range(8)], 'MultiVector copy')
        add('from', (Z,), 'ComPlex::from(a)', ga.C, ['a.0', 'a.1'], 'ComPlex::from')
        add('to', (ga.C,), 'std::complex<double>(a)', Z, ['a.0', 'a.1'], 'std::complex<double>(ComPlex)')
        add('to2', (ga.C,), 'static_cast<std::complex<double> >(a)', Z, ['a.0', 'a.1'], 'static_cast<std::complex<double>>(ComPlex)')
        add('round', (Z,), 'static_cast<std::complex<double> >(ComPlex::from(a))', Z, ['a.0', 'a.1'], 'std::complex<double>(ComPlex::from)')
        MEM = {0: 'theSca', 1: 'theVec', 2: 'theBiv', 3: 'theTri'}
        BL = {0: ga.S, 1: ga.V, 2: ga.B, 3: ga.W}
        for t in ga.NINE:
            if t in ga.BLADES:
                add('data_' + t.key, (t,), 'a.theData', 'std::array<double, %d>' % t.n, ['a.%d' % k for k in range(t.n)], '%s::theData' % t)
                add('agg_' + t.key, (ga.D,)*t.n, '%s{%s}' % (t, ', '.join('abc'[:t.n])), t, ['%s.0' % v for v in 'abc'[:t.n]], '%s{numbers}' % t)
                continue
            gs = sorted(t.grades)
            for g in gs:
                add('mem_%s_%d' % (t.key, g), (t,), 'a.%s' % MEM[g], BL[g], ['a.%d' % t.comps.index(c) for c in BL[g].comps], '%s::%s' % (t, MEM[g]))
            if t is not ga.M:
                exp = ['%s.%d' % ('ab'[i], k) for i, g in enumerate(gs) for k in range(BL[g].n)]
                add('agg_' + t.key, tuple(BL[g] for g in gs), '%s{a, b}' % t, t, exp, '%s{grades}' % t)
                add('num_' + t.key, (ga.D,)*t.n, '%s{%s}' % (t, ', '.join('abcdefgh'[:t.n])), t, ['%s.0' % v for v in 'abcdefgh'[:t.n]], '%s{numbers}' % t)
        m = U.lower(**cfg)
        for n, exp in want.items():
            w = U.wraps[n]
            if not decide.available(rep, w, w.out): continue
            with rep.attempt(w.sig):
                B = decide.build_graph(m, w)
                rep.functions.add(w.sig)
                regions = [(None, fp.FINITE)]
                names = sorted({e for e in exp if e})
                A = nf.Algebra()
                L = part.leaves(part.Ctx(part.Region(B.g, A, default=fp.TOP)), [B.out('o', k) for k in range(len(exp))])
                rep.count('leaves', len(L))
                for c, rs in L:
                    for k, (r, e) in enumerate(zip(rs, exp)):
                        if e is None: ok = r.op == 'cd' and r.attr == 0
                        else:
                            ok = r.op == 'in' and r.attr == e
                            if not ok: ok = same(B, A, r, e, c)
                        rep.hold('component %d of %s' % (k, w.sig), ok, where=decide.node_loc(r), expected=e or '0', found=c.short(r), path=c.describe())
                rep.sample('%s = %s' % (w.sig, ['0' if e is None else e for e in exp]))
    return rep.finish()
def same(B, A, r, e, c):
    """equal in normal form, and class preserving"""
    if c.trail: return False
    x = c.nf(r)
    if isinstance(x, str) or not A.eq(x, A.var(e)): return False
    for k in CLS:
        R = part.Region(B.g, nf.Algebra(), boxes={e: fp.cls(k)}, default=fp.TOP)
        if part.Ctx(R).val(r)[0] & ~k: return False
    return True
