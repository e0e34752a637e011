import os, re
from engine import ga, harness, decide, report, build, ir, vg, part, nf, fp, streams
from checks import c26, text
RULE = ('(U) every library function, reached through one wrapper per operation and entity type, is lowered with a guard before each operation that the language leaves undefined for some operand values '
        '(signed overflow, conversion of a floating value to an integer type that cannot hold it, shift and division operands, null or misaligned access, subscripts of arrays, value ranges of bool and enumerations, control reaching the end of a function), '
        'library assertions of the element access functions included; after normalisation every guard must be gone, or its failure condition must be false on every leaf of the guard partition; '
        '(I) the same functions are lowered with every object holding distinct unknown values where its lifetime begins and where it ends: no result and no choice between results may mention one of these, so no result depends on a value that was never written or on an object that is gone; '
        '(A) on every leaf the results refer to no memory outside the operands; '
        '(D) the compiler finds no certain use of an uninitialised or dangling object, no unsequenced modification and no unconditional recursion in the library text')
KIND = {0: 'integer addition overflows', 1: 'control reaches a place declared unreachable', 3: 'integer division by zero or overflow', 5: 'a floating point value is converted to an integer type that cannot represent it', 10: 'a value outside the range of its type is read',
        11: 'control reaches the end of a function that must return a value', 12: 'integer multiplication overflows', 13: 'integer negation overflows', 14: 'null argument', 15: 'null result', 18: 'an array subscript is out of bounds',
        20: 'a shift count is out of range', 21: 'integer subtraction overflows', 22: 'an access through a null, misaligned or too small object', 8: 'an invalid argument of a built in function'}
WARN = '-Wreturn-stack-address -Wdangling -Wdangling-gsl -Wdangling-field -Wdangling-initializer-list -Wuninitialized -Wno-sometimes-uninitialized -Wno-conditional-uninitialized -Wself-assign-field -Warray-bounds -Wunsequenced -Winfinite-recursion -Wshift-count-negative -Wshift-count-overflow -Winteger-overflow -Wdivision-by-zero -Wundefined-reinterpret-cast -Wreturn-type-c-linkage -Wliteral-conversion -Wnull-arithmetic -Wnonnull'.split()

def unit():
    U = c26.unit()
    for n in [n for n in U.wraps if n.startswith(('fixed_', 'enote_'))]: del U.wraps[n]
    for t in ga.NINE:
        k = t.key
        for wr in ((False, True) if t is ga.M else (False,)):
            n = ('wr_' if wr else 'sub_') + k
            c = '' if wr else ' const'
            U.addraw(n, 'extern "C" double w_%s(%s%s* a, std::size_t k) { return (*a)[k]; }\n' % (n, t.cpp, c), [('inout' if wr else 'in', 'a'), ('val', 'k')], '%s[k]' % t)
        U.addraw('ins_' + k, 'extern "C" std::ostream* w_ins_%s(std::ostream* s, %s const* a) { return &(*s << *a); }\n' % (k, t), [('opaque', 's'), ('in', 'a')], 'operator<<(ostream, %s)' % t)
        U.addraw('ext_' + k, 'extern "C" std::istream* w_ext_%s(std::istream* s, %s* a) { return &(*s >> *a); }\n' % (k, t), [('opaque', 's'), ('inout', 'a')], 'operator>>(istream, %s)' % t)
    U.add('log2_P', (ga.P, ga.B), 'logG2(a, b)', ga.P); U.add('sqrt2_P', (ga.P, ga.B), 'sqrtG2(a, b)', ga.P)
    for t in text.TYPES_TEXT:
        T, k = harness.cpp(t), t.key if isinstance(t, ga.T) else 'd'
        for f, args, pars in (('fixed', ', p, q', ('p', 'q')), ('fixed', '', ()), ('enote', ', q', ('q',)), ('enote', '', ())):
            n = '%s%d_%s' % (f, len(pars), k)
            U.addraw(n, 'extern "C" void w_%s(std::string* o, %s const* a%s) { new (o) std::string(io::%s(*a%s)); }\n' % (n, T, ''.join(', std::size_t ' + x for x in pars), f, args),
                     [('opaque', 'o'), ('in', 'a')] + [('val', x) for x in pars], '%s(%s%s)' % (f, T, args))
    for k in (1, 3, 5):
        U.add('val_arr%d' % k, ('std::array<double, %d>' % k,), 'isValid(a)', 'bool', 'isValid(std::array<double, %d>)' % k)
    return U

STREAM = re.compile(r'^@w_(?:ins|ext|fixed\d|enote\d)_')
def pointers(line):
    """the operands of a wrapper are objects"""
    if line.startswith('define') and '@w_' in line: return re.sub(r'ptr noundef (?=%)', 'ptr noundef nonnull align 8 dereferenceable(8) ', line)
    return line

def graph(mod, w):
    if STREAM.match('@w_' + w.name): return text.graph(mod, w)
    return decide.build_graph(mod, w, [p if p[0] != 'out' else p for p in w.params])

# ---- (U) -------------------------------------------------------------------
FLAGS = ('-fsanitize=undefined,float-cast-overflow,local-bounds', '-fno-sanitize=vptr,function,pointer-overflow', '-fsanitize-trap=all', '-D_GLIBCXX_ASSERTIONS')
GUARD = re.compile(r'call void @llvm\.ubsantrap\(i8 (\d+)\)')
def guards(rep, U, ok, cfg, tag, more=()):
    ign = build.fresh('.txt')
    with open(ign, 'w') as f: f.write('src:/usr/*\nsrc:%s/*\n' % os.path.dirname(ign))
    txt, _ = build.front(U.source(ok), extra=tuple(cfg.get('extra', ())) + FLAGS + more + ('-fsanitize-ignorelist=' + ign,), std=cfg.get('std', 'c++17'))
    n = len(GUARD.findall(txt)); rep.count('guards_inserted', n)
    txt = '\n'.join(pointers(l) for l in txt.split('\n'))
    txt, _ = build.mark(txt)
    out = build.optimise(txt)
    mod = ir.Module(out, want=lambda x: x.startswith('@w_'))
    left = {}
    cur = None
    for l in out.split('\n'):
        if l.startswith('define '): cur = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l).group(1)
        elif l.startswith('}'): cur = None
        elif cur:
            m = GUARD.search(l)
            a = '__glibcxx_assert_fail' in l and ' call ' in ' ' + l
            if m or a:
                d = re.search(r'!dbg (!\d+)', l)
                if a and d and (mod.location(d.group(1), '\0') or ('',))[0].endswith('/complex'): continue    # std::polar of a NaN modulus: NaN in every implementation
                left.setdefault(cur, []).append((int(m.group(1)) if m else 18, mod.location(d.group(1)) if d else None))
    for name, w in U.wraps.items():
        if name not in ok: continue
        rep.functions.add(w.sig)
        l = left.pop('@w_' + name, None)
        if not l:
            rep.hold('%s%s' % (tag, w.sig), True); continue
        rep.count('guards_decided_by_partition', len(l))
        undecided(rep, mod, w, l, tag)
    for f, l in left.items():
        d = build.demangle([f[1:].strip('"')])
        for k, loc in l:
            # not reached through a wrapper in this form: every call of it was inlined or it is a member kept apart
            rep.gaps.append(('%s%s' % (tag, list(d.values())[0]), 'an undecided guard: ' + KIND.get(k, str(k))))
    return n

def undecided(rep, mod, w, left, tag):
    what = '; '.join(sorted({'%s%s' % (KIND.get(k, 'kind %d' % k), ' at %s:%d' % tuple(loc[:2]) if loc else '') for k, loc in left}))
    where = next(('%s:%d' % tuple(loc[:2]) for _, loc in left if loc), None)
    sig = tag + w.sig
    with rep.attempt(sig):
        try: B = graph(mod, w)
        except vg.NeverReturns:
            rep.hold(sig, False, where=where, expected='defined for all operand values', found=what + ' for all operand values'); return
        bad = False
        for (c0, wh, eff), inner in zip(B.unreach, B.innermost):
            if inner and str(inner[0]).endswith('/complex'): continue
            L = part.leaves(streams.Ctx(part.Region(B.g, nf.Algebra(), default=fp.TOP)) if STREAM.match('@w_' + w.name) else part.Ctx(part.Region(B.g, nf.Algebra(), default=fp.TOP)), [c0], 400)
            hit = None
            for c, (r,) in list.__iter__(L):
                if r is B.g.true or r.op == 'ci' and r.attr: hit = c; break
            if hit is not None:
                bad = True
                rep.hold(sig, False, where='%s:%d' % tuple(wh[:2]) if wh else where, expected='defined for all operand values', found=what, path=hit.describe())
            elif L.error: raise vg.Unmodelled(L.error)
        if B.gaps: raise vg.Unmodelled('a loop that may take more than %d steps' % vg.unroll.COPIES)
        if not bad: rep.hold(sig, True)

# ---- (I) (A) ---------------------------------------------------------------
LIFE = re.compile(r'(?<=  )call void @llvm\.lifetime\.(?:start|end)\.p0\(i64 (?:immarg )?(-?\d+), ptr (?:nonnull )?(%"[^"]*"|%[\w.$-]+)\).*$')
ALLOCA = re.compile(r'\s+(%"[^"]*"|%[\w.$-]+) = alloca (.+?)(?:, align \d+)?(?:, !dbg.*)?$')
def filled(U, ok, cfg):
    """lowered program in which every object holds distinct unknown values where its lifetime begins and where it ends"""
    txt, _ = build.front(U.source(ok), extra=tuple(cfg.get('extra', ())), std=cfg.get('std', 'c++17'))
    n, uid = 0, [0]
    def words(obj, size, ty):
        if size > 512: return ['  call void @llvm.memset.p0.i64(ptr align 1 %s, i8 -86, i64 %d, i1 false)' % (obj, size)]
        w, r, k = 'double' if ty not in ('i16', 'i32', 'i64', 'ptr') else ty, [], 0
        while k < size:
            s = {'double': 8, 'ptr': 8, 'i16': 2, 'i32': 4, 'i64': 8, 'i8': 1}[w]
            if size - k < s: w = 'i8'; continue
            uid[0] += 1; u = uid[0]
            r += ['  %%vsa.p%d = getelementptr inbounds i8, ptr %s, i64 %d' % (u, obj, k), '  %%vsa.u%d = call %s @vsa_unknown_%s(i64 %d)' % (u, w, w, u), '  store %s %%vsa.u%d, ptr %%vsa.p%d, align 1' % (w, u, u)]
            k += s
        return r
    def sub(m):
        nonlocal n
        if int(m.group(1)) < 0: return m.group(0)
        n += 1
        return '\n'.join(words(m.group(2), int(m.group(1)), types.get(m.group(2), ''))).strip()
    heads = ir.Module(txt, parse_bodies=False)
    out, keep, std, types = [], False, set(), {}
    def sub1(m): return m.group(0) if m.group(2) in std else sub(m)
    marked, cur = {}, None
    for l in txt.split('\n'):
        if l.startswith('define '): cur = marked[re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l).group(1)] = set()
        elif '@llvm.lifetime.start' in l and cur is not None: cur.update(m.group(2) for m in LIFE.finditer(l))
    f, later = None, []
    for l in txt.split('\n'):
        m = ALLOCA.match(l)
        if later and not m: out += later; later = []
        if m:
            types[m.group(1)] = m.group(2)
            if keep and m.group(1) not in marked[f] and re.match(r'double|\[|%"?(?:class|struct)\.(?:engabra|std::(?:array|pair|optional|complex|tuple))', m.group(2)):
                later += words(m.group(1), heads.sizealign(ir.P(ir.tokenize(m.group(2)), heads).type())[0], m.group(2))  # lives as long as the function
            if re.match(r'%"?(?:class|struct)\.std::(?!array|pair|optional|complex|tuple)', m.group(2)): std.add(m.group(1)) # followed through their members instead
        if l.startswith('define '):
            types = {}
            std = set(re.findall(r'sret\(%"?(?:class|struct)\.std::(?!array|pair|optional|complex|tuple)[^)]*\)[^,%]*(%"[^"]*"|%[\w.$-]+)', l))
            f = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l).group(1)
            keep = f.startswith('@w_') or build.owner_is_repo(heads, f)
        out.append(LIFE.sub(sub1, l) if keep and '@llvm.lifetime' in l else l)
    txt = '\n'.join(out)
    if not re.search(r'^declare .*@llvm\.memset\.p0\.i64', txt, re.M):
        txt += '\ndeclare void @llvm.memset.p0.i64(ptr nocapture writeonly, i8, i64, i1 immarg)\n'
    for t in ('double', 'ptr', 'i8', 'i16', 'i32', 'i64'): txt += '\ndeclare %s @vsa_unknown_%s(i64) memory(none) nounwind willreturn\n' % (t, t)
    txt, _ = build.mark(txt)
    return build.optimise(txt), n

def bodies(out):
    r, cur = {}, None
    for l in out.split('\n'):
        if l.startswith('define '):
            cur = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l).group(1); r[cur] = ''
        elif l.startswith('}'): cur = None
        elif cur: r[cur] += l + '\n'
    return r

def roots(B, w):
    """[(what, result cell)]"""
    res = []
    for kind, nm in [p[:2] for p in w.params]:
        if kind in ('out', 'inout'):
            cells = B.mem.get('arg:' + nm, {})
            for off in sorted((o for o in cells if o != '*'), key=str):
                res.append(('%s+%s' % (nm, off), cells[off][1]))
    if B.ret is not None: res += [('result', r) for r in (B.ret if isinstance(B.ret, tuple) else (B.ret,))]
    res.append(('effects', B.eff))
    return res

def closure(nodes, pred):
    seen, st = set(), list(nodes)
    hits = []
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if pred(x): hits.append(x)
        st.extend(a for a in x.args if hasattr(a, 'id'))
    return hits

def unwritten(x):
    return 'unwritten.' in (x.attr if isinstance(x.attr, str) else repr(x.attr)) if x.op in ('in', 'ptr', 'mem', 'load', 'inraw') or isinstance(x.attr, (str, tuple)) else False

def objects(rep, U, ok, cfg, tag):
    out, n = filled(U, ok, cfg)
    rep.count('lifetimes', n)
    b1 = bodies(out)
    m1 = ir.Module(out, want=lambda x: x.startswith('@w_'))
    for name, w in U.wraps.items():
        if name not in ok: continue
        f, sig = '@w_' + name, tag + w.sig
        with rep.attempt(sig):
            if '@vsa_unknown_' in b1[f]:
                rep.count('unwritten_values_followed')
                written(rep, w, m1, sig)
            else: rep.hold('%s: results depend on written values only' % sig, True)
        if STREAM.match(f):
            with rep.attempt(sig): dangling(rep, w, m1, sig)
            continue
        try: B = graph(m1, w)
        except vg.Unmodelled: rep.count('not_graphed'); continue
        size = {}
        for (kind, nm), t in zip([p[:2] for p in w.params], list(w.ins) + [w.out] if not isinstance(w.out, tuple) else list(w.ins) + list(w.out)):
            if kind == 'in': size[nm] = t.n if isinstance(t, ga.T) else int(re.search(r'\d+(?=>)', t).group(0)) if isinstance(t, str) and 'array' in t else 1
        if not w.ins:
            for kind, nm in [p[:2] for p in w.params]:
                t = ga.BY.get(name.split('_')[-1])
                if kind in ('in', 'inout') and t: size[nm] = t.n
        def outside(x):
            if x.op == 'undef' : return True
            if x.op == 'in' and isinstance(x.attr, str) and '.' in x.attr:
                nm, k = x.attr.rsplit('.', 1)
                return nm in size and not 0 <= int(k) < size[nm]
            return x.op == 'inraw' and x.attr[0] in size and not 0 <= x.attr[1] < 8*size[x.attr[0]]
        rs = roots(B, w)
        rep.count('results', len(rs))
        cand = [(wh, r) for wh, r in rs if closure([r], outside)]
        if not cand: rep.hold('%s: results refer to the operands' % sig, True); continue
        with rep.attempt(sig):
            L = part.leaves(part.Ctx(part.Region(B.g, nf.Algebra(), default=fp.TOP)), [r for _, r in cand], 400)
            for c, l in list.__iter__(L):
                guard = [x for t in c.trail for x in t[1:3] if hasattr(x, 'op')]
                for (wh, r0), r in zip(cand, l):
                    h = closure([r] + guard, outside)
                    rep.hold('%s: %s refers to the operands' % (sig, wh), not h, where=decide.node_loc(r0), expected='memory of the operands and of live objects', found=', '.join(repr(x)[:60] for x in h[:3]), path=c.describe())
            if L.error: raise vg.Unmodelled(L.error)

def dangling(rep, w, mod, sig):
    B = graph(mod, w)
    L = text.leaves(B, [B.eff], limit=20000)
    n = 0
    for c, (eff,) in list.__iter__(L):
        st = streams.State(c)
        for e in streams.chain(eff):
            if e.attr[0].startswith('call:'):
                n += 1; streams.lifetimes(st, e, e.attr[0][5:], e.args[1:])
        rep.hold('%s: strings and streams are used while they live' % sig, not st.dangling, where=decide.node_loc(st.dangling[0][0]) if st.dangling else None,
                 expected='no use after destruction', found='; '.join('%s in %s' % (o, d) for _, o, d in st.dangling[:3]), path=c.describe())
    rep.count('string_and_stream_events', n)
    if L.error: raise vg.Unmodelled(L.error)

def written(rep, w, mod, sig):
    """no result, and no choice between results, mentions an unwritten value"""
    B = graph(mod, w)
    rs = [(k, r) for k, r in roots(B, w) if closure([r], unwritten)]
    if not rs:
        rep.hold('%s: results depend on written values only' % sig, True); return
    L = text.leaves(B, [r for _, r in rs], limit=20000) if STREAM.match('@w_' + w.name) else part.leaves(part.Ctx(part.Region(B.g, nf.Algebra(), default=fp.TOP)), [r for _, r in rs], 600)
    def on(t): return bool(closure([x for x in t if hasattr(x, 'op')], unwritten))
    def key(t): return tuple(('n', x.id) if hasattr(x, 'id') else repr(x) for x in t)
    groups = {}
    for c, l in list.__iter__(L):
        first = next((k for k, t in enumerate(c.trail) if on(t)), None)
        for (k, r0), r in zip(rs, l):
            h = closure([r], unwritten)
            rep.hold('%s: %s depends on written values only' % (sig, k), not h, where=decide.node_loc(r0), expected='the same value whatever unwritten and dead objects hold',
                     found='depends on an object that holds no value there', path=c.describe())
            if first is not None and not h:
                by = tuple(key(t) for t in c.trail if on(t)); known = frozenset(key(t) for t in c.trail[first:] if not on(t))
                groups.setdefault((k, tuple(key(t) for t in c.trail[:first])), {}).setdefault(by, {})[known] = (r, c, r0)
    for (k, _), sides in groups.items():
        maps = [{kn: v[0].id for kn, v in m.items()} for m in sides.values()]
        _, c, r0 = next(iter(next(iter(sides.values())).values()))
        rep.hold('%s: the choice of %s depends on written values only' % (sig, k), all(m == maps[0] for m in maps), where=decide.node_loc(r0), expected='the same value whatever unwritten and dead objects hold',
                 found='the choice depends on an object that holds no value there', path=c.describe())
    if L.error: raise vg.Unmodelled(L.error)

# ---- (D) -------------------------------------------------------------------
def diagnostics(rep, U, ok, cfg, tag):
    own = os.path.join(build.REPO, 'src', 'engabra.cpp')
    cpp = build.fresh('.cpp')
    with open(cpp, 'w') as f: f.write(U.source(ok))
    for src in (cpp, own):
        rc, out, err = build.run([build.CLANG, '-std=' + cfg.get('std', 'c++17'), '-O1', '-fsyntax-only', '-fbracket-depth=4096', '-Wno-everything', '-ferror-limit=0', '-I' + build.REPO + '/include',
                                  '-I' + os.path.join(os.path.dirname(build.__file__), '..', 'harness')] + build.DEFS + list(cfg.get('extra', ())) + WARN + [src])
        if rc: raise build.BuildError(err[:1500])
        for m in re.finditer(r'^(/\S+?):(\d+):\d+: warning: (.*)$', err, re.M):
            if not os.path.realpath(m.group(1)).startswith(os.path.realpath(build.REPO)): continue
            rep.hold('%s%s' % (tag, 'library text'), False, where='%s:%s' % (m.group(1), m.group(2)), expected='no such construct', found=m.group(3))
        rep.hold('%sdiagnostics of %s' % (tag, os.path.basename(src) if src == own else 'all operations'), True)

UNWRITTEN = '''
#include <algorithm>
extern "C" {
void w_u1(double const* a, double* o) { double v; if (*a > 1.) v = *a; *o = v; }
void w_u2(double const* a, double* o) { double v[3]; if (*a > 1.) v[2] = *a; *o = v[2] < 1.e9 ? 1. : 2.; }
void w_u3(double const* a, double* o) { double const & v = std::max(*a, 2.); *o = v; }
}
'''
class Control:
    def __init__(self, text): self.text = text
    def source(self, names=None): return self.text
CONTROL = '''
extern "C" {
int w_c1(double const* a) { auto f = [](double x) { return (int)x; }; return f(*a); }
int w_c2(int const* a) { return *a + 1; }
double w_c3(int const* a) { double v[3] = {1, 2, 3}; return v[*a]; }
int w_c4(int const* a) { return 1 << *a; }
}
'''
def check(tier):
    rep = report.Report('C32', tier, RULE)
    for cfg in decide.configs(tier):
        tag = '' if len(decide.configs(tier)) == 1 else ' '.join([cfg.get('std', '')] + list(cfg.get('extra', ()))) + ': '
        # positive control: guards that cannot be discharged stay
        t, _ = build.front(CONTROL, extra=FLAGS); t, _ = build.mark(t)
        if len(GUARD.findall(build.optimise('\n'.join(map(pointers, t.split('\n')))))) < 4: raise build.BuildError('the control guards were not inserted')
        o = bodies(filled(Control(UNWRITTEN), None, {})[0])
        for f in ('@w_u1', '@w_u2', '@w_u3'):
            if '@vsa_unknown' not in o[f]: raise build.BuildError('the control object is not followed: ' + f)
        U = unit()
        ok = U.available(cfg)
        tx = {x for x in ok if STREAM.match('@w_' + x)}
        # base class members of a stream lie at an offset held in the stream: nothing is known about its alignment
        n = guards(rep, U, ok - tx, cfg, tag) + guards(rep, U, tx, cfg, tag, ('-fno-sanitize=alignment',))
        if len(ok) < 600 or n < 100: raise build.BuildError('anchors vanished: %d wrappers, %d guards' % (len(ok), n))
        objects(rep, U, ok, cfg, tag)
        diagnostics(rep, U, ok, cfg, tag)
        rep.sample('%d operations, %d guards inserted, all discharged' % (len(ok), n))
    rep.assume = ['mathematical functions of the C library and members of the standard library have no undefined behaviour within their documented preconditions', 'operands are live, aligned objects']
    return rep.finish()
