import os, re
from engine import ga, harness, decide, report, build, ir
from checks import c09
RULE = ('(G) every variable of static or thread storage duration that the library declares is immutable: const through all levels, no mutable members, and the initialiser of a local static '
        'refers to no parameter or local variable of its function; '
        '(S) in the SSA form of every function the library defines each store or block write goes to a local object, the result object, or a parameter the signature declares modifiable; '
        '(B) every element access of a fixed size array is inside it (the bounds assertions of the standard library are compiled in and must be unreachable); '
        '(L) no function refers to a non-constant variable defined outside the library (standard streams, errno); '
        '(C) every call goes to another analysed function, a pure mathematical or memory-comparison function, or - for the text functions only - to string and stream members of the standard library; '
        'nothing throws, and no indirect call, volatile or atomic access, or assembly occurs')

MATH = 'sqrt sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh exp exp2 expm1 log log2 log10 log1p pow hypot cbrt fabs abs fmin fmax fmod remainder fdim fma floor ceil round trunc rint nearbyint ' \
       'copysign nextafter ldexp scalbn scalbln logb ilogb lround llround lrint llrint csqrt cexp clog cabs carg cpow csin ccos ctan cacos casin catan csinh ccosh ctanh isnan isinf finite nan sincos frexp modf ' \
       'memcmp bcmp strlen memcpy memset memmove strcmp strncmp memchr abort__'.split()
PURE = set(MATH) | {x + s for x in MATH for s in 'fl'} | {'__muldc3', '__divdc3', '__mulxc3', '__divxc3', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort',
        '__clang_call_terminate', '__cxa_begin_catch', '_ZSt9terminatev', '__gxx_personality_v0', '__signbit', '__isnan', '__isinf', '__finite', '__fpclassify', '__powidf2'}
# standard library members that reach outside their arguments
OUTSIDE = re.compile(r'std::locale::global|sync_with_stdio|std::basic_[io]?fstream|std::basic_filebuf|std::random_device|std::chrono|std::this_thread|std::thread|std::mutex|std::setlocale|std::(?:cout|cerr|clog|cin|wcout)\b|std::rand|getenv|std::filesystem|std::shared_mutex|std::condition_variable')
TEXTUAL = re.compile(r'std::(?:ostream|istream|iostream|ios|stringstream|streambuf)\b|std::(?:__cxx11::)?basic_(?:ostream|istream|iostream|ios|string|streambuf|stringstream|ostringstream|istringstream|stringbuf|string_view)|std::ios_base|std::string')
WRITES = {'llvm.memcpy', 'llvm.memset', 'llvm.memmove'}
MEMW = {'memcpy', 'memset', 'memmove', 'sincos', 'modf', 'frexp'}

# generic functions whose body is ill formed for these operands
HARD = set('amp_D cube_B cube_R cube_V cube_I cube_T sq_B sq_I sq_R sq_T sq_V'.split())
def unit():
    U = harness.Unit(c09.PRE)
    def add(n, ins, e, out):
        if n not in HARD: U.add(n, ins, e, out)
    for t in ga.TEN:
        for u in ga.TEN:
            if t is ga.D and u is ga.D: continue
            for nm, op in (('mul', '*'), ('add', '+'), ('sub', '-')):
                gr = ga.product_grades(t, u) if nm == 'mul' else t.grades | u.grades
                add('%s_%s_%s' % (nm, t.key, u.key), (t, u), 'a%sb' % op, ga.smallest(gr))
    for t in ga.TEN:
        k = t.key
        add('neg_' + k, (t,), '-a', t)
        for f in ('reverse', 'oddverse', 'dirverse', 'direction', 'inverse', 'sq', 'cube', 'exp', 'logG2', 'sqrtG2'):
            add('%s_%s' % (f, k), (t,), f + '(a)', t)
        add('ampsq_' + k, (t,), 'ampSq(a)', ga.C); add('amp_' + k, (t,), 'amplitude(a)', ga.C)
        add('magsq_' + k, (t,), 'magSq(a)', ga.D); add('mag_' + k, (t,), 'magnitude(a)', ga.D)
        add('inv1_' + k, (t,), 'vh::inv1(a, 0)', t)
        add('dual_' + k, (t,), 'dual(a)', ga.smallest(frozenset(3 - g for g in t.grades)))
        U.addpair('pair_' + k, (t,), 'pairMagDirFrom(a)', ga.D, t)
        add('valid_' + k, (t,), 'isValid(a)', 'bool')
        for f in ('==', '!=', '<'):
            add('cmp%d_%s' % (ord(f[0]), k), (t, t), 'a%sb' % f, 'bool')
        for f in ('nearlyEquals', 'nearlyEqualsAbs', 'nearlyEqualsRel', 'magEquals', 'nearlyEqualsMag'):
            add('%s_%s' % (f, k), (t, t), f + '(a,b)', 'bool'); add('%st_%s' % (f, k), (t, t, ga.D), f + '(a,b,c)', 'bool')
        for f in ('null', 'zero', 'one'):
            add('%s_%s' % (f, k), (), '%s<%s>()' % (f, t), t)
        add('fixed_' + k, (t,), 'engabra::g3::io::fixed(a)', 'std::string'); add('enote_' + k, (t,), 'engabra::g3::io::enote(a)', 'std::string')
    return U

# ---- (G) -------------------------------------------------------------------
def query(src, defs, std, *matchers):
    """[list of AST dumps of the bound node] per matcher"""
    res = []
    for m in matchers:
        cmd = ['clang-query-18' if build.have('clang-query-18') else 'clang-query', '-c', 'set output dump', '-c', 'set bind-root false', '-c', 'match ' + m, src, '--', '-std=' + std, '-w', '-I' + build.REPO + '/include'] + build.DEFS + list(defs)
        rc, out, err = build.run(cmd)
        mm = re.search(r'^(\d+) match', out, re.M)
        if rc or not mm: raise build.BuildError('clang-query failed: ' + (err + out)[:1500])
        dumps = re.split(r'^Match #\d+:$', out, flags=re.M)[1:]
        if len(dumps) != int(mm.group(1)): raise build.BuildError('clang-query output not understood')
        res.append([d.strip() for d in dumps])
    return res
OURS = 'unless(isExpansionInSystemHeader())'
HEAD = re.compile(r'VarDecl 0x\w+ (?:prev 0x\w+ |parent 0x\w+ )*<([^>]*)> ?(\S+) (.*)')
HOLDERS = re.compile(r'unique_ptr|shared_ptr|weak_ptr|reference_wrapper|std::function|atomic|mutex|std::span|propagate_const|basic_[io]?s?tringstream|basic_[io]*stream|random')

def deepconst(ty):
    """is an object of this (desugared) declared type immutable, as far as the type tells"""
    t = ty.strip()
    if HOLDERS.search(t): return False
    t = re.sub(r'\s*\[[^\]]*\]', '', t)
    if t.endswith('&'): t = 'const ' + t.rstrip('& ') if not t.startswith('const ') else t.rstrip('& ')
    while '*' in t and not re.search(r'[<(].*\*.*[>)]', t):
        # every pointer level const, and the pointee const
        if not re.search(r'\*\s*const\s*$', t): return False
        t = re.sub(r'\*\s*const\s*$', '', t).strip()
    return t.startswith('const ') or t.endswith(' const')

def statics(rep, src, defs, std, tag):
    q = query(src, defs, std,
              'varDecl(hasGlobalStorage(), %s).bind("v")' % OURS,
              'fieldDecl(%s).bind("v")' % OURS,
              'varDecl(isStaticLocal(), %s, hasAncestor(functionDecl().bind("f")), hasDescendant(declRefExpr(to(varDecl(hasLocalStorage(), hasDeclContext(functionDecl(equalsBoundNode("f")))))))).bind("v")' % OURS,
              'varDecl(isStaticLocal(), %s, hasDescendant(cxxThisExpr())).bind("v")' % OURS,
              'cxxThrowExpr(%s).bind("v")' % OURS,
              'declRefExpr(%s, to(varDecl(hasGlobalStorage(), unless(hasType(isConstQualified())), unless(hasType(arrayType())), unless(hasType(referenceType()))))).bind("v")' % OURS,
              'functionTemplateDecl(%s).bind("v")' % OURS)
    def vdump(d):
        i = d.index('Binding for "v":'); return next(l for l in d[i:].split('\n') if 'Decl 0x' in l)
    for d in q[0]:
        h = vdump(d); m = HEAD.match(h)
        if not m: rep.hold('declaration of static storage understood', False, found=h); continue
        m2 = re.search(r"(\S+) '([^']*)'(?::'([^']*)')?(.*)", m.group(3))
        name, ty, des, tail = m2.groups()
        cx = 'constexpr' in tail
        ok = (cx or deepconst(des or ty) or deepconst(ty)) and ' tls' not in tail and not HOLDERS.search(ty + (des or ''))
        rep.hold('%s: variable %s of static storage duration is immutable' % (tag, name), ok, where=where(m), expected='a const object', found="%s '%s'%s" % (name, ty, tail))
        rep.count('static_variables')
    for d in q[1]:
        h = vdump(d)
        rep.hold('%s: data member is not mutable' % tag, not re.search(r"' mutable|\bmutable\b", h.split("'")[-1]), where=h.split('<')[1].split('>')[0], expected='no mutable member', found=h[-120:])
        rep.count('data_members')
    for ds, what in ((q[2], 'parameter or local variable'), (q[3], 'the object')):
        for d in ds:
            h = vdump(d)
            rep.hold('%s: local static initialised independently of %s' % (tag, what), False, where=h.split('<')[1].split('>')[0], expected='initialiser independent of the call', found=h[-160:])
    for d in q[4]: rep.hold('%s: no exception is thrown' % tag, False, where=first(d), expected='no throw expression', found='CXXThrowExpr')
    for d in q[5]:
        rep.hold('%s: no use of a modifiable variable of static storage duration' % tag, False, where=first(d), expected='constants, parameters and local variables', found=body(d)[-140:])
    for d in q[6]: rep.count('function_templates'); 
    return len(q[0]), len(q[1])
def body(d):
    i = d.find('Binding for "v":'); return next((l for l in d[i:].split('\n')[1:] if '0x' in l), d[:200])
def first(d):
    m = re.search(r'<([^>]*)>', body(d)); return m.group(1) if m else None
def where(m):
    return m.group(1) + ' ' + m.group(2)

# ---- (S) (L) (C) -----------------------------------------------------------
def topsplit(s):
    out, d, cur = [], 0, ''
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out
def signature(dem):
    """(qualified name, [parameter types], const member?) of a demangled function; None if not understood"""
    s = re.sub(r'\s*\[clone[^\]]*\]', '', re.sub(r'\[abi:[^\]]*\]', '', dem))
    const = bool(re.search(r'\) const\s*&{0,2}$', s))
    s = re.sub(r'\) const\s*&{0,2}$', ')', s)
    if not s.endswith(')'): return None
    d, i = 0, len(s) - 1
    while i >= 0:
        if s[i] == ')': d += 1
        elif s[i] == '(':
            d -= 1
            if d == 0: break
        i -= 1
    return s[:i], [p for p in topsplit(s[i+1:-1]) if p != 'void'], const
def modifiable(p):
    """may the callee write through this parameter"""
    if p.endswith('&&'): return True
    if p.endswith('&') or p.endswith('*'): return not p[:-1].rstrip().endswith('const')
    return False
def indirect(p): return p.endswith('&') or p.endswith('*')

class Scan:
    def __init__(self, rep, mod, dem, repo, tag):
        self.rep, self.mod, self.dem, self.repo, self.tag = rep, mod, dem, repo, tag
    def params(self, f, name, wrapper):
        """{ir parameter: may be written}"""
        out, ptrs = {}, []
        for t, nm, at in f.params:
            if t[0] != 'ptr': continue
            if 'sret' in at or 'byval' in at: out[nm] = True
            else: ptrs.append(nm)
        if wrapper:
            for p in ptrs: out[p] = p in ptrs[-(1 + self.pairs.get(name, 0)):]
            return out, True
        sg = signature(self.dem.get(name[1:].strip('"'), ''))
        if not sg or not ptrs: return {**out, **{p: True for p in ptrs}}, not ptrs
        q, ps, const = sg
        refs = [modifiable(p) for p in ps if indirect(p)]
        if len(ptrs) == len(refs): pass
        elif len(ptrs) == len(refs) + 1: refs = [not const] + refs
        else:
            # by-value class objects are passed by address: they belong to the callee
            refs = [modifiable(p) if indirect(p) else True for p in ps]
            if len(ptrs) == len(refs) + 1: refs = [not const] + refs
            if len(ptrs) != len(refs): return {**out, **{p: True for p in ptrs}}, False
        out.update(zip(ptrs, refs))
        return out, True
    def run(self, f, wrapper=False):
        rep, name = self.rep, f.name
        dem = self.dem.get(name[1:].strip('"'), name)
        text = bool(TEXTUAL.search(dem)) or 'engabra::g3::io::' in dem or bool(re.search(r'sret\(%"(?:class|struct)\.std::[^"]*basic_string', f.headline)) or (wrapper and name.startswith(('@w_fixed', '@w_enote')))
        perm, mapped = self.params(f, name, wrapper)
        if not mapped: rep.count('functions_with_unmapped_parameters')
        defs = {i.res: i for b in f.order for i in f.blocks[b] if i.res}
        who = (self.tag + ': ' if self.tag else '') + dem
        bad = lambda I, exp, fnd: rep.hold(who, False, where=('%s:%d' % self.mod.location(I.dbg)[:2]) if I and I.dbg and self.mod.location(I.dbg) else None, expected=exp, found=fnd)
        n0 = len(rep.bad)
        memo = {}
        def bases(v, seen=()):
            k = v[0]
            if k == 'global': return {('global', v[1])}
            if k == 'cgep': return bases(v[2][0][1], seen)
            if k != 'local': return {('none',)}
            n = v[1]
            if n in memo: return memo[n]
            if n in seen: return set()
            if n in perm: return {('param', n)}
            I = defs.get(n)
            if I is None: return {('value',)}
            seen = seen + (n,)
            if I.op == 'getelementptr': r = bases(I.args[0][1], seen)
            elif I.op == 'phi':
                r = set()
                for x, _ in I.args: r |= bases(x, seen)
            elif I.op == 'select': r = bases(I.args[1], seen) | bases(I.args[2], seen)
            elif I.op in ('bitcast', 'freeze', 'inttoptr'): r = bases(I.args[0], seen)
            elif I.op == 'alloca': r = {('alloca',)}
            elif I.op == 'load': r = {('load',) + tuple(sorted({x[0] for x in bases(I.args[0], seen)}))}
            elif I.op in ('call', 'invoke'): r = {('result',)}
            else: r = {('value',)}
            if len(seen) == 1: memo[n] = r
            return r
        def write(I, ptr):
            for b in bases(ptr):
                rep.count('writes')
                if b[0] == 'param' and not perm[b[1]]:
                    bad(I, 'writes only to the result and to parameters declared modifiable', 'a write through the const parameter %s' % b[1])
                elif b[0] == 'global' and not b[1].startswith('@_ZGV') and not self.static_const(b[1]):
                    bad(I, 'no write to an object of static storage duration', 'a write to %s' % self.dem.get(b[1][1:].strip('"'), b[1]))
                elif b[0] == 'load' and 'global' in b[1:]:
                    bad(I, 'no write to an object of static storage duration', 'a write through a pointer held in static storage')
        for lab in f.order:
            for I in f.blocks[lab]:
                if I.op in ('atomicrmw', 'cmpxchg', 'fence'): bad(I, 'no atomic operation', I.op); continue
                if I.op in ('load', 'store') and ' volatile ' in I.text: bad(I, 'no volatile access', I.text[:80])
                if I.op == 'resume': continue
                for g in re.findall(r'@"[^"]*"|@[\w.$-]+', I.text.split(', !dbg')[0]):
                    gv = self.mod.globals.get(g)
                    if gv is None or gv['kind'] == 'constant': continue
                    rep.count('variable_references')
                    if gv['init'] is None and 'external' in ' '.join(gv['quals']) and not g.startswith(('@_ZTV', '@_ZTT', '@_ZTI', '@__dso_handle')):
                        bad(I, 'no reference to a variable outside the library', 'a reference to %s' % self.dem.get(g[1:].strip('"'), g))
                if I.op == 'store': write(I, I.args[1])
                elif I.op in ('call', 'invoke'):
                    cal = I.extra[0] if I.op == 'invoke' else I.extra
                    rep.count('calls')
                    if cal == '@asm': bad(I, 'no assembly', 'inline assembly'); continue
                    if not cal.startswith('@'):
                        if not text: bad(I, 'calls to known functions only', 'an indirect call')
                        continue
                    n = cal[1:].strip('"')
                    if n.startswith('llvm.'):
                        if any(n.startswith(w) for w in WRITES): write(I, I.args[0][1])
                        elif n.startswith(('llvm.trap', 'llvm.set', 'llvm.readcyclecounter', 'llvm.write', 'llvm.flt.rounds')) : bad(I, 'no trap or change of environment', n)
                        continue
                    if n in MEMW:
                        for k in ((0,) if n.startswith('mem') else (1, 2) if n == 'sincos' else (1,)): write(I, I.args[k][1])
                    if '__glibcxx_assert_fail' in n:
                        if (self.mod.location(I.dbg, '\0') or ('',))[0].endswith('/complex'): continue     # std::polar of a NaN modulus: NaN in every implementation
                        bad(I, 'element accesses are inside their array', 'an access that may be out of bounds')
                        continue
                    if n in PURE: continue
                    if cal in self.repo or n.startswith('w_'): continue
                    d = self.dem.get(n) or build.demangle([n]).get(n, n)
                    if text and d != n and 'std::' in d and not OUTSIDE.search(d) and not re.search(r'std::__throw_', d): continue
                    if text and (n.startswith(('_Zn', '_Zd')) or re.match(r'_ZN?K?S[abdiost]', n)) and not OUTSIDE.search(d): continue
                    if n == '__cxa_atexit' and f.name.startswith(('@__cxx_global_var_init', '@_ZN7engabra14projectVersion', '@_ZN7engabra14sourceIdentity')): continue
                    if n == '__cxa_atexit' and text: continue
                    if n.startswith('_ZNSt8ios_base4InitC') and 'global_var_init' in f.name: continue
                    bad(I, 'calls only pure functions' + ('' if not text else ' and members of standard strings and streams'), 'a call to %s' % d)
        rep.functions.add(dem)
        if len(rep.bad) == n0: rep.hold(who, True)
    def static_const(self, g):
        """objects declared const by the library with dynamic initialisation: rule (G) judges them"""
        return g in self.mod.globals and self.mod.globals[g]['init'] is not None and bool(re.match(r'@_ZZ|@_ZL|@_ZN', g))

def roots(text):
    """every function the library defines becomes externally visible"""
    heads = ir.Module(text, parse_bodies=False)
    keep = set(n for n in heads.functions if heads.functions[n].defined and build.owner_is_repo(heads, n))
    out = []
    for L in text.split('\n'):
        if L.startswith('define '):
            n = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', L).group(1)
            if n in keep and not ('EN3$_' in n or 'lambda' in n or '$_' in n or 'global_var_init' in n or '_GLOBAL__' in n) :
                L = re.sub(r'^define (?:linkonce_odr |internal |weak_odr |available_externally )?', 'define ', L)
                L = re.sub(r'^define ((?:hidden |protected )?)(?:linkonce_odr |internal )?', r'define \1', L)
        out.append(L)
    return '\n'.join(out), keep

def effects(rep, src, cfg, tag, pairs=None):
    text, _ = build.front(src, extra=tuple(cfg.get('extra', ())) + ('-femit-all-decls',), std=cfg.get('std', 'c++17'))
    text, keep = roots(text)
    text, stats = build.mark(text)
    text = build.optimise(text)
    mod = ir.Module(text, want=lambda n: n in keep or n.startswith('@w_'))
    names = {n[1:].strip('"') for n in list(mod.functions) + list(mod.globals)}
    sc = Scan(rep, mod, build.demangle(names), keep, tag)
    sc.pairs = pairs or {}
    k = 0
    for n, f in mod.functions.items():
        if not f.defined or not (n in keep or n.startswith('@w_')): continue
        d = sc.dem.get(n[1:].strip('"'), n)
        if 'vh::' in d and 'w_' not in n or 'lambda' in d or '$_' in n or '{lambda' in d: continue
        sc.run(f, n.startswith('@w_')); k += 1
    return k

def check(tier):
    rep = report.Report('C26', tier, RULE)
    own = os.path.join(build.REPO, 'src', 'engabra.cpp')
    for cfg in [dict(c, extra=tuple(c.get('extra', ())) + ('-D_GLIBCXX_ASSERTIONS',)) for c in decide.configs(tier)]:
        U = unit()
        std, ex = cfg.get('std', 'c++17'), cfg.get('extra', ())
        # positive control: the static query must see the two kinds of declarations it looks for
        probe = build.fresh('.cpp')
        with open(probe, 'w') as f: f.write('struct X { mutable int m; }; inline int f(int a) { static int const s = a; static thread_local int t = 0; if (a > 3) throw a; return s + t++; }\nint g;\n')
        r2 = report.Report('C26', tier, ''); r2.known = {}
        statics(r2, probe, ex, std, 'control')
        if len(r2.bad) != 6: raise build.BuildError('the query control found %d of 6 planted constructs' % len(r2.bad))
        head = build.fresh('.cpp')
        with open(head, 'w') as f: f.write('#include "engabra.hpp"\n#include "g3compare.hpp"\n#include "g3io.hpp"\n#include "g3publish.hpp"\n')
        a, b = statics(rep, head, ex, std, 'headers')
        c, d = statics(rep, own, ex, std, 'engabra.cpp')
        n = effects(rep, U.source(U.available(cfg)), cfg, '', {'@w_' + k: 1 for k in U.wraps if k.startswith('pair_')})
        n2 = effects(rep, open(own).read(), cfg, 'engabra.cpp')
        rep.sample('%d static variables, %d data members, %d functions of the headers, %d of src/engabra.cpp' % (a + c, b + d, n, n2))
        if not a or not b or n < 300 or n2 < 2: raise build.BuildError('anchors vanished: %d %d %d %d' % (a, b, n, n2))
    rep.assume = ['mathematical functions of the C library are pure (floating point exception flags and errno are not counted)', 'string and stream members of the standard library touch only their arguments']
    return rep.finish()
