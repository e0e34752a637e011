import concurrent.futures, glob, os, re
from engine import ga, harness, decide, report, build, ir
from checks import c09, c26
RULE = ('each header is put through the semantic analysis of two compilers (strict conformance, language standard of the project) as first and only header, twice in a row, and followed by the others in each rotation (thorough: each ordered pair); '
        'every generic function a header makes available on its own is also instantiated for every operand type; all headers in forward and reverse order make the same operations available; no two headers share an include guard; '
        'every function and variable the headers define has inline, internal or template linkage in the emitted IR')

def headers():
    inc = os.path.join(build.REPO, 'include')
    out = sorted(os.path.basename(p) for p in glob.glob(inc + '/*') if os.path.isfile(p) and (p.endswith(('.hpp', '.h', '.hxx')) or '.' not in os.path.basename(p)) and not os.path.basename(p).startswith('_'))
    return [h for h in out if h not in ('CMakeLists.txt', 'README', 'Makefile')]
def inc(hs): return ''.join('#include "%s"\n' % h for h in hs)
def syntax(cc, text, std, extra=()):
    rc, out, err = build.run([cc, '-std=' + std, '-pedantic-errors', '-fsyntax-only', '-I' + build.REPO + '/include'] + build.DEFS + list(extra) + ['-x', 'c++', '-'], input=text)
    if rc == 0: return None
    m = re.search(r'^([^\s:]+):(\d+):\d+: (?:fatal )?error: (.*)', err, re.M)
    return ('%s:%s' % (m.group(1), m.group(2)), m.group(3)) if m else (None, err[:200])

NEED = ['null', 'zero', 'one', 'io::fixed', 'io::enote', 'inverse']
def present(h, std, ex):
    """names a header declares on its own"""
    names = [t.cpp for t in ga.NINE] + NEED
    txt = inc([h]) + 'namespace engabra { namespace g3 { namespace io { } } }\n' + ''.join('namespace vh%d { using engabra::g3::%s; }\n' % (i, n) for i, n in enumerate(names))
    rc, out, err = build.run([build.CLANG, '-std=' + std, '-w', '-ferror-limit=0', '-fsyntax-only', '-I' + build.REPO + '/include'] + build.DEFS + list(ex) + ['-x', 'c++', '-'], input=txt)
    bad = {int(x) - 3 for x in re.findall(r'^<stdin>:(\d+):\d+: error', err, re.M)}
    return {n for i, n in enumerate(names) if i not in bad}
def alone(h, U, std, ex):
    have = present(h, std, ex)
    if 'MultiVector' not in have: return None, 0
    ts = []
    for n, w in U.wraps.items():
        outs = w.out if isinstance(w.out, tuple) else (w.out,)
        used = {t.cpp for t in tuple(w.ins) + outs if isinstance(t, ga.T)} - {'double'}
        if not used <= have: continue
        k = n.split('_')[0]
        if k in ('null', 'zero', 'one') and k not in have: continue
        if k in ('fixed', 'enote') and 'io::' + k not in have: continue
        if k == 'inv1' and 'inverse' not in have: continue
        ts.append(w.text)
    pre = inc([h]) + '#include <array>\n#include <complex>\n#include <string>\n#include <type_traits>\n#include <utility>\nnamespace engabra { namespace g3 { } }\n' + harness.PRE[harness.PRE.index('using namespace engabra::g3;'):]
    if 'inverse' in have: pre += c09.PRE
    return syntax(build.CLANG, pre + ''.join(ts), std, ex), len(ts)

def guard(path):
    """the include guard macro of a file, or None"""
    ls = re.sub(r'/\*.*?\*/', '', open(path, errors='replace').read(), flags=re.S)
    ds = [l.strip() for l in re.sub(r'//[^\n]*', '', ls).split('\n') if l.strip()]
    if not ds: return None
    m = re.match(r'#\s*ifndef\s+(\w+)', ds[0]) or re.match(r'#\s*if\s+!\s*defined\s*\(?\s*(\w+)', ds[0])
    return m.group(1) if m else None
def defined(path):
    return set(re.findall(r'^\s*#\s*define\s+(\w+)', re.sub(r'/\*.*?\*/', '', open(path, errors='replace').read(), flags=re.S), re.M))

def linkage(rep, hs, cfg, std):
    U = c26.unit()
    text, _ = build.front(inc(hs) + U.source(), extra=tuple(cfg.get('extra', ())) + ('-femit-all-decls',), std=std)
    m = ir.Module(text, parse_bodies=False)
    repo = os.path.realpath(build.REPO)
    mine = lambda n: (m.subprogram(n) or (None,))[0]
    dem = build.demangle([n[1:].strip('"') for n in list(m.functions) + list(m.globals)])
    k = 0
    for n, f in m.functions.items():
        if not f.defined or n.startswith('@w_'): continue
        file = mine(n)
        if not file or not os.path.realpath(file).startswith(repo): continue
        lk = re.search(r'\b(internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally)\b', f.pre)
        k += 1
        rep.hold('linkage of %s' % dem.get(n[1:].strip('"'), n), bool(lk), where=file, expected='inline, internal or template', found='an external definition in every translation unit')
        rep.functions.add(dem.get(n[1:].strip('"'), n))
    v = 0
    for n, g in m.globals.items():
        d = dem.get(n[1:].strip('"'), n)
        if g['init'] is None or n.startswith(('@flag_', '@.str', '@llvm.', '@__const')) : continue
        if not ('engabra' in d or g['dbg'] or not d.startswith(('std::', 'guard variable for std', 'vtable', 'typeinfo', 'VTT'))): continue
        q = ' '.join(g['quals'])
        ok = bool(re.search(r'\b(internal|private|linkonce_odr|linkonce|weak_odr|weak|available_externally|common|appending)\b', q))
        v += 1
        rep.hold('linkage of variable %s' % d, ok, expected='inline, internal or template', found=q or 'external definition')
    rep.count('function_definitions', k); rep.count('variable_definitions', v)
    if k < 300: raise build.BuildError('linkage scan found only %d functions' % k)

def check(tier):
    rep = report.Report('C28', tier, RULE)
    hs = headers()
    if len(hs) < 5: raise build.BuildError('headers not found')
    ccs = [c for c in (build.CLANG, 'g++') if build.have(c)]
    for cfg in decide.configs(tier):
        std, ex = cfg.get('std', 'c++17'), list(cfg.get('extra', ()))
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            # alone
            jobs = [(h, cc, pool.submit(syntax, cc, inc([h, h]) + 'int vh_unit;\n', std, ex)) for h in hs for cc in ccs]
            dead = set()
            for h, cc, j in jobs:
                e = j.result()
                if e: dead.add(h)
                rep.hold('%s as the only header, twice (%s)' % (h, cc), e is None, where=e and e[0], expected='compiles', found=e and e[1])
                rep.count('headers_alone')
            # ordered pairs, standard headers precompiled
            std_inc = sorted({i for h in hs for i in re.findall(r'^\s*#\s*include\s*(<[^>]*>)', open(os.path.join(build.REPO, 'include', h)).read(), re.M) if '/' not in i})
            sh = build.fresh('.hpp')
            with open(sh, 'w') as f: f.write(''.join('#include %s\n' % i for i in std_inc))
            pch = []
            rc, o, er = build.run([build.CLANG, '-std=' + std, '-pedantic-errors', '-w', '-fno-pch-timestamp'] + ex + build.DEFS + ['-x', 'c++-header', sh, '-o', sh + '.pch', '-I' + build.REPO + '/include'])
            pch = ['-include-pch', sh + '.pch'] if rc == 0 else []
            live = [h for h in hs if h not in dead]
            # each header first, then all others: the content of every header comes after the content of every other that does not include it
            rots = [live[i:] + live[:i] for i in range(len(live))]
            for r, e in zip(rots, pool.map(lambda r: syntax(build.CLANG, inc(r), std, ex + pch), rots)):
                rep.hold('%s followed by all others' % r[0], e is None, where=e and e[0], expected='compiles', found=e and e[1])
                rep.count('orders')
            if tier == 'thorough' and not ex and std == 'c++17':
                jobs = [(a, b, pool.submit(syntax, build.CLANG, inc([a, b]), std, ex + pch)) for a in live for b in live if a != b]
                for a, b, j in jobs:
                    e = j.result()
                    rep.hold('%s followed by %s' % (a, b), e is None, where=e and e[0], expected='compiles', found=e and e[1])
                    rep.count('ordered_pairs')
            # all orders of everything: forward and reverse
            for nm, order in (('forward', live), ('reverse', live[::-1])):
                for cc in ccs:
                    e = syntax(cc, inc(order), std, ex)
                    rep.hold('all headers in %s order (%s)' % (nm, cc), e is None, where=e and e[0], expected='compiles', found=e and e[1])
            # instantiation of everything a header offers on its own
            U = c26.unit()
            for h, (e, k) in zip(live, pool.map(lambda h: alone(h, U, std, ex), live)):
                rep.hold('generic functions of %s on its own' % h, e is None, where=e and e[0], expected='every instantiation compiles', found=e and e[1])
                rep.count('instantiated_wrappers', k)
        for h in hs:
            g = guard(os.path.join(build.REPO, 'include', h))
            if not g: continue
            rep.count('include_guards')
            others = [x for x in hs if x != h and g in defined(os.path.join(build.REPO, 'include', x))]
            rep.hold('include guard of %s' % h, not others, where=h, expected='a macro no other header defines', found='%s is also defined by %s' % (g, ', '.join(others)))
        try:
            linkage(rep, live, cfg, std)
        except build.BuildError:
            if not rep.bad: raise
    rep.sample('%d headers: %s ...' % (len(hs), ', '.join(hs[:6])))
    return rep.finish()

