"""Configurations.  The analysis reads the headers the way one compiler
invocation does.  Where the text the preprocessor selects depends on a macro
(NDEBUG through assert, the compiler's identity, a feature test, ...), each
selection is a program of its own and is analysed on its own."""
import glob, os, re, subprocess
from . import build

def files():
    return sorted(glob.glob(build.REPO + '/include/**/*', recursive=True)) + sorted(glob.glob(build.REPO + '/src/**/*.[ch]pp', recursive=True))

def strip(text):
    """comments removed, line structure kept; string and character literals kept"""
    def sub(m):
        s = m.group(0)
        return s if s[0] in '"\'' else '\n' * s.count('\n') or ' '
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sub, text, flags=re.S)

def sources():
    for p in files():
        if os.path.isfile(p):
            try: yield p, strip(open(p).read())
            except UnicodeDecodeError: continue

def macros():
    """names the library's own conditional directives mention"""
    used, own = set(), set()
    for p, t in sources():
        t = t.replace('\\\n', ' ')
        for m in re.finditer(r'^[ \t]*#[ \t]*(if|ifdef|ifndef|elif|elifdef|elifndef)\b(.*)$', t, re.M):
            used |= set(re.findall(r'[A-Za-z_]\w*', m.group(2)))
        for m in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(\w+)', t, re.M): own.add(m.group(1))
        if re.search(r'\bassert\s*\(', t): used.add('NDEBUG')
        if re.search(r'\b__cplusplus\b', t): used.add('__cplusplus')
    return sorted(used - own - {'defined', 'true', 'false', '__has_include', '__has_cpp_attribute', '__has_attribute', '__has_builtin', '__has_feature'})

GCC = {'__clang__': None, '__clang_major__': None, '__clang_minor__': None, '__llvm__': None, '__GNUC__': '13', '__GNUG__': '13', '__GNUC_MINOR__': '3'}

def rewritten(values, dst):
    """a copy of the library in which the conditional directives (and only they)
    see other values of some macros; None: not defined"""
    for p in files():
        if not os.path.isfile(p): continue
        q = os.path.join(dst, os.path.relpath(p, build.REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        try: t = open(p).read()
        except UnicodeDecodeError: continue
        def directive(m):
            return re.sub(r'[A-Za-z_]\w*', lambda k: ('VSA_' + k.group(0)) if k.group(0) in values else k.group(0), m.group(0))
        t = re.sub(r'^[ \t]*#[ \t]*(?:if|ifdef|ifndef|elif|elifdef|elifndef)\b(?:[^\n]*\\\n)*[^\n]*$', directive, t, flags=re.M)
        open(q, 'w').write(t)
    return ['-DVSA_%s=%s' % kv for kv in values.items() if kv[1] is not None]

def command(root, flags):
    return [build.CLANG, '-std=c++17', '-O2', '-w', '-I' + root + '/include'] + build.DEFS + list(flags)

def selected(root, flags):
    """the library's own tokens after preprocessing, None if it does not compile"""
    tu = ''.join('#include "%s"\n' % os.path.relpath(p, build.REPO + '/include') for p in files() if p.endswith('.hpp') and p.startswith(build.REPO + '/include') and os.path.basename(p) != '_.hpp')
    r = subprocess.run(command(root, flags) + ['-E', '-x', 'c++', '-'], input=tu, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: return None
    out, mine = [], False
    for l in r.stdout.split('\n'):
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            mine = m.group(1).startswith(root) or os.path.realpath(m.group(1)).startswith(os.path.realpath(root))
        elif mine and l.strip():
            out.append(' '.join(l.split()))
    out = '\n'.join(out)
    r = subprocess.run(command(root, flags) + ['-fsyntax-only', '-x', 'c++', '-'], input=tu, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, text=True)
    return None if r.returncode else out

class Variant:
    def __init__(self, name, root, flags):
        self.name, self.root, self.flags = name, root, flags

def variants(limit=6):
    """configurations that select a different text than the default one"""
    ms = macros()
    if not ms: return []
    r = subprocess.run([build.CLANG, '-std=c++17', '-O2', '-dM', '-E', '-x', 'c++', '-'] + build.DEFS, input='', stdout=subprocess.PIPE, text=True)
    have = set(re.findall(r'^#define (\w+)', r.stdout, re.M))
    cand = []
    for m in ms:
        if m == '__cplusplus' or m.startswith('__cpp_'): c = ('C++20', {}, ['-std=c++20'])
        elif m in GCC: c = ('as gcc 13 reads it', GCC, [])
        elif m == 'NDEBUG': c = ('NDEBUG', {}, ['-DNDEBUG'])
        elif m in have: c = ('without ' + m, {m: None}, [])
        else: c = ('with ' + m, {m: '1'}, [])
        if c not in cand: cand.append(c)
    seen, out = {selected(build.REPO, [])}, []
    for i, (name, values, flags) in enumerate(cand):
        root = build.REPO
        if values:
            root = os.path.join(build.tmpdir(), 'v%d' % i)
            flags = flags + rewritten(values, root)
        s = selected(root, flags)
        if s is None or s in seen: continue          # does not compile that way, or nothing new
        seen.add(s); out.append(Variant(name, root, flags))
    return out[:limit]

def fp_mode():
    """places that ask a compiler for arithmetic in which NaN, infinity or the
    order of operations does not count (the language front end used here
    ignores some of them, so they are looked for in the text)"""
    out = []
    pat = re.compile(r'fast-?math|finite-math|unsafe-math|associative-math|reciprocal-math|Ofast|float_control\s*\(\s*precise\s*,\s*off|clang\s+fp\s+(?:reassociate|reciprocal)\s*\(\s*on|fp_model|fenv_access\s*\(\s*on', re.I)
    for p, t in sources():
        for i, l in enumerate(t.split('\n'), 1):
            if re.search(r'#\s*pragma|_Pragma|optimize', l) and pat.search(l):
                out.append('%s:%d: %s' % (os.path.relpath(p, build.REPO), i, l.strip()))
    return out
