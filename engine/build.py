"""Front end: wrapper translation unit -> LLVM IR -> normalised LLVM IR.
Everything is written to a temporary directory that is removed at exit."""
import os, re, subprocess, tempfile, atexit, shutil
from . import ir

REPO = os.environ.get('ENGABRA_REPO', '/repo')
CLANG = 'clang++-18'
OPT = 'opt-18'
DEFS = ['-DEngabra_Project_Version="x"', '-DEngabra_Source_Identity="y"']

class BuildError(Exception):
    pass

_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vsa_')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r.returncode, r.stdout, r.stderr

def have(tool):
    return shutil.which(tool)

for t in ('clang++-18', 'clang++'):
    if have(t):
        CLANG = t
        break
for t in ('opt-18', '/usr/lib/llvm-18/bin/opt', 'opt'):
    if have(t):
        OPT = t
        break
FILT = next((t for t in ('llvm-cxxfilt-18', '/usr/lib/llvm-18/bin/llvm-cxxfilt', 'c++filt') if have(t)), None)

def demangle(names):
    if not names:
        return {}
    names = list(names)
    r = subprocess.run([FILT], input='\n'.join(names) + '\n', stdout=subprocess.PIPE, text=True)
    return dict(zip(names, r.stdout.split('\n')))

_n = [0]
def fresh(suffix):
    _n[0] += 1
    return os.path.join(tmpdir(), 'u%d%s' % (_n[0], suffix))

def front(src, extra=(), std='c++17', exceptions=True, olevel='-O2', includes=()):
    """clang front end only (no optimisation): textual IR"""
    cpp = fresh('.cpp'); ll = cpp[:-4] + '.ll'
    with open(cpp, 'w') as f:
        f.write(src)
    cmd = [CLANG, '-std=' + std, olevel, '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-S', '-emit-llvm',
           '-fno-math-errno', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize', '-w',
           '-fbracket-depth=4096', '-ftemplate-depth=2048', '-fconstexpr-steps=100000000',
           '-I' + REPO + '/include', '-I' + os.path.join(os.path.dirname(__file__), '..', 'harness')] + DEFS + list(extra) + [cpp, '-o', ll]
    rc, out, err = run(cmd)
    if rc:
        raise BuildError('front end failed:\n' + err[:3000])
    return open(ll).read(), ll

STREAMY = re.compile(r'basic_ostream|basic_istream|basic_ios|ios_base|basic_string|stringstream|_Setw|_Setprecision|_Setfill|locale|allocator|char_traits|streambuf|_Put_money|num_put|num_get')

def owner_is_repo(mod, name):
    sp = mod.subprogram(name)
    if not sp or not sp[0]:
        return False
    f = os.path.realpath(sp[0]) if os.path.exists(sp[0]) else sp[0]
    return f.startswith(os.path.realpath(REPO)) or '/vsa_' in f or f.startswith(os.path.realpath(os.path.join(os.path.dirname(__file__), '..')))

def mark(text, noinline_repo=()):
    """add inlining attributes: repository and numeric library code in, text
    and stream library code out.  Nothing else of the IR is touched."""
    heads = ir.Module(text, parse_bodies=False)
    names = {n: n[1:].strip('"') for n, f in heads.functions.items()}
    dem = demangle([v for v in names.values()])
    out = []
    stats = {'inlined': 0, 'kept': 0, 'repo': []}
    for L in text.split('\n'):
        if L.startswith('define '):
            m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', L)
            n = m.group(1)
            f = heads.functions[n]
            d = dem.get(names[n], names[n])
            repo = owner_is_repo(heads, n)
            base = d.split('(')[0]
            if repo:
                stats['repo'].append(d)
            streamy = bool(STREAMY.search(d)) and not repo
            attr = 'noinline' if streamy else 'alwaysinline'
            if names[n].startswith('w_'):
                attr = ''
            k = L.find(f.attrs)
            # attribute text directly after the parameter list
            idx = L.index(f.attrs) if f.attrs else len(L)
            tail = f.attrs
            m2 = re.match(r'((?: (?:local_)?unnamed_addr)?)(.*)$', tail, re.S)
            if attr:
                tail = m2.group(1) + ' ' + attr + m2.group(2)
                stats['kept' if streamy else 'inlined'] += 1
            L = L[:idx] + tail
        elif L.startswith('attributes #'):
            L = L.replace(' noinline', '').replace(' optnone', '').replace(' optsize', '').replace(' minsize', '').replace(' alwaysinline', '')
        out.append(L)
    return '\n'.join(out), stats

O_FLAGS = ['-vectorize-loops=false', '-vectorize-slp=false', '-unroll-threshold=1000000', '-unroll-full-max-count=4096', '-unroll-max-upperbound=64',
           '-unroll-allow-partial=false', '-inline-threshold=1000000', '-unroll-max-iteration-count-to-analyze=256',
           '-jump-threading-threshold=0', '-simplifycfg-merge-cond-stores=false', '-enable-loop-distribute=false', '-extra-vectorizer-passes=false']

PIPE_FULL = 'function(lowerinvoke,simplifycfg),default<O2>,function(loop-unroll<O3;upperbound;full-unroll-max=4096>,sroa,instcombine<no-verify-fixpoint>,gvn,simplifycfg,adce,loop-simplify,lcssa)'
PIPE_LIGHT = 'function(lowerinvoke,simplifycfg),always-inline,function(sroa,early-cse,loop-simplify,loop(loop-rotate),indvars,loop-unroll<O3;upperbound;full-unroll-max=64>,sroa,early-cse,simplifycfg,loop-simplify,lcssa)'

def optimise(ll_text, pipeline=PIPE_FULL, flags=None):
    a = fresh('.ll'); b = fresh('.ll')
    with open(a, 'w') as f:
        f.write(ll_text)
    cmd = [OPT, '-S', '-passes=' + pipeline] + (O_FLAGS if flags is None else flags) + [a, '-o', b]
    rc, out, err = run(cmd)
    if rc:
        raise BuildError('opt failed:\n' + err[:3000])
    return open(b).read()

def lower(src, pipeline=PIPE_FULL, want=lambda n: n.startswith('@w_'), extra=(), std='c++17', flags=None):
    text, _ = front(src, extra=extra, std=std)
    text, stats = mark(text)
    m = ir.Module(optimise(text, pipeline, flags), want=want)
    m.stats = stats
    return m
