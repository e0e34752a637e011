"""Text and stream domain.

The stream and string primitives of the standard library stay calls in the
lowered IR.  They are ordered by an effect token; each leaf of an operation thus
has one linear chain of them, which is interpreted over an abstract state of every
stream and string object: format state (flags, precision, width, fill as terms of
the inputs) and content (list of tokens)."""
import re
from . import vg, part, build

FIXED, SCI, FLOATFIELD = 4, 256, 260
DEFAULT_FLAGS = 4098      # skipws | dec
WHITE = ' \t\n\v\f\r'

def unescape(s):
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s).replace('\\\\', '\\')

SELF = re.compile(r'operator<<|operator>>|_M_insert|_M_extract|::put\(|::write\(|::flush\(|::append\(|::operator\+?=\(|::assign\(|::push_back|std::fixed\(|std::scientific\(|std::defaultfloat\(|std::hexfloat\(|std::(no)?show|std::(no)?upper|std::left|std::right|std::internal|std::endl|std::flush|std::ends|::copyfmt\(|__ostream_insert|std::ws|std::(no)?skipws')
QUERY = re.compile(r'basic_ios<char, std::char_traits<char> ?>::(fail|good|eof|bad|rdstate|operator bool|operator!)\(?')

class Builder(vg.Builder):
    """value graph with stream primitives as ordered events"""
    def demangled(self, name):
        d = self.m.__dict__.setdefault('_dem', {})
        if name not in d:
            names = [n[1:].strip('"') for n in self.m.functions]
            if name not in names: names.append(name)
            d.update(build.demangle(names))
        return d[name]
    def cstring(self, p):
        """text of a constant character array"""
        if p.op != 'ptr' or not p.attr[0].startswith('glob:') or p.args: return None
        gl = self.m.globals.get(p.attr[0][5:])
        if gl is None or gl['kind'] != 'constant' or gl['init'] is None: return None
        if gl['init'][0] == 'zero': return ''
        if gl['init'][0] != 'str': return None
        return unescape(gl['init'][1])[p.attr[1]:]
    def opaque_call(self, I, name, a, loc):
        g = self.g
        d = self.demangled(name)
        m = re.search(r'basic_ios<[^()]*>::(fail|good|eof|bad|rdstate|operator bool|operator!)\(', d)
        if m:
            return self.query(m.group(1), a[0])
        if re.search(r'istream.*(_M_extract<|operator>>\()', d) and len(a) == 2 and a[1] is not None and not isinstance(a[1], tuple):
            ty = re.search(r'\((.*?)&?\)$', d)
            t = 'double' if re.search(r'_M_extract<double>|operator>>\(double&\)', d) else 'float' if re.search(r'<float>|\(float&\)', d) else None
            if t is None: raise vg.Unmodelled('extraction by %s' % d)
            e = self.effect('extract:' + t, [a[0]], loc)
            rd = g.mk('rd', t, (e,), 'd' if t == 'double' else 'f')
            self.store(a[1], rd, 8 if t == 'double' else 4, loc)
            return a[0]
        if d.startswith('std::ios_base::') or 'basic_ios<' in d or 'basic_' in d or d.startswith('std::') or 'operator<<' in d or 'operator>>' in d:
            # literal texts are made part of the event
            b = [self.literal(x, d) for x in a]
            e = self.effect('call:' + d, b, loc)
            for x in a:
                for obj in self.targets(x):
                    if self.kind.get(obj) == 'in' or obj.startswith('glob:'): continue
                    self.kind.setdefault(obj, 'opaque')
                    self.clobber(obj)
            if SELF.search(d) and self.m.resolve(I.ty)[0] == 'ptr':
                return a[0]
            return self.retval(I, name, a, e)
        raise vg.Unmodelled('call of %s' % d)
    def literal(self, x, d):
        if isinstance(x, tuple) or x is None: return x
        if x.op == 'ptr' and x.attr[0].startswith('glob:'):
            n = x.attr[0][5:]
            if n in self.m.functions:
                return self.g.mk('fun', self.demangled(n[1:].strip('"')), (), 'p')
            s = self.cstring(x)
            if s is not None: return self.g.mk('text', s, (), 'p')
        if x.op == 'select' and x.ty == 'p':
            return self.g.select(x.args[0], self.literal(x.args[1], d), self.literal(x.args[2], d))
        return x
    def clobber(self, obj):
        # the layout part of a stream object (its virtual table pointer) never changes
        if obj in ('null',): return
        self.mem[obj] = {'*': (0, self.g.mk('eff0', None, (), 'e'))}
    def query(self, what, p):
        g = self.g
        objs = self.targets(p)
        if len(objs) != 1: raise vg.Unmodelled('state of an unknown stream')
        q = lambda n: g.mk('ioq', (n, objs[0]), (self.eff,), 'i1')
        if what == 'fail': return q('fail')
        if what == 'operator!': return q('fail')
        if what == 'operator bool': return g.not_(q('fail'))
        if what == 'eof': return q('eof')
        if what == 'bad': return g.and_(q('fail'), q('bad'))
        if what == 'good': return g.and_(g.not_(q('fail')), g.not_(q('eof')))
        if what == 'rdstate':
            z = g.ci(0, 32)
            one = lambda c, k: g.select(c, g.ci(k, 32), z)
            bits = self.intop('or', self.intop('or', one(g.and_(q('fail'), q('bad')), 1), one(q('fail'), 4)), one(q('eof'), 2))
            return bits
    def intop(self, op, a, b):
        # selections of constants: distribute
        if op in ('and', 'or') and not isinstance(a, tuple) and a.ty == 'i32':
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.op == 'select' and consttree(x) and consttree(y):
                    f = lambda t: self.intop(op, t, y)
                    return self.g.select(x.args[0], f(x.args[1]), f(x.args[2]))
        return super().intop(op, a, b)

def consttree(n):
    return n.op == 'ci' or n.op == 'select' and consttree(n.args[1]) and consttree(n.args[2])

class Ctx(part.Ctx):
    """leaf context that knows the failure state of an input stream to be monotone"""
    def decide(self, c):
        if c.op == 'ioq':
            e = self.resolve(c.args[0])
            e = last_event(e, c.attr[1])
            q = self.g.mk('ioq', c.attr, (e,), 'i1')
            if q.id in self.bools: return self.bools[q.id]
            if c.attr[0] in ('fail', 'bad', 'eof'):
                anc = ancestors(e)
                byid = self.queries()
                for i, n in byid.items():
                    v = self.bools.get(i)
                    if v is None or n.attr != c.attr: continue
                    if v and n.args[0].id in anc: return True
                    if not v and e.id in ancestors(n.args[0]): return False
            self.queries()[q.id] = q
            raise part.NeedSplit(('bool', q))
        if c.op == 'ret' and c.ty == 'i1' and c.args[0].attr[0].endswith('::empty() const'):
            e = self.resolve(c.args[0])
            st = interpret(e, self)
            toks = st.content(objof(e.args[1]))
            return not any(t[0] != 'lit' or t[1] for t in toks)
        return super().decide(c)
    def queries(self):
        return self.R.__dict__.setdefault('_queries', {})
    def child(self):
        c = Ctx(self.R)
        c.refined = dict(self.refined); c.rel = dict(self.rel); c.bools = dict(self.bools); c.ints = dict(self.ints)
        c.trail = list(self.trail)
        return c

def chain(e):
    out = []
    while e.op == 'eff':
        out.append(e)
        e = e.args[0]
    if e.op != 'eff0': raise vg.Unmodelled('effect chain through %s' % e)
    out.reverse()
    return out

def ancestors(e):
    s = set()
    while e.op in ('eff', 'eff0'):
        s.add(e.id)
        if e.op == 'eff0': break
        e = e.args[0]
    return s

def last_event(e, obj):
    """latest event that touches the object"""
    while e.op == 'eff':
        if any(a.op == 'ptr' and a.attr[0] == obj for a in e.args[1:]): return e
        e = e.args[0]
    return e

def objof(p):
    if p.op != 'ptr': raise vg.Unmodelled('object %s' % p)
    return p.attr[0]

# ------------------------------------------------------------- interpretation
class Stream:
    def __init__(self, name, user):
        self.base = 'initial flags of ' + name if user else None
        self.mask, self.bits = (0, 0) if user else ((1 << 32)-1, DEFAULT_FLAGS)
        self.precision = ('init', name) if user else 6
        self.width = ('init', name) if user else 0
        self.fill = ('init', name) if user else 32
        self.sink = []
        self.user = user
    def fmt(self):
        return (self.base, self.mask, self.bits, self.precision, self.width, self.fill)
    def setfmt(self, f):
        self.base, self.mask, self.bits, self.precision, self.width, self.fill = f
    def floatfield(self):
        if self.mask & FLOATFIELD == FLOATFIELD:
            return {FIXED: 'fixed', SCI: 'scientific', 0: 'default', FLOATFIELD: 'hex'}[self.bits & FLOATFIELD]
        return 'unknown'

class State:
    def __init__(self, ctx):
        self.dead, self.dangling, self.owner = set(), [], {}
        self.c = ctx
        self.streams = {}
        self.strings = {}
        self.rets = {}
        self.touched = []      # events on user streams other than insertions
    def content(self, obj):
        if obj in self.strings: return self.strings[obj]
        if obj in self.streams: return self.streams[obj].sink
        return []
    def stream(self, p):
        o = objof(p)
        if o not in self.streams:
            if o.startswith('arg:') or o.startswith('glob:') or o.startswith('mem:'):
                self.streams[o] = Stream(o, True)
            else:
                raise vg.Unmodelled('stream %s used before construction' % o)
        return self.streams[o]
    # integer terms: constants or nodes
    def num(self, n):
        n = self.c.resolve(n)
        if n.op == 'ci':
            w = int(n.ty[1:])
            return n.attr - (1 << w) if n.attr >> (w-1) else n.attr
        if n.op == 'ret' and n.args[0].id in self.rets:
            return self.rets[n.args[0].id]
        if n.op in ('zext', 'sext', 'trunc') :
            b = n.args[0]
            while b.op in ('zext', 'sext', 'trunc'): b = b.args[0]
            if b.op == 'ret' and b.args[0].id in self.rets: return self.rets[b.args[0].id]
        return n
    def flags(self, n):
        """flag word as (base, mask of known bits, known bits)"""
        n = self.c.resolve(n)
        if n.op == 'ci': return (None, (1 << 32)-1, n.attr)
        if n.op == 'ret' and n.args[0].id in self.rets:
            v = self.rets[n.args[0].id]
            if isinstance(v, tuple) and len(v) == 4 and v[0] == 'flags': return v[1:]
        if n.op in ('and', 'or', 'xor') and n.args[1].op == 'ci':
            b, m, k = self.flags(n.args[0]); x = n.args[1].attr
            if n.op == 'and': return (b, m | (~x & 0xffffffff), k & x)
            if n.op == 'or': return (b, m | x, k | x)
        if n.op == 'or':
            (b1, m1, k1), (b2, m2, k2) = self.flags(n.args[0]), self.flags(n.args[1])
            if b2 is None and m2 == 0xffffffff: b1, m1, k1, b2, m2, k2 = b2, m2, k2, b1, m1, k1
        raise vg.Unmodelled('format flags %s' % n)

def interpret(eff, ctx):
    st = State(ctx)
    for e in chain(eff):
        step(st, e)
    return st

IGN = re.compile(r'allocator<char>::|~allocator|__throw|std::locale::|::reserve\(|::size\(\)|::length\(\)|::empty\(\)|::capacity\(|::flush\(\)|::shrink_to_fit|::sync\(')

DTOR = re.compile(r'::~basic_(?:string|(?:o|i)?stringstream|ostream|istream|ios)(?:<[^()]*>)?\(')
CTOR = re.compile(r'::basic_(?:string|(?:o|i)?stringstream|ostream|istream|ios)(?:<[^()]*>)?\(')
READS = re.compile(r'::(?:append|operator\+?=|push_back|clear|insert|c_str|data|assign|size|length|empty|precision|width|fill|setf|unsetf|flags)(?:<[^()]*>)?\(|operator<<|operator>>')
def lifetimes(st, e, d, a):
    """strings and streams that were destroyed must not be used again"""
    o = [x.attr[0] if x.op == 'ptr' else 'value' for x in a]
    o = [st.owner.get(x, x) for x in o]
    if DTOR.search(d):
        st.dead.update(o[:1]); return
    if re.search(r'basic_string<[^()]*>::(c_str|data)\(\)', d): st.owner['mem:r%d' % e.id] = o[0]
    used = set(o[1:])
    if o and READS.search(d) and not CTOR.search(d): used.add(o[0])
    elif o: st.dead.discard(o[0])
    for x in used & st.dead: st.dangling.append((e, x, d))
def step(st, e):
    nm = e.attr[0]
    a = e.args[1:]
    if nm.startswith('call:'): lifetimes(st, e, nm[5:], a)
    if nm.startswith('extract:'):
        s = st.stream(a[0])
        s.sink.append(('rd', e))
        return
    if nm == 'rawstore':
        if objof(a[0]).startswith('alloca:') : return
        raise vg.Unmodelled('store to %s' % objof(a[0]))
    if not nm.startswith('call:'):
        raise vg.Unmodelled('effect %s' % nm)
    d = nm[5:]
    if re.search(r'basic_string<[^()]*>::(c_str|data)\(\)', d):
        st.rets[('cstr', 'mem:r%d' % e.id)] = objof(a[0])
        return
    if re.match(r'std::_Setfill<char> std::setfill<char>\(char\)|std::setfill<char>\(char\)', d):
        st.rets[e.id] = st.num(a[0])
        return
    if IGN.search(d): return
    # --- strings
    m = re.search(r'basic_(o|i)?stringstream<[^()]*>::(~?)basic_(o|i)?stringstream\((.*)\)$', d)
    if m:
        if m.group(2): return
        s = st.streams[objof(a[0])] = Stream(objof(a[0]), False)
        if 'basic_string<' in m.group(4):
            s.sink.extend(st.strings.get(objof(a[1]), [('unknown', d)]))
            raise vg.Unmodelled('string stream with initial text')
        return
    m = re.search(r'basic_ostream<[^()]*>::(~?)basic_ostream\((.*)\)$', d)
    if m:
        if m.group(1): return
        s = st.streams[objof(a[0])] = Stream(objof(a[0]), False)
        b = st.rets.get(('buf', objof(a[1])))
        if b is None: raise vg.Unmodelled('stream on an unknown buffer')
        s.sink = b.sink
        return
    m = re.search(r'basic_ios<[^()]*>::(~?)basic_ios\((.*)\)$', d)
    if m:
        if not m.group(1): st.streams[objof(a[0])] = Stream(objof(a[0]), False)
        return
    if re.search(r'::rdbuf\(\) const$', d):
        st.rets[('buf', 'mem:r%d' % e.id)] = st.stream(a[0])
        return
    if re.search(r'stringstream<[^()]*>::str\(\)', d):
        st.strings[objof(a[0])] = list(st.stream(a[1]).sink)
        return
    if re.search(r'stringstream<[^()]*>::str\(std::__cxx11::basic_string', d):
        st.stream(a[0]).sink = list(st.strings[objof(a[1])])
        return
    if string_op(st, e, d, a): return
    if stream_op(st, e, d, a): return
    raise vg.Unmodelled('stream primitive %s' % d)

def text(n):
    if n.op == 'text': return n.attr
    return None

def string_op(st, e, d, a):
    S = st.strings
    def toks(p):
        t = text(p)
        if t is not None: return [('lit', t.split('\0')[0])]
        o = objof(p)
        if o not in S: raise vg.Unmodelled('string %s' % o)
        return list(S[o])
    m = re.search(r'std::__cxx11::basic_string<char[^()]*>::(~?basic_string|append|assign|operator\+?=|push_back|clear|insert)(?:<[^()]*>)?\((.*)\)', d)
    if m:
        k, sig = m.group(1), m.group(2)
        if k == '~basic_string': return True
        if k == 'clear': S[objof(a[0])] = []; return True
        if k == 'push_back': S[objof(a[0])].append(char(a[1])); return True
        if k in ('basic_string', 'assign', 'operator=', 'append', 'operator+='):
            if sig in ('', 'std::allocator<char> const&'): new = []
            elif sig.startswith('unsigned long, char'): new = rep(a[1], a[2])
            elif sig.startswith('char const*, unsigned long'):
                t = text(a[1]); n = st.num(a[2])
                if t is None or not isinstance(n, int): raise vg.Unmodelled('string from a character range')
                new = [('lit', t[:n])]
            elif sig.startswith('char const*') or sig.startswith('std::__cxx11::basic_string'):
                if re.search(r'basic_string<[^()]*>.*, unsigned long', sig): raise vg.Unmodelled('substring')
                new = toks(a[1])
            elif sig == 'char': new = [char(a[1])]
            else: raise vg.Unmodelled('string primitive %s' % d)
            if k in ('append', 'operator+='): S[objof(a[0])] = S[objof(a[0])] + new
            else: S[objof(a[0])] = new
            return True
        raise vg.Unmodelled('string primitive %s' % d)
    m = re.search(r'operator\+<char[^()]*>\((.*)\)$', d)
    if m and len(a) == 3:
        def side(x, p):
            return [char(p)] if x == 'char' else toks(p)
        args = split_args(m.group(1))
        S[objof(a[0])] = side(args[0], a[1]) + side(args[1], a[2])
        return True
    if re.match(r'std::__cxx11::to_string\(double\)', d):
        S[objof(a[0])] = [('num', st.c.resolve(a[1]), 'fixed', 6, 0, 32)]
        return True
    return False

def split_args(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == ',' and not depth: out.append(cur.strip()); cur = ''; continue
        depth += ch in '<(' ; depth -= ch in '>)'
        cur += ch
    return out + [cur.strip()]

def char(n):
    if n.op != 'ci': raise vg.Unmodelled('character')
    return ('lit', chr(n.attr & 255))

def rep(n, c):
    if n.op != 'ci' or n.attr > 1000: raise vg.Unmodelled('repeated character')
    return [('lit', char(c)[1]*n.attr)]

def stream_op(st, e, d, a):
    def put(s, toks):
        w = s.width
        if w != 0 and not isinstance(w, tuple) and toks and any(t[0] == 'num' for t in toks) is False:
            toks = [('pad', w, s.fill)] + toks
        s.sink.extend(toks)
        s.width = 0
    # --- insertion
    m = re.search(r'ostream::_M_insert<(\w[\w ]*)>|basic_ostream<[^()]*>::_M_insert<(\w[\w ]*)>', d)
    if m or re.search(r'ostream(<[^()]*>)?::operator<<\((double|float|long double|int|long|bool|unsigned int|unsigned long|short|unsigned short|void const\*)\)', d):
        s = st.stream(a[0])
        k = (m.group(1) or m.group(2)) if m else re.search(r'operator<<\((.*)\)', d).group(1)
        if k == 'double':
            s.sink.append(('num', st.c.resolve(a[1]), s.floatfield(), s.precision, s.width, s.fill))
        else:
            s.sink.append(('other', k))
        s.width = 0
        return True
    if re.search(r'operator<<\(std::ios_base& \(\*\)|operator<<\(std::basic_ios<[^()]*>& \(\*\)|operator<<\(std::ostream& \(\*\)|operator<<\(std::basic_ostream<[^()]*>& \(\*\)', d):
        f = a[1]
        if f.op != 'fun': raise vg.Unmodelled('unknown manipulator')
        return manip(st, st.stream(a[0]), f.attr)
    if re.match(r'std::(ios_base& )?std::\w+\(std::ios_base&\)$|std::\w+\(std::ios_base&\)$', d):
        return manip(st, st.stream(a[0]), d)
    if re.search(r'operator<< ?<.*std::_Setprecision\)', d):
        st.stream(a[0]).precision = st.num(a[1]); return True
    if re.search(r'operator<< ?<.*std::_Setw\)', d):
        st.stream(a[0]).width = st.num(a[1]); return True
    if re.search(r'operator<< ?<.*std::_Setfill<char>\)', d):
        v = st.num(a[1]); st.stream(a[0]).fill = v & 255 if isinstance(v, int) else v; return True
    if re.search(r'operator<< ?<.*std::_(Res|S)etiosflags\)', d):
        s = st.stream(a[0]); _, m_, k = st.flags(a[1])
        if m_ != 0xffffffff: raise vg.Unmodelled('flags')
        if '_Setios' in d: s.mask |= k; s.bits |= k
        else: s.mask |= k; s.bits &= ~k
        return True
    if re.search(r'__ostream_insert<', d):
        s = st.stream(a[0]); t = text(a[1]); n = st.num(a[2])
        if t is None or not isinstance(n, int): raise vg.Unmodelled('insertion of characters')
        put(s, [('lit', t[:n])]); return True
    if re.search(r'operator<< ?<.*(char const\*|, char)\)$', d):
        s = st.stream(a[0])
        if d.endswith('char)'): put(s, [char(a[1])])
        else:
            t = text(a[1])
            if t is not None: put(s, [('lit', t.split('\0')[0])])
            else:
                o = st.rets.get(('cstr', objof(a[1])))
                if o is None: raise vg.Unmodelled('insertion of characters')
                put(s, list(st.strings[o]))
        return True
    if re.search(r'operator<< ?<.*basic_string<', d):
        s = st.stream(a[0]); o = objof(a[1])
        if o not in st.strings: raise vg.Unmodelled('insertion of string %s' % o)
        put(s, list(st.strings[o])); return True
    if re.search(r'ostream(<[^()]*>)?::put\(char\)', d):
        st.stream(a[0]).sink.append(char(a[1])); return True
    if re.search(r'ostream(<[^()]*>)?::write\(char const\*, long\)', d):
        t = text(a[1]); n = st.num(a[2])
        if t is None or not isinstance(n, int): raise vg.Unmodelled('write of characters')
        st.stream(a[0]).sink.append(('lit', t[:n])); return True
    # --- format state
    m = re.search(r'ios_base::(precision|width|flags|setf|unsetf)\((.*)\)( const)?$', d)
    if m:
        s = st.stream(a[0]); k = m.group(1)
        old = ('flags', s.base, s.mask, s.bits) if k in ('flags', 'setf') else s.precision if k == 'precision' else s.width
        st.rets[e.id] = old
        if m.group(3): return True
        if k == 'precision': s.precision = st.num(a[1])
        elif k == 'width': s.width = st.num(a[1])
        elif k == 'flags': s.base, s.mask, s.bits = st.flags(a[1])
        elif k == 'setf':
            b, m_, v = st.flags(a[1])
            if len(a) == 2:
                if m_ != 0xffffffff: raise vg.Unmodelled('setf')
                s.mask |= v; s.bits |= v
            else:
                b2, m2, mask = st.flags(a[2])
                if m2 != 0xffffffff: raise vg.Unmodelled('setf')
                if m_ & mask == mask:
                    s.mask |= mask; s.bits = (s.bits & ~mask) | (v & mask)
                elif b == s.base and not (s.mask & mask & ~m_):
                    raise vg.Unmodelled('setf')
                else:
                    # bits of a saved flag word: known only if it stems from the same base
                    if b == s.base:
                        s.mask = (s.mask & ~mask) | (m_ & mask); s.bits = (s.bits & ~mask) | (v & mask)
                    else: raise vg.Unmodelled('setf')
        elif k == 'unsetf':
            b, m_, v = st.flags(a[1])
            if m_ != 0xffffffff: raise vg.Unmodelled('unsetf')
            s.mask |= v; s.bits &= ~v
        return True
    m = re.search(r'basic_ios<[^()]*>::fill\((char)?\)( const)?$', d)
    if m:
        s = st.stream(a[0]); st.rets[e.id] = s.fill
        if m.group(1):
            v = st.num(a[1]); s.fill = v & 255 if isinstance(v, int) else v
        return True
    if re.search(r'::copyfmt\(', d):
        s = st.stream(a[0]); t = st.stream(a[1])
        s.setfmt(t.fmt()); return True
    m = re.search(r'(basic_ios<[^()]*>|basic_istream<[^()]*>|basic_ostream<[^()]*>|ios_base|istream|ostream)::(clear|setstate|ignore|get|getline|unget|putback|peek|seekg|seekp|tie|imbue|exceptions|sync|read|readsome|init|rdbuf|swap|tellg|tellp|gcount)\(', d)
    if m:
        s = st.stream(a[0])
        st.touched.append((m.group(2), e))
        if m.group(2) in ('setstate', 'clear', 'ignore', 'get', 'getline', 'unget', 'putback', 'seekg', 'seekp', 'read', 'imbue', 'exceptions'): s.sink.append(('touch', m.group(2)))
        return True
    return False

def manip(st, s, f):
    n = re.search(r'std::(\w+)(?:<[^()]*>)?\(', f).group(1)
    def ff(v): s.mask |= FLOATFIELD; s.bits = (s.bits & ~FLOATFIELD) | v
    def bit(b, on): s.mask |= b; s.bits = s.bits | b if on else s.bits & ~b
    def field(m, v): s.mask |= m; s.bits = (s.bits & ~m) | v
    if n == 'fixed': ff(FIXED)
    elif n == 'scientific': ff(SCI)
    elif n == 'hexfloat': ff(FLOATFIELD)
    elif n == 'defaultfloat': ff(0)
    elif n == 'endl': s.sink.append(('lit', '\n'))
    elif n == 'ends': s.sink.append(('lit', '\0'))
    elif n in ('flush', 'emit_on_flush', 'noemit_on_flush', 'flush_emit'): pass
    elif n in ('showpos', 'noshowpos'): bit(2048, n == 'showpos')
    elif n in ('showpoint', 'noshowpoint'): bit(1024, n == 'showpoint')
    elif n in ('uppercase', 'nouppercase'): bit(16384, n == 'uppercase')
    elif n in ('showbase', 'noshowbase'): bit(512, n == 'showbase')
    elif n in ('unitbuf', 'nounitbuf'): bit(8192, n == 'unitbuf')
    elif n in ('skipws', 'noskipws'): bit(4096, n == 'skipws')
    elif n in ('boolalpha', 'noboolalpha'): bit(1, n == 'boolalpha')
    elif n in ('left', 'right', 'internal'): field(176, {'left': 32, 'right': 128, 'internal': 16}[n])
    elif n in ('dec', 'hex', 'oct'): field(74, {'dec': 2, 'hex': 8, 'oct': 64}[n])
    elif n == 'ws': s.sink.append(('touch', 'ws'))
    else: raise vg.Unmodelled('manipulator %s' % f)
    return True

# ------------------------------------------------------------- linear forms
def linear(c, x, w=32):
    """{atom: coefficient} modulo 2^w of an integer term on a leaf; 1 is the constant atom"""
    M = 1 << w
    if isinstance(x, int): return {1: x % M} if x % M else {}
    if isinstance(x, tuple): return {x: 1}
    n = c.resolve(x)
    if n.op == 'ci': return {1: n.attr % M} if n.attr % M else {}
    if n.id in c.ints and c.ints[n.id][0] == c.ints[n.id][1]:
        k = c.ints[n.id][0] % M
        return {1: k} if k else {}
    if n.op in ('trunc', 'zext', 'sext') and n.ty != 'i1' and n.args[0].ty != 'i1':
        if n.op == 'trunc' or int(n.args[0].ty[1:]) >= w: return linear(c, n.args[0], w)
    if n.op in ('add', 'sub'):
        p, q = linear(c, n.args[0], w), linear(c, n.args[1], w)
        r = dict(p)
        for k, v in q.items():
            r[k] = (r.get(k, 0) + (v if n.op == 'add' else -v)) % M
        return {k: v for k, v in r.items() if v}
    if n.op in ('mul', 'shl') and n.args[1].op == 'ci':
        k = n.args[1].attr if n.op == 'mul' else 1 << n.args[1].attr
        return {a: v*k % M for a, v in linear(c, n.args[0], w).items() if v*k % M}
    if n.op == 'or' and n.args[1].op == 'ci':
        pass
    return {n.attr if n.op == 'in' else n: 1}

def show(tok, c):
    if tok[0] == 'num':
        w = lambda x: str(x) if not isinstance(x, vg.Node) else ' + '.join('%s*%s' % (v, k) if k != 1 else str(v) for k, v in linear(c, x).items())
        return 'number %s (%s, precision %s, width %s)' % (c.short(tok[1]), tok[2], w(tok[3]), w(tok[4]))
    if tok[0] == 'lit': return 'text %r' % tok[1]
    return ' '.join(str(t) for t in tok[:2])

def lin_show(c, x):
    return ' + '.join(str(v) if k == 1 else str(k) if v == 1 else '%d*%s' % (v, k) for k, v in linear(c, x).items()) or '0'
