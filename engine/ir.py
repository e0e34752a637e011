"""Parser for textual LLVM IR (LLVM 18, opaque pointers): the subset that
clang/opt emit for the wrapper translation units.  Purely syntactic."""
import re, struct, bisect

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<loc>%"[^"]*"|%[\w.$-]+)
 | (?P<glob>@"[^"]*"|@[\w.$-]+)
 | (?P<md>!"[^"]*"|![\w.-]*)
 | (?P<str>"[^"]*")
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<flt>-?\d+\.\d*(?:e[+-]?\d+)?)
 | (?P<int>-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[A-Za-z_$][\w.$-]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: %r in %r' % (s[i:i+20], s[:120]))
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out

# ---- types --------------------------------------------------------------
# ('ptr',) ('double',) ('int',n) ('array',n,t) ('struct',[t..],packed)
# ('named',name) ('void',) ('label',) ('metadata',) ('vector',n,t) ('func',)
class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def at(self, s):
        return self.peek()[1] == s
    def accept(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r near %r' % (s, self.peek(), ' '.join(x[1] for x in self.t[max(0,self.i-8):self.i+8])))
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = ('ptr',)
                if self.at('addrspace'):
                    raise IRError('addrspace')
            elif v in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
                t = (v,)
            elif re.fullmatch(r'i\d+', v):
                t = ('int', int(v[1:]))
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise IRError('type %r' % v)
        elif k == 'loc':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            t = ('struct', self.typelist('}'), False)
        elif v == '<':
            if self.accept('{'):
                ts = self.typelist('}'); self.expect('>')
                t = ('struct', ts, True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vector', n, e)
        else:
            raise IRError('type tok %r' % (v,))
        if self.at('(') :      # function type
            depth = 0
            while True:
                x = self.next()[1]
                if x == '(': depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0: break
            t = ('func', t)
        return t
    def typelist(self, close):
        ts = []
        while not self.accept(close):
            ts.append(self.type())
            self.accept(',')
        return tuple(ts)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc':
            return ('local', v)
        if k == 'glob':
            return ('global', v)
        if k == 'md':
            # metadata operand (dbg intrinsics only)
            if self.at('('):
                self.skip_parens()
            return ('md', v)
        if ty[0] == 'metadata':
            raise IRError('metadata operand')
        if k == 'int':
            if ty[0] in ('double', 'float'):
                return ('f', float(v))
            return ('i', int(v))
        if k == 'flt':
            return ('f', float(v))
        if k == 'hex':
            if v.startswith('0xK'):
                h = v[3:]
                se = int(h[:4], 16); m = int(h[4:], 16)
                s = -1.0 if se & 0x8000 else 1.0
                e = (se & 0x7fff)
                if e == 0x7fff:
                    return ('f', float('nan') if (m << 1) & ((1 << 64) - 1) else s*float('inf'))
                import math
                return ('f', s*math.ldexp(m, e-16383-63))
            if v[2] in 'LMHR':
                raise IRError('fp const ' + v)
            return ('f', struct.unpack('>d', struct.pack('>Q', int(v[2:], 16)))[0])
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v == 'null': return ('null',)
        if v == 'none': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if k == 'cstr': return ('str', v[2:-1])
        if v in ('[', '{'):
            close = ']' if v == '[' else '}'
            el = []
            while not self.accept(close):
                t = self.type(); self.skip_attrs(); el.append((t, self.value(t))); self.accept(',')
            return ('agg', tuple(el))
        if v == '<':
            packed = self.accept('{')
            el = []
            while not self.accept('}' if packed else '>'):
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            if packed: self.expect('>')
            return ('agg', tuple(el))
        if v == 'getelementptr':
            flags = []
            while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.expect('(')
            base = self.type(); self.expect(',')
            ops = []
            while not self.accept(')'):
                while self.accept('inrange'): pass
                t = self.type(); ops.append((t, self.value(t))); self.accept(',')
            return ('cgep', base, tuple(ops))
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc', 'sub', 'add', 'icmp', 'select', 'dso_local_equivalent', 'no_cfi'):
            if self.at('('):
                self.skip_parens()
            return ('cexpr', v)
        raise IRError('value %r %r (type %r)' % (k, v, ty))
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(': d += 1
            elif x == ')': d -= 1
    PATTR = {'noundef','nonnull','nocapture','readonly','writeonly','readnone','noalias','signext','zeroext','inreg','returned',
             'immarg','nofree','nest','swiftself','noext','align','dereferenceable','dereferenceable_or_null','sret','byval','nofpclass','captures','writable','dead_on_unwind','range','initializes','allocalign','allocptr','swifterror','elementtype','inalloca','preallocated'}
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'id' and v in self.PATTR:
                self.next()
                if v == 'align' and self.peek()[0] == 'int':
                    self.next()
                elif self.at('('):
                    self.skip_parens()
            elif k == 'str' :
                self.next()
                if self.accept('='): self.next()
            else:
                return

class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'dbg', 'text')
    def __init__(self, op, res=None, ty=None, args=(), extra=None, dbg=None, text=''):
        self.op, self.res, self.ty, self.args, self.extra, self.dbg, self.text = op, res, ty, args, extra, dbg, text

class Function:
    def __init__(self, name, ret, params, attrs, line):
        self.name, self.ret, self.params = name, ret, params   # params: [(type,name)]
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.attrs = attrs
        self.dbg = None
        self.defined = False
        self.headline = line

FAST = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}
INTF = {'nuw','nsw','exact','inbounds','nneg','disjoint','nusw','samesign'}
CC = {'tail','musttail','notail','fastcc','coldcc','ccc'}

def split_md(line):
    """strip trailing ', !dbg !12, !tbaa !3' -> (line, dbg)"""
    dbg = None
    m = re.search(r', !dbg (!\d+)', line)
    if m:
        dbg = m.group(1)
    while True:
        m = re.search(r', ![\w.]+ !\d+\s*$', line)
        if not m:
            break
        line = line[:m.start()]
    return line, dbg

class Module:
    def __init__(self, text, want=None, parse_bodies=True):
        """want: optional predicate on function names, to limit body parsing"""
        self.types, self.globals, self.functions, self.md, self.aliases = {}, {}, {}, {}, {}
        self.mdtext = {}
        self.attrgroups = {}
        self._parse(text, want, parse_bodies)
    # ---------------------------------------------------------------
    def _parse(self, text, want, parse_bodies):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if not L or L[0] in ';':
                i += 1; continue
            c = L[0]
            if c == '%':
                name, rest = L.split(' = type ', 1)
                if rest.strip() == 'opaque':
                    self.types[name] = ('opaque',)
                else:
                    self.types[name] = P(tokenize(rest), self).type()
            elif c == '@':
                self._global(L)
            elif c == '!':
                m = re.match(r'(![\w.]+) = (.*)', L)
                if m:
                    self.mdtext[m.group(1)] = m.group(2)
            elif L.startswith('attributes '):
                m = re.match(r'attributes (#\d+) = \{ (.*) \}', L)
                self.attrgroups[m.group(1)] = m.group(2)
            elif L.startswith('declare ') or L.startswith('define '):
                f = self._header(L)
                self.functions[f.name] = f
                if L.startswith('define '):
                    f.defined = True
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    f.lines = lines[i+1:j]
                    if parse_bodies and (want is None or want(f.name)):
                        self._body(f, f.lines)
                    i = j
            i += 1
    def _global(self, L):
        m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)', L)
        name, rest = m.group(1), m.group(2)
        line, dbg = split_md(rest)
        p = P(tokenize(line), self)
        quals = []
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'):
                p.next(); kind = v
                break
            if v in ('alias', 'ifunc'):
                self.aliases[name] = rest
                return
            quals.append(v); p.next()
            if p.at('('):
                a = p.i; p.skip_parens()
                quals.append(''.join(x[1] for x in p.t[a:p.i]))
        ty = p.type()
        init = None
        if p.i < len(p.t) and not p.at(','):
            init = p.value(ty)
        self.globals[name] = {'kind': kind, 'type': ty, 'init': init, 'quals': quals, 'dbg': dbg, 'line': rest}
    def _header(self, L):
        line, _ = split_md(L)
        mdbg = re.search(r'!dbg (!\d+)', L)
        # find the function name and its parameter list
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', L)
        name = m.group(1)
        pre = L[:m.start()]
        depth, j = 0, m.end() - 1
        while True:
            ch = L[j]
            if ch == '"':
                j = L.index('"', j+1)
            elif ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0:
                    break
            j += 1
        ptoks = tokenize(L[m.end():j])
        p = P(ptoks, self)
        params = []
        vararg = False
        while p.i < len(p.t):
            if p.accept('...'):
                vararg = True
                continue
            t = p.type()
            sret = byval = False
            a = p.i
            p.skip_attrs()
            at = [x[1] for x in p.t[a:p.i]]
            nm = None
            if p.peek()[0] == 'loc':
                nm = p.next()[1]
            params.append((t, nm, at))
            p.accept(',')
        # return type: last type in 'pre'
        pt = P(tokenize(pre), self)
        ret = None
        pt.next()
        while pt.i < len(pt.t):
            k, v = pt.peek()
            if k == 'id' and (v in ('ptr','double','float','void','x86_fp80') or re.fullmatch(r'i\d+', v)) or k == 'loc' or v in '{[<':
                if k == 'id' or k == 'loc' or v in '{[<':
                    ret = pt.type()
                    continue
            pt.next()
            if pt.at('('):
                pt.skip_parens()
        f = Function(name, ret, params, L[j+1:], L)
        f.pre = pre
        f.vararg = vararg
        f.dbg = mdbg.group(1) if mdbg else None
        return f
    def _body(self, f, lines):
        cur = None
        nparams = 0
        # entry label: unnamed -> numbered after params, else explicit
        first = True
        i = 0
        while i < len(lines):
            L = lines[i]
            i += 1
            s = L.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', L)
            if m and not L.startswith(' '):
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = '%__entry'
                f.blocks[cur] = []
                f.order.append(cur)
            # multi-line instrs: switch [...] ; landingpad clauses
            if s.startswith('switch ') and ']' not in s.split(', !dbg')[0]:
                while True:
                    t = lines[i].strip(); i += 1
                    s += ' ' + t
                    if t.startswith(']'):
                        break
            if 'invoke ' in s and ' unwind label ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            if re.search(r'= landingpad ', s):
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                    i += 1
                s = s.split(',')[0]
            f.blocks[cur].append(self._instr(s))
        if '%__entry' in f.blocks and f.order[0] == '%__entry':
            # give the entry its implicit number so phi references resolve
            cnt = 0
            for (t, nm, at) in f.params:
                if nm is not None and re.fullmatch(r'%\d+', nm):
                    cnt += 1
            f.entryalias = '%' + str(cnt)
            f.blocks[f.entryalias] = f.blocks.pop('%__entry')
            f.order[0] = f.entryalias
    def _instr(self, s):
        line, dbg = split_md(s)
        p = P(tokenize(line), self)
        res = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        op = p.next()[1]
        I = Instr(op, res, None, (), None, dbg, s)
        if op in CC and p.peek()[1] in ('call',):
            op = I.op = p.next()[1]
        def flags(fs):
            while p.peek()[1] in fs:
                p.next()
        if op in ('fadd','fsub','fmul','fdiv','frem','add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr'):
            flags(FAST | INTF)
            I.ty = p.type(); a = p.value(I.ty); p.expect(','); b = p.value(I.ty)
            I.args = (a, b)
        elif op == 'fneg':
            flags(FAST); I.ty = p.type(); I.args = (p.value(I.ty),)
        elif op in ('fcmp', 'icmp'):
            flags(FAST | INTF)
            I.extra = p.next()[1]; I.ty = p.type(); a = p.value(I.ty); p.expect(','); b = p.value(I.ty); I.args = (a, b)
        elif op == 'select':
            flags(FAST)
            tc = p.type(); c = p.value(tc); p.expect(','); I.ty = p.type(); a = p.value(I.ty); p.expect(','); t2 = p.type(); b = p.value(t2)
            I.args = (c, a, b); I.extra = tc
        elif op == 'phi':
            flags(FAST); I.ty = p.type(); a = []
            while p.accept('['):
                v = p.value(I.ty); p.expect(','); b = p.next()[1]; p.expect(']'); p.accept(','); a.append((v, b))
            I.args = tuple(a)
        elif op == 'load':
            flags({'volatile', 'atomic'}); I.ty = p.type(); p.expect(','); t = p.type(); I.args = (p.value(t),)
            I.extra = 'volatile' if ' volatile ' in s else None
        elif op == 'store':
            flags({'volatile', 'atomic'}); I.ty = p.type(); v = p.value(I.ty); p.expect(','); t = p.type(); I.args = (v, p.value(t))
        elif op == 'getelementptr':
            flags(INTF); I.extra = p.type(); p.expect(','); ops = []
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.accept(','): break
            I.args = tuple(ops); I.ty = ('ptr',)
        elif op in ('bitcast','zext','sext','trunc','fpext','fptrunc','sitofp','uitofp','fptosi','fptoui','ptrtoint','inttoptr','addrspacecast'):
            flags(INTF | FAST); t = p.type(); v = p.value(t); p.expect('to'); I.ty = p.type(); I.args = (v,); I.extra = t
        elif op == 'freeze':
            I.ty = p.type(); I.args = (p.value(I.ty),)
        elif op == 'alloca':
            flags({'inalloca'}); I.extra = p.type(); I.ty = ('ptr',)
        elif op == 'br':
            if p.accept('label'):
                I.extra = (p.next()[1],)
            else:
                p.expect('i1'); c = p.value(('int', 1)); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
                I.args = (c,); I.extra = (a, b)
        elif op == 'switch':
            I.ty = p.type(); I.args = (p.value(I.ty),); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
            cases = []
            while not p.accept(']'):
                t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); cases.append((v, p.next()[1]))
            I.extra = (d, tuple(cases))
        elif op == 'ret':
            I.ty = p.type()
            if I.ty[0] != 'void':
                I.args = (p.value(I.ty),)
        elif op in ('call', 'invoke'):
            flags(FAST | CC)
            p.skip_attrs()
            I.ty = p.type()
            if I.ty[0] == 'func':
                I.ty = I.ty[1]
            k, v = p.next()
            callee = v
            if v == 'asm':
                callee = '@asm'
                while not p.at('('): p.next()
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type(); a = p.i; p.skip_attrs(); at = tuple(x[1] for x in p.t[a:p.i])
                args.append((t, p.value(t), at)); p.accept(',')
            I.args = tuple(args); I.extra = callee
            if op == 'invoke':
                while not p.at('to'): p.next()
                p.expect('to'); p.expect('label'); n = p.next()[1]; p.expect('unwind'); p.expect('label'); u = p.next()[1]
                I.extra = (callee, n, u)
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            I.args = (v,); I.extra = tuple(idx); I.ty = t
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            I.args = (v, v2); I.extra = tuple(idx); I.ty = t
        elif op == 'extractelement':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); I.args = (v, v2); I.ty = t
        elif op == 'insertelement':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); p.expect(','); t3 = p.type(); v3 = p.value(t3); I.args = (v, v2, v3); I.ty = t
        elif op == 'shufflevector':
            t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); p.expect(','); t3 = p.type(); v3 = p.value(t3); I.args = (v, v2, v3); I.ty = t; I.extra = t3
        elif op in ('unreachable', 'resume', 'landingpad', 'fence', 'atomicrmw', 'cmpxchg', 'va_arg', 'catchpad', 'cleanuppad'):
            pass
        else:
            raise IRError('instruction %r in %r' % (op, s[:160]))
        return I
    # ---- layout ----------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t
    def sizealign(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'ptr': return 8, 8
        if k == 'double': return 8, 8
        if k == 'float': return 4, 4
        if k == 'x86_fp80': return 16, 16
        if k == 'int':
            b = 1
            while b*8 < t[1]: b *= 2
            return b, min(b, 16)
        if k == 'array':
            s, a = self.sizealign(t[2]); return s*t[1], a
        if k == 'vector':
            s, a = self.sizealign(t[2]); return s*t[1], s*t[1]
        if k == 'struct':
            off, al = 0, 1
            for e in t[1]:
                s, a = self.sizealign(e)
                if t[2]: a = 1
                off = (off + a - 1)//a*a + s
                al = max(al, a)
            return (off + al - 1)//al*al, al
        raise IRError('size of %r' % (t,))
    def field(self, t, idx):
        """(offset, type) of element idx of aggregate type t"""
        t = self.resolve(t)
        if t[0] in ('array', 'vector'):
            s, _ = self.sizealign(t[2])
            return s*idx, t[2]
        off = 0
        for k, e in enumerate(t[1]):
            s, a = self.sizealign(e)
            if t[2]: a = 1
            off = (off + a - 1)//a*a
            if k == idx:
                return off, e
            off += s
        raise IRError('field')
    # ---- debug locations --------------------------------------------
    def _mdfields(self, ref):
        t = self.mdtext.get(ref, '')
        return dict(re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,)]+)', t)), t
    def location(self, ref, prefer='/repo'):
        """source position of a DILocation: innermost frame inside `prefer`,
        plus the function name"""
        best = None
        seen = 0
        while ref and seen < 60:
            seen += 1
            f, t = self._mdfields(ref)
            if not t.startswith('!DILocation') and not t.startswith('distinct !DILocation'):
                break
            file, fn = self.scope(f.get('scope'))
            r = (file, int(f.get('line', '0')), fn)
            if best is None:
                best = r
            if file and file.startswith(prefer):
                return r
            ref = f.get('inlinedAt')
        return best
    def scope(self, ref):
        fn = None
        file = None
        seen = 0
        while ref and seen < 40:
            seen += 1
            f, t = self._mdfields(ref)
            if file is None and 'file' in f:
                file = self.file(f['file'])
            if 'DISubprogram' in t:
                fn = f.get('name', '""').strip('"')
                if 'file' in f:
                    file = self.file(f['file'])
                break
            ref = f.get('scope')
        return file, fn
    def file(self, ref):
        f, t = self._mdfields(ref)
        nm = f.get('filename', '""').strip('"'); d = f.get('directory', '""').strip('"')
        if nm.startswith('/'):
            return nm
        return (d + '/' + nm) if d else nm
    def subprogram(self, fn):
        """(file, line, name) of a function definition"""
        f = self.functions.get(fn)
        if not f or not f.dbg:
            return None
        d, t = self._mdfields(f.dbg)
        return (self.file(d.get('file')), int(d.get('line', '0')), d.get('name', '""').strip('"'))
