"""Parser for the textual LLVM IR that rustc emits (the subset the harnesses reach).

A Module indexes the functions and globals of one or more .ll files; bodies are parsed
lazily, on first execution.
"""
import re, os

TOK = re.compile(r'''\s*(?:
 (?P<cstr>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
|(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
|(?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]*))
|(?P<attr>\#\d+)
|(?P<fspec>[+-](?:inf|qnan|nan|snan)(?:\(0x[0-9A-Fa-f]+\))?)
|(?P<cmt>/\*.*?\*/)
|(?P<num>[su]?0x[HKLMR]?[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+|-?\d+\.\d*(?:e[+-]?\d+)?|-?\d+)
|(?P<ell>\.\.\.)
|(?P<word>[A-Za-z_][\w.$]*)
|(?P<p>[()\[\]{}<>,=*|:^])
|(?P<semi>;.*)
)''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise ParseError('token at: ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'semi':
            break
        if k == 'cmt':
            continue
        out.append((k, m.group(k)))
    return out


# types: ('i',w) ('f',w) ('ptr',) ('void',) ('st',[..]) ('arr',n,t) ('vec',n,t) ('label',) ('meta',)
def tsize(t):
    k = t[0]
    if k == 'i':
        w = t[1]
        return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16 * ((w + 127) // 128)
    if k == 'f':
        return t[1] // 8
    if k == 'ptr':
        return 8
    if k == 'arr':
        return t[1] * tsize(t[2])
    if k == 'vec':
        if t[2] == ('i', 1):
            return (t[1] + 7) // 8
        return t[1] * tsize(t[2])
    if k == 'st':
        o = 0
        for x in t[1]:
            a = 1 if t[2] else talign(x)
            o = (o + a - 1) // a * a + tsize(x)
        a = talign(t)
        return (o + a - 1) // a * a
    raise ParseError('sizeof %r' % (t,))


def talign(t):
    k = t[0]
    if k == 'arr':
        return talign(t[2])
    if k == 'st':
        if t[2]:
            return 1
        return max([talign(x) for x in t[1]] + [1])
    if k == 'vec':
        return tsize(t)
    return min(tsize(t), 16)


def foffsets(t):
    o = 0
    out = []
    for x in t[1]:
        a = 1 if t[2] else talign(x)
        o = (o + a - 1) // a * a
        out.append(o)
        o += tsize(x)
    return out


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, s):
        if self.peek()[1] == s and self.peek()[0] in ('p', 'word', 'ell'):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise ParseError('expected %r at %r' % (s, self.t[self.i:self.i + 8]))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x[0] == 'eof':
                raise ParseError('unbalanced')
            if x[1] == '(':
                d += 1
            elif x[1] == ')':
                d -= 1

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                return ('i', int(v[1:]))
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.skip_paren()
                return ('ptr',)
            if v == 'double':
                return ('f', 64)
            if v == 'float':
                return ('f', 32)
            if v == 'half':
                return ('f', 16)
            if v == 'void':
                return ('void',)
            if v == 'label':
                return ('label',)
            if v == 'metadata':
                return ('meta',)
            raise ParseError('type word ' + v)
        if k == 'p' and v == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            return ('st', tuple(fs), False)
        if k == 'p' and v == '<':
            if self.peek()[1] == '{':
                self.next()
                fs = []
                while not self.accept('}'):
                    fs.append(self.type())
                    self.accept(',')
                self.expect('>')
                return ('st', tuple(fs), True)
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if k == 'p' and v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        if k == 'loc':
            return self.mod.named_type(v)
        raise ParseError('type %r' % v)

    VALW = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'inttoptr', 'getelementptr',
            'ptrtoint', 'bitcast', 'splat', 'sub', 'add', 'ptrtoaddr', 'trunc', 'nan', 'inf', 'pinf', 'ninf', 'qnan'}

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v not in self.VALW:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    self.next()
                elif self.peek()[1] == '(':
                    self.skip_paren()
            elif k == 'attr':
                self.next()
            elif k == 'cstr' and v.startswith('"'):
                self.next()
                if self.peek()[1] == '=':
                    self.next(); self.next()
            else:
                return

    def value(self, ty):
        """operand: ('r',name) register | ('c',const)"""
        k, v = self.next()
        if k == 'loc':
            return ('r', v)
        if k == 'glob':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty[0] == 'i':
                if v.startswith(('s0x', 'u0x')):
                    return ('c', int(v[1:], 16))
                return ('c', int(v))
            if ty[0] == 'f':
                import struct
                if v.startswith('f0x'):
                    return ('fb', int(v[3:], 16))
                if v.startswith('0x'):
                    bits = int(v[2:], 16)
                    d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                else:
                    d = float(v)
                if ty[1] == 64:
                    return ('fb', struct.unpack('<Q', struct.pack('<d', d))[0])
                return ('fb', struct.unpack('<I', struct.pack('<f', d))[0])
            raise ParseError('num for %r' % (ty,))
        if k == 'fspec':
            w = ty[1]
            eb, mb = (11, 52) if w == 64 else (8, 23) if w == 32 else (5, 10)
            bits = ((1 << eb) - 1) << mb
            if 'nan' in v:
                bits |= 1 << (mb - 1)
            if v[0] == '-':
                bits |= 1 << (w - 1)
            return ('fb', bits)
        if k == 'word':
            if v == 'true':
                return ('c', True)
            if v == 'false':
                return ('c', False)
            if v == 'null' or v == 'none':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v == 'splat':
                self.expect('(')
                et = self.type()
                e = self.value(et)
                self.expect(')')
                return ('agg', [(et, e)] * ty[1])
            if v == 'inttoptr':
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                self.type()
                self.expect(')')
                return ('i2p', t, x)
            if v in ('ptrtoint', 'ptrtoaddr'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('p2i', x, t2)
            if v == 'getelementptr':
                while self.peek()[0] == 'word':
                    self.next()
                    if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                        self.skip_paren()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.type()
                base = self.value(('ptr',))
                idx = []
                while self.accept(','):
                    self.accept('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gepc', bt, base, idx)
            raise ParseError('const ' + v)
        if k == 'p' and v in '{[<':
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
            el = []
            close = {'{': '}', '[': ']', '<': '>'}[v] if not packed else '}'
            while not self.accept(close):
                t = self.type()
                el.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        if k == 'cstr' and v.startswith('c'):
            return ('bytes', unescape(v[2:-1]))
        if k == 'meta':
            return ('meta', v)
        raise ParseError('value %r' % v)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode(); i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'ret', 'lines', 'mod', 'parsed', 'header', 'demangled', 'dbg')


class Module:
    def __init__(self):
        self.funcs = {}
        self.decls = {}      # name -> header line
        self.globals = {}    # name -> line
        self.attrs = {}      # '#N' per file: (file,'#N') -> text
        self.types = {}
        self.alias = {}
        self.dbg = {}        # fid -> {id: metadata text}
        self._sp = {}

    def named_type(self, v):
        t = self.types.get(v)
        if t is None:
            raise ParseError('named type ' + v)
        if isinstance(t, str):
            t = P(tokenize(t), self).type()
            self.types[v] = t
        return t

    def load(self, path):
        fid = os.path.basename(path)
        cur = None
        last_comment = ''
        with open(path) as f:
            text = f.read()
        # internal symbols are local to their module: rename the ones whose name is already taken
        taken = {}
        for m in re.finditer(r'^(?:define (?:\w+ )*?(?:internal|private) [^@\n]*@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(|'
                             r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (?:internal|private) )', text, re.M):
            n = (m.group(1) or m.group(2)).strip('"')
            if n in self.funcs or n in self.globals:
                taken[n] = n + '$' + fid
        if taken:
            text = re.sub(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)',
                          lambda m: '@"%s"' % taken[m.group(1).strip('"')] if m.group(1).strip('"') in taken
                          else m.group(0), text)
        if True:
            for line in text.split('\n'):
                if cur is not None:
                    if line == '}':
                        self.funcs.setdefault(cur.name, cur)
                        cur = None
                    else:
                        cur.lines.append(line)
                    continue
                if not line:
                    continue
                c = line[0]
                if c == ';':
                    last_comment = line[2:]
                elif line.startswith('define '):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', line)
                    fn = Func()
                    fn.name = m.group(1).strip('"')
                    fn.header = line
                    fn.lines = []
                    fn.mod = fid
                    fn.parsed = False
                    fn.demangled = ''
                    cur = fn
                elif line.startswith('declare '):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', line)
                    self.decls.setdefault(m.group(1).strip('"'), (fid, line))
                elif c == '@':
                    m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)', line)
                    nm = m.group(1).strip('"')
                    a = re.search(r' alias .*, ptr @("(?:[^"\\]|\\.)*"|[-\w$.]+)\s*$', ' ' + m.group(2))
                    if a:
                        self.alias[nm] = a.group(1).strip('"')
                        continue
                    if nm not in self.globals or ' external ' in ' ' + self.globals[nm][1]:
                        self.globals[nm] = (fid, m.group(2))
                elif line.startswith('attributes #'):
                    m = re.match(r'attributes (#\d+) = \{(.*)\}', line)
                    self.attrs[(fid, m.group(1))] = m.group(2)
                elif c == '!':
                    if '!DISubprogram(' in line or '!DILocation(' in line or '!DIFile(' in line \
                            or '!DILexicalBlock' in line:
                        k = line.find(' = ')
                        self.dbg.setdefault(fid, {})[line[1:k]] = line[k + 3:]
                elif c == '%':
                    m = re.match(r'(%\S+) = type (.*)', line)
                    if m:
                        self.types[m.group(1)] = m.group(2)
        for a, t in self.alias.items():
            if t in self.funcs:
                self.funcs.setdefault(a, self.funcs[t])

    def is_noreturn(self, name, fid, calltail):
        if 'noreturn' in calltail:
            return True
        for a in re.findall(r'#\d+', calltail):
            if re.search(r'\bnoreturn\b', self.attrs.get((fid, a), '')):
                return True
        d = self.decls.get(name)
        if d:
            if 'noreturn' in d[1]:
                return True
            for a in re.findall(r'#\d+', d[1]):
                if re.search(r'\bnoreturn\b', self.attrs.get((d[0], a), '')):
                    return True
        return False

    def parse(self, fn):
        if fn.parsed:
            return fn
        h = fn.header
        # parameter list: locate the '(' that follows the function name
        pos = h.index('@')
        m = re.compile(r'@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)\(').match(h, pos)
        d = 1
        j = m.end()
        while d:
            if h[j] == '(':
                d += 1
            elif h[j] == ')':
                d -= 1
            j += 1
        p = P(tokenize(h[m.end():j - 1]), self)
        params = []
        auto = 0
        while p.peek()[0] != 'eof':
            if p.accept('...'):
                break
            t = p.type()
            p.skip_attrs()
            if p.peek()[0] == 'loc':
                params.append((t, p.next()[1]))
            else:
                params.append((t, '%%%d' % auto))
            auto += 1
            p.accept(',')
        fn.params = params
        blocks = {}
        fn.dbg = []
        order = []
        label = None
        cur = None
        joined = []
        # join multi-line (switch) instructions
        buf = None
        for ln in fn.lines:
            s = ln.strip()
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    joined.append('  ' + buf)
                    buf = None
                continue
            if s.startswith('switch ') and not s.endswith(']') and '[' in s:
                if s.count('[') > s.count(']'):
                    buf = s
                    continue
            joined.append(ln)
        for ln in joined:
            if not ln.strip():
                continue
            if ln.lstrip().startswith((';', '#dbg_')):
                continue
            if ln[0] not in ' \t':
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
                if m:
                    label = '%' + m.group(1)
                    if m.group(1).startswith('"'):
                        label = '%' + m.group(1)
                    cur = []
                    blocks[label] = cur
                    order.append(label)
                    continue
            if cur is None:
                # unnamed entry block
                label = '%%%d' % len(params)
                cur = []
                blocks[label] = cur
                order.append(label)
            ins = self.instr(ln.strip(), fn)
            if ins is not None:
                cur.append(ins)
                m = re.search(r', !dbg !(\d+)', ln)
                fn.dbg.append((label, len(cur) - 1, int(m.group(1)) if m else None))
        fn.blocks = blocks
        fn.entry = order[0]
        fn.parsed = True
        return fn

    def instr(self, s, fn):
        try:
            return self.instr_(s, fn)
        except ParseError as e:
            return ('unsupported', None, str(e) + ' in ' + s[:200])
        except (ValueError, IndexError) as e:
            return ('unsupported', None, repr(e) + ' in ' + s[:200])

    def instr_(self, s, fn):
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
            dst = p.next()[1]
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        if op == 'call':
            return self.call(p, dst, fn, s)
        if op == 'invoke':
            c = self.call(p, dst, fn, s)
            m = re.search(r'to label (%(?:"[^"]*"|[-\w$.]+)) unwind label (%(?:"[^"]*"|[-\w$.]+))', s)
            return ('invoke', dst, c, m.group(1), m.group(2))
        if op == 'ret':
            t = p.type()
            if t == ('void',):
                return ('ret', None, None, t)
            return ('ret', None, p.value(t), t)
        if op == 'br':
            t = p.type()
            if t == ('label',):
                return ('br', None, p.next()[1])
            c = p.value(t)
            p.expect(','); p.type(); a = p.next()[1]
            p.expect(','); p.type(); b = p.next()[1]
            return ('condbr', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(','); p.type(); d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(','); p.type()
                cases.append((cv[1], p.next()[1]))
            return ('switch', None, v, t, d, cases)
        if op == 'unreachable':
            return ('unreachable', None)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b, fl)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('fbin', dst, op, t, a, b)
        if op == 'fneg':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op == 'icmp':
            while p.peek()[1] == 'samesign':
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('icmp', dst, pred, t, a, b)
        if op == 'fcmp':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('fcmp', dst, pred, t, a, b)
        if op == 'phi':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            t = p.type()
            inc = {}
            while p.accept('['):
                v = p.value(t)
                p.expect(',')
                inc[p.next()[1]] = v
                p.expect(']')
                p.accept(',')
            return ('phi', dst, t, inc)
        if op == 'select':
            while p.peek()[1] in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                p.next()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return ('select', dst, ct, c, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'ptrtoaddr', 'inttoptr', 'uitofp', 'sitofp', 'fptoui', 'fptosi',
                  'fpext', 'fptrunc'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
                                  'reassoc'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        if op == 'alloca':
            t = p.type()
            n = None
            if p.accept(','):
                if p.peek()[1] != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            p.type()
            a = p.value(('ptr',))
            return ('load', dst, t, a)
        if op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            a = p.value(('ptr',))
            return ('store', None, t, v, a)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            if p.peek()[1] == 'inrange':
                p.next(); p.skip_paren()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                it = p.type()
                idx.append((it, p.value(it)))
            if pt[0] == 'vec':
                raise ParseError('vector gep')
            return ('gep', dst, bt, base, idx)
        if op in ('extractvalue', 'insertvalue'):
            t = p.type()
            a = p.value(t)
            p.expect(',')
            v = None
            if op == 'insertvalue':
                vt = p.type()
                v = p.value(vt)
                p.expect(',')
            ix = []
            while p.peek()[0] == 'num':
                ix.append(int(p.next()[1]))
                if not p.accept(','):
                    break
            return (op, dst, t, a, v, ix)
        if op == 'extractelement':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', dst, t, a, p.value(it))
        if op == 'insertelement':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return ('insertelement', dst, t, a, e, p.value(it))
        if op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            p.expect(',')
            mt = p.type()
            m = p.value(mt)
            return ('shufflevector', dst, t, a, b, mt, m)
        if op in ('landingpad', 'resume', 'cleanup'):
            return ('landingpad', dst)
        if op == 'fence':
            return None
        raise ParseError('instruction ' + op)

    def call(self, p, dst, fn, s):
        # calling convention / return attributes
        while True:
            k, v = p.peek()
            if k == 'word' and not re.fullmatch(r'i\d+|ptr|double|float|half|void|label', v):
                p.next()
                if p.peek()[1] == '(':
                    p.skip_paren()
                elif p.peek()[0] == 'num':
                    p.next()
            elif k == 'attr':
                p.next()
            else:
                break
        rt = p.type()
        if p.peek()[1] == '(':
            p.skip_paren()  # function type
        k, v = p.next()
        if k == 'glob':
            callee = ('g', v[1:].strip('"'))
        elif k == 'loc':
            callee = ('r', v)
        elif k == 'word' and v == 'asm':
            return ('unsupported', dst, 'inline asm')
        else:
            raise ParseError('callee ' + v)
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            byval = None
            p.skip_attrs()
            if t == ('meta',):
                depth = 0
                while not (depth == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    if x == '(':
                        depth += 1
                    if x == ')':
                        depth -= 1
                args.append((t, ('undef',)))
            else:
                args.append((t, p.value(t)))
            p.accept(',')
        tail = ' '.join(x[1] for x in p.t[p.i:] if x[0] in ('attr', 'word'))
        nr = callee[0] == 'g' and self.is_noreturn(callee[1], fn.mod, tail)
        return ('call', dst, rt, callee, args, nr, s)

    def global_init(self, name):
        """-> (type, value or None, is_const)"""
        fid, txt = self.globals[name]
        p = P(tokenize(txt), self)
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if k == 'word' and v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if k == 'eof':
                return None
            if v == 'external':
                ext = True
            if v == 'alias':
                raise ParseError('alias')
            p.next()
            if p.peek()[1] == '(':
                p.skip_paren()
        t = p.type()
        if ext:
            return t, None, const
        return t, p.value(t), const

    def subprograms(self, fn):
        """library functions (name, file, line) whose code was inlined into or is fn"""
        key = (fn.mod, fn.name)
        r = self._sp.get(key)
        if r is not None:
            return r
        md = self.dbg.get(fn.mod, {})
        out = set()
        seen = set()

        def scope(i):
            while i is not None:
                t = md.get(i)
                if t is None:
                    return
                if '!DISubprogram(' in t:
                    f = re.search(r'file: !(\d+)', t)
                    ft = md.get(f.group(1), '') if f else ''
                    fm = re.search(r'filename: "([^"]*)"', ft)
                    dm = re.search(r'directory: "([^"]*)"', ft)
                    path = (fm.group(1) if fm else '')
                    if dm and not path.startswith('/'):
                        path = dm.group(1) + '/' + path
                    if path.startswith('/repo/src/'):
                        n = re.search(r'[( ]name: "([^"]*)"', t)
                        ln = re.search(r', line: (\d+)', t)
                        out.add((n.group(1) if n else '?', path[6:], ln.group(1) if ln else '?'))
                    return
                s = re.search(r'scope: !(\d+)', t)
                i = s.group(1) if s else None
        ids = {str(d[2]) for d in fn.dbg if d[2] is not None}
        m = re.search(r'!dbg !(\d+)', fn.header)
        if m:
            scope(m.group(1))
        work = list(ids)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            t = md.get(i)
            if t is None:
                continue
            s = re.search(r'scope: !(\d+)', t)
            if s:
                scope(s.group(1))
            a = re.search(r'inlinedAt: !(\d+)', t)
            if a:
                work.append(a.group(1))
        self._sp[key] = out
        return out
