"""Reader for textual LLVM IR (LLVM 18, opaque pointers)."""
import re
import struct

TOK = re.compile(r'''
   %"(?:[^"\\]|\\.)*" | %[-\w.$]+ | @"(?:[^"\\]|\\.)*" | @[-\w.$]+
 | c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*"
 | \#\d+ | ![\w.]* | \$[-\w.]+
 | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d*(?:e[+-]?\d+)? | -?\d+
 | \.\.\. | [A-Za-z_][\w.]* | [=,(){}\[\]<>*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


ATTR = set('''noundef nonnull noalias nocapture readonly readnone writeonly zeroext signext inreg returned
immarg nofree nest swiftself swifterror allocptr allocalign noinline nounwind nonlazybind builtin nobuiltin
dead_on_unwind writable initializes inalloca nosync willreturn mustprogress uwtable'''.split())
ATTR_PAREN = set('dereferenceable dereferenceable_or_null sret byval byref preallocated elementtype nofpclass range align allockind memory captures initializes'.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())
CCONV = set('ccc fastcc coldcc tailcc cc'.split())

I1 = ('i', 1)
I8 = ('i', 8)
I32 = ('i', 32)
I64 = ('i', 64)
PTR = ('ptr',)
DBL = ('f', 'double')
FLT = ('f', 'float')
VOID = ('void',)


class ParseError(Exception):
    pass


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise ParseError('expected %r at %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x in ATTR_PAREN:
                if x == 'align' and self.peek(1) != '(':
                    self.next()
                    self.next()
                    continue
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                continue
            if x in ATTR:
                self.next()
                continue
            return

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
            t = ('f', x)
        elif x == 'void':
            t = VOID
        elif x in ('label', 'metadata', 'token'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = ('struct', tuple(self.types_until('}')), True)
                self.expect('>')
            else:
                if self.peek() == 'vscale':
                    raise ParseError('scalable')
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '{':
            t = ('struct', tuple(self.types_until('}')), False)
        elif x[0] == '%':
            t = ('named', x)
        elif x == 'opaque':
            t = ('struct', (), False)
        else:
            raise ParseError('type %r in %r' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))
        # function type
        if self.peek() == '(':
            # only in call position: rettype (args...)
            j = self.i
            d = 0
            while True:
                y = self.t[j]
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if j + 1 < len(self.t) and (self.t[j + 1][0] in '@%'):
                self.i = j + 1
        return t

    def types_until(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.expect(',')


class Module:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}   # name -> (kind, type, init tokens, is_const)
        self.funcs = {}     # name -> Function source
        self.decls = {}
        self.aliases = {}
        self._layout = {}
        self._parse(text)

    def _parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1
                continue
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.funcs['@' + m.group(1)] = FuncSrc('@' + m.group(1), l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.decls['@' + m.group(1)] = l
            elif l[0] == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)', l)
                if m:
                    self.structs[m.group(1)] = m.group(2)
            elif l[0] == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-\w.$]+) = (.*)', l)
                self._global(m.group(1), m.group(2))
            i += 1

    def _global(self, name, rest):
        toks = tokenize(rest)
        words = set('private internal linkonce_odr linkonce weak weak_odr external available_externally common appending extern_weak dso_local dso_preemptable hidden protected default unnamed_addr local_unnamed_addr externally_initialized thread_local'.split())
        i = 0
        ext = False
        while toks[i] in words or toks[i] in ('addrspace',):
            if toks[i] in ('external', 'extern_weak'):
                ext = True
            if toks[i] == 'thread_local' and toks[i + 1] == '(':
                while toks[i] != ')':
                    i += 1
            i += 1
        if toks[i] in ('alias', 'ifunc'):
            p = P(self, toks[i + 1:])
            p.type()
            p.expect(',')
            p.type()
            self.aliases[name] = p.next()
            return
        const = toks[i] == 'constant'
        p = P(self, toks[i + 1:])
        t = p.type()
        self.globals[name] = [t, None if ext else p, const]

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == 'named':
            s = self.structs[t[1]]
            if isinstance(s, str):
                s = P(self, tokenize(s)).type()
                self.structs[t[1]] = s
            t = s
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'i':
            n = t[1]
            b = 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16 * ((n + 127) // 128)
            r = (b, min(b, 16))
        elif k == 'f':
            b = {'double': 8, 'float': 4, 'half': 2, 'x86_fp80': 16, 'fp128': 16}[t[1]]
            r = (b, b)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            b = s * t[1]
            p = 1
            while p < b:
                p *= 2
            r = (p, p)
        elif k == 'struct':
            o, a, _ = self.struct_layout(t)
            r = (o, a)
        elif k == 'named':
            r = self.size_align(self.resolve(t))
        elif k == 'void':
            r = (0, 1)
        else:
            raise ParseError('size of %r' % (t,))
        self._layout[t] = r
        return r

    def sizeof(self, t):
        s, a = self.size_align(t)
        return s

    def struct_layout(self, t):
        key = ('L', t)
        r = self._layout.get(key)
        if r is not None:
            return r
        off = 0
        mx = 1
        offs = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            mx = max(mx, a)
        off = (off + mx - 1) // mx * mx
        r = (off, mx, offs)
        self._layout[key] = r
        return r

    def stride(self, t):
        s, a = self.size_align(t)
        return (s + a - 1) // a * a


class FuncSrc:
    __slots__ = ('name', 'head', 'lines', 'compiled')

    def __init__(self, name, head, lines):
        self.name = name
        self.head = head
        self.lines = lines
        self.compiled = None


def strip_meta(l):
    # remove trailing metadata attachments and comments
    k = l.find(', !')
    if k >= 0:
        l = l[:k]
    return l


def logical_lines(lines):
    """yield ('label', name) / ('ins', text)"""
    out = []
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if not l.strip():
            i += 1
            continue
        if l[0] not in ' \t':
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m:
                out.append(('label', '%' + m.group(1)))
            i += 1
            continue
        s = l.strip()
        if s.startswith(';'):
            i += 1
            continue
        if s.startswith('switch') or re.match(r'^switch ', s):
            while ']' not in s:
                i += 1
                s += ' ' + lines[i].strip()
        elif ' invoke ' in (' ' + s) and ('unwind label' not in s):
            i += 1
            s += ' ' + lines[i].strip()
        elif 'landingpad' in s and re.search(r'= landingpad ', s):
            while i + 1 < n and re.match(r'\s+(catch|cleanup|filter)\b', lines[i + 1]):
                i += 1
                s += ' ' + lines[i].strip()
        out.append(('ins', strip_meta(s)))
        i += 1
    return out


def fp_const(tok, ty):
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            if tok[2] == 'K':
                b = int(tok[3:], 16)
                e = (b >> 64) & 0x7fff
                man = b & ((1 << 64) - 1)
                s = -1 if b >> 79 else 1
                if e == 0x7fff:
                    return s * float('inf') if man == 1 << 63 else float('nan')
                return s * float(man) * 2.0 ** (e - 16383 - 63)
            raise ParseError('fp const ' + tok)
        return struct.unpack('<d', struct.pack('<Q', int(tok, 16)))[0]
    return float(tok)
