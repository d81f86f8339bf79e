"""Textual LLVM-18 IR reader: modules, lazily parsed functions, types/layout, debug info."""
import re, os, subprocess, sys

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\.)*")|
 (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))|
 (?P<meta>![-a-zA-Z$._0-9]*)|
 (?P<attr>\#\d+)|
 (?P<num>-?(?:0x[0-9A-Fa-fKLMHR]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))|
 (?P<qs>"(?:[^"\\]|\\.)*")|
 (?P<w>[a-zA-Z_$][-a-zA-Z$._0-9]*)|
 (?P<dots>\.\.\.)|
 (?P<p><\{|\}>|[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    m = TOK.match
    while i < n:
        r = m(s, i)
        if not r:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('tok: ' + s[i:i + 80])
        out.append((r.lastgroup, r.group(r.lastgroup)))
        i = r.end()
    return out


I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR = ('p',)
VOID = ('void',)

PARAM_ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'noalias', 'nocapture', 'readonly',
               'readnone', 'writeonly', 'returned', 'inreg', 'immarg', 'nest', 'swiftself',
               'nofree', 'allocptr', 'allocalign', 'noundef', 'dead_on_unwind', 'writable'}
PARAM_ATTRS_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'elementtype',
                 'byref', 'inalloca', 'preallocated', 'memory', 'range', 'initializes'}


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def pv(self):
        return self.peek()[1]

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ValueError('expected %s got %s in %s' % (v, self.peek(), self.t[max(0, self.i - 8):self.i + 8]))

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'w':
            if v == 'ptr':
                t = PTR
                if self.pv() == 'addrspace':
                    self.next(); self.expect('('); self.next(); self.expect(')')
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = ('f', 32)
            elif v == 'double':
                t = ('f', 64)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'label':
                t = ('label',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            else:
                raise ValueError('type? ' + v)
        elif k == 'id':
            t = ('n', v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '{':
            t = ('s', tuple(self.tlist('}')), False)
        elif v == '<{':
            t = ('s', tuple(self.tlist('}>')), True)
        elif v == '<':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('v', n, e)
        else:
            raise ValueError('type? %s %s' % (v, self.t[self.i - 3:self.i + 6]))
        while self.pv() == '(':   # function type
            self.next()
            args = []
            while not self.accept(')'):
                if self.peek()[0] == 'dots':
                    self.next(); args.append('...')
                else:
                    args.append(self.type())
                self.accept(',')
            t = ('fn', t, tuple(args))
        return t

    def tlist(self, end):
        out = []
        while not self.accept(end):
            out.append(self.type())
            self.accept(',')
        return out

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'w' and v in PARAM_ATTRS:
                self.next()
            elif k == 'w' and v in PARAM_ATTRS_P:
                self.next()
                if v == 'align' and self.pv() != '(':
                    self.next()
                elif self.accept('('):
                    d = 1
                    while d:
                        w = self.next()[1]
                        if w == '(':
                            d += 1
                        elif w == ')':
                            d -= 1
            elif k == 'attr' or k == 'qs':
                self.next()
            else:
                return

    # ---- values   operand = (kind, ...)
    def value(self, ty):
        k, v = self.next()
        if k == 'id':
            return ('l', v[1:]) if v[0] == '%' else ('g', v[1:].strip('"'))
        if k == 'num':
            if ty[0] == 'f':
                return ('fc', v)
            return ('c', int(v))
        if k == 'str':
            return ('str', v[2:-1])
        if k == 'w':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('c', 0)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('c', 0)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'getelementptr':
                while self.pv() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                self.expect('(')
                t = self.type()
                self.expect(',')
                ops = []
                while True:
                    if self.pv() == 'inrange':
                        self.next()
                    ot = self.type()
                    ops.append((ot, self.value(ot)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('gep', t, tuple(ops))
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'icmp'):
                pred = None
                if v == 'icmp':
                    pred = self.next()[1]
                while self.pv() in ('nsw', 'nuw'):
                    self.next()
                self.expect('(')
                t = self.type(); a = self.value(t)
                self.expect(',')
                t = self.type(); b = self.value(t)
                self.expect(')')
                return ('cbin', v, t, a, b, pred)
            if v == 'asm':
                while self.peek()[0] == 'w':
                    self.next()
                a = self.next(); self.expect(','); b = self.next()
                return ('asm', a[1], b[1])
        if v in ('{', '[', '<{', '<'):
            end = {'{': '}', '[': ']', '<{': '}>', '<': '>'}[v]
            out = []
            while not self.accept(end):
                t = self.type()
                out.append((t, self.value(t)))
                self.accept(',')
            return ('agg', tuple(out))
        raise ValueError('value? %s %s' % (v, self.t[max(0, self.i - 5):self.i + 5]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'md')

    def __init__(self, op, res, ty, a, dbg):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.dbg = dbg; self.md = None

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ty, self.a)


class Block:
    __slots__ = ('name', 'ins', 'succs', 'preds', 'idx')

    def __init__(self, name):
        self.name = name; self.ins = []; self.succs = []; self.preds = []


DEF = re.compile(r'^define (?P<pre>.*?)@(?P<name>"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(')
DBG = re.compile(r', !dbg !(\d+)')
TYPEMD = re.compile(r'metadata (!\d+|!"[^"]*")')

BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast',
        'ptrtoint', 'inttoptr', 'addrspacecast'}
FLAGW = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint',
         'nneg', 'volatile', 'atomic', 'inbounds', 'tail', 'musttail', 'notail', 'weak'}


class Function:
    def __init__(self, mod, name, header, lines, sig_text):
        self.mod = mod
        self.name = name
        self.header = header
        self.lines = lines
        self._parsed = False
        self.internal = ' internal ' in (' ' + header.split('@')[0] + ' ')
        m = re.search(r'!dbg !(\d+)', header)
        self.sp = int(m.group(1)) if m else None
        self._dem = None

    @property
    def dem(self):
        return self.mod.prog.demangle(self.name)

    def src(self):
        """(file, line) of the definition"""
        if self.sp is None:
            return (None, 0)
        d = self.mod.md(self.sp)
        return (self.mod.mdfile(d.get('file')), int(d.get('line', 0)))

    def loc(self):
        f, l = self.src()
        repo = self.mod.prog.repo
        if f and f.startswith(repo):
            f = f[len(repo):].lstrip('/')
        return '%s:%d' % (f, l)

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        m = DEF.match(h)
        p = P(tokenize(h[m.end() - 1:h.rindex('{')].split(' !dbg')[0].split(' personality')[0]))
        # return type: last type token(s) before @
        pre = m.group('pre')
        self.rettype = self._ret(pre)
        p.expect('(')
        self.params = []
        while not p.accept(')'):
            if p.peek()[0] == 'dots':
                p.next(); continue
            t = p.type()
            p.skip_attrs()
            if p.peek()[0] == 'id':
                nm = p.next()[1][1:]
            else:
                nm = str(len(self.params))
            self.params.append((t, nm))
            p.accept(',')
        self.blocks = {}
        cur = None
        order = []
        i = 0
        L = self.lines
        n = len(L)
        # unnamed entry label number
        while i < n:
            s = L[i]
            i += 1
            if not s or s[0] == ';':
                continue
            if s[0] != ' ':
                # label
                lab = s.split(':')[0] if s[0] != '"' else s[1:s.index('"', 1)]
                mm = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
                lab = mm.group(1)
                cur = Block(lab)
                self.blocks[lab] = cur
                order.append(cur)
                continue
            if cur is None:
                lab = str(len(self.params))
                cur = Block(lab)
                self.blocks[lab] = cur
                order.append(cur)
            # join multi-line switch / invoke / landingpad
            st = s.strip()
            if st.startswith('switch ') or ' = switch' in st:
                while not (L[i - 1].strip().startswith(']') or (']' in L[i - 1] and '[' in L[i - 1] and L[i - 1].rstrip().endswith(']')) ):
                    st += ' ' + L[i].strip()
                    i += 1
                    if st.rstrip().split(', !dbg')[0].rstrip().endswith(']'):
                        break
            elif 'invoke ' in st:
                while ' unwind label ' not in st and not st.strip().startswith('unwind'):
                    st += ' ' + L[i].strip()
                    i += 1
            elif ' landingpad ' in st:
                while i < n and re.match(r'\s+(catch|filter|cleanup)', L[i]):
                    st += ' ' + L[i].strip()
                    i += 1
            if '@llvm.dbg.' in st or '@llvm.experimental.noalias' in st:
                continue
            ins = self.parse_ins(st)
            if ins is not None:
                cur.ins.append(ins)
        for j, b in enumerate(order):
            b.idx = j
        self.order = order
        self.entry = order[0]
        for b in order:
            t = b.ins[-1]
            if t.op == 'br':
                b.succs = list(dict.fromkeys(t.a[1:]))
            elif t.op == 'switch':
                b.succs = list(dict.fromkeys([t.a[1]] + [x[1] for x in t.a[2]]))
            elif t.op == 'invoke':
                b.succs = [t.a[2], t.a[3]]
            else:
                b.succs = []
        for b in order:
            for s in b.succs:
                self.blocks[s].preds.append(b.name)
        return self

    def _ret(self, pre):
        p = P(tokenize(pre))
        skip = {'hidden', 'internal', 'linkonce_odr', 'weak_odr', 'dso_local', 'private', 'external', 'protected',
                'unnamed_addr', 'local_unnamed_addr', 'available_externally', 'weak', 'linkonce', 'fastcc', 'cold'}
        while p.i < len(p.t):
            k, v = p.peek()
            if k == 'w' and v in skip:
                p.next()
                continue
            j = p.i
            p.skip_attrs()
            if p.i == j:
                break
        return p.type()

    def parse_ins(self, st):
        dm = DBG.search(st)
        dbg = int(dm.group(1)) if dm else None
        core = st
        k = core.find(', !')
        # strip trailing metadata (never inside string constants at instruction level except call args metadata)
        if dm:
            # metadata may precede/follow; strip from the first ', !name !N' occurrence
            mm = re.search(r', !(?:dbg|tbaa|srcloc|prof|range|nonnull|noundef|heapallocsite|llvm\.[a-z.]+|callees|nosanitize|invariant\.[a-z.]+|align|unpredictable|dereferenceable)', core)
            core = core[:mm.start()] if mm and ' unwind label' not in core[mm.start():] and not core[mm.start():].rstrip().endswith(']') else DBG.sub('', core)
        else:
            mm = re.search(r', !(?:tbaa|srcloc|prof|range|nonnull|noundef|heapallocsite|llvm\.[a-z.]+|callees|nosanitize|invariant\.[a-z.]+|align)', core)
            if mm and ' unwind label' not in core[mm.start():]:
                core = core[:mm.start()]
        core = re.sub(r', !(?:heapallocsite|nosanitize|prof|srcloc|unpredictable) !\d+', '', core)
        p = P(tokenize(core))
        res = None
        if p.peek()[0] == 'id' and p.peek(1)[1] == '=':
            res = p.next()[1][1:]
            p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]

        def flags():
            while p.peek()[0] == 'w' and p.pv() in FLAGW:
                p.next()
        if op in BIN:
            flags()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Ins(op, res, t, (a, b), dbg)
        if op in CAST:
            flags()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            t2 = p.type()
            return Ins(op, res, t2, (t, a), dbg)
        if op in ('icmp', 'fcmp'):
            flags()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return Ins(op, res, t, (pred, a, b), dbg)
        if op == 'fneg':
            flags()
            t = p.type()
            return Ins(op, res, t, (p.value(t),), dbg)
        if op == 'freeze':
            t = p.type()
            return Ins(op, res, t, (p.value(t),), dbg)
        if op == 'alloca':
            t = p.type()
            n = ('c', 1)
            if p.accept(','):
                if p.pv() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return Ins(op, res, t, (n,), dbg)
        if op == 'load':
            flags()
            t = p.type()
            p.expect(',')
            pt = p.type()
            return Ins(op, res, t, (p.value(pt),), dbg)
        if op == 'store':
            flags()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return Ins(op, None, t, (v, p.value(pt)), dbg)
        if op == 'getelementptr':
            flags()
            t = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return Ins(op, res, t, (base, tuple(idx)), dbg)
        if op in ('call', 'invoke'):
            while p.peek()[0] == 'w' and (p.pv() in FLAGW or p.pv() in ('fastcc', 'ccc', 'coldcc')):
                p.next()
            p.skip_attrs()
            rt = p.type()
            if rt[0] == 'fn':
                rt = rt[1]
            cal = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                if t[0] == 'meta':
                    # metadata operand
                    mk = p.next()
                    md = mk[1]
                    if mk[1] == '!' and p.peek()[0] == 'qs':
                        md = '!' + p.next()[1]
                    elif p.pv() == '(' or p.pv() == '{':
                        d = 0
                        while True:
                            w = p.next()[1]
                            if w in '({':
                                d += 1
                            elif w in ')}':
                                d -= 1
                                if d == 0:
                                    break
                    args.append((t, ('md', md)))
                else:
                    p.skip_attrs()
                    args.append((t, p.value(t)))
                p.accept(',')
            p.skip_attrs()
            while p.peek()[0] in ('attr',) or (p.peek()[0] == 'w' and p.pv() not in ('to',)):
                p.next()
            if op == 'call':
                return Ins('call', res, rt, (cal, tuple(args)), dbg)
            p.expect('to')
            p.expect('label')
            nb = p.next()[1][1:]
            p.expect('unwind')
            p.expect('label')
            ub = p.next()[1][1:]
            return Ins('invoke', res, rt, (cal, tuple(args), nb, ub), dbg)
        if op == 'br':
            if p.pv() == 'label':
                p.next()
                return Ins('br', None, VOID, (None, p.next()[1][1:]), dbg)
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()[1][1:]
            p.expect(',')
            p.expect('label')
            b = p.next()[1][1:]
            return Ins('br', None, VOID, (c, a, b), dbg)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()[1][1:]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()[1][1:]))
            return Ins('switch', None, t, (v, d, tuple(cases)), dbg)
        if op == 'ret':
            t = p.type()
            if t == VOID:
                return Ins('ret', None, VOID, (None,), dbg)
            return Ins('ret', None, t, (p.value(t),), dbg)
        if op == 'phi':
            flags()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                b = p.next()[1][1:]
                p.expect(']')
                inc.append((v, b))
                if not p.accept(','):
                    break
            return Ins('phi', res, t, tuple(inc), dbg)
        if op == 'select':
            flags()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            b = p.value(t2)
            return Ins('select', res, t, (c, a, b), dbg)
        if op == 'unreachable':
            return Ins('unreachable', None, VOID, (), dbg)
        if op == 'resume':
            t = p.type()
            return Ins('resume', None, VOID, (p.value(t),), dbg)
        if op == 'landingpad':
            t = p.type()
            cl = []
            cleanup = False
            while p.i < len(p.t):
                w = p.next()[1]
                if w == 'cleanup':
                    cleanup = True
                elif w in ('catch', 'filter'):
                    ct = p.type()
                    cl.append((w, p.value(ct)))
            return Ins('landingpad', res, t, (cleanup, tuple(cl)), dbg)
        if op in ('extractvalue',):
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Ins(op, res, t, (v, tuple(idx)), dbg)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            return Ins(op, res, t, (v, v2, tuple(idx)), dbg)
        if op in ('fence',):
            return None
        return Ins('other:' + op, res, VOID, (), dbg)


MDLINE = re.compile(r'^!(\d+) = (?:distinct )?(.*)$')
MDKV = re.compile(r'(\w+): ((?:"(?:[^"\\]|\\.)*")|(?:![-\w.]*(?:\([^()]*\))?)|[^,()]+)')


class Module:
    def __init__(self, prog, path):
        self.prog = prog
        self.path = path
        self.fns = {}
        self.decls = set()
        self.types = {}
        self.globals = {}
        self.mdraw = {}
        self._md = {}
        self._sz = {}
        with open(path) as f:
            text = f.read()
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define '):
                m = DEF.match(s)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                name = m.group('name').strip('"')
                self.fns[name] = Function(self, name, s, lines[i + 1:j], None)
                i = j + 1
                continue
            if s.startswith('%') and ' = type ' in s:
                nm, d = s.split(' = type ', 1)
                self.types[nm] = d
            elif s.startswith('@') and ' = ' in s:
                nm, d = s.split(' = ', 1)
                self.globals[nm[1:].strip('"')] = d
            elif s.startswith('!') and s[1:2].isdigit():
                k = s.index(' ')
                self.mdraw[int(s[1:k])] = s[k + 3:]
            i += 1
        self._tp = {}
        self._gl = {}

    # ---- debug metadata
    def md(self, n):
        if n is None:
            return {}
        if isinstance(n, str):
            if not n.startswith('!') or not n[1:].isdigit():
                return {}
            n = int(n[1:])
        r = self._md.get(n)
        if r is None:
            raw = self.mdraw[n]
            if raw.startswith('distinct '):
                raw = raw[9:]
            if raw.startswith('!{'):
                r = {'_': 'list', 'items': [x.strip() for x in raw[2:-1].split(', ')] if raw != '!{}' else []}
            elif raw.startswith('!DI'):
                k = raw.index('(')
                r = {'_': raw[1:k]}
                body = raw[k + 1:-1]
                for mm in MDKV.finditer(body):
                    v = mm.group(2)
                    r[mm.group(1)] = v[1:-1] if v.startswith('"') else v
            else:
                r = {'_': '?', 'raw': raw}
            self._md[n] = r
        return r

    def mdfile(self, ref):
        d = self.md(ref)
        fn = d.get('filename')
        if fn is None:
            return None
        if not fn.startswith('/'):
            fn = os.path.join(d.get('directory', ''), fn)
        return os.path.normpath(fn)

    def loc(self, dbg):
        """'file:line' of an instruction location (inlinedAt ignored at -O0)"""
        if dbg is None:
            return '?'
        d = self.md(dbg)
        line = d.get('line', '0')
        sc = self.md(d.get('scope'))
        f = None
        while sc:
            f = self.mdfile(sc.get('file'))
            if f:
                break
            sc = self.md(sc.get('scope'))
        return '%s:%s' % (f or '?', line)

    # ---- types
    def tdef(self, nm):
        r = self._tp.get(nm)
        if r is None:
            d = self.types.get(nm)
            if d is None:
                for m in self.prog.mods:
                    if nm in m.types and m.types[nm] != 'opaque':
                        return m.tdef(nm)
                raise KeyError(nm)
            if d == 'opaque':
                for m in self.prog.mods:
                    if m is not self and m.types.get(nm, 'opaque') != 'opaque':
                        return m.tdef(nm)
                r = ('s', (), False)
            else:
                r = P(tokenize(d)).type()
            self._tp[nm] = r
        return r

    def size(self, t):
        return self.layout(t)[0]

    def layout(self, t):
        r = self._sz.get(t)
        if r is not None:
            return r
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n and a < 16:
                a *= 2
            r = ((n + a - 1) // a * a, a, None)
        elif k == 'p':
            r = (8, 8, None)
        elif k == 'f':
            r = {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None)}[t[1]]
        elif k == 'a':
            s, a, _ = self.layout(t[2])
            r = (s * t[1], a, s)
        elif k == 'v':
            s, a, _ = self.layout(t[2])
            r = (s * t[1], s * t[1], s)
        elif k == 'n':
            r = self.layout(self.tdef(t[1]))
        elif k == 's':
            off = 0
            al = 1
            offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        elif k in ('opaque', 'fn', 'void'):
            r = (1, 1, None)
        else:
            raise ValueError('layout %s' % (t,))
        self._sz[t] = r
        return r

    def resolve(self, t):
        while t[0] == 'n':
            t = self.tdef(t[1])
        return t

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] == 's':
            return self.layout(t)[2][i], t[1][i]
        if t[0] in ('a', 'v'):
            return self.size(t[2]) * i, t[2]
        raise ValueError('field_off %s' % (t,))

    # ---- globals
    def glob(self, name):
        """(is_const, type, init operand|None)"""
        r = self._gl.get(name)
        if r is None:
            d = self.globals.get(name)
            if d is None:
                return None
            isx = False
            body = re.sub(r', comdat.*$', '', d)
            body = re.sub(r', (align \d+|!\w+ !\d+|section "[^"]*")', '', body)
            p = P(tokenize(body))
            const = False
            while True:
                k, v = p.next()
                if v == 'constant':
                    const = True
                    break
                if v == 'global':
                    break
                if v == 'alias':
                    break
                if v == 'external':
                    isx = True
                if v == 'thread_local' and p.pv() == '(':
                    while p.next()[1] != ')':
                        pass
            t = p.type()
            init = None
            if p.i < len(p.t) and p.pv() != ',':
                init = p.value(t)
            r = (const, t, init)
            self._gl[name] = r
        return r


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf8')
            i += 1
    return bytes(out)


class Program:
    def __init__(self, paths, repo):
        self.repo = repo.rstrip('/')
        self.mods = []
        self._dem = {}
        for p in paths:
            self.mods.append(Module(self, p))
        self.fns = {}
        for m in self.mods:
            for n, f in m.fns.items():
                if not f.internal and n not in self.fns:
                    self.fns[n] = f
        self.alias = {}
        for m in self.mods:
            for n, d in m.globals.items():
                if ' alias ' in ' ' + d:
                    t = re.search(r'@"?([\w.$]+)"?\s*$', d)
                    if t:
                        self.alias.setdefault(n, t.group(1))
        self._demangle_all()
        self.by_dem = {}
        for m in self.mods:
            for n, f in m.fns.items():
                if f.internal or self.fns.get(n) is f:
                    self.by_dem.setdefault(self._dem[n], []).append(f)
        self._classes = None

    def _demangle_all(self):
        names = set()
        for m in self.mods:
            names.update(m.fns)
            names.update(m.globals)
            for f in m.fns.values():
                pass
        names = sorted(names)
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
        for a, b in zip(names, p.stdout.split('\n')):
            self._dem[a] = b

    def demangle(self, n):
        r = self._dem.get(n)
        if r is None:
            p = subprocess.run(['llvm-cxxfilt-18'], input=n, capture_output=True, text=True)
            r = self._dem[n] = p.stdout.strip()
        return r

    def demangle_many(self, names):
        names = [n for n in names if n not in self._dem]
        if names:
            p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
            for a, b in zip(names, p.stdout.split('\n')):
                self._dem[a] = b

    def lookup(self, mod, name):
        """resolve a callee symbol seen in `mod`"""
        f = mod.fns.get(name)
        if f is not None and f.internal:
            return f
        return self.fns.get(name) or f or self.fns.get(self.alias.get(name))

    def in_repo(self, f):
        file, _ = f.src()
        return bool(file and file.startswith(self.repo + '/source/'))

    def find(self, dem):
        """functions by exact demangled name, or by the name without parameters"""
        r = self.by_dem.get(dem)
        if r:
            return r
        out = []
        for d, l in self.by_dem.items():
            if base_name(d) == dem:
                out.extend(l)
        return out

    # ---- debug-info classes
    def classes(self):
        if self._classes is None:
            C = {}
            E = {}
            for m in self.mods:
                for n, raw in m.mdraw.items():
                    if 'DICompositeType(' not in raw[:30]:
                        continue
                    if 'DW_TAG_enumeration_type' in raw:
                        d = m.md(n)
                        if 'name' not in d:
                            continue
                        q = self.qual(m, d)
                        if q in E:
                            continue
                        vals = {}
                        for it in m.md(d.get('elements')).get('items', []):
                            e = m.md(it)
                            if e.get('_') == 'DIEnumerator':
                                vals[e['name']] = int(e['value'])
                        if vals:
                            E[q] = vals
                    elif 'DW_TAG_structure_type' in raw or 'DW_TAG_class_type' in raw:
                        d = m.md(n)
                        if 'name' not in d or 'elements' not in d or 'DIFlagFwdDecl' in d.get('flags', ''):
                            continue
                        f = m.mdfile(d.get('file'))
                        if not f or not f.startswith(self.repo + '/'):
                            continue
                        q = self.qual(m, d)
                        if q in C:
                            continue
                        c = Class(q, m)
                        c.size = int(d.get('size', 0)) // 8
                        for it in m.md(d.get('elements')).get('items', []):
                            e = m.md(it)
                            tag = e.get('tag')
                            if tag == 'DW_TAG_member' and 'DIFlagStaticMember' not in e.get('flags', ''):
                                off = int(e.get('offset', 0)) // 8
                                if 'name' in e:
                                    c.fields[e['name']] = (off, int(e.get('size', 0)) // 8, e.get('baseType'))
                                else:
                                    u = m.md(e.get('baseType'))
                                    for it2 in m.md(u.get('elements')).get('items', []):
                                        e2 = m.md(it2)
                                        if 'name' in e2 and e2.get('tag') == 'DW_TAG_member':
                                            c.fields[e2['name']] = (off + int(e2.get('offset', 0)) // 8, int(e2.get('size', 0)) // 8, e2.get('baseType'))
                            elif tag == 'DW_TAG_inheritance':
                                b = m.md(e.get('baseType'))
                                c.bases.append((self.qual(m, b), int(e.get('offset', 0)) // 8))
                        C[q] = c
            self._classes = C
            self._enums = E
        return self._classes

    def enums(self):
        self.classes()
        return self._enums

    def enum(self, name):
        e = self.enums().get(name)
        if e is None:
            raise Anchor('enum %s not found' % name)
        return e

    def cls(self, name):
        c = self.classes().get(name)
        if c is None:
            raise Anchor('class %s not found' % name)
        return c

    def field(self, cls, name):
        c = self.cls(cls)
        if name in c.fields:
            return c.fields[name][0]
        for b, o in c.bases:
            try:
                return o + self.field(b, name)
            except Anchor:
                pass
        raise Anchor('field %s::%s not found' % (cls, name))

    def subclasses(self, base):
        out = []
        for q, c in self.classes().items():
            x = c
            seen = set()
            while x and x.bases:
                b = x.bases[0][0]
                if b == base:
                    out.append(q)
                    break
                x = self.classes().get(b)
        return sorted(out)

    def qual(self, m, d):
        parts = [d.get('name', '(anon)')]
        sc = m.md(d.get('scope')) if d.get('scope') else {}
        while sc and sc.get('_') in ('DINamespace', 'DICompositeType', 'DISubprogram'):
            if sc['_'] == 'DINamespace':
                parts.append(sc.get('name', '(anonymous namespace)'))
            else:
                parts.append(sc.get('name', '(anon)'))
            sc = m.md(sc.get('scope')) if sc.get('scope') else {}
        return '::'.join(reversed(parts))

    def type_str(self, m, ref):
        """readable type from debug info"""
        if not ref or ref == 'null':
            return 'void'
        d = m.md(ref)
        k = d.get('_')
        tag = d.get('tag', '')
        if k == 'DIBasicType':
            return d.get('name', '?')
        if k == 'DIDerivedType':
            b = self.type_str(m, d.get('baseType'))
            if tag == 'DW_TAG_pointer_type':
                return b + '*'
            if tag in ('DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type'):
                return b + '&'
            if tag == 'DW_TAG_const_type':
                return 'const ' + b
            if tag == 'DW_TAG_typedef':
                return d.get('name', '?')
            return b
        if k == 'DICompositeType':
            if tag == 'DW_TAG_array_type':
                return self.type_str(m, d.get('baseType')) + '[]'
            return self.qual(m, d)
        if k == 'DISubroutineType':
            return 'fn'
        return '?'

    def vtnames(self):
        if getattr(self, '_vtn', None) is None:
            self._vtn = {}
            for m in self.mods:
                for n in m.globals:
                    if n.startswith('_ZTV'):
                        d = self.demangle(n)
                        if d.startswith('vtable for '):
                            self._vtn[d[11:]] = n[4:]
        return self._vtn

    def impls(self, tid, slot):
        """functions a virtual call through static type id `tid` can reach (class hierarchy)"""
        key = (tid, slot)
        memo = self.__dict__.setdefault('_impls', {})
        if key not in memo:
            man = tid[4:] if tid.startswith('_ZTS') else tid
            inv = {v: k for k, v in self.vtnames().items()}
            c = inv.get(man)
            out = None
            if c is not None:
                out = set()
                for k in [c] + list(self.subclasses(c)):
                    vt = self.vtable(self.vtnames().get(k, ''))
                    if vt is None:
                        continue
                    if slot >= len(vt) or vt[slot][1] is None:
                        out = None
                        break
                    m, n = vt[slot]
                    out.add((n, self.lookup(m, n)))
            memo[key] = out
        return memo[key]

    # ---- vtables
    def vtable(self, cls_mangled):
        """list of function symbols in @_ZTV<cls> address-point order"""
        name = '_ZTV' + cls_mangled
        for m in self.mods:
            g = m.glob(name)
            if g and g[2] is not None and g[2][0] == 'agg':
                arr = g[2][1][0][1]
                out = []
                for t, v in arr[1][2:]:
                    out.append((m, v[1] if v[0] == 'g' else None))
                return out
        return None


class Class:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.fields = {}
        self.bases = []


class Anchor(Exception):
    """a construct the rule is anchored at cannot be found: analysis broken, no verdict"""


def thresholds(P, f, lo=4, hi=128, depth=6):
    """integer constants the function and the repository code it calls compare against: sizes at which its behaviour can
    change, so that a bounded enumeration of shapes can include them"""
    res, seen = set(), set()

    def go(g, d):
        if g.name in seen or d < 0:
            return
        seen.add(g.name)
        g.parse()
        for b in g.blocks.values() if isinstance(g.blocks, dict) else g.blocks:
            for i in b.ins:
                if i.op == 'icmp':
                    for v in i.a[1:]:
                        if v[0] == 'c' and lo <= v[1] <= hi:
                            res.add(v[1])
                elif i.op in ('call', 'invoke'):
                    cal = i.a[0]
                    h = P.lookup(g.mod, cal[1]) if cal[0] == 'g' else None
                    if h is not None and P.in_repo(h):
                        go(h, d - 1)
    go(f, depth)
    return res


def base_name(dem):
    """demangled name without its parameter list and trailing const/&"""
    d = 0
    i = len(dem)
    s = dem
    for suf in (' const', ' &', ' &&'):
        if s.endswith(suf):
            s = s[:-len(suf)]
    import re as _re
    if s.endswith(']') and ' [' in s:
        s = s[:s.rindex(' [')]
    if not s.endswith(')'):
        return s
    depth = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] == ')':
            depth += 1
        elif s[j] == '(':
            depth -= 1
            if depth == 0:
                return s[:j]
    return s
