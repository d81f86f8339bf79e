"""One step of the lexer from an arbitrary position of an arbitrary text, as a set of paths over symbolic bytes."""
import re
from terms import *
import eng as E
import frame, stdmodel
from ir import Anchor, base_name

TEXT = A('obj', 'TEXT')
LEX = A('obj', 'LEX')
FILE = A('sym', 'FILE')
LN, LF = A('sym', 'LINE'), A('sym', 'LFILE')


class Multi(dict):
    """all the states in which an iteration of a loop ended, by loop"""
    def __setitem__(self, k, v):
        dict.setdefault(self, k[0], []).append(v)


class Step:
    def __init__(self, P):
        self.P = P
        l = [f for f in P.find('nano::lexer_t::lex') if P.in_repo(f)]
        if not l:
            raise Anchor('lexer_t::lex')
        self.f = l[0]
        self.f.parse()
        self.tok = {v: k for k, v in P.enum('nano::token_e').items()}
        F = lambda n: P.field('nano::token_t', n)
        self.o_type, self.o_str, self.o_line, self.o_val = F('type_'), F('str_'), F('line_'), F('val_')
        self.o_lline = P.field('nano::lexer_t', 'line_')

    def run(self, bytes_):
        """bytes_: list of int (that byte) or (lo, hi, excluded) for the first bytes of the text"""
        P, f = self.P, self.f
        e = E.Engine(P)
        e.join = False
        e.unroll = 10
        e.keep_loops = True
        e.JOIN = 100000
        e.MAX_STATES = max(e.MAX_STATES, 4000)
        e.loopinfo = {}
        e.loopbacks = Multi()
        st = E.St()
        for i, b in enumerate(bytes_):
            a = add(TEXT, C(i))
            if type(b) is int:
                e.store_raw(st, a, 1, C(b - 256 if b > 127 else b))
            else:
                v = e.load_raw(st, a, 1, 'i')
                st.facts.le0(sub(C(b[0]), v))
                st.facts.le0(sub(v, C(b[1])))
                for x in b[2]:
                    st.facts.ne0(sub(v, C(x)))
        self.started = None
        self.loads = []

        def once(eng, fr, h, init, s):
            if fr.fn is not f or not all(h == q or h not in b for q, b in fr.loop.items()) or self.started is not None:
                return None
            s = s.copy()
            la = add(LEX, C(self.o_lline))
            self.started = (eng.load_raw(s, la, 4, 'i'), eng.load_raw(s, add(la, C(4)), 4, 'i'))
            eng.store_raw(s, la, 4, LF)
            eng.store_raw(s, add(la, C(4)), 4, LN)
            return s
        e.once = once

        def push(eng, s, fr, x, fn, args):
            t = args[1]
            s.emit('push', eng.load_raw(s, add(t, C(self.o_type)), 4, 'i'), stdmodel.scontent(eng, s, add(t, C(self.o_str))),
                   eng.load_raw(s, add(t, C(self.o_line)), 4, 'i'), eng.load_raw(s, add(t, C(self.o_line + 4)), 4, 'i'),
                   eng.load_raw(s, add(t, C(self.o_val)), 4, 'i'), eng.site())
            return [(ZERO, s)]
        e.hook('nano::token_stream_t::push', push)

        def err(eng, s, fr, x, fn, args):
            s.emit('err', base_name(fn if isinstance(fn, str) else fn.dem), eng.site())
            return [E.Out('throw', None, s)]
        e.hook(re.compile(r'^nano::error_manager_t::(?!error_manager_t|~)'), err)

        def obs(eng, s, kind, fr, x, kw):
            if kind == 'load' and is_lin(kw['addr']) and any(a is TEXT[1][0][0] for a, k in kw['addr'][1]):
                self.loads.append((sub(kw['addr'], TEXT), s.facts.copy(), eng.site()))
        e.obs.append(obs)
        outs = e.call_fn(f, [LEX, TEXT, FILE], st)
        return e, outs

    def cursor(self):
        """the variable that holds the position: it moves by one over a blank"""
        e, outs = self.run([32])
        for o in outs:
            if o.kind == 'back':
                for k, i, v in o.val:
                    if i == TEXT and v == add(TEXT, ONE):
                        return k
        return None


# ---------------------------------------------------------------- evaluation of terms
def ev(t, B, K):
    if not is_lin(t):
        return None
    r = t[0]
    for a, k in t[1]:
        v = eva(a, B, K)
        if v is None:
            return None
        r += k * v
    return r


def eva(a, B, K):
    if a.kind == 'K':
        return K.get(a)
    if a is TEXT[1][0][0]:
        return 0
    if a.kind == 'ld':
        if a.args[1] not in ('i1', 'i8') and a.args[1] != 'i1':
            return None
        if not any(x is TEXT[1][0][0] for x, k in a.args[0][1]):
            return None
        off = ev(a.args[0], B, K)
        return B.get(off) if off is not None else None
    if a.kind == 'z8':
        v = ev(a.args[0], B, K)
        return None if v is None else v & 255
    if a.kind == 'cmp':
        v = ev(a.args[1], B, K)
        if v is None:
            return None
        if a.args[0] == 'eq':
            return int(v == 0)
        if a.args[0] == 'lt0':
            return int(v < 0)
        if a.args[0] == 'ult' and len(a.args) > 2:
            w = ev(a.args[2], B, K)
            return None if w is None else int(v % (1 << 64) < w % (1 << 64))
        return None
    if a.kind == 'call' and a.args[0] in LIBC:
        x = a.args[1]
        x = x[0] if type(x) is tuple and len(x) == 1 and is_lin(x[0]) else x
        if is_lin(x):
            v = ev(x, B, K)
            return None if v is None or a.args[0] not in CTYPE else CTYPE[a.args[0]](v)
        if a.args[0] == 'strchr' and type(x) is tuple and len(x) == 2:
            lit, c = x
            c = ev(c, B, K) if is_lin(c) else None
            if c is None or not (type(lit) is tuple and lit[0] == 'lit'):
                return None
            return int((c & 255) in lit[1].split(b'\0')[0] + b'\0')
        if a.args[0] == 'memchr' and type(x) is tuple and len(x) == 3 and all(is_lin(y) for y in x):
            p, c, n = (ev(y, B, K) for y in x)
            if None in (p, c, n) or not 0 <= n < 64:
                return None
            for i in range(n):
                if B.get(p + i) is None:
                    return None
                if B[p + i] & 255 == c & 255:
                    return p + i or None
            return 0
    return None


CTYPE = {'tolower': lambda v: v + 32 if 65 <= v <= 90 else v, 'toupper': lambda v: v - 32 if 97 <= v <= 122 else v,
         'isdigit': lambda v: int(48 <= v <= 57), 'isupper': lambda v: int(65 <= v <= 90), 'islower': lambda v: int(97 <= v <= 122),
         'isalpha': lambda v: int(65 <= v <= 90 or 97 <= v <= 122), 'isalnum': lambda v: int(65 <= v <= 90 or 97 <= v <= 122 or 48 <= v <= 57),
         'isspace': lambda v: int(v == 32 or 9 <= v <= 13), 'isblank': lambda v: int(v in (9, 32))}
LIBC = set(CTYPE) | {'strchr', 'memchr', 'memcmp', 'strcmp', 'strncmp', 'strspn', 'strcspn', 'strpbrk', 'strstr', 'strcasecmp', 'strncasecmp',
                     'strtol', 'strtof', 'atoi', 'atof', 'ispunct', 'isprint', 'iscntrl', 'isxdigit', 'strtod', 'strtoul', 'strrchr'}


def opaque(facts, B, K):
    """a fact on the result of a library function that the assignment does not settle"""
    for form, r in facts.items():
        if any(a.kind == 'call' and a.args[0] in LIBC for a in atoms_of((0, form))) and ev((0, form), B, K) is None:
            return True
    return False


def bad(facts, B, K, only=None):
    """the first fact that the assignment contradicts"""
    for form, r in facts.items():
        if only is not None and not any(only in atoms_of((0, ((a, 1),))) for a, k in form):
            continue
        v = ev((0, form), B, K)
        if v is None:
            continue
        if (r[0] is not None and v < r[0]) or (r[1] is not None and v > r[1]) or v in r[2]:
            return form
    return None


def offsets(t, K, acc):
    """all text offsets whose byte occurs in the term"""
    for a in atoms_of(t):
        if a.kind == 'ld' and any(x is TEXT[1][0][0] for x, k in a.args[0][1]):
            o = ev(a.args[0], {}, K)
            if o is not None:
                acc.add(o)


PALETTE = [32, ord('x'), ord('0'), ord('='), ord('"'), ord('.'), 10, 0, ord('_'), ord('E'), ord('#'), -1, ord('d'), ord('+')]
SAMPLE = [ord(c) for c in 'xa0Z_9 ".=#\n+{~`@[('] + [0, -1, 127, 9, 13]


class Inst:
    """concrete instances of a path: lengths for its loops and bytes for the text that satisfy the facts of the path"""
    def __init__(self, e):
        self.e = e
        self.heads = {}
        self.opaque = False
        for hv, (init, ts, K, var) in e.loopinfo.items():
            if is_lin(hv) and any(a is TEXT[1][0][0] for a, k in hv[1]):
                self.heads.setdefault(single(K), []).append(hv)
        self.n = 0

    def make(self, facts, terms, fixed, extra=2, limit=150, trace=()):
        """yields (bytes, loop lengths); bytes has every offset up to the highest used plus extra"""
        self.facts, self.cache = facts, {}
        ks = set()
        for form in facts:
            for a in atoms_of((0, form)):
                if a.kind == 'K':
                    ks.add(a)
        for t in terms:
            if is_lin(t):
                ks |= {a for a in atoms_of(t) if a.kind == 'K'}
        ks = sorted(ks, key=lambda a: a.id)
        mx = 10 if len(ks) <= 1 else 4 if len(ks) == 2 else 3
        count = 0
        for K in prod(ks, mx):
            if bad(facts, {}, K):
                continue
            offs = set()
            for form in facts:
                offsets((0, form), K, offs)
            top = -1
            for t in terms:
                v = ev(t, {}, K) if is_lin(t) else None
                if v is not None:
                    top = max(top, v)
            body = []
            runs = [(k, K[k]) for k in ks]
            for t in trace:
                if t[0] == 'loop' and len(t) > 4 and is_lin(t[4]) and single(t[1]) not in K:
                    n = ev(t[4], {}, K)
                    if n is not None and n < 40:
                        runs.append((single(t[1]), n))
            for k, kn in runs:
                for hv in self.heads.get(k, ()):
                    for j in range(kn):
                        K2 = dict(K)
                        K2[k] = j
                        o = ev(hv, {}, K2)
                        if o is not None:
                            body.append((o, k, K2))
                            offs.add(o)
            n = max([top] + list(offs) + list(fixed) + [-1]) + extra
            if n > 40:
                continue
            cand = []
            ok = True
            for o in range(n + 1):
                dom = range(-128, 128) if o not in fixed else [fixed[o]]
                if o in offs or o in fixed:
                    s = [v for v in dom if not bad1(facts, o, v, K)]
                    for bo, k, K2 in body:
                        if bo == o:
                            s = [v for v in s if self.inbody(k, o, v, K2)]
                    s = pick(s)
                else:
                    s = PALETTE
                if not s:
                    ok = False
                    break
                cand.append(s)
            if not ok:
                continue
            base = {o: c[0] for o, c in enumerate(cand)}
            alt = {o: c[-1] for o, c in enumerate(cand)}
            seen = set()
            for b0 in (base, alt):
                for o in range(n + 1):
                    for v in cand[o]:
                        B = dict(b0)
                        B[o] = v
                        key = tuple(B[i] for i in range(n + 1))
                        if key in seen:
                            continue
                        seen.add(key)
                        if bad(facts, B, K):
                            continue
                        if opaque(facts, B, K):
                            self.opaque = True
                            continue
                        yield B, K
                        count += 1
                        if count > limit:
                            return

    def inbody(self, k, o, v, K2):
        states = self.e.loopbacks.get(k)
        if not states:
            return True
        for s in self.mine(k):
            if not bad(s.facts.d, {o: v}, K2, only=k):
                return True
        return False

    def mine(self, k):
        """iterations of the loop that belong to the path looked at: nothing they rest on contradicts it"""
        r = self.cache.get(k)
        if r is None:
            r = []
            for s in self.e.loopbacks.get(k, ()):
                for form, x in s.facts.d.items():
                    y = self.facts.get(form)
                    if y is None or any(k in atoms_of((0, ((a, 1),))) for a, _ in form):
                        continue
                    lo = max([z for z in (x[0], y[0]) if z is not None], default=None)
                    hi = min([z for z in (x[1], y[1]) if z is not None], default=None)
                    if lo is not None and hi is not None and (lo > hi or (lo == hi and (lo in x[2] or lo in y[2]))):
                        break
                else:
                    r.append(s)
            self.cache[k] = r
        return r


def bad1(facts, o, v, K):
    B = {o: v}
    return bad(facts, B, K)


def pick(s):
    if len(s) <= 8:
        return list(s)
    r = [v for v in SAMPLE if v in s]
    for v in (s[0], s[-1], s[len(s) // 2]):
        if v not in r:
            r.append(v)
    return r


def prod(ks, mx):
    if not ks:
        yield {}
        return
    k, rest = ks[0], ks[1:]
    for v in range(mx + 1):
        for d in prod(rest, mx):
            d = dict(d)
            d[k] = v
            yield d


# ---------------------------------------------------------------- the language
KEYWORDS = {'and': 'TOK_AND', 'const': 'TOK_CONST', 'end': 'TOK_END', 'else': 'TOK_ELSE', 'for': 'TOK_FOR', 'function': 'TOK_FUNC',
            'if': 'TOK_IF', 'import': 'TOK_IMPORT', 'not': 'TOK_NOT', 'none': 'TOK_NONE', 'or': 'TOK_OR', 'return': 'TOK_RETURN',
            'to': 'TOK_TO', 'var': 'TOK_VAR', 'while': 'TOK_WHILE'}
OPS = {'(': 'TOK_LPAREN', ')': 'TOK_RPAREN', '[': 'TOK_LBRACKET', ']': 'TOK_RBRACKET', ',': 'TOK_COMMA', '+': 'TOK_ADD',
       '-': 'TOK_SUB', '*': 'TOK_MUL', '/': 'TOK_DIV', '%': 'TOK_MOD', '.': 'TOK_DOT', '=': 'TOK_ASSIGN', '<': 'TOK_LT',
       '>': 'TOK_GT', '==': 'TOK_EQ', '<=': 'TOK_LEQ', '>=': 'TOK_GEQ'}
DIG = '0123456789'
ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


def step(s):
    """first lexical element of s (text up to its terminator): (token or None, length, 'err'/'end'/None)"""
    if not s:
        return ('TOK_EOF', None), 0, 'end'
    c = s[0]
    if c in ' \t\r':
        return None, 1, None
    if c == '\n':
        return ('TOK_EOL', None), 1, None
    if c == '#':
        n = s.find('\n')
        return None, (n if n >= 0 else len(s)), None
    if c == '"':
        for i in range(1, len(s)):
            if s[i] == '"':
                return ('TOK_STRING', s[1:i]), i + 1, None
            if s[i] == '\n':
                return None, 0, 'err'
        return None, 0, 'err'
    if len(s) > 1 and s[:2] in OPS:
        return (OPS[s[:2]], None), 2, None
    if c in OPS:
        return (OPS[c], None), 1, None
    if c in DIG:
        i = 0
        while i < len(s) and s[i] in DIG:
            i += 1
        if i < len(s) and s[i] == '.':
            i += 1
            while i < len(s) and s[i] in DIG:
                i += 1
            return ('TOK_FLOAT', s[:i]), i, None
        return ('TOK_INT', s[:i]), i, None
    if c in ALPHA:
        i = 0
        while i < len(s) and (s[i] in ALPHA or s[i] in DIG):
            i += 1
        w = s[:i]
        if w.lower() in KEYWORDS:
            return (KEYWORDS[w.lower()], None), i, None
        return ('TOK_IDENT', w), i, None
    return None, 0, 'err'
