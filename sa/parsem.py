"""Parsing functions analysed over a given sequence of token kinds: tree built, tokens consumed, errors raised.

The token stream's public operations are summarised (found / pop / pop(type) / peek / type over the given
sequence); everything else is the parser's own code."""
import re
import eng as E, stdmodel, sema
from terms import *
from ir import Anchor
from sema import O

MAXDEPTH = 40


class Parser:
    def __init__(self, ctx):
        self.P = P = ctx.P
        self.TT = P.enum('nano::token_e')
        self.AT = P.enum('nano::ast_type_t')
        self.AN = {v: 'nano::' + k[:-2] + '_t' for k, v in self.AT.items() if k.endswith('_e')}
        self.AN[self.AT['ast_exp_array_e']] = 'nano::ast_exp_deref_t'
        self.SC = {v: k for k, v in P.enum('nano::ast_decl_var_t::scope_t').items()}
        self.TN = {v: k for k, v in self.TT.items()}
        self.otype = P.field('nano::ast_node_t', 'type')
        self.ttype = P.field('nano::token_t', 'type_')

    def fn(self, name):
        fs = [f for f in self.P.find('nano::parser_t::' + name) if self.P.in_repo(f)]
        if len(fs) != 1:
            raise Anchor('parser_t::%s' % name)
        return fs[0]

    def tok(self, i, script):
        return O('T%d:%s' % (i, script[i] if i < len(script) else 'TOK_EOF'))

    def run(self, f, script, args=None, tune=None, hooks=(), base=0):
        """outs; every token has its own identity T<i>:<kind>"""
        P = self.P
        TT = self.TT
        e = E.Engine(P)
        e.join = False
        e.unroll = 24
        e.maxrec = 40
        e.MAX_STEPS = 200000
        st = E.St()
        PAR = O('PARSER')
        n = self.n = len(script)
        self.toks = [self.tok(i, script) for i in range(n)]
        for i in range(n + 3):
            k = script[i] if i < n else 'TOK_EOF'
            e.store_raw(st, add(self.tok(i, script), C(self.ttype)), 4, C(TT[k]))
        # the parser's stacks: empty, or holding anything
        for nm, (off, size, ty) in P.classes()['nano::parser_t'].fields.items():
            if size == 24:
                if base is not None:
                    stdmodel.set_vsize(e, st, add(PAR, C(off)), C(base))
                    continue
                s = A('vsize', add(PAR, C(off)), (0, 0))
                st.facts.le0(sub(C(0), s))
                st.facts.le0(sub(s, C(1 << 20)))

        def pos(s):
            return sum(1 for t in s.trace if t[0] == 'tok')

        def kind(i):
            return TT[script[i]] if i < n else TT['TOK_EOF']

        def take(eng, s, i):
            s.emit('tok', i, eng.site())
            return self.tok(i, script)

        def found(eng, s, fr, x, g, a):
            t = s.const(a[1])
            if t is None:
                s.emit('odd', 'found', eng.site())
                return [(ZERO, s)]
            i = pos(s)
            if kind(i) != t:
                return [(ZERO, s)]
            return [(take(eng, s, i), s)]

        def pop(eng, s, fr, x, g, a):
            i = pos(s)
            if len(a) > 1:
                t = s.const(a[1])
                if t is None:
                    s.emit('odd', 'pop', eng.site())
                elif kind(i) != t:
                    s.emit('err', 'pop', t, eng.site())
                    s.exn = (O('EXN'), '_ZTIN4nano7error_tE')
                    return [E.Out('throw', None, s)]
            if i >= n + 2:
                s.emit('odd', 'past the end', eng.site())
                return [E.Out('abort', None, s)]
            return [(take(eng, s, i), s)]

        def peek(eng, s, fr, x, g, a):
            return [(self.tok(pos(s), script), s)]

        def ty(eng, s, fr, x, g, a):
            return [(C(kind(pos(s))), s)]

        def err(eng, s, fr, x, g, a):
            s.emit('err', g.dem.split('(')[0].split('::')[-1] if g is not None else '?', tuple(a[1:]), eng.site())
            s.exn = (O('EXN'), '_ZTIN4nano7error_tE')
            return [E.Out('throw', None, s)]

        def alloc(eng, s, fr, x, g, a):
            return None
        e.hook('nano::token_stream_t::found', found)
        e.hook('nano::token_stream_t::pop', pop)
        e.hook('nano::token_stream_t::peek', peek)
        e.hook('nano::token_stream_t::type', ty)
        e.hook(sema.ERR, err)
        for h in hooks:
            e.hook(*h)
        if tune:
            tune(e, st)
        outs = e.call_fn(f, [PAR] + list(args or []), st)
        return e, outs

    # ------------------------------------------------------------------ trees
    def field(self, e, st, p, cls, nm):
        return e.load_raw(st, add(p, C(self.P.field(cls, nm))), 8, 'p')

    def list(self, e, st, p, cls, nm, depth):
        v = add(p, C(self.P.field(cls, nm)))
        n = st.const(stdmodel.vsize(e, st, v))
        if n is None:
            return ('?list', show(stdmodel.vsize(e, st, v))[:60])
        d = stdmodel.vdata(e, st, v)
        return tuple(self.tree(e, st, e.load_raw(st, add(d, C(8 * i)), 8, 'p'), depth + 1) for i in range(n))

    def tname(self, st, p):
        a = single(p) if is_lin(p) else None
        if is_lin(p) and st.const(p) == 0:
            return None
        nm = sema.child_name(p)
        if nm and re.match(r'^T\d+:', nm):
            return int(nm[1:nm.index(':')])
        return '?' + show(p)[:40]

    def cls(self, e, st, p):
        k = e.load_raw(st, add(p, C(self.otype)), 4, 'i')
        k = st.const(k) if is_lin(k) else None
        return self.AN.get(k)

    def tree(self, e, st, p, depth=0):
        if is_lin(p) and st.const(p) == 0:
            return None
        if depth > MAXDEPTH:
            return '?deep'
        nm = sema.child_name(p)
        if nm and nm.startswith('SUB'):
            return nm
        c = self.cls(e, st, p)
        if c is None:
            return '?' + show(p)[:60]
        F = lambda n: self.field(e, st, p, c, n)
        T = lambda n: self.tname(st, F(n))
        K = lambda n: self.tree(e, st, F(n), depth + 1)
        L = lambda n: self.list(e, st, p, c, n, depth)
        s = c[len('nano::ast_'):-2]
        if s == 'exp_bin_op':
            op = self.num(e, st, p, c, 'op')
            return ('bin', T('token'), self.TN.get(op, '?'), K('left'), K('right'))
        if s == 'exp_unary_op':
            return ('un', T('op'), K('child'))
        if s == 'exp_ident':
            return ('id', T('name'))
        if s == 'exp_member':
            return ('mem', T('name'), T('member'))
        if s == 'exp_lit_var':
            return ('int', self.same(e, st, p, c, 'val', 'val_', 4))
        if s == 'exp_lit_float':
            return ('flt', self.same(e, st, p, c, 'val', 'valf_', 4))
        if s == 'exp_lit_str':
            return ('str', self.samestr(e, st, p, c, 'value'))
        if s == 'exp_none':
            return ('none',)
        if s == 'exp_array_init':
            return ('arr', L('expr'))
        if s == 'exp_deref':
            return ('idx', K('lhs'), K('index'))
        if s == 'exp_call':
            return ('call', K('callee'), L('args'))
        if s == 'block':
            return ('block', L('nodes'))
        if s == 'stmt_call':
            return ('scall', K('expr'))
        if s == 'stmt_if':
            return ('if', K('expr'), K('then_block'), K('else_block'))
        if s == 'stmt_while':
            return ('while', K('expr'), K('body'))
        if s == 'stmt_for':
            return ('for', T('name'), K('start'), K('end'), K('body'))
        if s == 'stmt_return':
            return ('ret', K('expr'))
        if s == 'stmt_assign_var':
            return ('set', T('name'), K('expr'))
        if s == 'stmt_assign_array':
            return ('seta', T('name'), K('index'), K('expr'))
        if s == 'stmt_assign_member':
            return ('setm', T('name'), T('member'), K('expr'))
        if s == 'decl_var':
            return ('var', T('name'), K('expr'), self.SC.get(self.num(e, st, p, c, 'scope'), '?'), self.num(e, st, p, c, 'is_const', 1))
        if s == 'decl_func':
            return ('func', self.samestr(e, st, p, c, 'name'), L('args'), K('body'))
        return '?' + s

    def num(self, e, st, p, c, nm, size=4):
        v = e.load_raw(st, add(p, C(self.P.field(c, nm))), size, 'i')
        v = st.const(v) if is_lin(v) else None
        return v & 1 if v is not None and size == 1 else v

    def same(self, e, st, p, c, nm, tf, size):
        """the token whose field `tf` this field holds"""
        P = self.P
        for k in ('i', 'f'):
            v = e.load_raw(st, add(p, C(P.field(c, nm))), size, k)
            for i in range(self.n):
                if v == e.load_raw(st, add(self.toks[i], C(P.field('nano::token_t', tf))), size, k):
                    return i
        return '?' + show(v)[:40]

    def samestr(self, e, st, p, c, nm):
        P = self.P
        v = stdmodel.scontent(e, st, add(p, C(P.field(c, nm))))
        for i in range(self.n):
            if v == stdmodel.scontent(e, st, add(self.toks[i], C(P.field('nano::token_t', 'str_')))):
                return i
        return '?' + show(v)[:40]

    # ------------------------------------------------------------------ whole programs
    def program(self, script, base=0):
        """[(accepted, tree | None, outs...)] of parser_t::parse over the token kinds of `script`"""
        P = self.P
        f = self.fn('parse')
        par = O('PARSER')

        def tune(e, st):
            nano = e.load_raw(st, add(par, C(P.field('nano::parser_t', 'nano_'))), 8, 'p')
            ast = e.load_raw(st, add(nano, C(P.field('nano::nano_t', 'ast_'))), 8, 'p')
            self.kids = add(ast, C(P.field('nano::ast_t', 'program') + P.field('nano::ast_program_t', 'children')))
            stdmodel.set_vsize(e, st, self.kids, ZERO)
        e, outs = self.run(f, script, [O('ERR')], tune=tune, base=base)
        res = []
        for o in outs:
            odd = [t for t in o.st.trace if t[0] == 'odd']
            if odd:
                res.append(('odd', '%s at %s' % odd[0][1:], None))
                continue
            if o.kind == 'abort':
                res.append(('abort', None, None))
                continue
            if o.kind == 'throw':
                res.append(('throw', None, None))
                continue
            v = o.st.const(o.val) if is_lin(o.val) else None
            if v is None:
                res.append(('odd', 'result', None))
                continue
            er = [t for t in o.st.trace if t[0] == 'err']
            if not (v & 1):
                res.append(('reject', er[0][1] if er else None, er[0][3] if er else None))
                continue
            n = o.st.const(stdmodel.vsize(e, o.st, self.kids))
            if n is None:
                res.append(('odd', 'program', None))
                continue
            d = stdmodel.vdata(e, o.st, self.kids)
            res.append(('accept', tuple(self.tree(e, o.st, e.load_raw(o.st, add(d, C(8 * i)), 8, 'p')) for i in range(n)), None))
        return f, res


# ---------------------------------------------------------------------- reference grammar
class Reject(Exception):
    pass


PREC = {'TOK_AND': 1, 'TOK_OR': 1, 'TOK_LT': 3, 'TOK_GT': 3, 'TOK_LEQ': 3, 'TOK_GEQ': 3, 'TOK_EQ': 3, 'TOK_ADD': 4, 'TOK_SUB': 4,
        'TOK_MUL': 5, 'TOK_DIV': 5, 'TOK_MOD': 5}
NOT = 2


class Ref:
    """the language's grammar over token kinds"""

    def __init__(self, s):
        self.s = s
        self.i = 0

    def k(self):
        return self.s[self.i] if self.i < len(self.s) else 'TOK_EOF'

    def pop(self, t=None):
        if t is not None and self.k() != t:
            raise Reject(self.i)
        self.i += 1
        return self.i - 1

    def found(self, t):
        if self.k() == t:
            return self.pop()
        return None

    def program(self):
        r = []
        while self.k() != 'TOK_EOF':
            i = self.pop()
            k = self.s[i]
            if k == 'TOK_EOL':
                continue
            if k == 'TOK_VAR':
                r.append(self.decl('e_global', 0))
            elif k == 'TOK_CONST':
                r.append(self.decl('e_global', 1))
            elif k == 'TOK_FUNC':
                r.append(self.func())
            else:
                raise Reject(i)
        return tuple(r)

    def decl(self, scope, const):
        n = self.pop('TOK_IDENT')
        x = self.expr() if self.found('TOK_ASSIGN') is not None else None
        return ('var', n, x, scope, const)

    def func(self):
        n = self.pop('TOK_IDENT')
        self.pop('TOK_LPAREN')
        a = []
        if self.found('TOK_RPAREN') is None:
            while True:
                a.append(('var', self.pop('TOK_IDENT'), None, 'e_arg', 0))
                if self.found('TOK_COMMA') is None:
                    break
            self.pop('TOK_RPAREN')
        self.pop('TOK_EOL')
        b, _ = self.body(())
        return ('func', n, tuple(a), b)

    def body(self, stops):
        r = []
        while True:
            while self.found('TOK_EOL') is not None:
                pass
            if self.found('TOK_END') is not None:
                return ('block', tuple(r)), 'TOK_END'
            if self.k() in stops:
                return ('block', tuple(r)), self.k()
            r.append(self.stmt())

    def stmt(self):
        i = self.pop()
        k = self.s[i] if i < len(self.s) else 'TOK_EOF'
        if k == 'TOK_VAR':
            r = self.decl('e_local', 0)
        elif k == 'TOK_IDENT':
            r = self.ident(i)
        elif k == 'TOK_IF':
            self.pop('TOK_LPAREN')
            c = self.expr()
            self.pop('TOK_RPAREN')
            self.pop('TOK_EOL')
            t, why = self.body(('TOK_ELSE',))
            f = None
            if why == 'TOK_ELSE':
                self.pop()
                self.pop('TOK_EOL')
                f, _ = self.body(())
            r = ('if', c, t, f)
        elif k == 'TOK_WHILE':
            self.pop('TOK_LPAREN')
            c = self.expr()
            self.pop('TOK_RPAREN')
            self.pop('TOK_EOL')
            r = ('while', c, self.body(())[0])
        elif k == 'TOK_FOR':
            self.pop('TOK_LPAREN')
            n = self.pop('TOK_IDENT')
            self.pop('TOK_ASSIGN')
            a = self.expr()
            self.pop('TOK_TO')
            b = self.expr()
            self.pop('TOK_RPAREN')
            self.pop('TOK_EOL')
            r = ('for', n, a, b, self.body(())[0])
        elif k == 'TOK_RETURN':
            r = ('ret', None if self.k() == 'TOK_EOL' else self.expr())
        else:
            raise Reject(i)
        self.pop('TOK_EOL')
        return r

    def ident(self, i):
        k = self.k()
        if k in ('TOK_ADD', 'TOK_SUB', 'TOK_MUL', 'TOK_DIV'):
            o = self.pop()
            self.pop('TOK_ASSIGN')
            return ('set', i, ('bin', o, k, ('id', i), self.expr()))
        if k == 'TOK_DOT':
            self.pop()
            m = self.pop('TOK_IDENT')
            self.pop('TOK_ASSIGN')
            return ('setm', i, m, self.expr())
        if k == 'TOK_ASSIGN':
            self.pop()
            return ('set', i, self.expr())
        if k == 'TOK_LPAREN':
            self.pop()
            return ('scall', ('call', ('id', i), self.args()))
        if k == 'TOK_LBRACKET':
            self.pop()
            x = self.expr()
            self.pop('TOK_RBRACKET')
            self.pop('TOK_ASSIGN')
            return ('seta', i, x, self.expr())
        raise Reject(i)

    def args(self):
        a = []
        if self.found('TOK_RPAREN') is None:
            while True:
                a.append(self.expr())
                if self.found('TOK_COMMA') is None:
                    break
            self.pop('TOK_RPAREN')
        return tuple(a)

    def expr(self, low=0):
        n = self.found('TOK_NOT')
        if n is not None:
            l = ('un', n, self.expr(NOT + 1))
        else:
            l = self.operand()
        while PREC.get(self.k(), -1) >= max(low, 1):
            k = self.k()
            o = self.pop()
            l = ('bin', o, k, l, self.expr(PREC[k] + 1))
        return l

    def operand(self):
        n = self.found('TOK_SUB')
        if n is not None:
            return ('un', n, self.operand())
        l = self.leaf()
        while True:
            if self.found('TOK_LBRACKET') is not None:
                l = ('idx', l, self.expr())
                self.pop('TOK_RBRACKET')
            elif self.found('TOK_LPAREN') is not None:
                l = ('call', l, self.args())
            else:
                return l

    def leaf(self):
        i = self.pop()
        k = self.s[i] if i < len(self.s) else 'TOK_EOF'
        if k == 'TOK_LBRACKET':
            a = [self.expr()]
            while self.found('TOK_COMMA') is not None:
                a.append(self.expr())
            self.pop('TOK_RBRACKET')
            return ('arr', tuple(a))
        if k == 'TOK_LPAREN':
            e = self.expr()
            self.pop('TOK_RPAREN')
            return e
        if k == 'TOK_IDENT':
            if self.found('TOK_DOT') is not None:
                return ('mem', i, self.pop('TOK_IDENT'))
            return ('id', i)
        if k == 'TOK_INT':
            return ('int', i)
        if k == 'TOK_FLOAT':
            return ('flt', i)
        if k == 'TOK_STRING':
            return ('str', i)
        if k == 'TOK_NONE':
            return ('none',)
        raise Reject(i)


def reference(script):
    try:
        return ('accept', Ref(script).program())
    except Reject as x:
        return ('reject', x.args[0])


W = {'(': 'TOK_LPAREN', ')': 'TOK_RPAREN', '[': 'TOK_LBRACKET', ']': 'TOK_RBRACKET', ',': 'TOK_COMMA', ';': 'TOK_EOL', '+': 'TOK_ADD',
     '-': 'TOK_SUB', '*': 'TOK_MUL', '/': 'TOK_DIV', '%': 'TOK_MOD', '=': 'TOK_ASSIGN', '==': 'TOK_EQ', '<': 'TOK_LT', '>': 'TOK_GT',
     '<=': 'TOK_LEQ', '>=': 'TOK_GEQ', '.': 'TOK_DOT', 'a': 'TOK_IDENT', 'b': 'TOK_IDENT', 'c': 'TOK_IDENT', 'd': 'TOK_IDENT',
     'f': 'TOK_IDENT', '1': 'TOK_INT', '2': 'TOK_INT', '1.': 'TOK_FLOAT', '"': 'TOK_STRING', 'function': 'TOK_FUNC'}


def words(text):
    """token kinds of a script written with spaces between tokens"""
    return [W.get(w) or 'TOK_' + w.upper() for w in text.split()]


SHOW = {v: k for k, v in W.items()}


def text(script):
    return ' '.join({'TOK_EOL': '\\n', 'TOK_IDENT': 'x'}.get(k) or SHOW.get(k) or k[4:].lower() for k in script)


def unknown(t):
    if isinstance(t, tuple):
        return any(unknown(x) for x in t)
    return isinstance(t, str) and t.startswith('?')
