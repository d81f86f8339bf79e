"""C19: every error and every token kind has its own correct name."""
import re
from terms import *
import eng as E
import frame, stdmodel
from ir import Anchor, base_name

EXPLAIN = (
    'The name functions are analysed once per enumerator of thread_error_t and token_e taken from the debug info of the '
    'current tree: on every path the returned pointer must be a constant string, and that string must be the name of '
    'that enumerator (for errors) or the spelling of that token (for tokens).  token_t::string() is analysed per token '
    'kind with and without text, and every message method of error_manager_t with its token parameters fixed: the '
    'text arguments of the message must be the texts of those tokens, in order, and match the conversions of the format.')

SPELL = {
    'TOK_FUNC': 'function', 'TOK_END': 'end', 'TOK_IF': 'if', 'TOK_ELSE': 'else', 'TOK_WHILE': 'while',
    'TOK_VAR': 'var', 'TOK_INT': 'int', 'TOK_FLOAT': 'float', 'TOK_STRING': 'string', 'TOK_IMPORT': 'import',
    'TOK_FOR': 'for', 'TOK_TO': 'to', 'TOK_IDENT': 'identifier', 'TOK_LPAREN': '(', 'TOK_RPAREN': ')',
    'TOK_COMMA': ',', 'TOK_CONST': 'const', 'TOK_EOL': 'new line', 'TOK_ADD': '+', 'TOK_SUB': '-', 'TOK_MUL': '*',
    'TOK_DIV': '/', 'TOK_MOD': '%', 'TOK_AND': 'and', 'TOK_OR': 'or', 'TOK_NOT': 'not', 'TOK_ASSIGN': '=',
    'TOK_EQ': '==', 'TOK_LT': '<', 'TOK_GT': '>', 'TOK_LEQ': '<=', 'TOK_GEQ': '>=', 'TOK_RETURN': 'return',
    'TOK_EOF': 'end of file', 'TOK_ACC': '+=', 'TOK_LBRACKET': '[', 'TOK_RBRACKET': ']', 'TOK_NONE': 'none',
    'TOK_DOT': '.'}


def run(ctx, R):
    frame.guard(R, errors, ctx, R)
    frame.guard(R, tokens, ctx, R)
    frame.guard(R, texts, ctx, R)
    frame.guard(R, messages, ctx, R)


def one(P, name):
    l = [f for f in P.find(name) if P.in_repo(f)]
    if not l:
        raise Anchor(name)
    return l[0]


def judge(R, e, outs, key, site, what, want):
    for o in outs:
        if o.kind != 'ret':
            R.bad(key, site, 'there is no name for %s' % what)
            continue
        if o.st.const(o.val) == 0:
            R.bad(key, site, 'the name of %s is a null pointer' % what)
            continue
        s = e.const_str(o.st, o.val)
        if s is None:
            R.undecided(key, 'text of the name not a constant')
        elif s != want:
            R.bad(key, site, '%s is named "%s" instead of "%s"' % (what, s, want))
        else:
            R.ok('name of an enumerator')


def errors(ctx, R):
    P = ctx.P
    f = one(P, 'nano::get_thread_error')
    R.fn(f)
    codes = P.enum('nano::thread_error_t')
    R.floor('error codes', len(codes), 15)
    for n, v in codes.items():
        if n.startswith('__'):
            continue
        e = E.Engine(P)
        e.join = False
        st = E.St()
        p = A('obj', 'ERR')
        f.parse()
        st.mem[(p[1], p[0], 'M')] = (4, C(v))
        byref = '&' in f.dem[f.dem.index('('):]
        outs = e.call_fn(f, [p if byref else C(v)], st)
        judge(R, e, outs, 'error ' + n, f.loc(), 'the run-time error %s' % n, n)
        R.sample({'error': n, 'paths': len(outs)})


def tokens(ctx, R):
    P = ctx.P
    f = one(P, 'nano::token_t::token_name')
    R.fn(f)
    toks = P.enum('nano::token_e')
    R.floor('token kinds', len(toks), 30)
    for n, v in toks.items():
        if n.startswith('__'):
            continue
        e = E.Engine(P)
        e.join = False
        outs = e.call_fn(f, [C(v)], E.St())
        if n not in SPELL:
            # a new token kind: must have some name
            for o in outs:
                s = e.const_str(o.st, o.val) if o.kind == 'ret' else None
                if o.kind != 'ret' or s == '':
                    R.bad('token ' + n, f.loc(), 'there is no name for the token %s' % n)
                elif s in SPELL.values():
                    R.bad('token ' + n, f.loc(), 'the token %s is named "%s", which is another token' % (n, s))
                else:
                    R.ok('name of an enumerator')
            continue
        judge(R, e, outs, 'token ' + n, f.loc(), 'the token %s' % n, SPELL[n])
        R.sample({'token': n, 'paths': len(outs)})


def mktok(P, st, t, typ, empty):
    """a token object with this kind and with empty / non-empty text"""
    a = add(t, C(P.field('nano::token_t', 'type_')))
    st.mem[(a[1], a[0], 'M')] = (4, C(typ))
    s = add(t, C(P.field('nano::token_t', 'str_')))
    return s


def is_text(v, s):
    """is v the character data of the string object at address s?"""
    a = single(v) if is_lin(v) else None
    if a is None or a.kind != 'sdata':
        return False
    b = single(a.args[0]) if is_lin(a.args[0]) else a.args[0]
    return b is not None and getattr(b, 'kind', None) == 'str' and b.args[0] == s


def texts(ctx, R):
    P = ctx.P
    fs = [f for f in P.find('nano::token_t::string') if P.in_repo(f)]
    if not fs:
        raise Anchor('token_t::string')
    f = fs[0]
    R.fn(f)
    for n, v in P.enum('nano::token_e').items():
        if n.startswith('__'):
            continue
        for empty in (True, False):
            e = E.Engine(P)
            e.join = False
            st = E.St()
            t = A('obj', 'TK')
            s = mktok(P, st, t, v, None)
            if empty:
                stdmodel.set_s(e, st, s, A('slit', ''))
            else:
                st.facts.le0(sub(ONE, stdmodel.slen(stdmodel.scontent(e, st, s))))
            for o in e.call_fn(f, [t], st):
                key = 'text ' + n
                if o.kind != 'ret':
                    R.bad(key, f.loc(), 'a %s token has no text' % n)
                    continue
                if o.st.const(o.val) == 0:
                    R.bad(key, f.loc(), 'the text of a %s token is a null pointer' % n)
                    continue
                c = e.const_str(o.st, o.val)
                a = single(o.val)
                if c is None and a is not None and a.kind == 'sdata' and getattr(single(a.args[0]), 'kind', None) == 'slit':
                    c = single(a.args[0]).args[0]
                if not empty:
                    if is_text(o.val, s):
                        R.ok('text of a token is its own text')
                    elif c is not None:
                        R.bad(key, f.loc(), 'the text of a %s token with a text of its own is "%s"' % (n, c))
                    else:
                        R.undecided(key, 'text not resolved')
                    continue
                if c is None:
                    R.undecided(key, 'text not resolved')
                elif c == (SPELL.get(n) if n != 'TOK_STRING' else '') or n not in SPELL:
                    R.ok('text of a token without text is its name')
                else:
                    R.bad(key, f.loc(), 'the text of a %s token is "%s"' % (n, c))


CONV = re.compile(r'%[-+ #0]*[0-9]*(?:\.[0-9]+)?(?:hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def messages(ctx, R):
    P = ctx.P
    toks = P.enum('nano::token_e')
    tx, ty = 'TOK_WHILE', 'TOK_GEQ'
    names = [d for d, l in P.by_dem.items() if d.startswith('nano::error_manager_t::') and any(P.in_repo(f) for f in l)]
    n = 0
    for d in sorted(names):
        f = [g for g in P.by_dem[d] if P.in_repo(g)][0]
        b = base_name(d).split('::')[-1]
        if b in ('on_error_', 'error_manager_t', '~error_manager_t'):
            continue
        sig = d[d.index('(') + 1:d.rindex(')')]
        ps = [x.strip() for x in sig.split(',')] if sig.strip() else []
        f.parse()
        if len(f.params) != len(ps) + 1:
            continue
        e = E.Engine(P)
        e.join = False

        def h(eng, st, fr, x, fn, args):
            st.emit('message', tuple(args), eng.site())
            return [(ZERO, st)]
        e.hook('nano::error_manager_t::on_error_', h)
        st = E.St()
        args, texts_ = [A('obj', 'EM')], []
        strs = []
        for i, p in enumerate(ps):
            o = A('obj', 'P%d' % i)
            if 'token_t' in p:
                strs.append(mktok(P, st, o, toks[tx], None))
                texts_.append((SPELL[tx], strs[-1]))
            elif 'token_e' in p:
                o = C(toks[ty])
                texts_.append((SPELL[ty], None))
            args.append(o)
        outs = e.call_fn(f, args, st)
        R.fn(f)
        for o in outs:
            ms = [t for t in o.st.trace if t[0] == 'message']
            if not ms:
                continue
            n += 1
            m = ms[0]
            a = m[1]
            key = 'message ' + b
            fmt = e.const_str(o.st, a[2]) if len(a) > 2 and is_lin(a[2]) else None
            if fmt is None:
                R.undecided(key, 'format not a constant')
                continue
            conv = [c for c in CONV.findall(fmt) if c != '%']
            rest = a[3:]
            if len(conv) > len(rest):
                R.bad(key, m[2], 'the message "%s" is given %d arguments' % (fmt, len(rest)))
                continue
            ti = 0
            for c, v in zip(conv, rest):
                if c != 's':
                    if is_lin(v) and any(is_text(v, s) for s in strs):
                        R.bad(key, m[2], 'the message "%s" prints a text as a number' % fmt)
                    continue
                own = [i for i, (w, s) in enumerate(texts_) if (s is not None and is_text(v, s)) or e.const_str(o.st, v) == w]
                if own:
                    R.ok('message quotes its token')
                    if own[0] < ti:
                        R.bad(key, m[2], 'the message "%s" names the tokens in the wrong order' % fmt)
                    ti = max(ti, own[0])
                elif not texts_:
                    R.undecided(key, 'text argument')
                elif e.const_str(o.st, v) is not None:
                    R.bad(key, m[2], 'the message "%s" shows "%s" instead of the text of its token' % (fmt, e.const_str(o.st, v)))
                elif is_lin(v) and v in args:
                    R.bad(key, m[2], 'the message "%s" is given the token itself as a text' % fmt)
                else:
                    R.undecided(key, 'text argument of "%s"' % fmt)
    R.floor('message paths', n, 20)
