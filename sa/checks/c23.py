"""C23: expressions group by precedence, left to right."""
import itertools
import frame, parsem
import eng as E
from parsem import words, text

EXPLAIN = (
    'parser_t::parse is analysed with the token stream summarised by its public operations over a given sequence of token '
    'kinds; token contents are unknown; in the thorough tier so are the contents of the parser\'s stacks at the start.  The tree every path '
    'builds is compared with the tree the precedence order describes.  Sequences: every operator alone and in every pair, '
    'every triple and quadruple of precedence levels, with prefix operators, parentheses, calls, subscripts and array '
    'literals in every position.  The parser decides from the operator on top of its stack and the next token, so all '
    'pairs, nested in all ways, cover its decisions for longer expressions.')

OPS = ['and', 'or', '<', '>', '<=', '>=', '==', '+', '-', '*', '/', '%']
LEV = [['and', 'or'], ['<', '>', '<=', '>=', '=='], ['+', '-'], ['*', '/', '%']]


def exprs():
    r = []
    a = r.append
    for o in OPS:
        a('a %s b' % o)
        for p in ('not a %s b', 'a %s not b', '- a %s b', 'a %s - b', 'not - a %s b', 'a %s not - b', 'not not a %s b', '- - a %s - - b',
                  '( a %s b )', 'f ( a %s b )', 'a [ b %s c ]', '[ a %s b ]', 'f ( a , b %s c )', '[ a %s b , c ]', 'a [ b ] %s c', 'f ( a ) %s b',
                  'a %s b [ c ]', 'a %s f ( b )', 'a %s b . c', 'a . b %s c', '1 %s 1.', '" %s none', 'none %s "', '1. %s 1'):
            a(p % o)
    for o, q in itertools.product(OPS, OPS):
        a('a %s b %s c' % (o, q))
    for o, q in itertools.product(OPS, OPS):
        if (OPS.index(o) + OPS.index(q)) % 2:
            a('a %s ( b %s c )' % (o, q))
        else:
            a('( a %s b ) %s c' % (o, q))
    k = 0
    for i, j, l in itertools.product(range(4), repeat=3):
        pick = lambda n, d: LEV[n][(k + d) % len(LEV[n])]
        o, q, s = pick(i, 0), pick(j, 1), pick(l, 2)
        k += 1
        a('a %s b %s c %s d' % (o, q, s))
        a('a %s ( b %s c ) %s d' % (o, q, s))
        a('a %s f ( b %s c ) %s d' % (o, q, s))
        a('a %s b [ c %s 1 ] %s d' % (o, q, s))
        a('a %s [ b %s c ] %s d' % (o, q, s))
        a('( a %s b ) %s ( c %s d )' % (o, q, s))
        a('not a %s b %s c %s d' % (o, q, s))
        a('a %s not b %s c %s d' % (o, q, s))
        a('a %s b %s not c %s d' % (o, q, s))
        a('a %s - b %s c %s - d' % (o, q, s))
        a('a %s not ( b %s c ) %s d' % (o, q, s))
        a('a %s ( b %s ( c %s d ) )' % (o, q, s))
        a('f ( a %s b , c %s d ) %s 1' % (o, q, s))
    for i, j, l, m in itertools.product(range(4), repeat=4):
        pick = lambda n, d: LEV[n][(k + d) % len(LEV[n])]
        k += 1
        a('a %s b %s c %s d %s 1' % (pick(i, 0), pick(j, 1), pick(l, 2), pick(m, 3)))
    return r


def leaves():
    return ['a', '1', '1.', '"', 'none', 'a . b', '- a', '- 1', '- a [ b ]', '- f ( a )', 'not a', 'not a [ b ]', 'not f ( a )', '( a )', '( ( a ) )',
            'a [ b ] [ c ]', 'a [ b [ c ] ]', 'f ( a ) ( b )', 'f ( f ( a ) )', 'f ( a ) [ b ]', 'a [ b ] ( c )', 'a . b [ c ]', 'a . b ( c )', '( a ) ( b )',
            '( a + b ) [ c ]', '( a + b ) ( c )', '[ a ]', '[ a , b ]', '[ a , b , c ]', '[ a , b , c , d ]', '[ [ a ] , [ b , c ] ]', '[ a ] [ b ]', 'f ( )',
            'f ( a , b )', 'f ( a , b , c )', 'f ( a , b , c , d )', '" [ a ]', '- - a', 'not not a', 'not - a', '- ( a + b )', '- ( a ) + b',
            '- a . b', 'f ( - a , not b )', '[ - a , not b ]', 'a [ - b ]', 'a [ not b ]', '( - a )', '( not a )', 'f ( a ) . b']


def run(ctx, R):
    S = parsem.Parser(ctx)
    items = ['var a = ' + x for x in exprs() + leaves()]
    R.fn(S.fn('parse'))
    frame.pmap(lambda t, r: one(S, t, r), items, R)
    if ctx.tier == 'thorough':
        # the same decisions above stacks that already hold anything
        frame.pmap(lambda t, r: one(S, t, r, base=None), items, R)
    R.floor('expressions', len(items), 1500)


def one(S, t, R, what='expression', base=0):
    sc = words(t) if isinstance(t, str) else list(t)
    want = parsem.reference(sc)
    try:
        f, res = S.program(sc, base)
    except E.Explosion as x:
        R.undecided(text(sc), str(x))
        return
    show = text(sc[3:]) if what == 'expression' and sc[0] == 'TOK_VAR' else text(sc)
    if not res:
        R.undecided(text(sc), 'no outcome')
    for kind, got, site in res:
        if kind == 'abort':
            continue
        if kind == 'odd':
            R.undecided(text(sc), got)
        elif kind == 'throw':
            R.bad('%s:throws' % what, f.loc(), 'parsing `%s` lets an exception escape' % show)
        elif kind == 'reject':
            if want[0] == 'accept':
                R.bad('%s:rejected' % what, site or f.loc(), '`%s` is rejected (%s)' % (show, got))
            else:
                R.ok('ill-formed %ss are rejected' % what)
        elif want[0] == 'reject':
            R.bad('%s:accepted' % what, f.loc(), '`%s` is accepted' % show)
        elif parsem.unknown(got):
            R.undecided(text(sc), str(got)[:100])
        elif got != want[1]:
            R.bad('%s:tree' % what, f.loc(), '`%s` is parsed as %s instead of %s' % (show, render(got, sc), render(want[1], sc)))
        else:
            R.ok('%ss are parsed to the tree they describe' % what)
    if all(k == 'abort' for k, g, s in res) and res:
        R.undecided(text(sc), 'aborts')


def render(t, sc, d=0):
    """a tree as text; tokens are named by their position"""
    n = lambda i: '%s%s' % ({'TOK_IDENT': 'x'}.get(sc[i], parsem.SHOW.get(sc[i], sc[i][4:].lower())), i) if isinstance(i, int) and i < len(sc) else str(i)
    q = lambda x: render(x, sc, d + 1)
    if t is None:
        return '-'
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if k == 'bin':
        return '(%s %s %s)' % (q(t[3]), n(t[1]), q(t[4]))
    if k == 'un':
        return '(%s %s)' % (n(t[1]), q(t[2]))
    if k in ('id', 'int', 'flt', 'str'):
        return n(t[1])
    if k == 'mem':
        return n(t[1]) + '.' + n(t[2])
    if isinstance(k, tuple):
        return '{%s}' % '; '.join(q(x) for x in t)
    return '%s(%s)' % (k, ', '.join(q(x) if isinstance(x, tuple) or x is None else n(x) for x in t[1:]))
