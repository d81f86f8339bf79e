"""C28: programs are parsed to the structure they describe, and only well-formed ones."""
import itertools
import frame, parsem
from parsem import words, text
from checks import c23

EXPLAIN = (
    'parser_t::parse is analysed with the token stream summarised by its public operations over a given sequence of token '
    'kinds (token contents unknown).  The outcome of every path - accepted with a tree, or rejected - is compared with a '
    'reference grammar of the language.  Sequences: every statement kind alone, in every kind of body and after every '
    'other kind; list lengths zero to four; blank lines in every position; and for each construct every sequence that '
    'results from leaving out, doubling, replacing or swapping one token.')

EXPR = ['a', 'a + b', 'f ( a , 1 )', 'a [ 1 ]', '[ a , b ]', '- a', 'not a', '" + a', '( a )', 'none', 'a . b', '1.']
SIMPLE = ['var a', 'var a = 1', 'a = 1', 'a = b + 1', 'a + = 1', 'a - = b', 'a * = b + c', 'a / = - b', 'a . b = 1', 'a [ 1 ] = b', 'a [ b + 1 ] = c + 1',
          'f ( )', 'f ( a )', 'f ( a , b )', 'f ( a , b + 1 , c )', 'return', 'return 1', 'return a + b', 'return f ( a )', 'return [ a , b ]']
BODY = ['if ( a ) ; %s end', 'if ( a + b ) ; %s else ; end', 'if ( a ) ; else ; %s end', 'while ( a ) ; %s end', 'for ( a = 1 to b ) ; %s end']
EDIT = ['TOK_IDENT', 'TOK_INT', 'TOK_LPAREN', 'TOK_RPAREN', 'TOK_LBRACKET', 'TOK_RBRACKET', 'TOK_COMMA', 'TOK_EOL', 'TOK_SUB', 'TOK_ASSIGN', 'TOK_END', 'TOK_ELSE',
        'TOK_TO', 'TOK_VAR', 'TOK_DOT', 'TOK_NOT', 'TOK_FUNC', 'TOK_RETURN', 'TOK_CONST', 'TOK_MOD', 'TOK_STRING']


def fn(body, args=''):
    return 'function f ( %s ) ; %s end' % (args, body)


def good():
    r = []
    a = r.append
    for x in EXPR:
        a('var a = %s' % x)
        a('const a = %s' % x)
        for s in ('var a = %s', 'a = %s', 'a + = %s', 'a - = %s', 'a * = %s', 'a / = %s', 'a . b = %s', 'a [ %s ] = 1', 'a [ 1 ] = %s', 'f ( %s )', 'f ( 1 , %s )', 'return %s'):
            a(fn((s % x) + ' ;'))
        for s in ('if ( %s ) ; end ;', 'while ( %s ) ; end ;', 'for ( a = %s to 1 ) ; end ;', 'for ( a = 1 to %s ) ; end ;'):
            a(fn(s % x))
    for s in SIMPLE:
        a(fn(s + ' ;'))
        a(fn('; ; ' + s + ' ; ; ;'))
        for b in BODY:
            a(fn(b % (s + ' ;') + ' ;'))
            a(fn(b % ('; ' + s + ' ; ; ' + s + ' ;') + ' ; ;'))
    for b in BODY:
        a(fn(b % '' + ' ;'))
        a(fn(b % ';' + ' ;'))
        a(fn(b % '; ; ;' + ' ;'))
        for c in BODY:
            a(fn(b % (c % 'a = 1 ;' + ' ;') + ' ;'))
            a(fn(b % (c % '' + ' ; ' + c % 'b = a ;' + ' ;') + ' ; a = 1 ;'))
            a(fn(c % '' + ' ; ' + b % '' + ' ;'))
    for s, t in itertools.product(SIMPLE[::2], SIMPLE[1::2]):
        a(fn(s + ' ; ' + t + ' ;'))
    a(fn('if ( a ) ; b = 1 ; c = 2 ; else ; b = 2 ; c = 1 ; end ;'))
    for n in range(5):
        a(fn('', ' , '.join('abcd'[:n])))
        a(fn('return a ;', ' , '.join('abcd'[:n])))
        a(fn('f ( %s ) ;' % ' , '.join('abcd'[:n])))
    for p in ('', ';', '; ; ;', 'var a', 'var a = 1', 'var a var b', 'var a ; var b = a ; ; const c = 1 ; ;', 'var a ; ' + fn(''), fn('') + ' ; ' + fn('', 'a'),
              fn('') + ' ' + fn(''), 'const a = 1 ; ' + fn('return a ;') + ' ; var b = a', fn(';'), fn('; ;')):
        a(p)
    return r


CORE = ['var a = b + 1 ; const c = a ;', fn('a = b + 1 ;', 'a , b'), fn('if ( a ) ; b = 1 ; else ; c = 2 ; end ;'), fn('while ( a < 1 ) ; f ( a , b ) ; end ;'),
        fn('for ( a = 1 to b ) ; a + = 1 ; end ;'), fn('a [ 1 ] = b . c ; return - a ;'), fn('a . b = [ a , b ] ; var c = f ( ) ;'),
        fn('var a ; return ;'), 'var a = f ( b , c ) [ 1 ] ;', 'var a = not ( b ) ;', fn('a - = " + none ; ') + ' ; var b = 1.']


def edits(base=CORE):
    seen = set()
    for c in base:
        w = words(c)
        cand = []
        for i in range(len(w)):
            cand.append(w[:i] + w[i + 1:])
            cand.append(w[:i] + [w[i]] + w[i:])
            if i + 1 < len(w):
                cand.append(w[:i] + [w[i + 1], w[i]] + w[i + 2:])
            cand.append(w[:i])
            for k in EDIT:
                cand.append(w[:i] + [k] + w[i + 1:])
        for x in cand:
            x = tuple(x)
            if x not in seen and 'TOK_IMPORT' not in x:
                seen.add(x)
    return sorted(seen)


def run(ctx, R):
    S = parsem.Parser(ctx)
    R.fn(S.fn('parse'))
    g = sorted({tuple(words(x)) for x in good()})
    e = edits()
    if ctx.tier == 'thorough':
        e = sorted(set(e) | set(edits([x for i, x in enumerate(good()) if i % 4 == 0])))
    bad = [x for x in g if parsem.reference(x)[0] != 'accept']
    assert not bad, bad[0]
    frame.pmap(lambda t, r: c23.one(S, t, r, 'program'), g, R)
    frame.pmap(lambda t, r: c23.one(S, t, r, 'program'), e, R)
    R.floor('well-formed token sequences', len(g), 400)
    R.floor('edited token sequences', len(e), 800)
