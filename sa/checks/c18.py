"""C18: the lexer tokenises any text completely and stays inside it."""
from terms import *
import eng as E
import frame, lexsem
from lexsem import *
from ir import Anchor

EXPLAIN = (
    'lexer_t::lex is analysed on LLVM IR from the head of its main loop, at an arbitrary position and line, once for '
    'every value of the byte at that position; all following bytes are symbolic and the text may end anywhere.  Loops '
    'over runs of characters are generalised to any length.  Every path yields the tokens pushed (kind, text range, '
    'line), the new position and the new line count, with the conditions on the bytes it rests on; each is compared '
    'with the lexical grammar on representatives of the byte classes those conditions allow.  Every load from the text '
    'must lie at or before the terminator on the path it is on.')


def run(ctx, R):
    S = lexsem.Step(ctx.P)
    R.fn(S.f)
    cur = S.cursor()
    if cur is None:
        R.undecided('lexer', 'position variable of the main loop not recognised')
        return
    jobs = [[b] for b in range(256)]
    dig = (48, 57, ())
    non = (32, 45, ())
    for n in range(1, 6):
        jobs.append([dig] * n + [non])
        for m in range(0, 3):
            if n <= 3:
                jobs.append([dig] * n + [46] + [dig] * m + [non])
    frame.pmap(lambda j, r: frame.guard(r, one, ctx, r, S, cur, j), jobs, R)
    R.floor('first bytes', 256, 256)
    frame.guard(R, stream, ctx, R)


def name(j):
    return ' '.join(repr(chr(b)) if type(b) is int else '[%d-%d]' % b[:2] for b in j)


def one(ctx, R, S, cur, j):
    P = ctx.P
    e, outs = S.run(j)
    key = 'text starting ' + name(j)
    site = S.f.loc()
    if S.started is None:
        R.undecided(key, 'main loop not entered')
        return
    if S.started[0] == FILE and S.started[1] == ONE:
        R.ok('line count starts at line 1 of the file')
    elif not (S.started[0][1] and S.started[0] != FILE) and not S.started[1][1]:
        R.bad('start line', site, 'lexing starts at line %s of file %s' % (show(S.started[1]), show(S.started[0])))
    else:
        R.undecided('start line', 'not recognised')
    I = lexsem.Inst(e)
    fixed = {i: (b - 256 if b > 127 else b) for i, b in enumerate(j) if type(b) is int}
    live = 0
    for o in outs:
        live += bool(outcome(R, S, I, e, o, cur, key, fixed, site))
    if not live:
        R.undecided(key, 'no path has an instance')
    if I.opaque:
        R.undecided(key, 'a path rests on the result of a library function')
    # loads
    seen = set()
    for off, facts, where in S.loads:
        k = (off, tuple(sorted(((str(f), r[:2]) for f, r in facts.d.items()))))
        if k in seen:
            continue
        seen.add(k)
        over = None
        some = False
        for B, K in I.make(facts.d, [off], fixed, extra=0, limit=60):
            at = ev(off, B, K)
            if at is None:
                continue
            some = True
            z = min([i for i, v in B.items() if v == 0] or [10 ** 6])
            if at > z and not facts.lossy:
                over = (text(B), at)
                break
        if over:
            R.bad('over-read:' + where, where, 'reads %d characters into the text %r, past its end' % (over[1] + 1, over[0]))
        elif some:
            R.ok('load inside the text')
    R.sample({'start': name(j), 'paths': len(outs), 'loads': len(seen)})


def text(B):
    s = ''
    for i in range(len(B)):
        if B[i] == 0:
            break
        s += chr(B[i] & 255)
    return s


def outcome(R, S, I, e, o, cur, key, fixed, site):
    pushes = [t for t in o.st.trace if t[0] == 'push']
    errs = [t for t in o.st.trace if t[0] == 'err']
    if any(t[0] == 'push' for lt in o.st.trace if lt[0] == 'loop' for alt in lt[2] for t in alt):
        R.undecided(key, 'tokens pushed in an inner loop')
        return
    pos = None
    if o.kind == 'back':
        pos = next((v for k, i, v in o.val if k == cur), None)
        if pos is None or not is_lin(pos):
            R.undecided(key, 'new position')
            return
        pos = sub(pos, TEXT)
    elif o.kind not in ('ret', 'throw'):
        return
    terms = [pos] if pos is not None else []
    for t in pushes:
        a = single(t[2]) if is_lin(t[2]) else None
        if a is not None and a.kind == 'srange':
            terms += [sub(a.args[0], TEXT), sub(a.args[1], TEXT)]
    some = 0
    und = set()
    for B, K in I.make(o.st.facts.d, terms, fixed, trace=o.st.trace):
        s = text(B)
        end = len(s) == len(B) and 'open'
        # what the language says, step by step
        got = []
        for t in pushes:
            got.append(token(R, S, key, t, B, K, s))
        if None in got:
            R.undecided(key, 'token pushed')
            return
        at = ev(pos, B, K) if pos is not None else None
        if pos is not None and at is None:
            R.undecided(key, 'new position')
            return
        some += 1
        r = judge(got, at, o, s, errs)
        if r is None:
            pass
        elif r == '?' or o.st.facts.lossy:
            und.add('outcome')
        else:
            R.bad(key + ':' + r[0], pushes[0][-1] if pushes else site, 'on the text %r %s' % (s + ('...' if end else ''), r[1]))
            return
        if o.kind == 'back':
            nl = s[:at].count('\n')
            la = add(LEX, C(S.o_lline))
            l0, l1 = e.load_raw(o.st, la, 4, 'i'), e.load_raw(o.st, add(la, C(4)), 4, 'i')
            if l0 == LF and l1 == add(LN, C(nl)):
                pass
            elif not sub(l1, LN)[1] or l0 != LF:
                R.bad(key + ':lines', site, 'after %r the line count is %s, file %s' % (s[:at], show(l1), show(l0)))
            else:
                und.add('line count')
        for t, g in zip(pushes, got):
            if g[0] in ('TOK_EOL', 'TOK_EOF'):
                continue
            if t[3] == LF and t[4] == LN:
                pass
            elif is_lin(t[4]) and (not sub(t[4], LN)[1] or t[4] == LF) or t[3] == LN:
                R.bad(key + ':tokenline', t[-1], 'the token %s carries line %s of file %s' % (g[0], show(t[4]), show(t[3])))
            else:
                und.add('line of a token')
    for u in sorted(und):
        R.undecided(key, u)
    if not some:
        R.ok('path without an instance')
    elif not und:
        R.ok('path agrees with the lexical grammar (tokens, position, lines)')
    return some


def token(R, S, key, t, B, K, s):
    """(kind, text or None, value or None)"""
    kind = S.tok.get(t[1][0]) if is_lin(t[1]) and not t[1][1] else None
    if kind is None:
        return None
    if kind in ('TOK_IDENT', 'TOK_STRING'):
        a = single(t[2]) if is_lin(t[2]) else None
        if a is None or a.kind not in ('srange', 'slit'):
            return None
        if a.kind == 'slit':
            return (kind, a.args[0])
        x, y = ev(sub(a.args[0], TEXT), B, K), ev(sub(a.args[1], TEXT), B, K)
        if x is None or y is None:
            return None
        if y < x or x < 0 or y > len(B):
            return (kind, ('range', x, y))
        return (kind, ''.join(chr(B[i] & 255) for i in range(x, y)))
    if kind == 'TOK_INT':
        v = ev(t[5], B, K)
        return (kind, ('int', v)) if v is not None else (kind, '?')
    if kind == 'TOK_FLOAT':
        a = single(t[5]) if is_lin(t[5]) else None
        if a is not None and a.kind == 'call' and a.args[0] == 'strtof':
            r = srcrange(a.args, B, K)
            if r is not None:
                return (kind, r)
        return (kind, '?')
    return (kind, None)


def srcrange(args, B, K):
    """the text that a conversion is given"""
    for x in flatten(args):
        if is_lin(x):
            for a in atoms_of(x):
                if a.kind == 'srange':
                    i, k = ev(sub(a.args[0], TEXT), B, K), ev(sub(a.args[1], TEXT), B, K)
                    if i is not None and k is not None and 0 <= i <= k <= len(B):
                        return ''.join(chr(B[q] & 255) for q in range(i, k))
            if any(a is TEXT[1][0][0] for a, k in x[1]):
                i = ev(sub(x, TEXT), B, K)
                if i is not None and i >= 0:
                    q = i
                    while q in B and chr(B[q] & 255) in DIG + '.':
                        q += 1
                    return ''.join(chr(B[z] & 255) for z in range(i, q))
    return None


def flatten(x):
    if is_lin(x) or not isinstance(x, tuple):
        yield x
    else:
        for y in x:
            yield from flatten(y)


def same(g, w):
    if g[0] != w[0]:
        return 'gives %s instead of %s' % (g[0], w[0])
    if g[0] in ('TOK_IDENT', 'TOK_STRING') and g[1] != w[1]:
        return 'gives %s with the text %r instead of %r' % (g[0], g[1], w[1])
    if g[0] == 'TOK_INT' and g[1] != '?' and g[1][1] != int(w[1]):
        return 'gives the number %s instead of %s' % (g[1][1], w[1])
    if g[0] == 'TOK_FLOAT' and g[1] != '?' and g[1] != w[1]:
        return 'converts %r instead of %r' % (g[1], w[1])
    return None


def judge(got, at, o, s, errs):
    """compare with the grammar: None if right"""
    i, want = 0, []
    while True:
        t, n, how = lexsem.step(s[i:])
        if how == 'err':
            # must have been reported, unless the iteration stopped before it
            if errs:
                return None if cmpl(got, want) is None else ('tokens', cmpl(got, want))
            if at is not None and at == i and i > 0:
                c = cmpl(got, want)
                return None if c is None else ('tokens', c)
            return ('error', 'no error is raised (%s)' % (', '.join(g[0] for g in got) or 'nothing'))
        if t is not None:
            want.append(t)
        if how == 'end':
            if o.kind == 'ret':
                if o.st.const(o.val) == 0:
                    return ('result', 'lexing fails without an error')
                g = [x for x in got if x[0] != 'TOK_EOL']
                w = [x for x in want if x[0] != 'TOK_EOL']
                c = cmpl(g, w)
                return None if c is None else ('tokens', c)
            if errs:
                return ('error', 'an error is raised')
            return ('position', 'lexing goes on past the end')
        if n <= 0:
            return '?'
        i += n
        if errs or o.kind == 'ret':
            # the path ends early: only right if the grammar ends here too
            if i >= len(s) or s[i:]:
                if errs:
                    nt, nn, nh = lexsem.step(s[i:])
                    if nh == 'err' or t is None:
                        continue
                    return ('error', 'an error is raised (%s)' % errs[0][1].split('::')[-1])
                if t is None:
                    continue
                return ('tokens', 'lexing stops')
        if at is not None and i >= at:
            if i > at:
                # a comment may be left together with the line end
                return ('position', 'lexing continues at %d instead of %d (%s)' % (at, i, ', '.join(g[0] for g in got) or 'no token'))
            c = cmpl(got, want)
            if c is None:
                return None
            return ('tokens', c)


def cmpl(got, want):
    for g, w in zip(got, want):
        r = same(g, w)
        if r:
            return r
    if len(got) > len(want):
        return 'gives an extra %s' % got[len(want)][0]
    if len(got) < len(want):
        return 'gives no %s' % want[len(got)][0]
    return None


# ---------------------------------------------------------------- token stream
def stream(ctx, R):
    P = ctx.P
    so = A('obj', 'STREAM')
    vec = add(so, C(P.field('nano::token_stream_t', 'stream_')))
    io = add(so, C(P.field('nano::token_stream_t', 'index_')))
    lo = add(so, C(P.field('nano::token_stream_t', 'line_')))
    size = P.sizeof('nano::token_t') if hasattr(P, 'sizeof') else 56
    IX = A('sym', 'IX')
    N = A('sym', 'N')

    def setup():
        e = E.Engine(P)
        e.join = False
        st = E.St()
        st.facts.le0(sub(ZERO, IX))
        st.facts.le0(sub(add(IX, ONE), N))
        lexsem.stdmodel.set_vsize(e, st, vec, N)
        e.store_raw(st, io, 4, IX)

        def err(eng, s, fr, x, fn, args):
            s.emit('err', eng.site())
            return [E.Out('throw', None, s)]
        e.hook(lexsem.re.compile(r'^nano::error_manager_t::(?!error_manager_t|~)'), err)
        return e, st
    cur = None
    for fname in ('pop', 'found', 'peek', 'type'):
        fs = [f for f in P.find('nano::token_stream_t::' + fname) if P.in_repo(f)]
        for f in fs:
            f.parse()
            R.fn(f)
            e, st = setup()
            W = A('sym', 'WANTED')
            outs = e.call_fn(f, [so] + [W] * (len(f.params) - 1), st)
            key = 'stream:%s/%d' % (fname, len(f.params) - 1)
            elem = add(A('vdata', vec), scale(IX, size))
            ty = e.load_raw(st, add(elem, C(P.field('nano::token_t', 'type_'))), 4, 'i')
            for o in outs:
                if o.kind == 'ret':
                    ix = e.load_raw(o.st, io, 4, 'i')
                    moved = sub(ix, IX)
                    if fname == 'type':
                        chk(R, key, f, near(o.val, ty), 'the kind of the current token is returned', moved == ZERO)
                    elif fname == 'peek':
                        chk(R, key, f, near(o.val, elem), 'the current token is returned', moved == ZERO)
                    elif len(f.params) == 1:
                        chk(R, key, f, near(o.val, elem), 'the current token is returned', moved == ONE)
                    else:
                        m = o.st.const(sub(ty, W)) == 0
                        ne = not m and differs(o.st, sub(ty, W))
                        if m:
                            chk(R, key, f, near(o.val, elem), 'a token of the wanted kind is returned', moved == ONE)
                        elif ne:
                            chk(R, key, f, near(o.val, ZERO), 'no token of another kind is returned', moved == ZERO)
                        else:
                            R.undecided(key, 'condition of a path')
                elif o.kind == 'throw' and fname == 'pop' and len(f.params) > 1:
                    if differs(o.st, sub(ty, W)):
                        R.ok('error only for another kind')
                    elif o.st.const(sub(ty, W)) == 0:
                        R.bad(key, f.loc(), 'an error is raised although the token has the wanted kind')


def differs(st, d):
    r = st.facts.rng(d)
    return (r[0] is not None and r[0] > 0) or (r[1] is not None and r[1] < 0) or 0 in (r[2] or ())


def near(v, w):
    if v == w:
        return True
    d = sub(v, w) if is_lin(v) else None
    return False if d is not None and not d[1] else None


def chk(R, key, f, good, what, pos):
    if good is False:
        R.bad(key, f.loc(), 'it does not hold that ' + what)
    elif good and pos:
        R.ok(what)
    elif good:
        R.bad(key + ':position', f.loc(), 'the position in the stream is not what it has to be after %s' % key)
    else:
        R.undecided(key, what)
