"""C34: the builtins of the drivers keep to what was declared of them."""
import re
import bltin, frame, insem
from checks import c12, c33
from terms import *
from thr import flat

EXPLAIN = (
    'The tables each driver gives to the compiler (name, number of arguments) and to the program (name, function) are read off every path of its '
    'main function; each builtin is then analysed path by path on LLVM IR against the stack of its thread: called with the declared number of arguments, of every '
    'kind, it takes exactly these and leaves exactly one result unless it raises an error; called with any other number (which an '
    'indirect call can do) it raises an error and takes and leaves nothing.')

KINDS = ('int', 'float', 'string', 'array', 'none', 'func')


def tables(ctx, tool, f, R):
    """-> name -> arity, name -> function of one driver"""
    odd = []

    def reg(eng, st, fr, x, g, a):
        c, n = bltin.strval(eng, st, a[1]), st.const(a[2]) if is_lin(a[2]) else None
        st.emit('reg', c, n)
        return [(ZERO, st)]

    def res(eng, st, fr, x, g, a):
        c, v = bltin.strval(eng, st, a[1]), single(a[2]) if is_lin(a[2]) else None
        st.emit('res', c, v.args[0] if v is not None and v.kind == 'fnp' else None)
        return [(ONE, st)]

    def extra(e):
        e.hook('nano::nano_t::syscall_register', reg)
        e.hook('nano::program_t::syscall_resolve', res)
    run = c33.Run(ctx, f, ['drv', 'a.nano'], 'int', extra)
    best = None
    for evs, code, st, tr in run.paths():
        if not any(t[1] in ('run', 'thread') for t in evs):
            continue
        rg = [t for t in tr if t[0] == 'reg']
        rs = [t for t in tr if t[0] == 'res']
        if any(None in t[1:3] for t in rg + rs) or st.facts.lossy:
            R.undecided(tool + ' tables', 'built in an unknown way')
            continue
        have = {t[1]: t[2] for t in rg}, {t[1]: t[2] for t in rs}
        for n in have[0]:
            if n not in have[1]:
                R.bad('%s:bind:%s' % (tool, n), f.loc(), 'the builtin %s is declared but never bound to a function' % n)
            else:
                R.ok('every builtin declared is bound')
        best = have
    return best


def helpers(P, f):
    """functions of the same file that are given numbers only and return nothing: they cannot reach the stack of a thread"""
    out = []
    for g in f.mod.fns.values():
        if g is f or not P.in_repo(g) or g.src()[0] != f.src()[0]:
            continue
        g.parse()
        if g.params and g.mod.resolve(g.rettype)[0] == 'void' and all(g.mod.resolve(t)[0] in ('i', 'f', 'float', 'double') for t, _ in g.params):
            out.append(g)
    return out


def one(S, R, key, n, na, kinds, f, wrong):
    V = S.V
    arg = A('arg', 'nargs')

    def ex(e, st):
        for g in helpers(S.P if hasattr(S, 'P') else V.P, f):
            e.hook(g.dem, lambda eng, s, fr, x, fn, args: [(ZERO, s)])
        if wrong:
            st.facts.le0(sub(arg, C(8)))
            st.facts.ge0(arg)
            st.facts.ne0(sub(arg, C(na)))

    e, outs, ts = bltin.case(V, f, arg if wrong else na, kinds, extra=ex)
    for r in c12.outcomes(S, R, key, outs, f):
        d = r['st'].const(r['d']) if is_lin(r['d']) else None
        if r['st'].facts.lossy or d is None:
            R.undecided(key, 'stack height')
            continue
        if wrong:
            if r['err'] == 0:
                R.bad(key + ':count', f.loc(), 'the builtin %s raises no error when it is called with a wrong number of arguments' % n)
            else:
                R.ok('wrong argument count raises an error')
            continue
        if r['err']:
            R.ok('unsuitable arguments raise an error')
        elif d == 1 - na:
            R.ok('takes its arguments and leaves one result')
        else:
            R.bad(key + ':stack', f.loc(), 'the builtin %s, called with its %d arguments (%s), changes the stack by %s instead of %d' % (
                n, na, ', '.join(kinds), d, 1 - na))


def run(ctx, R):
    S = insem.eff(ctx)
    ms = c33.mains(ctx.P)
    jobs = []
    for tool in ('driver', 'driver_sdl'):
        f = ms.get(tool)
        if f is None:
            if tool == 'driver':
                R.floor('driver main', 0, 1)
            continue
        R.fn(f)
        t = tables(ctx, tool, f, R)
        if t is None:
            R.undecided(tool + ' tables', 'not found')
            continue
        jobs += [(tool, n, t[0][n], t[1][n]) for n in sorted(t[0]) if n in t[1]]
    R.floor('builtins', len(jobs), 5)

    def work(j, r):
        tool, n, na, f = j
        r.fn(f)
        key = tool + ':' + n
        if na < 0:
            r.undecided(key, 'any number of arguments')
            return
        mix = {('int',) * na, ('none',) * na}
        base = ('int',) * na
        for i in range(na):
            for k in KINDS if na < 3 else ('float', 'string', 'none'):
                mix.add(base[:i] + (k,) + base[i + 1:])
        for k in KINDS if na < 3 else ('float', 'string'):
            mix.add((k,) * na)
        for ks in sorted(mix):
            frame.guard(r, one, S, r, key, n, na, ks, f, False)
        frame.guard(r, one, S, r, key, n, na, ('int',) * 4, f, True)
    frame.pmap(work, sorted(jobs, key=lambda j: -j[2]), R)
