"""C31: functions and builtins are found exactly under their names and addresses."""
import itertools
import frame, opsem, prewalk, stdmodel
import eng as E
from prewalk import oname
from sema import O
from terms import *

EXPLAIN = (
    'The phase that makes the function table is analysed on LLVM IR for every sequence of up to three top-level declarations '
    '(functions of 0 to 3 parameters, builtins, variables) and longer mixes: the table it ends with has exactly one entry per function '
    'of the source (and the initialiser), with its name, its parameters in order under their names with their slots, and its locals; '
    'builtins are not listed as functions and are listed once as builtins.  The lookups by name and by address and the binding of a '
    'builtin are analysed for tables whose names are prefixes, extensions and case variants of each other and adjacent address '
    'ranges in any order, at every boundary: the result is the entry asked for, or none exactly when there is none.')

NAMES = ['f', 'ff', 'F', 'fg', 'main', 'f1', '', 'mai', 'mainx']


def table(p, e, names, st):
    fv = add(O('PROGRAM'), C(p.fld('program_t', 'functions_')))
    fs = p.P.cls('nano::function_t').size
    stdmodel.set_vsize(e, st, fv, C(len(names)))
    for i, n in enumerate(names):
        p.string(e, st, add(A('vdata', fv), C(i * fs + p.fld('function_t', 'name_'))), n)
    return fv, fs


def lookup(ctx, R):
    P = ctx.P
    p = prewalk.Pre(ctx)
    fns = [f for f in P.find('nano::program_t::function_find') if P.in_repo(f)]
    byname = [f for f in fns if 'basic_string' in f.dem or 'string' in f.dem.split('(', 1)[1]]
    byaddr = [f for f in fns if f not in byname]
    R.floor('lookups by name', len(byname), 1)
    R.floor('lookups by address', len(byaddr), 1)
    jobs = []
    for f in byname:
        for names in (NAMES[:6], NAMES[5::-1], ['main', 'main2', 'x'], ['f'], []):
            for q in NAMES + ['x', 'FF']:
                jobs.append(('n', f, names, q))
    for f in byaddr:
        rs = [[0, 5], [5, 9], [9, 20]]
        for perm in itertools.permutations(rs):
            for q in (-1, 0, 4, 5, 8, 9, 19, 20, 21, 1 << 20):
                jobs.append(('a', f, list(perm), q))
        for q in (-1, 0, 1):
            jobs.append(('a', f, [], q))
        big = [[1000 * i, 1000 * i + 1000] for i in range(300)][250:260]
        for q in (249999, 250000, 255999, 256000, 259999, 260000):
            jobs.append(('a', f, big, q))

    def one(j, r):
        kind, f, tab, q = j
        r.fn(f)
        e = E.Engine(P)
        e.join = False
        e.unroll = 24
        st = E.St()
        if kind == 'n':
            fv, fs = table(p, e, tab, st)
            p.string(e, st, O('Q'), q)
            arg, want = O('Q'), (tab.index(q) if q in tab else None)
            lab = 'looking up the name "%s" among %s' % (q, tab)
        else:
            fv, fs = table(p, e, ['f%d' % i for i in range(len(tab))], st)
            for i, (a, b) in enumerate(tab):
                e.store_raw(st, add(A('vdata', fv), C(i * fs + p.fld('function_t', 'code_start_'))), 4, C(a))
                e.store_raw(st, add(A('vdata', fv), C(i * fs + p.fld('function_t', 'code_end_'))), 4, C(b))
            arg, want = C(q), next((i for i, (a, b) in enumerate(tab) if a <= q < b), None)
            lab = 'looking up address %d among %s' % (q, tab)
        key = 'lookup by %s' % ('name' if kind == 'n' else 'address')
        outs = e.call_fn(f, [O('PROGRAM'), arg], st)
        for o in outs:
            if o.kind != 'ret' or not is_lin(o.val):
                r.undecided(key, lab)
                continue
            v = o.val
            if len(outs) > 1 or o.st.facts.lossy:
                r.undecided(key, lab + ': %d paths' % len(outs))
                continue
            if v == (ZERO if want is None else add(A('vdata', fv), C(want * fs))):
                r.ok('the lookup returns the entry asked for')
            elif v == ZERO:
                r.bad(key + ':missing', f.loc(), lab + ' finds nothing')
            elif sub(v, A('vdata', fv))[1] == ():
                r.bad(key + ':wrong', f.loc(), lab + ' finds entry %s' % (sub(v, A('vdata', fv))[0] // fs))
            else:
                r.undecided(key, lab + ': result %s' % show(v)[:60])
    frame.pmap(one, jobs, R)


def resolve(ctx, R):
    """binding a builtin"""
    P = ctx.P
    p = prewalk.Pre(ctx)
    fs = [f for f in P.find('nano::program_t::syscall_resolve') if P.in_repo(f)]
    R.floor('builtin binding', len(fs), 1)
    cls = next((c for c in P.classes() if c.endswith('syscall_entry_t')), None)
    if cls is None:
        R.undecided('resolve', 'entry type')
        return
    on, oc, es = P.field(cls, 'name_'), P.field(cls, 'call_'), P.cls(cls).size
    sv = add(O('PROGRAM'), C(p.fld('program_t', 'syscalls_')))
    jobs = [(f, t, q) for f in fs for t in (['sin', 'sinh', 'SIN', 'si'], ['si', 'sin'], ['abs'], []) for q in ('sin', 'si', 'SIN', 's', 'abs', 'sinhx', '')]

    def one(j, r):
        f, tab, q = j
        r.fn(f)
        e = E.Engine(P)
        e.join = False
        e.unroll = 24
        st = E.St()
        stdmodel.set_vsize(e, st, sv, C(len(tab)))
        at = lambda i, o: add(A('vdata', sv), C(i * es + o))
        for i, n in enumerate(tab):
            p.string(e, st, at(i, on), n)
            e.store_raw(st, at(i, oc), 8, O('old%d' % i))
        p.string(e, st, O('Q'), q)
        lab = 'binding builtin "%s" among %s' % (q, tab)
        outs = e.call_fn(f, [O('PROGRAM'), O('Q'), O('FN')], st)
        for o in outs:
            if o.kind != 'ret' or len(outs) > 1 or o.st.facts.lossy or not is_lin(o.val) or o.st.const(o.val) is None:
                r.undecided('resolve', lab)
                continue
            for i, n in enumerate(tab):
                v = oname(e.load_raw(o.st, at(i, oc), 8, 'p'))
                w = 'FN' if n == q else 'old%d' % i
                if v == w:
                    r.ok('exactly the entry of that name is bound')
                elif v in ('FN', 'old%d' % i):
                    r.bad('resolve:' + ('other' if v == 'FN' else 'lost'), f.loc(), lab + (' binds "%s"' % n if v == 'FN' else ' leaves it unbound'))
                else:
                    r.undecided('resolve', lab + ': entry')
            if bool(o.st.const(o.val)) == (q in tab):
                r.ok('reports whether the builtin exists')
            else:
                r.bad('resolve:result', f.loc(), lab + ' reports %s' % bool(o.st.const(o.val)))
    frame.pmap(one, jobs, R)


def shapes():
    al = '0123sv'
    out = [''.join(q) for n in range(3) for q in itertools.product(al, repeat=n)]
    out += [''.join(q) for q in itertools.product('02s', repeat=3)] + ['13v2s0', 'ss0s1', '222222']
    return out


def made(ctx, R):
    """the tables after the phase before code generation"""
    P = ctx.P
    p = prewalk.Pre(ctx)
    fs = P.cls('nano::function_t').size
    ids = P.cls('nano::identifier_t').size
    io, inm = P.field('nano::identifier_t', 'offset_'), P.field('nano::identifier_t', 'name_')
    cls = next((c for c in P.classes() if c.endswith('syscall_entry_t')), None)

    def one(shape, r):
        r.fn(p.f)

        def mk(e, st):
            res = []
            for i, k in enumerate(shape):
                if k == 's':
                    res.append(p.func(e, st, 'b%d' % i, [p.var(e, st, 'b%da%d' % (i, j), 'e_arg') for j in range(2)], syscall=1))
                elif k == 'v':
                    res.append(p.var(e, st, 'g%d' % i, 'e_global'))
                else:
                    res.append(p.func(e, st, 'f%d' % i, [p.var(e, st, 'f%da%d' % (i, j), 'e_arg') for j in range(int(k))],
                                      [p.var(e, st, 'f%dl%d' % (i, j), 'e_local') for j in range(i % 3)]))
            return res
        e, outs = p.run(mk)
        for o in outs:
            if o.kind != 'ret':
                r.undecided('table', '%s: %s' % (shape, o.kind))
                continue
            st = o.st
            lossy = st.facts.lossy
            ents = p.items(e, st, add(O('PROGRAM'), C(p.fld('program_t', 'functions_'))), fs)
            if ents is None:
                r.undecided('table', shape + ': number of entries')
                continue
            nm = [p.text(e, st, add(a, C(p.fld('function_t', 'name_')))) for a in ents]
            want = ['f%d' % i for i, k in enumerate(shape) if k.isdigit()]
            if None in nm:
                r.undecided('table', shape + ': names')
                continue
            user = [x for x in nm if x[:1] in 'fbg']
            if sorted(user) != want or lossy:
                if lossy:
                    r.undecided('table', shape)
                else:
                    r.bad('table:entries', p.f.loc(), 'functions %s of a program are listed as %s' % (want, user))
                continue
            r.ok('every function listed once under its name')
            for a, x in zip(ents, nm):
                if x not in want:
                    continue
                i = int(x[1:])
                for fld, exp in (('args_', ['f%da%d' % (i, j) for j in range(int(shape[i]))]), ('locals_', ['f%dl%d' % (i, j) for j in range(i % 3)])):
                    el = p.items(e, st, add(a, C(p.fld('function_t', fld))), ids)
                    if el is None:
                        r.undecided('table:' + fld, shape)
                        continue
                    tx = [p.text(e, st, add(b, C(inm))) for b in el]
                    of = [p.int(e, st, add(b, C(io))) for b in el]
                    what = 'parameters' if fld == 'args_' else 'locals'
                    if None in tx:
                        r.undecided('table:' + fld, '%s: names' % shape)
                        continue
                    mine = [t for t in tx if t in exp]
                    if (tx if fld == 'args_' else mine) != exp:
                        r.bad('table:' + fld, p.f.loc(), 'a function with %s %s is listed with %s' % (what, exp, tx))
                        continue
                    real = [p.int(e, st, add(O(t), C(p.fld('ast_decl_var_t', 'offset')))) for t in exp]
                    got = [q for t, q in zip(tx, of) if t in exp]
                    if None in got or None in real:
                        r.undecided('table:' + fld, '%s: slots' % shape)
                    elif got == real:
                        r.ok('%s listed in order with their slots' % what)
                    else:
                        r.bad('table:slots', p.f.loc(), 'the %s %s are listed with slots %s instead of %s' % (what, exp, got, real))
            if cls:
                sy = p.items(e, st, add(O('PROGRAM'), C(p.fld('program_t', 'syscalls_'))), P.cls(cls).size)
                tx = None if sy is None else [p.text(e, st, add(b, C(P.field(cls, 'name_')))) for b in sy]
                wb = ['b%d' % i for i, k in enumerate(shape) if k == 's']
                if tx is None or None in tx:
                    r.undecided('table:builtins', shape)
                elif sorted(tx) == sorted(wb):
                    r.ok('every builtin listed once')
                elif set(tx) >= set(wb) and len(tx) == len(set(tx)) or set(tx) - set(wb):
                    r.bad('table:builtins', p.f.loc(), 'builtins %s are listed as %s' % (wb, tx))
                else:
                    r.undecided('table:builtins', '%s: %s' % (shape, tx))
    frame.pmap(one, shapes(), R)
    R.floor('programs', len(shapes()), 60)


def run(ctx, R):
    frame.guard(R, made, ctx, R)
    frame.guard(R, lookup, ctx, R)
    frame.guard(R, resolve, ctx, R)
