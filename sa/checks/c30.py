"""C30: global variables start with their initial values, in declaration order."""
import itertools
import frame, insem, linkspec, opsem, prewalk, skel, stdmodel, thr
from insem import flat, differs
from opsem import const_of
from prewalk import oname
from sema import O
from terms import *

EXPLAIN = (
    'The whole phase before code generation is analysed on LLVM IR for every sequence of up to three top-level declarations (variable '
    'with and without initialiser, constant, function), every kind of initialiser expression and for longer mixes: the tree it ends with has one initialiser function, whose '
    'body is exactly one assignment of the own initialiser per variable that has one, in declaration order.  Code generation puts '
    'the space for globals first, then that body, then a return, and emits nothing for a global declaration itself; the machine '
    'instruction that makes the space leaves every global none, whatever was there before; call_init looks that function up under '
    'the very name the compiler gives it, starts it without arguments and does not succeed before it has finished.')

EXPR = {'s': 'string', 'l': 'float', 'b': 'operator', 'i': 'name', 'r': 'array', 'k': 'call', 'u': 'negation'}
KIND = {'v': 'variable', 'n': 'variable without initialiser', 'c': 'constant', 'f': 'function', **{k: 'variable = ' + t for k, t in EXPR.items()}}


def shapes(P):
    out = [''.join(p) for n in range(4) for p in itertools.product('vncf', repeat=n)]
    out += [q for k in EXPR for q in (k, 'v' + k + 'v', k + 'n' + k)]
    out += ['vnvcfvn', 'fvfvfv', 'vvvvvvvv', 'nvnvnvc', 'cvcvfnv']
    return out


def initial(p, e, st, k, i):
    x, a, b = 'x%d' % i, 'xa%d' % i, 'xb%d' % i
    if k == 's':
        return p.node(e, st, x, 'ast_exp_lit_str_t')
    if k == 'l':
        return p.node(e, st, x, 'ast_exp_lit_float_t', val=A('input', x))
    if k == 'b':
        return p.node(e, st, x, 'ast_exp_bin_op_t', left=p.lit(e, st, a), right=p.lit(e, st, b), token=O('t:' + x))
    if k == 'u':
        return p.node(e, st, x, 'ast_exp_unary_op_t', child=p.lit(e, st, a), op=O('t:' + x))
    if k == 'i':
        return p.node(e, st, x, 'ast_exp_ident_t', name=p.token(e, st, 't:' + x, x), decl=p.var(e, st, 'd' + x, 'e_global'))
    if k == 'r':
        n = p.node(e, st, x, 'ast_exp_array_init_t', name=O('t:' + x))
        p.vec(e, st, add(n, C(p.fld('ast_exp_array_init_t', 'expr'))), [p.lit(e, st, a), p.lit(e, st, b)])
        return n
    if k == 'k':
        n = p.node(e, st, x, 'ast_exp_call_t', token=O('t:' + x), callee=initial(p, e, st, 'i', 100 + i))
        p.vec(e, st, add(n, C(p.fld('ast_exp_call_t', 'args'))), [p.lit(e, st, a)])
        return n
    return p.lit(e, st, x)


def children(p, shape):
    def mk(e, st):
        res = []
        for i, k in enumerate(shape):
            n = 'g%d' % i
            if k == 'f':
                res.append(p.func(e, st, n, [p.var(e, st, 'a%d' % i, 'e_arg')], [p.var(e, st, 'l%d' % i, 'e_local', 0, p.lit(e, st, 'y%d' % i))]))
            else:
                res.append(p.var(e, st, n, 'e_global', int(k == 'c'), initial(p, e, st, k, i) if k != 'n' else None))
        return res
    return mk


def tree(ctx, R):
    p = prewalk.Pre(ctx)
    def one(shape, r):
        e, outs = p.run(children(p, shape))
        r.fn(p.f)
        sh = ' '.join(KIND[k] for k in shape) or 'empty program'
        n = 0
        for o in outs:
            if o.kind != 'ret':
                r.undecided('init', '%s: %s' % (sh, o.kind))
                continue
            n += 1
            judge(p, e, o.st, shape, sh, r)
        if not n:
            r.undecided('init', sh + ': no path completes')
    frame.pmap(one, shapes(ctx.P), R)
    R.floor('programs', len(shapes(ctx.P)), 80)


def judge(p, e, st, shape, sh, r):
    lossy = st.facts.lossy
    w = p.f.loc()
    kids = p.items(e, st, p.kids)
    if kids is None:
        r.undecided('init', sh + ': declarations after the phase')
        return
    nodes = [p.ptr(e, st, a) for a in kids]
    mine = [oname(x) for x in nodes]
    want = ['g%d' % i for i in range(len(shape))]
    have = [m for m in mine if m in want]
    if have != want:
        if all(is_lin(x) for x in nodes) and not lossy:
            r.bad('init:program', w, '%s: the declarations of the program are %s afterwards' % (sh, have))
        else:
            r.undecided('init', sh + ': declarations')
        return
    fns = [x for x, m in zip(nodes, mine) if m not in want and is_lin(x) and p.type(e, st, x) == p.nt('ast_decl_func_t')]
    if len(fns) != 1:
        (r.bad if not fns and len(nodes) == len(want) and not lossy else lambda k, w, m: r.undecided('init', m))(
            'init:function', w, '%s: the program has %d initialiser functions' % (sh, len(fns)))
        return
    fn = fns[0]
    nm = p.text(e, st, add(fn, C(p.fld('ast_decl_func_t', 'name'))))
    if nm is None:
        r.undecided('init', 'name of the initialiser')
    else:
        r.sample('initialiser is called %s' % nm)
    body = p.ptr(e, st, add(fn, C(p.fld('ast_decl_func_t', 'body'))))
    stm = p.items(e, st, add(body, C(p.fld('ast_block_t', 'nodes')))) if is_lin(body) else None
    if stm is None:
        r.undecided('init', sh + ': statements')
        return
    got = []
    for a in stm:
        s = p.ptr(e, st, a)
        if not is_lin(s) or p.type(e, st, s) != p.nt('ast_stmt_assign_var_t'):
            r.undecided('init', sh + ': a statement of another kind')
            return
        d = oname(p.ptr(e, st, add(s, C(p.fld('ast_stmt_assign_var_t', 'decl')))))
        x = oname(p.ptr(e, st, add(s, C(p.fld('ast_stmt_assign_var_t', 'expr')))))
        if d is None or x is None:
            r.undecided('init', sh + ': an assignment')
            return
        got.append((d, x))
    exp = [('g%d' % i, 'x%d' % i) for i, k in enumerate(shape) if k == 'v' or k in EXPR]
    if got == exp:
        r.ok('initialisers assigned once each, in declaration order')
        return
    if lossy:
        r.undecided('init', sh + ': facts lost')
        return
    ds = [d for d, _ in got]
    lost = [d for d, _ in exp if d not in ds]
    extra = [d for d in ds if d not in [q for q, _ in exp]]
    if lost:
        m = 'the initialiser of variable %s is never assigned' % lost[0]
    elif extra:
        m = 'a %s is assigned by the initialiser function' % KIND[shape[int(extra[0][1:])]]
    elif len(ds) != len(set(ds)):
        m = 'a variable is initialised %d times' % max(ds.count(d) for d in ds)
    elif sorted(got) == sorted(exp):
        m = 'the variables are initialised in the order %s' % ', '.join(ds)
    else:
        m = 'a variable gets the initialiser of another one'
    r.bad('init:' + ('lost' if lost else 'extra' if extra else 'order'), w, '%s: %s' % (sh, m))


def compiled(ctx, R):
    """the code of a global declaration: none"""
    g = skel.Gen(ctx)
    P = ctx.P
    for const in (0, 1):
        for ex in (0, 1):
            lab = 'global %s %s initialiser' % ('constant' if const else 'variable', 'with' if ex else 'without')

            def su(e, st, n):
                sc = P.enum('nano::ast_decl_var_t::scope_t')
                opsem.put(P, e, st, n, 'nano::ast_decl_var_t', is_const=C(const), scope=C(sc['e_global']), offset=A('offset', 'own'),
                          expr=O('expr') if ex else ZERO, name=O('NAME'))
            e, outs, f = g.run('ast_decl_var_t', su, ('expr',) if ex else ())
            R.fn(f)
            for o, names, vs in outs:
                if o.kind != 'ret':
                    R.undecided(lab, o.kind)
                    continue
                try:
                    items, lines = skel.decode(g.info, o.st, [t for t in o.st.trace if t[0] not in ('call', 'store')], names, vs)
                except (skel.Bad, skel.Unknown) as x:
                    R.undecided(lab, x.args[0])
                    continue
                if items:
                    R.bad(lab + ':code', f.loc(), 'code is generated for a %s outside the initialiser function' % lab)
                else:
                    R.ok('no code for a global declaration')


def fresh(ctx, R):
    """INS_GLOBALS leaves every global none"""
    S = insem.eff(ctx)
    V = S.V
    op, op0 = 'INS_GLOBALS', A('op', 0)

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'vec_resize' and kw['vec'] == V.gvec:
            st.emit('gsize', kw['n'], stdmodel.vsize(eng, st.copy(), V.gvec), eng.site())
        elif kind == 'memset' and is_lin(kw['dst']) and kw['dst'] == A('vdata', V.gvec):
            st.emit('gclr', kw['n'], kw['val'], eng.site())
        elif kind in ('vec_insert', 'vec_erase') and kw['vec'] == V.gvec or kind == 'opaque_lib' and any(
                is_lin(a) and any(x == single(V.gvec) or V.gvec in [y for y in x.args if is_lin(y)] or (0, ((x, 1),)) == V.gvec for x in atoms_of(a)) for a in kw['args'] if is_lin(a)):
            st.emit('gopaque', eng.site())
        elif kind == 'store' and is_lin(kw['addr']) and any(a.kind == 'vdata' and a.args[0] == V.gvec for a, _ in kw['addr'][1]):
            st.emit('gopaque', eng.site())
    e, res, ts = S.case(op, ('int', 'int'), obs=obs)
    w = insem.handler(S, op)
    n = 0
    for r in insem.paths(R, S, op, res, op):
        st = r['st']
        n += 1
        if r['err'] or const_of(st, op0) == 0:
            continue
        fl = list(flat(st.trace))
        gs = [t for t in fl if t[0] == 'gsize']
        gc = [t for t in fl if t[0] == 'gclr']
        if any(t[0] == 'gopaque' for t in fl):
            R.undecided(op, 'globals are written by other means')
            continue
        if not gs:
            R.undecided(op, 'globals not resized on a path')
            continue
        insem.same(R, st, gs[-1][1], op0, op + ':n', gs[-1][3], 'space for %s globals is made instead of %s', 'space for every global')
        if len(gs) == 1 and gs[0][2] == ZERO:
            R.ok('globals start as none')
        elif gc and is_lin(gc[-1][1]):
            d = sub(gc[-1][1], scale(op0, 8))
            rr = st.facts.rng(d)
            v = const_of(st, gc[-1][2]) if is_lin(gc[-1][2]) else None
            if v not in (0, None):
                R.bad(op + ':value', gc[-1][3], 'the globals are filled with bytes %d' % v)
            elif d == ZERO or rr[0] is not None and rr[0] >= 0:
                R.ok('globals start as none')
            elif differs(st, d):
                R.bad(op + ':clear', gc[-1][3], 'only %s bytes of the globals are cleared' % show(gc[-1][1])[:60])
            else:
                R.undecided(op, 'bytes cleared %s' % show(gc[-1][1])[:60])
        elif not gc and not st.facts.lossy and len(gs) == 1 and single(gs[0][2]) is not None and single(gs[0][2]).kind == 'vsize':
            R.bad(op + ':stale', w, 'globals keep the values of an earlier initialisation')
        else:
            R.undecided(op, 'globals cleared')
    if not n:
        R.undecided(op, 'no path completes')


def started(ctx, R):
    """call_init: the function looked up, started without arguments, run until it has finished"""
    P = ctx.P
    T = thr.Thr(ctx)
    V = T.V
    f = T.fn('nano::vm_t::call_init')
    R.fn(f)
    e = V.engine()
    e.join = False
    st = V.state(e)
    NT, FN = O('NT'), O('FN')

    def find(eng, s, fr, x, fn, args):
        c = stdmodel.scontent(eng, s.copy(), args[1]) if is_lin(args[1]) else None
        s.emit('find', c, eng.site())
        return [(FN, s)]

    def new(eng, s, fr, x, fn, args):
        s.emit('new', tuple(args[1:]), eng.site())
        T.set(eng, s, NT, 0, 0, 0)
        return [(NT, s)]

    def resume(eng, s, fr, x, fn, args):
        s.emit('slice', args[0], eng.site())
        res = []
        for r_, fin, err in ((1, 0, 0), (1, 1, 0), (0, 1, 1)):
            t = s.copy()
            T.set(eng, t, args[0], fin, err)
            res.append((C(r_), t))
        return res
    e.hook('nano::thread_t::resume', resume)
    e.hook('nano::vm_t::new_thread', new)
    e.hook('nano::program_t::function_find', find)
    p = prewalk.Pre(ctx)
    e2, outs2 = p.run(children(p, 'v'))
    made = set()
    for o in outs2:
        if o.kind == 'ret':
            for a in p.items(e2, o.st, p.kids) or ():
                x = p.ptr(e2, o.st, a)
                if oname(x) is None and is_lin(x) and p.type(e2, o.st, x) == p.nt('ast_decl_func_t'):
                    made.add(p.text(e2, o.st, add(x, C(p.fld('ast_decl_func_t', 'name')))))
    seen = 0
    for o in e.call_fn(f, [V.vm], st):
        if o.kind != 'ret':
            continue
        s = o.st
        fs = [t for t in flat(s.trace) if t[0] == 'find']
        ns = [t for t in flat(s.trace) if t[0] == 'new']
        r_ = s.const(o.val) if is_lin(o.val) else None
        for t in fs:
            a = single(t[1]) if t[1] is not None and is_lin(t[1]) else None
            if a is None or a.kind != 'slit' or len(made) != 1 or None in made:
                R.undecided('call_init:name', 'name looked up')
                continue
            nm = a.args[0] if isinstance(a.args[0], str) else bytes(a.args[0]).decode('latin1')
            if {nm} == made:
                R.ok('the initialiser is looked up under its name')
            else:
                R.bad('call_init:name', t[2], 'call_init looks up %s but the compiler calls the initialiser %s' % (nm, list(made)[0]))
        for t in ns:
            seen += 1
            if t[1][0] != FN:
                R.undecided('call_init:function', 'function started')
            elif is_lin(t[1][1]) and s.const(t[1][1]) == 0:
                R.ok('the initialiser is started without arguments')
            elif is_lin(t[1][1]) and s.const(t[1][1]) is not None:
                R.bad('call_init:args', t[2], 'the initialiser is started with %d arguments' % s.const(t[1][1]))
        if r_ is None:
            R.undecided('call_init', 'result')
        elif r_ and not ns:
            R.bad('call_init:skipped', f.loc(), 'call_init succeeds without starting the initialiser')
        elif r_:
            fin = T.values(e, s, T.flag(s, V.o_fin, NT))
            if fin == {1}:
                R.ok('success means the initialiser has finished')
            elif fin is not None and 1 not in fin:
                R.bad('call_init:unfinished', f.loc(), 'call_init succeeds before the initialiser has finished')
            else:
                R.undecided('call_init', 'thread state')
    if not seen:
        R.undecided('call_init', 'no thread started')


def run(ctx, R):
    frame.guard(R, tree, ctx, R)
    frame.guard(R, compiled, ctx, R)
    frame.guard(R, lambda: linkspec.functions(linkspec.Link(ctx), R, 'C21'))
    frame.guard(R, fresh, ctx, R)
    frame.guard(R, started, ctx, R)
