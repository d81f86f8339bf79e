"""C15: constants are immutable and replaced by their values."""
import re
import eng as E
import opsem, stdmodel, sema, visit, nodespec, slots
import frame
from sema import O, child_name
from terms import *
from ir import Anchor, thresholds

EXPLAIN = (
    'The passes run by run_sema are taken from its code.  For every kind of assignment (variable, element, member, loop '
    'variable), for a member read and for a use of a constant, the visit() methods of all passes are analysed on LLVM IR: '
    'some pass raises an error on every path when the declaration is a constant and none when it is a variable; a use of a '
    'constant is replaced in its parent by the very literal of the constant, and rejected when the constant is no literal; '
    'a constant without a value is rejected.  Declarations parsed from `const` carry the mark and those from `var` do not. '
    'Slot assignment, the number of globals reserved, @init and the table of globals are analysed on a program that '
    'interleaves constants with variables: constants take no slot, are not initialised at run time and not listed.  The traversal of the '
    'passes and replace_child of every node kind are shown to reach and to replace every child.')

ASSIGN = ('ast_stmt_assign_var_t', 'ast_stmt_assign_array_t', 'ast_stmt_assign_member_t', 'ast_stmt_for_t')
LITS = ('ast_exp_lit_var_t', 'ast_exp_lit_float_t', 'ast_exp_lit_str_t')
WHAT = {'ast_stmt_assign_var_t': 'an assignment to a constant', 'ast_stmt_assign_array_t': 'an assignment to an element of a constant',
        'ast_stmt_assign_member_t': 'an assignment to a member of a constant', 'ast_stmt_for_t': 'a loop that uses a constant as its variable',
        'ast_exp_member_t': 'a member access through a constant'}


def paths(ctx, cls, node, const, expr=None, exists=True, parent=False):
    """(engine, outs, function) of visit(node) in pass cls with the declaration a constant or a variable"""
    P = ctx.P
    S = ctx.get(('pass', cls), lambda: sema.Pass(ctx, cls))
    W = S.W

    def su(e, st, n):
        d = W.node(e, st, 'DECL', 'ast_decl_var_t', is_const=C(const), name=O('DNAME'))
        if expr and expr != '?':
            W.node(e, st, 'DEXPR', expr)
        if expr != '?':
            opsem.put(P, e, st, d, 'nano::ast_decl_var_t', expr=O('DEXPR') if expr else ZERO)
        if node == 'ast_decl_var_t':
            opsem.put(P, e, st, n, 'nano::ast_decl_var_t', is_const=C(const), name=O('NAME'), expr=O('DEXPR') if expr else ZERO,
                      scope=C(P.enum('nano::ast_decl_var_t::scope_t')['e_global']))
        else:
            resolver = any(S.cls == r for r in ctx.memo.get('resolvers', ()))
            opsem.put(P, e, st, n, 'nano::' + node, decl=ZERO if resolver else d, name=O('NAME'))
        if parent:
            sv = add(W.this, C(P.field('nano::ast_visitor_t', 'stack')))
            dep = 3 if parent is True else parent
            stdmodel.set_vsize(e, st, sv, C(dep))
            for i, x in enumerate([O('ROOT')] + [O('ANC%d' % q) for q in range(dep - 3)] + [O('PARENT'), n]):
                e.store_raw(st, add(A('vdata', sv), C(8 * i)), 8, x)
    return S.run(node, su, found=O('DECL'))


def rejects(outs):
    """True: an error on every path, False: some path completes, None: no path"""
    l = [o for o in outs or () if o.kind in ('ret', 'throw')]
    if not l:
        return None
    return all(o.kind == 'throw' or any(t[0] == 'err' for t in o.st.trace) for o in l)


def assignments(ctx, ps, R):
    for node in ASSIGN + ('ast_exp_member_t',):
        res, fns, fails = [], [], False
        for cls in ps:
            try:
                e, o1, f = paths(ctx, cls, node, 1, '?')
                e, o0, f = paths(ctx, cls, node, 0, '?')
            except Exception as x:
                fails = True
                R.undecided('%s:%s' % (cls, node), str(x)[:100])
                continue
            a, b = rejects(o1), rejects(o0)
            if f is not None:
                R.fn(f)
            anyerr = any(t[0] == 'err' for o in o0 or () for t in o.st.trace)
            if a and not anyerr:
                res.append((cls, o1, f))
            elif a is None and o1:
                fails = True
            fns.append(f)
            if b is not None and anyerr:
                t = next(t for o in o0 for t in o.st.trace if t[0] == 'err')
                if t[1] == 'cant_assign_const' or (b and not a):
                    R.bad(node + ':variable', t[3], '%s is applied to a variable' % t[1])
            if a is False and any(t[0] == 'err' for o in o1 for t in o.st.trace):
                # some paths of a constant rejected, some not
                pass
        if res:
            R.ok('%s is rejected' % WHAT[node])
            for cls, o1, f in res:
                for o in o1:
                    for t in o.st.trace:
                        if t[0] == 'err' and t[2] and child_name(t[2][0]) and t[2][0] != O('NAME'):
                            R.bad(node + ':token', t[3], 'the error for %s points to another token' % WHAT[node])
        elif not fails:
            R.bad(node + ':accepted', next((f.loc() for f in fns if f is not None and 'const' in f.dem), 'source/lib_compiler/sema.cpp'),
                  '%s is accepted by every semantic pass' % WHAT[node])


def uses(ctx, ps, R):
    """identifier of a constant"""
    P = ctx.P
    deep = {3, 8}
    for cls in ps:
        f = paths(ctx, cls, 'ast_exp_ident_t', 1, LITS[0], parent=True)[2]
        if f is not None:
            deep |= {c + 1 for c in thresholds(P, f, 3, 64)}
    for expr, dep in [(x, d) for x in LITS + ('ast_exp_ident_t', 'ast_exp_call_t', 'ast_exp_bin_op_t', 'ast_exp_array_init_t') for d in sorted(deep)]:
        done, rej, bad, und = False, False, None, False
        for cls in ps:
            e, outs, f = paths(ctx, cls, 'ast_exp_ident_t', 1, expr, parent=dep)
            _, o0, _ = paths(ctx, cls, 'ast_exp_ident_t', 0, expr, parent=dep)
            if f is None:
                continue
            R.fn(f)
            calls = lambda o: [t for t in o.st.trace if t[0] in ('host', 'vcall')]
            live = [o for o in outs if o.kind != 'abort']
            for o in o0:
                if calls(o) and o.kind == 'ret':
                    R.bad('use:variable', f.loc(), 'a use of a variable is replaced at compile time')
                if any(t[0] == 'err' for t in o.st.trace):
                    R.bad('use:varerror', f.loc(), 'a use of a variable is rejected')
            if live and rejects(live):
                rej = f
            cs = [calls(o) for o in live]
            if live and all(cs):
                for o, c in zip(live, cs):
                    a = c[0][2]
                    if len(c) != 1 or len(a) != 3:
                        und = True
                    elif a[0] != O('PARENT'):
                        bad = ('parent', f, 'a use of a constant is replaced in %s instead of in its parent' % show(a[0])[:60])
                    elif a[1] != O('ast_exp_ident_t'):
                        bad = ('which', f, 'another node than the use of the constant is replaced')
                    elif a[2] != O('DEXPR'):
                        if child_name(a[2]):
                            bad = ('with', f, 'a use of a constant is replaced by %s instead of its value' % show(a[2])[:60])
                        else:
                            und = True
                    else:
                        done = f
            elif any(cs):
                und = True
        if bad:
            R.bad('use:' + bad[0], bad[1].loc(), bad[2])
        elif und:
            R.undecided('use:' + expr, 'replacement on some paths only')
        elif expr in LITS:
            if rej:
                R.bad('use:refused', rej.loc(), 'a use of a constant initialised with a %s is rejected' % expr)
            elif not done:
                R.bad('use:kept', 'source/lib_compiler/sema.cpp', 'a use of a constant initialised with a %s is not replaced by its value' % expr)
            else:
                R.ok('use of a constant is replaced by its literal')
        else:
            if done:
                R.bad('use:shared', done.loc(), 'a use of a constant is replaced by a %s, which is not a constant value' % expr)
            elif not rej:
                R.bad('use:notconst', 'source/lib_compiler/sema.cpp', 'a use of a constant whose value is a %s is accepted' % expr)
            else:
                R.ok('use of a constant without constant value is an error')


def noinit(ctx, ps, R):
    rej = None
    for cls in ps:
        e, outs, f = paths(ctx, cls, 'ast_decl_var_t', 1, None)
        live = [o for o in outs or () if o.kind != 'abort']
        if f is not None:
            R.fn(f)
        if live and rejects(live):
            rej = f
        e, o1, f = paths(ctx, cls, 'ast_decl_var_t', 1, 'ast_exp_lit_var_t')
        for o in o1 or ():
            for t in o.st.trace:
                if t[0] == 'err' and t[1] == 'const_needs_init':
                    R.bad('init:refused', t[3], 'a constant that has a value is rejected')
        e, o0, f = paths(ctx, cls, 'ast_decl_var_t', 0, None)
        for o in o0 or ():
            for t in o.st.trace:
                if t[0] == 'err' and t[1] == 'const_needs_init':
                    R.bad('init:variable', t[3], 'a variable without initialiser is rejected')
    if rej:
        R.ok('a constant without a value is an error')
    else:
        R.bad('init:missing', 'source/lib_compiler/sema.cpp', 'a constant without a value is accepted')


def parsed(ctx, R):
    """`const` marks the declaration, `var` does not"""
    P = ctx.P
    oc = P.field('nano::ast_decl_var_t', 'is_const')
    for name, want in (('parse_const_', 1), ('parse_global_', 0)):
        fs = [f for f in P.find('nano::parser_t::' + name) if P.in_repo(f)]
        if not fs:
            R.undecided('parser:' + name, 'not found')
            continue
        f = fs[0]
        e = E.Engine(P)
        e.join = False
        e.hook(sema.ERR, sema.raise_hook)
        st = E.St()
        D = O('NEWDECL')
        opsem.put(P, e, st, D, 'nano::ast_node_t', type=C(opsem.node_type(P, 'nano::ast_decl_var_t')))
        opsem.put(P, e, st, D, 'nano::ast_decl_var_t', is_const=ZERO)
        e.hook('nano::parser_t::parse_decl_var_', lambda eng, s, fr, x, g, args: [(D, s)])
        for o in e.call_fn(f, [O('PARSER'), O('TOKEN')], st):
            if o.kind != 'ret':
                continue
            a = add(D, C(oc))
            v = o.st.mem.get((a[1], a[0], 'M'))
            v = o.st.const(v[1]) if v and is_lin(v[1]) else None
            if v is None or o.val != D:
                R.undecided('parser:' + name, 'declaration %s' % v)
            elif (v & 1) != want:
                R.bad('parser:' + name, f.loc(), 'a declaration parsed from `%s` is %smarked as a constant' % ('const' if want else 'var', '' if v else 'not '))
            else:
                R.ok('declarations carry the mark of their keyword')
        R.fn(f)


PROG = 'cvfcvvc'      # constants, variables and functions of the program analysed


def program(ctx, R):
    """slots, @init and the count of globals on a program with constants between variables"""
    P = ctx.P
    SC = P.enum('nano::ast_decl_var_t::scope_t')
    r = slots.find_pass(ctx)
    if r is None:
        R.undecided('slots', 'pass not found')
        return
    W = r[0]
    ooff = P.field('nano::ast_decl_var_t', 'offset')

    def fill(e, st, n):
        v = add(n, C(W.fld('ast_program_t', 'children')))
        stdmodel.set_vsize(e, st, v, C(len(PROG)))
        for i, k in enumerate(PROG):
            if k == 'f':
                o = W.node(e, st, 'k%d' % i, 'ast_decl_func_t')
            else:
                o = W.node(e, st, 'k%d' % i, 'ast_decl_var_t', is_const=C(int(k == 'c')), scope=C(SC['e_global']), expr=O('x%d' % i),
                           offset=A('offset', 'k%d' % i), name=O('n%d' % i))
                W.node(e, st, 'x%d' % i, 'ast_exp_lit_var_t')
            e.store_raw(st, add(A('vdata', v), C(8 * i)), 8, o)

    def su(e, st, n):
        fill(e, st, n)
        for k, fl in P.classes()[W.cls].fields.items():
            if fl[1] == 4:
                e.store_raw(st, add(W.this, C(fl[0])), 4, ZERO)
    e, outs, f = W.run('ast_program_t', su, tune=lambda e: setattr(e, 'unroll', 16))
    R.fn(f)
    for o in outs:
        if o.kind != 'ret':
            R.undecided('slots', o.kind)
            continue
        n, okk = 0, True
        for i, k in enumerate(PROG):
            if k == 'f':
                continue
            a = add(O('k%d' % i), C(ooff))
            v = o.st.mem.get((a[1], a[0], 'M'))
            v = v[1] if v else None
            if k == 'v':
                c = o.st.const(v) if is_lin(v) else None
                if c is None:
                    R.undecided('slots', 'offset %s' % (v,))
                    okk = False
                    break
                if c != n:
                    R.bad('slots:number', f.loc(), 'variable %d of a program with constants gets slot %d' % (n, c))
                    okk = False
                    break
                n += 1
        if okk:
            R.ok('constants take no slot', PROG.count('c'))
    # @init
    ini = [c for c in visit.visitors(P) if 'init' in c]
    for cls in ini:
        V = visit.Walk(ctx, cls)

        def su2(e, st, n):
            fill(e, st, n)
            for k, fl in P.classes()[cls].fields.items():
                e.store_raw(st, add(V.this, C(fl[0])), fl[1], O('F:' + k) if fl[1] == 8 else ZERO)
        odecl = P.field('nano::ast_stmt_assign_var_t', 'decl')
        oexpr = P.field('nano::ast_stmt_assign_var_t', 'expr')

        def obs(eng, st, kind, fr, x, kw):
            if kind == 'vec_push' and kw['es'] == 8 and kw['arg'] is not None:
                st.emit('vpush', kw['vec'], eng.load_raw(st, kw['arg'], 8, 'p'), eng.site())
        e, outs, f = V.run('ast_program_t', su2, obs=obs, tune=lambda e: setattr(e, 'unroll', 16))
        R.fn(f)
        for o in outs:
            if o.kind != 'ret':
                continue
            got = []
            for t in o.st.trace:
                if t[0] == 'vpush':
                    d = o.st.mem.get((add(t[2], C(odecl))[1], add(t[2], C(odecl))[0], 'M'))
                    x = o.st.mem.get((add(t[2], C(oexpr))[1], add(t[2], C(oexpr))[0], 'M'))
                    dn = child_name(d[1]) if d else None
                    if dn and dn.startswith('k'):
                        got.append((dn, child_name(x[1]) if x else None, t[3]))
            if not got:
                R.undecided('init', 'no assignments found')
                continue
            for dn, xn, s in got:
                if PROG[int(dn[1:])] == 'c':
                    R.bad('init:constant', s, 'a constant is assigned in @init')
                else:
                    R.ok('@init assigns no constant')


def table(ctx, R):
    """table of globals"""
    P = ctx.P
    SC = P.enum('nano::ast_decl_var_t::scope_t')
    cls = next((c for c in visit.visitors(P) if c.endswith('codegen_pass_t')), None)
    if cls is None:
        cls = next((c for c in visit.visitors(P) if 'codegen' in c), None)
    if cls is None:
        raise Anchor('code generator')
    W = visit.Walk(ctx, cls)
    og = P.field('nano::program_t', 'globals_')
    for const in (1, 0):
        ev = []

        def obs(eng, st, kind, fr, x, kw):
            if kind == 'vec_push' and is_lin(kw['vec']):
                d = sub(kw['vec'], C(og))
                a = single(d)
                st.emit('vp', kw['vec'], kw['arg'] if is_lin(kw['arg']) else ZERO, kw['es'], eng.site())

        def su(e, st, n):
            opsem.put(P, e, st, n, 'nano::ast_decl_var_t', is_const=C(const), scope=C(SC['e_global']), offset=A('offset', 'own'), name=O('NAME'))
        e, outs, f = W.run('ast_decl_var_t', su, obs=obs)
        R.fn(f)
        for o in outs:
            if o.kind != 'ret':
                continue
            size = P.cls('nano::identifier_t').fields['offset_'][0] + 8
            vp = [t for t in o.st.trace if t[0] == 'vp' and t[3] == size]
            if const:
                if vp:
                    R.bad('table:constant', vp[0][4], 'a constant is listed as a global variable')
                else:
                    R.ok('constant not listed as a variable')
            else:
                if not vp:
                    R.bad('table:variable', f.loc(), 'a global variable is not listed')
                else:
                    R.ok('global variable listed')


def run(ctx, R):
    ps, f = sema.passes(ctx)
    R.fn(f)
    R.sample('passes: ' + ', '.join(p.split('::')[-1] for p in ps))
    try:
        ctx.memo['resolvers'] = (sema.find_resolver(ctx).cls,)
    except Anchor:
        ctx.memo['resolvers'] = ()
    R.floor('semantic passes', len(ps), 5)
    for g in (assignments, uses, noinit):
        frame.guard(R, g, ctx, ps, R)
    for g in (parsed, program, table):
        frame.guard(R, g, ctx, R)
    from checks import c16
    frame.guard(R, c16.dispatch, ctx, R)
    frame.guard(R, c16.replace, ctx, R)
    frame.guard(R, c16.passes, ctx, R, {p.split('::')[-1] for p in ps})
    n = nodespec.decide(ctx, R, 'C15')
    R.floor('constructs', n, 1)
