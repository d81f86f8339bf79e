"""What each AST node kind must compile to, as automata over observable events."""
from terms import *
import skel, opsem

VAL = lambda n: ('val', n)


def specs(g):
    """list of (properties, class, label, setup, kids, vecs, roles, automaton, final value or None)"""
    P, TOK = g.P, g.TOK
    out = []

    def add_(props, cls, label, setup, kids, vecs, roles, auto, final=None):
        out.append(dict(props=props, cls=cls, label=label, setup=setup, kids=kids, vecs=vecs, roles=roles, auto=auto,
                        final=final))

    def fields(**kw):
        def f(e, st, n):
            d = {k: (v(e, st) if callable(v) else v) for k, v in kw.items()}
            opsem.put(P, e, st, n, f.cls, **d)
        return f

    def mk(cls, **kw):
        f = fields(**kw)
        f.cls = 'nano::' + cls
        return f

    o = lambda n: A('obj', n)
    # ---- if
    add_(('C02', 'C03'), 'ast_stmt_if_t', 'if/else', mk('ast_stmt_if_t', expr=o('expr'), then_block=o('then'), else_block=o('else')),
         ('expr', 'then', 'else'), (), {'expr': 'E', 'then': 'S', 'else': 'S'},
         {0: [('eval', 'expr', 1)], 1: [('branch', VAL('expr'), 2, 3)], 2: [('eval', 'then', 'END')], 3: [('eval', 'else', 'END')]})
    add_(('C02', 'C03'), 'ast_stmt_if_t', 'if without else', mk('ast_stmt_if_t', expr=o('expr'), then_block=o('then'), else_block=ZERO),
         ('expr', 'then'), (), {'expr': 'E', 'then': 'S'},
         {0: [('eval', 'expr', 1)], 1: [('branch', VAL('expr'), 2, 'END')], 2: [('eval', 'then', 'END')]})
    # ---- while
    add_(('C02', 'C03'), 'ast_stmt_while_t', 'while', mk('ast_stmt_while_t', expr=o('expr'), body=o('body')),
         ('expr', 'body'), (), {'expr': 'E', 'body': 'S'},
         {0: [('eval', 'expr', 1)], 1: [('branch', VAL('expr'), 2, 'END')], 2: [('eval', 'body', 0)]})
    # ---- for, per scope of the loop variable
    for sc in skel.SCOPES:
        get, set_ = ('INS_GETG', 'INS_SETG') if sc == 'e_global' else ('INS_GETV', 'INS_SETV')
        off = A('offset', 'decl')
        var = (get, off)
        add_(('C02', 'C03', 'C21'), 'ast_stmt_for_t', 'for over %s variable' % sc[2:],
             mk('ast_stmt_for_t', start=o('start'), end=o('end'), body=o('body'), decl=lambda e, st, sc=sc: g.var(e, st, 'decl', sc)),
             ('start', 'end', 'body'), (), {'start': 'E', 'end': 'E', 'body': 'S'},
             {0: [('eval', 'start', 1)], 1: [('set', (set_, off), VAL('start'), 2)],
              2: [('eval', 'end', 3)], 3: [('branch', ('op', 'LT', var, VAL('end')), 4, 'END')],
              4: [('eval', 'body', 5)], 5: [('set', (set_, off), ('op', 'ADD', var, ('INS_NEW_INT', ONE)), 2)]})
    # ---- return
    fsize = sub(add(A('vsize', g.fvec('ast_decl_func_t', 'args', 'FUNC'), (0, 0)), A('stack_size', 'FUNC')), ZERO)
    for lab, ex, v in (('return value', o('expr'), VAL('expr')), ('bare return', ZERO, ('INS_NEW_NONE',))):
        au = {0: [('eval', 'expr', 1)], 1: [('ret', v, fsize)]} if ex != ZERO else {0: [('ret', v, fsize)]}
        add_(('C02', 'C03', 'C13'), 'ast_stmt_return_t', lab, mk('ast_stmt_return_t', expr=ex), ('expr',) if ex != ZERO else (), (),
             {'expr': 'E'}, au)
    # ---- block
    add_(('C02', 'C03'), 'ast_block_t', 'block', None, (), ('nodes',), {'nodes': 'S'}, {0: [('evaleach', 'nodes', 'END')]})
    # ---- expression statement
    add_(('C02', 'C03'), 'ast_stmt_call_t', 'call statement', mk('ast_stmt_call_t', expr=o('expr')), ('expr',), (), {'expr': 'E'},
         {0: [('eval', 'expr', 1)], 1: [('drop', (VAL('expr'),), 'END')]})
    # ---- literals
    add_(('C02', 'C21'), 'ast_exp_lit_var_t', 'integer literal', mk('ast_exp_lit_var_t', val=A('val', 0)), (), (), {}, {0: 'END'}, ('INS_NEW_INT', A('val', 0)))
    add_(('C02', 'C21'), 'ast_exp_none_t', 'none literal', None, (), (), {}, {0: 'END'}, ('INS_NEW_NONE',))
    add_(('C02',), 'ast_exp_lit_float_t', 'float literal', None, (), (), {}, {0: 'END'}, 'any')
    add_(('C02',), 'ast_exp_lit_str_t', 'string literal', None, (), (), {}, {0: 'END'}, 'str')
    # ---- variables
    for sc in skel.SCOPES:
        get, set_ = ('INS_GETG', 'INS_SETG') if sc == 'e_global' else ('INS_GETV', 'INS_SETV')
        off = A('offset', 'decl')
        dv = lambda e, st, sc=sc: g.var(e, st, 'decl', sc)
        add_(('C02', 'C21'), 'ast_exp_ident_t', 'read of %s variable' % sc[2:], mk('ast_exp_ident_t', decl=dv), (), (), {}, {0: 'END'}, (get, off))
        add_(('C02', 'C21'), 'ast_stmt_assign_var_t', 'assignment to %s variable' % sc[2:], mk('ast_stmt_assign_var_t', decl=dv, expr=o('expr')),
             ('expr',), (), {'expr': 'E'}, {0: [('eval', 'expr', 1)], 1: [('set', (set_, off), VAL('expr'), 'END')]})
        add_(('C02', 'C07'), 'ast_stmt_assign_array_t', 'element assignment through %s variable' % sc[2:],
             mk('ast_stmt_assign_array_t', decl=dv, expr=o('expr'), index=o('index')), ('expr', 'index'), (), {'expr': 'E', 'index': 'E'},
             {0: [('evals', ('expr', 'index'), 1)], 1: [('seta', {'value': VAL('expr'), 'index': VAL('index'), 'array': (get, off)}, 'END')]})
        add_(('C02',), 'ast_stmt_assign_member_t', 'member assignment through %s variable' % sc[2:],
             mk('ast_stmt_assign_member_t', decl=dv, expr=o('expr'), member=o('member')), ('expr',), (), {'expr': 'E'},
             {0: [('eval', 'expr', 1)], 1: [('setm', {'value': VAL('expr'), 'object': (get, off)}, 'END')]})
        add_(('C02',), 'ast_exp_member_t', 'member read through %s variable' % sc[2:], mk('ast_exp_member_t', decl=dv, member=o('member')), (), (), {},
             {0: 'END'}, 'getm')
    # ---- local declaration
    vset = ('INS_SETV', A('offset', 'ast_decl_var_t'))
    sl = C(g.SC['e_local'])
    add_(('C02', 'C21'), 'ast_decl_var_t', 'local declaration with initialiser',
         mk('ast_decl_var_t', scope=sl, is_const=ZERO, expr=o('expr'), offset=A('offset', 'ast_decl_var_t')), ('expr',), (), {'expr': 'E'},
         {0: [('eval', 'expr', 1)], 1: [('set', vset, VAL('expr'), 'END')]})
    add_(('C02', 'C21'), 'ast_decl_var_t', 'local declaration without initialiser',
         mk('ast_decl_var_t', scope=sl, is_const=ZERO, expr=ZERO, offset=A('offset', 'ast_decl_var_t')), (), (), {},
         {0: [('set', vset, ('INS_NEW_NONE',), 'END')]})
    add_(('C02', 'C15'), 'ast_decl_var_t', 'local constant',
         mk('ast_decl_var_t', scope=sl, is_const=ONE, expr=o('expr'), offset=A('offset', 'ast_decl_var_t')), ('expr',), (), {'expr': 'E'}, {0: 'END'})
    add_(('C02',), 'ast_decl_var_t', 'global declaration',
         mk('ast_decl_var_t', scope=C(g.SC['e_global']), is_const=ZERO, expr=o('expr'), offset=A('offset', 'ast_decl_var_t')), ('expr',), (), {'expr': 'E'}, {0: 'END'})
    # ---- arrays
    add_(('C02', 'C07'), 'ast_exp_deref_t', 'element read', mk('ast_exp_deref_t', lhs=o('lhs'), index=o('index')), ('lhs', 'index'), (), {'lhs': 'E', 'index': 'E'},
         {0: [('evals', ('lhs', 'index'), 'END')]}, ('deref', {'array': VAL('lhs'), 'index': VAL('index')}))

    def ary(e, st, n):
        v = add(n, C(P.field('nano::ast_exp_array_init_t', 'expr')))
        st.facts.le0(sub(ONE, A('vsize', v, (0, 0))))
    add_(('C02', 'C07'), 'ast_exp_array_init_t', 'array initialiser', ary, (), ('expr',), {'expr': 'E'},
         {0: [('evaleach', 'expr', 'END')]}, ('INS_ARY_INIT', (('each', 'expr'),)))
    # ---- calls
    argv = g.fvec('ast_exp_call_t', 'args', 'ast_exp_call_t')
    nargs = A('vsize', argv, (0, 0))

    def call(kind):
        def f(e, st, n):
            if kind == 'indirect':
                c = g.node(e, st, 'callee', 'ast_exp_call_t')
            elif kind == 'variable':
                d = g.var(e, st, 'decl', 'e_local')
                c = g.node(e, st, 'callee', 'ast_exp_ident_t', decl=d)
            else:
                d = g.func(e, st, 'callfn', 1 if kind == 'syscall' else 0, 0)
                st.facts.eq0(sub(A('vsize', g.fvec('ast_decl_func_t', 'args', 'callfn'), (0, 0)), nargs))
                c = g.node(e, st, 'callee', 'ast_exp_ident_t', decl=d)
            opsem.put(P, e, st, n, 'nano::ast_exp_call_t', callee=c)
        return f
    ev = (('each', 'args'),)
    for kind in ('indirect', 'variable'):
        add_(('C02', 'C13'), 'ast_exp_call_t', '%s call' % kind, call(kind), ('callee',), ('args',), {'args': 'E', 'callee': 'E'},
             {0: [('evaleach', 'args', 1)], 1: [('eval', 'callee', 2)], 2: [('INS_ICALL', nargs, (VAL('callee'),), ev, 'END')]}, ('INS_ICALL', ev))
    add_(('C02', 'C13'), 'ast_exp_call_t', 'direct call', call('direct'), ('callee',), ('args',), {'args': 'E', 'callee': 'E'},
         {0: [('evaleach', 'args', 1)], 1: [('INS_CALL', nargs, None, (), ev, 'END')]}, ('INS_CALL', ev))
    add_(('C02', 'C13'), 'ast_exp_call_t', 'builtin call', call('syscall'), ('callee',), ('args',), {'args': 'E', 'callee': 'E'},
         {0: [('evaleach', 'args', 1)], 1: [('INS_SCALL', nargs, None, (), ev, 'END')]}, ('INS_SCALL', ev))
    # ---- operators
    for tok in ('TOK_ADD', 'TOK_SUB', 'TOK_MUL', 'TOK_DIV', 'TOK_MOD', 'TOK_AND', 'TOK_OR', 'TOK_LT', 'TOK_GT', 'TOK_LEQ', 'TOK_GEQ', 'TOK_EQ'):
        add_(('C02',), 'ast_exp_bin_op_t', 'binary ' + tok[4:],
             mk('ast_exp_bin_op_t', op=C(TOK[tok]), left=o('left'), right=o('right')), ('left', 'right'), (), {'left': 'E', 'right': 'E'},
             {0: [('eval', 'left', 1)], 1: [('eval', 'right', 'END')]}, 'op2')
    for tok in ('TOK_SUB', 'TOK_NOT'):
        def un(e, st, n, tok=tok):
            opsem.put(P, e, st, n, 'nano::ast_exp_unary_op_t', op=o('optoken'), child=o('child'))
            opsem.put(P, e, st, o('optoken'), 'nano::token_t', type_=C(TOK[tok]))
        add_(('C02',), 'ast_exp_unary_op_t', 'unary ' + tok[4:], un, ('child',), (), {'child': 'E'}, {0: [('eval', 'child', 'END')]}, 'op1')
    return out


class Mismatch(Exception):
    pass


def cond_norm(v):
    """condition value -> (value, sense)"""
    s = True
    while v[0] == 'op' and v[1] == 'INS_NOT':
        v = v[2]
        s = not s
    if v[0] == 'op' and v[1] == 'INS_GT':
        v = ('op', 'INS_LT', v[3], v[2])
    if v[0] == 'op' and v[1] == 'INS_GEQ':
        v = ('op', 'INS_LEQ', v[3], v[2])
    return v, s


def val_eq(got, want):
    if want in ('any',):
        return True
    if isinstance(want, tuple) and want and want[0] == 'op':
        if got[0] != 'op' or len(got) != len(want):
            return False
        n = got[1][4:] if got[1].startswith('INS_') else got[1]
        if n != want[1]:
            return False
        if all(val_eq(a, b) for a, b in zip(got[2:], want[2:])):
            return True
        return n in ('ADD',) and all(val_eq(a, b) for a, b in zip(got[2:], want[:1:-1]))
    return got == want


def vs(v):
    """readable value"""
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        return '%s(%s)' % (v[0], ', '.join(vs(x) if isinstance(x, tuple) and not is_lin(x) else (show(x)[:40] if is_lin(x) else str(x)) for x in v[1:]))
    return str(v)[:80]


def compare(m, spec, order):
    """product walk of the emitted code and the specification; order: operand roles of DEREF/SETA/SETM as the
    interpreter pops them.  Raises Mismatch / skel.Bad / skel.Unknown."""
    auto, final = spec['auto'], spec['final']
    g = m.graph()
    n = len(m.items)
    todo = [((0, ()), 0, frozenset())]
    seen = set()

    def settle(c):
        k = 0
        while c[0] != n and c[0] != 'ret':
            ed = g[c]
            if len(ed) == 1 and ed[0][0] is None:
                c = ed[0][1]
                k += 1
                if k > 400:
                    raise Mismatch('the emitted code loops without doing anything')
                continue
            break
        return c
    while todo:
        c, s, extra = todo.pop()
        c = settle(c)
        if (c, s, extra) in seen:
            continue
        seen.add((c, s, extra))
        sp = auto.get(s) if s != 'END' else 'END'
        if sp == 'END':
            if c[0] == 'ret':
                raise Mismatch('returns from the function')
            if c[0] != n:
                ev = g[c][0][0]
                raise Mismatch('performs an extra action: %s' % vs(ev))
            stk = c[1]
            want = 0 if final is None else 1
            if len(stk) != want:
                raise Mismatch('leaves %d values on the operand stack instead of %d' % (len(stk), want))
            if final is not None:
                check_final(stk[0], final, order)
            continue
        x = sp[0]
        if c[0] == n:
            raise Mismatch('ends before %s' % vs(x[:2]))
        edges = g[c]
        if c[0] == 'ret':
            raise Mismatch('returns before %s' % vs(x[:2]))
        ev = edges[0][0]
        if x[0] == 'branch':
            if ev[0] != 'branch':
                raise Mismatch('%s instead of testing %s' % (vs(ev), vs(x[1])))
            for e2, nc in edges:
                v, sense = cond_norm(e2[1])
                w, ws = cond_norm(x[1] if x[1][0] != 'op' else ('op', 'INS_' + x[1][1]) + x[1][2:])
                if not val_eq(v, w if w[0] != 'op' else ('op', w[1][4:]) + w[2:]):
                    raise Mismatch('branches on %s instead of %s' % (vs(v), vs(w)))
                truth = e2[2] if sense == ws else not e2[2]
                todo.append((nc, x[2] if truth else x[3], frozenset()))
            continue
        if ev[0] == 'branch':
            raise Mismatch('branches on %s where %s is expected' % (vs(ev[1]), vs(x[:2])))
        nc = edges[0][1]
        if x[0] == 'evals':
            # a set of operands evaluated exactly once, in any order
            if ev[0] != 'eval' or ev[1] not in x[1] or ev[1] in extra:
                raise Mismatch('%s where one of the operands %s is expected' % (vs(ev), ', '.join(x[1])))
            ex = extra | {ev[1]}
            if len(ex) == len(x[1]):
                todo.append((nc, x[2], frozenset()))
            else:
                todo.append((nc, s, ex))
            continue
        if x[0] in ('eval', 'evaleach'):
            if ev[:2] != x[:2]:
                raise Mismatch('%s instead of evaluating %s' % (vs(ev), x[1]))
        elif x[0] == 'set':
            if ev[0] != 'set' or (ev[1], ev[2]) != x[1]:
                raise Mismatch('%s instead of storing to %s' % (vs(ev), vs(x[1])))
            if not val_eq(ev[3], x[2]):
                raise Mismatch('stores %s instead of %s' % (vs(ev[3]), vs(x[2])))
        elif x[0] == 'ret':
            if ev[0] != 'ret':
                raise Mismatch('%s instead of returning' % vs(ev))
            if not val_eq(ev[1], x[1]):
                raise Mismatch('returns %s instead of %s' % (vs(ev[1]), vs(x[1])))
            if x[2] is not None and ev[2] != x[2]:
                raise Mismatch('return discards %s cells instead of %s' % (show(ev[2])[:80], show(x[2])[:80]))
            continue
        elif x[0] == 'drop':
            if ev != x[:2]:
                raise Mismatch('%s instead of discarding the value' % vs(ev))
        elif x[0] in ('seta', 'setm'):
            if ev[0] != x[0]:
                raise Mismatch('%s instead of an element store' % vs(ev))
            vals = ev[1:] if x[0] == 'seta' else ev[2:]
            od = order[x[0]]
            if od is not None:
                for role, v in zip(od, vals):
                    if role in x[1] and not val_eq(v, x[1][role]):
                        raise Mismatch('the %s operand is %s instead of %s' % (role, vs(v), vs(x[1][role])))
        elif x[0] in ('INS_CALL', 'INS_SCALL', 'INS_ICALL'):
            if ev[0] != x[0]:
                raise Mismatch('%s instead of %s' % (vs(ev), x[0]))
            if ev[1] != x[1]:
                raise Mismatch('passes an argument count of %s instead of %s' % (show(ev[1])[:60], show(x[1])[:60]))
            if ev[-1] != x[-2] or ev[-2] != x[-3]:
                raise Mismatch('calls with %s / %s' % (vs(ev[-2]), vs(ev[-1])))
        else:
            raise skel.Unknown('spec event %s' % x[0])
        todo.append((nc, x[-1], frozenset()))


def check_final(got, want, order):
    if want == 'any':
        return
    if want == 'str':
        if got[0] != 'INS_NEW_STR':
            raise Mismatch('produces %s' % vs(got))
        return
    if want == 'getm':
        if got[0] != 'getm':
            raise Mismatch('produces %s' % vs(got))
        return
    if want in ('op1', 'op2'):
        if got[0] != 'op' or len(got) != (3 if want == 'op1' else 4):
            raise Mismatch('produces %s' % vs(got))
        return
    if want[0] == 'deref':
        if got[0] != 'deref':
            raise Mismatch('produces %s' % vs(got))
        od = order['deref']
        if od is not None:
            for role, v in zip(od, got[1:]):
                if v != want[1][role]:
                    raise Mismatch('the %s operand is %s' % (role, vs(v)))
        return
    if not val_eq(got, want):
        raise Mismatch('produces %s instead of %s' % (vs(got), vs(want)))


def decide(ctx, R, pid, order=None):
    """run all node specs that bear on property pid"""
    g = skel.Gen(ctx)
    order = order or {'seta': ('value', 'index', 'array'), 'deref': ('index', 'array'), 'setm': ('value', 'object')}
    n = 0
    for sp in specs(g):
        if pid != 'C01' and pid not in sp['props']:
            continue
        n += 1
        key = '%s %s' % (sp['cls'], sp['label'])
        try:
            e, res, f = g.decoded(sp['cls'], sp['setup'], sp['kids'], sp['vecs'])
        except Exception as x:
            if x.__class__.__name__ in ('Explosion', 'Anchor'):
                R.undecided(key, x)
                continue
            raise
        R.fn(f)
        # children that are required must not be null: drop the paths where a child was null
        for o, items, lines, prob in res:
            if any(t[0] == 'child0' for t in o.st.trace):
                continue
            if o.kind != 'ret':
                ev = [t for t in o.st.trace if t[0] == 'assert_fail']
                if pid == 'C01':
                    continue
                R.bad(key + ':abort', ev[-1][-1] if ev else f.loc(), 'compiling a %s can abort (%s)' % (sp['label'], ev[-1][1] if ev else o.kind))
                continue
            if prob is not None:
                if isinstance(prob, skel.Bad):
                    R.bad(key + ':code', prob.args[1] if len(prob.args) > 1 else f.loc(), '%s: %s' % (sp['label'], prob.args[0]))
                else:
                    R.undecided(key, prob)
                continue
            if pid == 'C01':
                R.ok('emitted bytes decode to whole instructions', max(1, sum(1 for x in items if isinstance(x, skel.Ins))))
                continue
            m = skel.Machine(g.info, items, sp['roles'], o.st)
            m.lens = {k: A('vsize', v, (0, 0)) for k, v in ((fl, add(A('obj', sp['cls']), C(g.P.field('nano::' + sp['cls'], fl)))) for fl in sp['vecs'])}
            try:
                if pid == 'C02':
                    balance(m, sp)
                else:
                    compare(m, sp, order)
                R.ok('%s' % ('balanced' if pid == 'C02' else 'emitted code implements the specification automaton'))
                R.sample({'construct': sp['label'], 'code': [repr(x)[:60] for x in items]})
            except Mismatch as x:
                R.bad(key, f.loc(), 'code generated for %s: %s' % (sp['label'], x))
            except skel.Bad as x:
                R.bad(key, x.args[1] if len(x.args) > 1 else f.loc(), 'code generated for %s: %s' % (sp['label'], x.args[0]))
            except skel.Unknown as x:
                R.undecided(key, x)
    return n


def balance(m, sp):
    """operand stack height: equal on every way to reach an instruction, and right at the end"""
    g = m.graph()
    h = {}
    want = 0 if sp['final'] is None else 1
    for (i, stk) in g:
        hs = height(stk)
        if i == 'ret':
            if hs != 0:
                raise Mismatch('returns with %d extra values on the operand stack' % hs)
            continue
        if i in h and h[i] != hs:
            raise Mismatch('reaches the same instruction with operand stack heights %d and %d' % (h[i], hs))
        h[i] = hs
        if i == len(m.items) and hs != want:
            raise Mismatch('leaves %d values on the operand stack instead of %d' % (hs, want))


def height(stk):
    return len(stk)
