"""C05: compile-time evaluation agrees with run-time evaluation; dead code removal removes only dead code."""
import eng as E
import frame, opsem, visit
from ir import Anchor
from terms import *
from checks.c04 import E_key

EXPLAIN = (
    'visit() of the folding passes (opt_const_expr_t, eval_t through sema_global_var_t) is abstractly interpreted on '
    'expression trees with symbolic integer literals for every operator: on every path the tree is left alone, the '
    'program is rejected (division by zero), or the field holds a new literal whose value term equals the run-time '
    'meaning of the tree under the path facts.  Values remembered for sub-expressions are used only under the key of '
    'that operand and after a successful lookup, and are recorded only with the right value (induction over the tree). '
    'opt_if_remove_t must keep the block that runs for every literal condition, and opt_post_ret_t may erase a '
    'statement only on paths where an earlier statement of the same list is a return.')

BIN = ['TOK_ADD', 'TOK_SUB', 'TOK_MUL', 'TOK_DIV', 'TOK_MOD', 'TOK_AND', 'TOK_OR', 'TOK_LT', 'TOK_GT', 'TOK_LEQ',
       'TOK_GEQ', 'TOK_EQ']
CMP = {'TOK_LT': 'slt', 'TOK_GT': 'sgt', 'TOK_LEQ': 'sle', 'TOK_GEQ': 'sge', 'TOK_EQ': 'eq'}
UN = ['TOK_SUB', 'TOK_NOT']
OTHER = ('ast_exp_ident_t', 'ast_exp_lit_float_t', 'ast_exp_lit_str_t', 'ast_exp_none_t', 'ast_exp_call_t', 'ast_exp_deref_t')
FIELDS = [('ast_stmt_if_t', 'expr'), ('ast_stmt_while_t', 'expr'), ('ast_stmt_return_t', 'expr'), ('ast_stmt_assign_var_t', 'expr'),
          ('ast_stmt_assign_array_t', 'expr'), ('ast_stmt_assign_array_t', 'index'), ('ast_stmt_assign_member_t', 'expr'),
          ('ast_decl_var_t', 'expr'), ('ast_stmt_for_t', 'start'), ('ast_stmt_for_t', 'end'), ('ast_exp_deref_t', 'index'),
          ('ast_exp_deref_t', 'lhs'), ('ast_exp_bin_op_t', 'left'), ('ast_exp_bin_op_t', 'right'), ('ast_exp_unary_op_t', 'child'),
          ('ast_exp_call_t', 'callee')]
I32 = ('i', 32)
FIRM = {'val', 'mul', 'sdiv', 'srem', 'cmp', 'ld', 'call', 'node'}


def truth(eng, st, t):
    return eng.fork(st, eng.cmp(st, 'ne', t, ZERO, I32))


def ev(eng, st, tree, leaf):
    """run-time meaning of a tree of integer operators: list of (value term or None when it fails, state)"""
    k = tree[0]
    if k in ('lit', 'const', 'other'):
        return [(leaf(tree), st)]
    if k == 'un':
        res = []
        for v, s in ev(eng, st, tree[2], leaf):
            if v is None:
                res.append((None, s))
            elif tree[1] == 'TOK_SUB':
                res.append((sub(ZERO, v), s))
            else:
                res += [(ZERO if t else ONE, s2) for t, s2 in truth(eng, s, v)]
        return res
    res = []
    for a, s in ev(eng, st, tree[2], leaf):
        for b, s in ev(eng, s, tree[3], leaf):
            if a is None or b is None:
                res.append((None, s))
                continue
            tok = tree[1]
            if tok == 'TOK_ADD':
                res.append((add(a, b), s))
            elif tok == 'TOK_SUB':
                res.append((sub(a, b), s))
            elif tok == 'TOK_MUL':
                res.append((eng.binop(s, 'mul', a, b, I32), s))
            elif tok in CMP:
                res += [(ONE if t else ZERO, s2) for t, s2 in eng.fork(s, eng.cmp(s, CMP[tok], a, b, I32))]
            elif tok in ('TOK_AND', 'TOK_OR'):
                for ta, s2 in truth(eng, s, a):
                    for tb, s3 in truth(eng, s2, b):
                        w = (ta and tb) if tok == 'TOK_AND' else (ta or tb)
                        res.append((ONE if w else ZERO, s3))
            else:
                for z, s2 in eng.fork(s, eng.cmp(s, 'eq', b, ZERO, I32)):
                    if z:
                        res.append((None, s2))
                        continue
                    for m, s3 in eng.fork(s2, eng.cmp(s2, 'eq', b, C(-1), I32)):
                        if m:
                            s3 = s3.copy()
                            try:
                                # what a division already made on this path must have given
                                s3.facts.eq0(add(A('sdiv', a, b), a))
                                s3.facts.eq0(A('srem', a, b))
                            except Infeasible:
                                continue
                            res.append((sub(ZERO, a) if tok == 'TOK_DIV' else ZERO, s3))
                        else:
                            res.append((A('sdiv' if tok == 'TOK_DIV' else 'srem', a, b), s3))
    return res


def firm(t):
    return is_lin(t) and all(a.kind in FIRM for a in atoms_of(t))


def rebuild(eng, s, t):
    """t simplified by what the path knows about its parts"""
    if not is_lin(t):
        return t
    r = C(t[0])
    for a, k in t[1]:
        c = s.const((0, ((a, 1),)))
        if c is not None:
            v = C(c)
        elif a.kind == 'mul' and all(is_lin(x) for x in a.args) and len(a.args) == 2:
            v = eng.binop(s, 'mul', rebuild(eng, s, a.args[0]), rebuild(eng, s, a.args[1]), I32)
        elif a.kind == 'cmp' and a.args[0] in ('eq', 'lt0') and is_lin(a.args[1]):
            v = eng.cmp(s, 'eq' if a.args[0] == 'eq' else 'slt', rebuild(eng, s, a.args[1]), ZERO, I32)
        elif a.kind in ('sdiv', 'srem'):
            x, y = (rebuild(eng, s, q) for q in a.args)
            by = s.const(y) if is_lin(y) else None
            if by in (1, -1) and is_lin(x):
                v = ZERO if a.kind == 'srem' else scale(x, by)
            else:
                v = A(a.kind, x, y)
        else:
            v = (0, ((a, 1),))
        r = add(r, scale(v, k))
    return r


def agrees(eng, st, got0, tree, leaf):
    """-> True, (False, why) or None"""
    und = False
    for want, s in ev(eng, st, tree, leaf):
        if want is None:
            return False, 'a division by zero is folded into a value'
        got, want = rebuild(eng, s, got0), rebuild(eng, s, want)
        g = s.const(got)
        w = s.const(want)
        if got == want or s.const(sub(got, want)) == 0 or (g is not None and g == w):
            continue
        a = single(got)
        if a is not None and a.kind in ('sdiv', 'srem') and single(want) is not None and single(want).kind == a.kind and \
                all(s.const(sub(x, y)) == 0 for x, y in zip(a.args, single(want).args)):
            continue
        if a is not None and a.kind == 'sdiv' and s.const(a.args[1]) is not None and s.const(a.args[1]) == -1 and s.const(add(want, a.args[0])) == 0:
            continue
        if a is not None and a.kind == 'srem' and s.const(a.args[1]) == -1 and w == 0:
            continue
        if is_lin(got) and not s.facts.lossy and (g is not None and w is not None or
                                                  firm(got) and firm(want) and distinct(s, got, want)):
            return False, 'computes %s where the run-time value is %s' % (show(got), show(want))
        und = True
    return None if und else True


def distinct(s, got, want):
    """do the two firm terms differ for some integers: refuse when a path fact could relate them"""
    d = sub(got, want)
    t = s.facts.copy()
    try:
        t.ne0(d)
    except Infeasible:
        return False
    # the literals are free inputs: unless the path pins them, different polynomials differ somewhere
    free = {a for a in atoms_of(d) if a.kind == 'val'}
    for f, rg in s.facts.d.items():
        if rg[0] is not None and rg[0] == rg[1] and any(x in free for x, _ in f):
            return False
    return True


def shape(t):
    if t[0] == 'bin':
        return '(%s %s %s)' % (shape(t[2]), t[1][4:], shape(t[3]))
    if t[0] == 'un':
        return '(%s %s)' % (t[1][4:], shape(t[2]))
    return t[1] if t[0] == 'lit' else '%s:%s' % (t[1], t[2])


class Build:
    """AST of a tree with symbolic literals; node objects are named by their position"""
    def __init__(self, W, e, st):
        self.W, self.e, self.st = W, e, st
        self.TOK = W.P.enum('nano::token_e')
        self.at = {}

    def tok(self, name, t):
        o = A('obj', name)
        opsem.put(self.W.P, self.e, self.st, o, 'nano::token_t', type_=C(self.TOK[t]))
        return o

    def mk(self, tree, pos):
        W, e, st = self.W, self.e, self.st
        k = tree[0]
        if k == 'lit':
            o = W.node(e, st, pos, 'ast_exp_lit_var_t', val=A('val', tree[1]))
        elif k == 'const':
            # identifier: ('const', name, what); what in const / var / constx
            what = tree[2]
            if what == 'constx':
                x = W.node(e, st, pos + 'x', 'ast_exp_call_t')
            else:
                x = W.node(e, st, pos + 'x', 'ast_exp_lit_var_t', val=A('val', tree[1]))
            d = W.node(e, st, pos + 'd', 'ast_decl_var_t', is_const=C(0 if what == 'var' else 1), expr=x)
            o = W.node(e, st, pos, 'ast_exp_ident_t', decl=d)
        elif k == 'other':
            o = W.node(e, st, pos, tree[2])
        elif k == 'un':
            c = self.mk(tree[2], pos + '.c')
            o = W.node(e, st, pos, 'ast_exp_unary_op_t', op=self.tok(pos + 't', tree[1]), child=c)
        else:
            l, r = self.mk(tree[2], pos + '.l'), self.mk(tree[3], pos + '.r')
            o = W.node(e, st, pos, 'ast_exp_bin_op_t', op=C(self.TOK[tree[1]]), left=l, right=r, token=self.tok(pos + 't', tree[1]))
        self.at[single(o)] = tree
        return o


def mem(st, addr):
    v = st.mem.get((addr[1], addr[0], 'M'))
    return v[1] if v else None


def lookups(terms):
    """{key atom: value term} of map lookups whose loaded value occurs in the terms, + find atoms"""
    val, fnd = {}, {}
    for t in terms:
        for a in deep(t):
            if a.kind == 'call' and a.args[0] == 'map.find' and is_lin(a.args[3][0]) and single(a.args[3][0]) is not None:
                k = single(a.args[3][0])
                fnd.setdefault(k, a)
            if a.kind == 'cnt' and is_lin(a.args[3][0]) and single(a.args[3][0]) is not None:
                fnd.setdefault(single(a.args[3][0]), a)
            if a.kind == 'ld':
                b = a.args[0]
                if not is_lin(b) or len(b[1]) != 1:
                    continue
                n = b[1][0][0]
                if n.kind == 'node' and is_lin(n.args[0]) and single(n.args[0]) is not None and single(n.args[0]).kind == 'call' \
                        and single(n.args[0]).args[0] == 'map.find':
                    c = single(n.args[0])
                    k = c.args[3][0]
                    val[single(k)] = (0, ((a, 1),))
                    fnd[single(k)] = c
                elif n.kind == 'call' and n.args[0] in ('map.at', 'map[]'):
                    k = n.args[3][0] if isinstance(n.args[3], tuple) and n.args[0] == 'map.at' else n.args[3]
                    if is_lin(k) and single(k) is not None:
                        val[single(k)] = (0, ((a, 1),))
                        fnd[single(k)] = n
    return val, fnd


def deep(t):
    return atoms_of(t) if is_lin(t) else ()


def all_terms(st):
    for f in st.facts.d:
        yield (0, f)


def found(st, c):
    """is the lookup atom known to have succeeded on this path: True / False / None"""
    if c.args[0] == 'map.at':
        return True
    if c.args[0] != 'map.find':
        return False
    x = (0, ((c, 1),))
    end = A('call', 'map.end', c.args[1], c.args[2])
    s = st.facts.copy()
    try:
        s.eq0(sub(x, end))
    except Infeasible:
        return True
    return False


def counted(st, key):
    for f, rg in st.facts.d.items():
        for a, _ in f:
            if a.kind == 'cnt' and is_lin(a.args[3][0]) and single(a.args[3][0]) is key and is_nonzero(st, a):
                return True
    return False


def fold(ctx, R, j):
    """one run of the folding pass: node kind, field, tree"""
    cls, field, tree = j
    W = visit.Walk(ctx, 'nano::opt_const_expr_t')
    P = ctx.P
    hold = {}

    def setup(e, st, n):
        b = Build(W, e, st)
        o = b.mk(tree, 'T')
        hold['b'], hold['o'] = b, o
        opsem.put(P, e, st, n, 'nano::' + cls, **{field: o})
        if cls == 'ast_exp_bin_op_t':
            opsem.put(P, e, st, n, 'nano::' + cls, op=C(b.TOK['TOK_ADD']), token=b.tok('nt', 'TOK_ADD'))
            other = W.node(e, st, 'oth', 'ast_exp_ident_t')
            opsem.put(P, e, st, n, 'nano::' + cls, **{'right' if field == 'left' else 'left': other})
        if cls == 'ast_exp_unary_op_t':
            opsem.put(P, e, st, n, 'nano::' + cls, op=b.tok('nt', 'TOK_SUB'))
    judge(ctx, R, W, cls, field, tree, hold, *W.run(cls, setup))


def record(ctx, R, tree):
    """visit of the operator node itself: what is remembered for it"""
    W = visit.Walk(ctx, 'nano::opt_const_expr_t')
    cls = 'ast_exp_bin_op_t' if tree[0] == 'bin' else 'ast_exp_unary_op_t'
    P = ctx.P
    hold = {}

    def setup(e, st, n):
        b = Build(W, e, st)
        hold['b'], hold['o'] = b, n
        if tree[0] == 'bin':
            opsem.put(P, e, st, n, 'nano::' + cls, op=C(b.TOK[tree[1]]), token=b.tok('nt', tree[1]),
                      left=b.mk(tree[2], 'l'), right=b.mk(tree[3], 'r'))
        else:
            opsem.put(P, e, st, n, 'nano::' + cls, op=b.tok('nt', tree[1]), child=b.mk(tree[2], 'c'))
        b.at[single(n)] = tree
    judge(ctx, R, W, cls, None, tree, hold, *W.run(cls, setup))


def judge(ctx, R, W, cls, field, tree, hold, e, outs, f):
    key = '%s.%s=%s' % (cls, field or 'self', shape(tree))
    if outs is None:
        R.undecided(key, 'no visit function')
        return
    R.fn(f)
    b, root = hold['b'], hold['o']
    pos = {t: a for a, t in b.at.items()}
    vis = add(W.this, ZERO)
    n = A('obj', cls)
    for o in outs:
        st = o.st
        terms = list(all_terms(st))
        news = []
        for (at, c, k), v in st.mem.items():
            if len(at) == 1 and at[0][0].kind == 'call' and at[0][0].args[0] == 'map[]' and is_lin(v[1]):
                terms.append(v[1])
        if field:
            cur = mem(st, add(n, C(W.fld(cls, field))))
        else:
            cur = root
        newval = None
        if cur is not None and cur != root and is_lin(cur):
            ty = mem(st, add(cur, C(W.fld('ast_node_t', 'type'))))
            newval = mem(st, add(cur, C(W.fld('ast_exp_lit_var_t', 'val'))))
            if newval is not None:
                terms.append(newval)
        val, fnd = lookups(terms)

        missing = []

        def leaf(t):
            if t[0] in ('lit', 'const'):
                return A('val', t[1])
            a = pos[t]
            if a not in fnd or not (found(st, fnd[a]) or counted(st, a)):
                missing.append((t, None))
            return val.get(a, A('val', t[1]))

        def judge_value(got, tree, what, k):
            del missing[:]
            leaves(tree, leaf)
            if missing:
                t, c = missing[0]
                R.bad('%s:%s' % (key, k), f.loc(), '%s: %s although the operand %s has no known value' % (shape(tree), what, t[2]))
                return
            g = agrees(e, st, got, tree, leaf)
            if g is True:
                R.ok('folded value equals the run-time value')
            elif g is None:
                R.undecided(key, '%s %s' % (what, show(got) if is_lin(got) else got))
            else:
                R.bad('%s:%s' % (key, k), f.loc(), '%s: %s, but it %s' % (shape(tree), what, g[1]))
        if o.kind == 'throw':
            # rejected: only for a division whose divisor is zero
            div = tree[0] == 'bin' and tree[1] in ('TOK_DIV', 'TOK_MOD')
            del missing[:]
            if div:
                z = st.const(leaf(tree[3]))
                if z == 0 and not missing:
                    R.ok('division by zero is rejected')
                    continue
                if missing:
                    R.undecided(key, 'rejected with an unknown divisor')
                    continue
                if st.facts.lossy:
                    R.undecided(key, 'rejection')
                    continue
            if field and cls in ('ast_exp_bin_op_t',):
                R.undecided(key, 'rejection')
                continue
            R.bad(key + ':reject', f.loc(), '%s: a valid constant expression is rejected' % shape(tree))
            continue
        if o.kind != 'ret':
            R.bad(key + ':abort', f.loc(), '%s: folding can abort the compiler (%s)' % (shape(tree), o.kind))
            continue
        # remembered values
        for (at, c, k), v in st.mem.items():
            if len(at) != 1 or at[0][0].kind != 'call' or at[0][0].args[0] != 'map[]' or c != 0:
                continue
            kk = at[0][0].args[3]
            t = b.at.get(single(kk)) if is_lin(kk) else None
            if t is None:
                if is_lin(kk) and single(kk) is single(n):
                    continue       # the node being visited itself; judged by its own obligation
                R.undecided(key, 'value recorded under %s' % (show(kk) if is_lin(kk) else kk))
                continue
            judge_value(v[1], t, 'a value is recorded for it', 'record')
        if cur is None or cur == root:
            R.ok('left alone')
            continue
        if ty is None or st.const(ty) is None or newval is None:
            R.undecided(key, 'replacement not understood')
            continue
        if st.const(ty) != W.nt('ast_exp_lit_var_t'):
            R.undecided(key, 'replaced by another kind of node')
            continue
        judge_value(newval, tree, 'replaced by a literal', 'value')


def leaves(t, leaf):
    if t[0] == 'bin':
        leaves(t[2], leaf)
        leaves(t[3], leaf)
    elif t[0] == 'un':
        leaves(t[2], leaf)
    else:
        leaf(t)


def initialiser(ctx, R, tree):
    """global initialisers evaluated by eval_t"""
    W = visit.Walk(ctx, 'nano::sema_global_var_t')
    hold = {}
    key = 'global initialiser %s' % shape(tree)

    def setup(e, st, n):
        b = Build(W, e, st)
        hold['o'] = b.mk(tree, 'T')
        opsem.put(ctx.P, e, st, n, 'nano::ast_decl_var_t', expr=hold['o'])
    e, outs, f = W.run('ast_decl_var_t', setup, real=8)
    if outs is None:
        R.undecided(key, 'no visit function')
        return
    R.fn(f)
    n = A('obj', 'ast_decl_var_t')

    def leaf(t):
        return A('val', t[1])
    nofold = has(tree, lambda t: t[0] == 'other' or t[0] == 'const' and t[2] != 'const')
    for o in outs:
        st = o.st
        if o.kind == 'throw':
            g = [w for w, s in ev(e, st, tree, leaf)]
            if all(w is None for w in g):
                R.ok('division by zero is rejected')
            elif st.facts.lossy or nofold:
                R.undecided(key, 'rejection')
            else:
                R.bad(key + ':reject', f.loc(), '%s: a valid constant expression is rejected' % shape(tree))
            continue
        if o.kind != 'ret':
            R.bad(key + ':abort', f.loc(), '%s: evaluation can abort the compiler' % shape(tree))
            continue
        cur = mem(st, add(n, C(W.fld('ast_decl_var_t', 'expr'))))
        if cur is None or cur == hold['o']:
            R.ok('left alone')
            continue
        ty = mem(st, add(cur, C(W.fld('ast_node_t', 'type'))))
        v = mem(st, add(cur, C(W.fld('ast_exp_lit_var_t', 'val'))))
        if ty is None or st.const(ty) != W.nt('ast_exp_lit_var_t') or v is None:
            R.undecided(key, 'replacement not understood')
            continue
        if nofold:
            R.bad(key + ':notconst', f.loc(), '%s: an initialiser that is not constant is replaced by the value %s' % (shape(tree), show(v)))
            continue
        g = agrees(e, st, v, tree, leaf)
        if g is True:
            R.ok('initialiser value equals the run-time value')
        elif g is None:
            R.undecided(key, show(v) if is_lin(v) else 'value')
        else:
            R.bad(key + ':value', f.loc(), '%s: replaced by a literal, but it %s' % (shape(tree), g[1]))


def has(t, p):
    if p(t):
        return True
    return any(has(x, p) for x in t[2:] if isinstance(x, tuple))


# ---------------------------------------------------------------- branch removal
def branches(ctx, R, j):
    cls, cond = j
    W = visit.Walk(ctx, 'nano::opt_if_remove_t')
    flds = ('then_block', 'else_block') if cls == 'ast_stmt_if_t' else ('body',)
    key = '%s condition %s' % (cls, cond)
    V = A('val', 'c')

    def setup(e, st, n):
        if cond == 'ast_exp_lit_var_t':
            x = W.node(e, st, 'cond', cond, val=V)
        else:
            x = W.node(e, st, 'cond', cond)
        opsem.put(ctx.P, e, st, n, 'nano::' + cls, expr=x)
    e, outs, f = W.run(cls, setup)
    if outs is None:
        R.undecided(key, 'no visit function')
        return
    R.fn(f)
    n = A('obj', cls)

    def now(st, fld):
        v = mem(st, add(n, C(W.fld(cls, fld))))
        return v
    for o in outs:
        if o.kind != 'ret':
            R.bad(key + ':abort', f.loc(), '%s: branch removal can abort the compiler' % key)
            continue
        st = o.st
        x = now(st, 'expr')
        cur = {k: now(st, k) for k in flds}
        if any(v is None for v in cur.values()) or x is None:
            R.undecided(key, 'fields not tracked')
            continue
        if cond != 'ast_exp_lit_var_t':
            if x == A('obj', 'cond') and all(cur[k] == A('obj', k) for k in flds):
                R.ok('non-literal condition left alone')
            elif x == A('obj', 'cond'):
                R.bad(key + ':changed', f.loc(), '%s: a branch is changed although the condition is not an integer literal' % cls)
            else:
                R.undecided(key, 'condition replaced')
            continue
        ty = mem(st, add(x, C(W.fld('ast_node_t', 'type'))))
        v = mem(st, add(x, C(W.fld('ast_exp_lit_var_t', 'val'))))
        if ty is None or st.const(ty) != W.nt('ast_exp_lit_var_t') or v is None:
            R.undecided(key, 'condition replaced')
            continue
        for before, s in truth(e, st, V):
            for after, s2 in truth(e, s, v):
                if s2.facts.lossy:
                    R.undecided(key, 'joined paths')
                    continue
                if cls == 'ast_stmt_if_t':
                    want = A('obj', 'then_block' if before else 'else_block')
                    got = cur['then_block'] if after else cur['else_block']
                    if got == want:
                        R.ok('the block that runs is kept')
                    else:
                        R.bad('%s:%s' % (key, 'then' if before else 'else'), f.loc(),
                              'if with a literal condition that is %s: runs %s afterwards instead of %s' % (
                                  'true' if before else 'false', show(got) if s2.const(got) != 0 else 'nothing', show(want)))
                else:
                    if not before:
                        if after:
                            R.bad(key + ':runs', f.loc(), 'while with a false literal condition runs after branch removal')
                        else:
                            R.ok('a loop that never runs stays so')
                    else:
                        if after and cur['body'] == A('obj', 'body'):
                            R.ok('a loop with a true condition keeps its body')
                        else:
                            R.bad(key + ':lost', f.loc(), 'while with a true literal condition loses its body or its condition')


def postret(ctx, R):
    """statements are erased from a list only after a return in the same list"""
    W = visit.Walk(ctx, 'nano::opt_post_ret_t')
    RET = W.nt('ast_stmt_return_t')
    vec = W.vec('ast_block_t', 'nodes')
    erased = []

    def obs(eng, st, kind, fr, ins, kw):
        if kind in ('vec_erase', 'vec_resize', 'vec_clear', 'vec_pop_back') and kw.get('vec') == vec:
            erased.append((st.copy(), kw, fr.fn.mod.loc(ins.dbg) or fr.fn.loc()))
    hold = {}

    def tune(e):
        e.loopinfo = {}
        hold['e'] = e
    e, outs, f = W.run('ast_block_t', obs=obs, tune=tune)
    if outs is None:
        R.undecided('dead code', 'no visit function')
        return
    R.fn(f)
    tyo = W.fld('ast_node_t', 'type')

    def is_ret(st, t):
        """does the state know that some node type loaded is the return type"""
        for fm, rg in st.facts.d.items():
            if rg[0] is not None and rg[0] == rg[1] == RET and len(fm) == 1 and fm[0][0].kind == 'ld' and fm[0][1] == 1:
                ad = fm[0][0].args[0]
                if is_lin(ad) and ad[0] == tyo:
                    return True
        return False
    flags = {}
    for hv, (init, backs, K, var) in e.loopinfo.items():
        a = single(hv) if is_lin(hv) else hv
        if a is None:
            continue
        flags[a] = (init, backs)
    good = set()
    for a, (init, backs) in flags.items():
        # a flag: initially 0, nonzero afterwards only when it was nonzero or a return was seen in the iteration
        if not is_lin(init) or init != ZERO:
            continue
        ok = bool(backs)
        bad = False
        for v, s in backs:
            if not is_lin(v):
                ok = False
                continue
            t = s.copy()
            try:
                e.assume(t, e.cmp(t, 'eq', (0, ((a, 1),)), ZERO, I32), True)
                e.assume(t, e.cmp(t, 'ne', v, ZERO, I32), True)
            except Infeasible:
                continue
            if not is_ret(t, None):
                ok = False
        if ok:
            good.add(a)
    for st, kw, loc in erased:
        on = [a for a in flags if is_nonzero(st, a)]
        if any(a in good for a in on) or is_ret(st, None):
            R.ok('erasure only after a return')
        elif st.facts.lossy:
            R.undecided('dead code', 'erasure under joined paths')
        elif any(a.kind in ('call', 'bool', 'unk') for fm in st.facts.d for a, _ in fm):
            R.undecided('dead code', 'erasure guarded by a condition that is not understood')
        else:
            R.bad('dead code:erase', loc, 'a statement is erased on a path where no return precedes it in its block')


def is_nonzero(st, a):
    t = st.facts.copy()
    try:
        t.eq0((0, ((a, 1),)))
    except Infeasible:
        return True
    return False


def run(ctx, R):
    a, b, c = ('lit', 'a'), ('lit', 'b'), ('lit', 'c')
    jobs = []
    trees = []
    for t in BIN:
        trees.append(('bin', t, a, b))
        trees.append(('bin', t, a, ('other', 'x', OTHER[0])))
        trees.append(('bin', t, ('other', 'x', OTHER[0]), b))
        trees.append(('bin', t, ('other', 'x', OTHER[0]), ('other', 'y', OTHER[0])))
    for t in ('TOK_ADD', 'TOK_AND', 'TOK_OR', 'TOK_MUL', 'TOK_EQ'):
        for k in OTHER[1:]:
            trees.append(('bin', t, a, ('other', 'x', k)))
            trees.append(('bin', t, ('other', 'x', k), b))
    for t in UN:
        trees.append(('un', t, a))
        for k in OTHER:
            trees.append(('un', t, ('other', 'x', k)))
    for t in trees:
        jobs.append(('record', t))
        for cls, fld in FIELDS:
            jobs.append(('fold', (cls, fld, t)))
    # leaves of every kind stay what they are
    for cls, fld in FIELDS:
        for k in OTHER:
            jobs.append(('fold', (cls, fld, ('other', 'x', k))))
    init = []
    for t in BIN:
        init.append(('bin', t, a, b))
        init.append(('bin', t, ('const', 'a', 'const'), b))
        init.append(('bin', t, a, ('const', 'b', 'const')))
        for w in ('var', 'constx'):
            init.append(('bin', t, ('const', 'a', w), b))
            init.append(('bin', t, a, ('const', 'b', w)))
        for k in OTHER[1:]:
            init.append(('bin', t, a, ('other', 'x', k)))
            init.append(('bin', t, ('other', 'x', k), b))
        init.append(('bin', 'TOK_SUB', ('bin', t, a, b), c))
        init.append(('bin', 'TOK_SUB', a, ('bin', t, b, c)))
        init.append(('un', 'TOK_SUB', ('bin', t, a, b)))
        init.append(('un', 'TOK_NOT', ('bin', t, a, b)))
        init.append(('bin', t, ('un', 'TOK_SUB', a), b))
        init.append(('bin', t, ('un', 'TOK_NOT', a), b))
        init.append(('bin', t, a, ('bin', 'TOK_ADD', ('other', 'x', OTHER[1]), c)))
        init.append(('bin', t, ('un', 'TOK_SUB', ('other', 'x', OTHER[4])), b))
    for t in UN:
        init.append(('un', t, a))
        init.append(('un', t, ('const', 'a', 'const')))
        init.append(('un', t, ('const', 'a', 'var')))
        init.append(('un', t, ('un', t, a)))
        for k in OTHER[1:]:
            init.append(('un', t, ('other', 'x', k)))
    jobs += [('init', t) for t in init]
    for cls in ('ast_stmt_if_t', 'ast_stmt_while_t'):
        for k in ('ast_exp_lit_var_t', 'ast_exp_bin_op_t') + OTHER:
            jobs.append(('branch', (cls, k)))
    jobs.append(('post', None))
    R.floor('folding and removal cases', len(jobs), 500)

    def work(j, r):
        k, x = j
        if k == 'fold':
            frame.guard(r, fold, ctx, r, x)
        elif k == 'record':
            frame.guard(r, record, ctx, r, x)
        elif k == 'init':
            frame.guard(r, initialiser, ctx, r, x)
        elif k == 'branch':
            frame.guard(r, branches, ctx, r, x)
        else:
            frame.guard(r, postret, ctx, r)
    frame.pmap(work, jobs, R)
