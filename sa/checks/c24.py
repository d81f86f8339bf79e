"""C24: names resolve to the innermost declaration in scope."""
import itertools
import eng as E
import opsem, stdmodel, sema, visit
import frame
from sema import O, child_name
from terms import *
from ir import Anchor, thresholds

EXPLAIN = (
    'The pass that binds names is found by what it does (it stores the declaration of an identifier).  Its visit() method '
    '- own or inherited - is analysed for every node kind on LLVM IR with the visit of a child abstracted, following the '
    'stack of scopes exactly on every path: no scope of the surrounding code is closed, the stack is as deep afterwards as '
    'before, every block of a statement is visited in a scope opened for it alone, conditions and bounds are visited in a '
    'scope in which no block has declared anything, arguments and body of a function share a scope opened for that function, '
    'a declaration is entered into the innermost scope after its initialiser was visited, and the program enters every '
    'function and global into the outermost scope before any body is visited.  For every kind of use of a name the '
    'declaration stored is the result of a lookup of exactly that name; a failed lookup or a declaration of the wrong kind '
    'raises an error.  The lookup itself is analysed over stacks of up to three scopes holding up to two functions or '
    'variables each (and of any size the lookup compares a size with) with symbolic names: the result is a declaration of that name from the innermost scope that has one, '
    'and none only when no scope has one.')

BLOCKS = {'then_block', 'else_block', 'body'}
USES = {'ast_exp_ident_t': ('ast_decl_var_t', 'ast_decl_func_t'), 'ast_exp_member_t': ('ast_decl_var_t',),
        'ast_stmt_assign_var_t': ('ast_decl_var_t',), 'ast_stmt_assign_array_t': ('ast_decl_var_t',),
        'ast_stmt_assign_member_t': ('ast_decl_var_t',), 'ast_stmt_for_t': ('ast_decl_var_t',)}


def lists(S, e, st, n, cls, kinds):
    """the child list of a node holds objects k0, k1, ... of the given kinds"""
    for field in visit.CHILDREN[cls][1]:
        v = add(n, C(S.W.fld(cls, field)))
        stdmodel.set_vsize(e, st, v, C(len(kinds)))
        for i, k in enumerate(kinds):
            o = S.W.node(e, st, 'k%d' % i, k)
            e.store_raw(st, add(A('vdata', v), C(8 * i)), 8, o)


def tune(e):
    e.unroll = 8


KIDS = {'ast_program_t': ('ast_decl_func_t', 'ast_decl_var_t', 'ast_decl_func_t', 'ast_decl_var_t'),
        'ast_decl_func_t': ('ast_decl_var_t', 'ast_decl_var_t'),
        'ast_block_t': ('ast_stmt_if_t', 'ast_decl_var_t', 'ast_stmt_while_t'),
        'ast_exp_call_t': ('ast_exp_ident_t', 'ast_exp_bin_op_t'),
        'ast_exp_array_init_t': ('ast_exp_ident_t', 'ast_exp_bin_op_t')}


def opens(ctx, S):
    """a block opens a scope for its own statements"""
    e, outs, f = S.run('ast_block_t', lambda e, st, n: lists(S, e, st, n, 'ast_block_t', KIDS['ast_block_t']), tune=tune)
    sc = [s for o in outs or () if o.kind == 'ret' for t, s, l in S.scopes(o)[0] if t[0] == 'visit']
    return bool(sc) and all(sc)


def scoping(ctx, S, cls, R, own=False):
    """scope stack of one node kind"""
    W = S.W

    def su(e, st, n):
        if cls in KIDS:
            lists(S, e, st, n, cls, KIDS[cls])
        if cls in USES:
            opsem.put(ctx.P, e, st, n, 'nano::' + cls, decl=ZERO)
            opsem.put(ctx.P, e, st, O('FOUND'), 'nano::ast_node_t', type=C(W.nt('ast_decl_var_t')))
    e, outs, f = S.run(cls, su, tune=tune)
    if f is None:
        raise Anchor('visit of ' + cls)
    R.fn(f)
    rets = [o for o in outs if o.kind == 'ret']
    if not rets:
        R.undecided(cls, 'no path completes')
    for o in rets:
        if any(t[0] in ('odd', 'loop') for t in o.st.trace):
            R.undecided(cls, 'scopes changed in a way the rule does not follow: %s' % [t[:2] for t in o.st.trace if t[0] in ('odd', 'loop')][:2])
            continue
        ev, end, low = S.scopes(o)
        site = f.loc()
        if low:
            s = next(t for t, sc, l in ev if l)
            R.bad(cls + ':closes', s[1], 'visiting a %s closes a scope it did not open' % cls)
            continue
        if end and cls != 'ast_program_t':
            R.bad(cls + ':leaks', next(t[1] for t, sc, l in ev if t[0] == 'push'),
                  'a scope opened for a %s is still open after it: its names stay visible in the code that follows' % cls)
            continue
        R.ok('scope stack balanced')
        used = {}      # scope -> first block visited in it
        args_in = {}
        prog = cls == 'ast_program_t'
        ins = {}
        for t, sc, l in ev:
            if t[0] == 'visit':
                k = child_name(t[1])
                if k is None:
                    R.undecided(cls, 'child %s' % show(t[1])[:60])
                    continue
                if prog:
                    missing = [x for x in ('k0', 'k1', 'k2', 'k3') if x not in ins]
                    if missing:
                        R.bad(cls + ':collect', t[2], 'a function or global of the program is not declared when the first bodies are visited')
                        break
                    R.ok('globals declared before bodies')
                    continue
                if cls == 'ast_decl_func_t' and k in ('k0', 'k1'):
                    args_in[k] = sc
                    continue
                if cls in ('ast_block_t',):
                    args_in[k] = sc
                    continue
                if k in BLOCKS:
                    if own and cls != 'ast_decl_func_t':
                        R.ok('block has a scope of its own')
                        continue
                    if not sc:
                        R.bad(cls + ':' + k, t[2], 'the %s of a %s is visited in the surrounding scope: its names stay visible after it' % (k, cls))
                        continue
                    dirty = [x for x in sc if x in used]
                    if dirty:
                        R.bad(cls + ':' + k, t[2], 'the %s of a %s is visited in the scope of its %s' % (k, cls, used[dirty[0]]))
                        continue
                    R.ok('block has a scope of its own')
                    for x in sc:
                        used[x] = k
                    if cls == 'ast_decl_func_t':
                        for a in ('k0', 'k1'):
                            if a not in args_in:
                                R.bad(cls + ':args', t[2], 'the arguments of a function are not declared when its body is visited')
                            elif args_in[a] == ():
                                R.bad(cls + ':args', t[2], 'the arguments of a function are declared in the surrounding scope')
                            elif args_in[a] != sc[:len(args_in[a])]:
                                R.bad(cls + ':args', t[2], 'the scope of the arguments of a function is not open in its body')
                            else:
                                R.ok('arguments visible in the body')
                else:
                    dirty = [x for x in sc if x in used]
                    if dirty:
                        R.bad(cls + ':' + k, t[2], 'the %s of a %s sees the names declared in its %s' % (k, cls, used[dirty[0]]))
                    else:
                        R.ok('expression outside the block scopes')
            elif t[0] == 'ins':
                v = child_name(t[2])
                if t[1] is None or v is None:
                    R.undecided(cls, 'insertion %s' % show(t[2])[:60])
                    continue
                if prog:
                    if t[1][0] == 'bottom' and t[1][1] == 0 or (t[1] == ('top', 0) and len(sc) == 1):
                        ins[v] = 1
                    continue
                if cls == 'ast_decl_var_t' and v == cls:
                    if t[1] != ('top', 0) or sc:
                        R.bad(cls + ':where', t[3], 'a variable is not declared in the innermost scope')
                        continue
                    seen = [x for x, _, _ in ev[:ev.index((t, sc, l))] if x[0] == 'visit']
                    if not seen:
                        R.bad(cls + ':early', t[3], 'a variable is in scope in its own initialiser')
                        continue
                    ins[v] = 1
                    R.ok('declaration enters the innermost scope')
                elif cls == 'ast_decl_func_t' and v == 'k0' or v == 'k1':
                    args_in[v] = sc
                else:
                    R.bad(cls + ':stray', t[3], '%s enters %s into a scope' % (cls, v))
            elif t[0] == 'lookup':
                dirty = [x for x in sc if x in used]
                if dirty:
                    R.bad(cls + ':lookup', t[2], 'the name of a %s is looked up in the scope of its %s' % (cls, used[dirty[0]]))
        if cls == 'ast_decl_var_t' and not ins and not any(t[0] == 'ins' for t, _, _ in ev):
            R.bad(cls + ':lost', site, 'a variable declaration does not enter the scope')
        if cls == 'ast_block_t':
            if len(set(args_in.values())) > 1:
                R.bad(cls + ':split', site, 'the statements of a block are visited in different scopes')
            elif len(args_in) == 3:
                R.ok('statements of a block share a scope')
        if cls == 'ast_program_t' and len(ins) < 4 and not any(t[0] == 'visit' for t, _, _ in ev):
            R.undecided(cls, 'no child visited')
    return True


def uses(ctx, S, cls, R):
    """declaration stored for a use of a name"""
    P, W = ctx.P, S.W
    allowed = USES[cls]
    off = P.field('nano::' + cls, 'decl')
    onm = P.field('nano::' + cls, 'name')
    ostr = P.field('nano::token_t', 'str_')
    for what in (None, 'ast_decl_var_t', 'ast_decl_func_t', 'ast_block_t'):
        def su(e, st, n):
            opsem.put(P, e, st, n, 'nano::' + cls, decl=ZERO, name=O('NAME'))
            if what:
                opsem.put(P, e, st, O('FOUND'), 'nano::ast_node_t', type=C(W.nt(what)))
        e, outs, f = S.run(cls, su, found=O('FOUND') if what else ZERO)
        R.fn(f)
        name = None
        for o in outs:
            if o.kind == 'abort':
                continue
            key = '%s:%s' % (cls, what)
            lk = [t for t in o.st.trace if t[0] == 'lookup']
            er = [t for t in o.st.trace if t[0] == 'err']
            a = add(O(cls), C(off))
            v = o.st.mem.get((a[1], a[0], 'M'))
            v = v[1] if v else None
            want = stdmodel.scontent(e, o.st, add(O('NAME'), C(ostr)))
            if len(lk) != 1:
                if not lk and o.kind == 'ret':
                    R.undecided(key, 'no lookup')
                elif lk:
                    R.undecided(key, '%d lookups' % len(lk))
                continue
            if lk[0][1] != want:
                if any(x.kind in ('str', 'slit') for x, k in lk[0][1][1]):
                    R.bad(key + ':name', lk[0][2], 'a %s looks up %s instead of its own name' % (cls, show(lk[0][1])[:80]))
                else:
                    R.undecided(key, 'name looked up: %s' % show(lk[0][1])[:80])
                continue
            if what in allowed:
                if er:
                    R.bad(key + ':refused', er[0][3], 'a %s whose name is declared as %s is reported as an error (%s)' % (cls, what, er[0][1]))
                elif o.kind == 'ret' and v != O('FOUND'):
                    if v is None or v == ZERO:
                        R.bad(key + ':unbound', f.loc(), 'the declaration found for a %s is not stored' % cls)
                    else:
                        R.undecided(key, 'stored %s' % show(v)[:60])
                else:
                    R.ok('use bound to the declaration found')
            else:
                if o.kind == 'ret' and not er:
                    R.bad(key + ':accepted', f.loc(), 'a %s whose name %s is accepted' % (cls, 'is declared as ' + what if what else 'is not declared'))
                else:
                    R.ok('use without a fitting declaration is an error')
                    t = er[0] if er else None
                    if t and t[2] and t[2][0] not in (O('NAME'),):
                        if child_name(t[2][0]):
                            R.bad(key + ':token', t[3], 'the error for a %s points to another token' % cls)


def lookup(ctx, S, R):
    """the lookup over small stacks of scopes with symbolic names"""
    P, W = ctx.P, S.W
    if S.scope is None or not S.look:
        R.undecided('lookup', 'no scope stack of a known shape')
        return
    f = S.look[0]
    ostr = P.field('nano::token_t', 'str_')
    shapes = []
    for n in (0, 1, 2, 3):
        for sz in itertools.product((0, 1, 2), repeat=n):
            if sum(sz) <= 4:
                shapes.append(sz)
    jobs = []
    for sz in shapes:
        tot = sum(sz)
        for kinds in itertools.product('vf', repeat=tot):
            jobs.append((sz, kinds))
    # sizes the code compares with: scopes of that size and one more
    for c in sorted(thresholds(P, f)):
        for n in (c, c + 1):
            for sz in ((1, n, 1), (1, 1, n), (n, 1)):
                jobs.append((sz, 'v' * sum(sz)))
    R.floor('scope stacks', len(jobs), 100)

    def work(j, R):
        sz, kinds = j
        e = E.Engine(P)
        e.join = False
        e.unroll = max(8, max(sz or (0,)) + 4)
        e.hook(sema.ERR, sema.raise_hook)
        st = E.St()
        stdmodel.set_vsize(e, st, S.scope, C(len(sz)))
        els, k = [], 0
        for i, n in enumerate(sz):
            so = add(A('vdata', S.scope), C(S.esize * i))
            if S.kind == 'set':
                e.finite[so] = n
            elif S.kind == 'vector':
                stdmodel.set_vsize(e, st, so, C(n))
            else:
                R.undecided('lookup', 'scopes kept in a %s' % S.kind)
                return
            for q in range(n):
                d = O('D%d' % k)
                cls = 'ast_decl_var_t' if kinds[k] == 'v' else 'ast_decl_func_t'
                W.node(e, st, 'D%d' % k, cls)
                c = A('str', 'name%d' % k)
                if kinds[k] == 'v':
                    opsem.put(P, e, st, d, 'nano::' + cls, name=O('T%d' % k))
                    stdmodel.set_s(e, st, add(O('T%d' % k), C(ostr)), c)
                else:
                    stdmodel.set_s(e, st, add(d, C(P.field('nano::' + cls, 'name'))), c)
                if S.kind == 'set':
                    e.store_raw(st, stdmodel.fitel(so, q), 8, d)
                else:
                    e.store_raw(st, add(A('vdata', so), C(8 * q)), 8, d)
                els.append((i, d, c))
                k += 1
        NM = O('NAMESTR')
        stdmodel.set_s(e, st, NM, A('str', 'wanted'))
        outs = e.call_fn(f, [S.this, NM], st)
        for o in outs:
            if o.kind != 'ret':
                R.undecided('lookup %s' % (j,), o.kind)
                continue
            r = o.val
            eq = {}
            for i, d, c in els:
                s = o.st
                t = stdmodel.s_eq(e, s.copy(), c, A('str', 'wanted'))
                eq[d] = s.const(t) if is_lin(t) else None
                if eq[d] is None:
                    fs = e.fork(s.copy(), t)
                    eq[d] = int(fs[0][0]) if len(fs) == 1 else None
            if is_lin(r) and not r[1] and r[0] == 0:
                hid = [d for i, d, c in els if eq[d] != 0]
                sure = [d for i, d, c in els if eq[d] == 1]
                if sure:
                    R.bad('lookup:miss', f.loc(), 'the lookup does not find a name that is declared in an open scope')
                elif hid:
                    # some declaration was not even compared: it may carry the name
                    R.bad('lookup:skip', f.loc(), 'the lookup fails without comparing the name with a declaration of an open scope (scopes %s)' % (sz,))
                else:
                    R.ok('name not found in any scope')
                continue
            hit = [x for x in els if x[1] == r]
            if not hit:
                R.undecided('lookup %s' % (j,), show(r)[:80] if is_lin(r) else repr(r)[:80])
                continue
            i, d, c = hit[0]
            if eq[d] == 0:
                R.bad('lookup:other', f.loc(), 'the lookup returns a declaration with another name')
                continue
            if eq[d] is None:
                R.bad('lookup:unchecked', f.loc(), 'the lookup returns a declaration without comparing its name')
                continue
            inner = [x for x in els if x[0] > i and eq[x[1]] != 0]
            if inner:
                R.bad('lookup:order', f.loc(), 'the lookup returns a declaration of an outer scope although an inner scope may declare the name')
                continue
            R.ok('innermost declaration found')
    frame.pmap(work, jobs, R)


def run(ctx, R):
    S = sema.find_resolver(ctx)
    R.fn(S.look[0])
    jobs = [('scope', c) for c in visit.CHILDREN] + [('use', c) for c in USES]
    R.floor('node kinds', len(jobs), 29)

    own = opens(ctx, S)

    def work(j, r):
        if j[0] == 'scope':
            scoping(ctx, S, j[1], r, own)
        else:
            uses(ctx, S, j[1], r)
    frame.pmap(work, jobs, R)
    frame.guard(R, lookup, ctx, S, R)
    from checks import c16
    frame.guard(R, c16.dispatch, ctx, R)
    frame.guard(R, c16.passes, ctx, R, {S.cls.split('::')[-1]})
    R.sample('resolver pass: %s, lookup %s' % (S.cls, S.look[0].dem.split('(')[0]))
