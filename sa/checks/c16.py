"""C16: every pass reaches every part of the tree; collection keeps referenced nodes; replace_child replaces."""
import re
from terms import *
import eng as E
import frame, visit, opsem, stdmodel
from ir import Anchor
from visit import CHILDREN

EXPLAIN = (
    'For every pass (subclass of ast_visitor_t) that checks, annotates or generates code and every node kind, the visit '
    'method the pass really uses is analysed on LLVM IR with the children as symbolic objects: on every path that '
    'returns normally each child that the pass must see is dispatched, and for child lists the loop covers the whole '
    'list and dispatches the element on every iteration.  dispatch() itself is analysed once per node kind: it reaches '
    'the visit method of that class with that node.  The collector inserts every visited node and deletes only nodes '
    'it did not find.  replace_child of every node class is analysed per child: exactly that child is replaced.')

STMT = {'then_block', 'else_block', 'body', 'nodes', 'children', 'args'}
ALL = None
# pass -> which children it must visit (ALL or a set of fields), exceptions (node, child)
PASSES = {
    'gc_visitor_t': (ALL, ()),
    'sema_decl_annotate_t': (ALL, ()),
    'sema_const_t': (ALL, ()),
    'sema_num_args_t': (ALL, ()),
    'sema_multi_decls_t': (STMT, (('ast_exp_call_t', 'args'),)),
    'pregen_offset_t': (STMT, (('ast_exp_call_t', 'args'), ('ast_decl_func_t', 'args'), ('ast_program_t', 'children'))),
    'pregen_functions_t': (STMT, (('ast_exp_call_t', 'args'), ('ast_decl_func_t', 'args'))),
    'codegen_pass_t': (ALL, (('ast_exp_call_t', 'callee'), ('ast_decl_func_t', 'args'), ('ast_decl_var_t', 'expr'), ('ast_program_t', 'children'))),
    'ast_printer_t': (ALL, ()),
}


def run(ctx, R):
    frame.guard(R, dispatch, ctx, R)
    frame.guard(R, passes, ctx, R)
    frame.guard(R, collect, ctx, R)
    frame.guard(R, replace, ctx, R)


# ------------------------------------------------------------------ dispatch
def dispatch(ctx, R):
    P = ctx.P
    fs = [f for f in P.find('nano::ast_visitor_t::dispatch') if P.in_repo(f)]
    if not fs:
        raise Anchor('ast_visitor_t::dispatch')
    f = fs[0]
    R.fn(f)
    n = 0
    for cls in CHILDREN:
        try:
            ty = opsem.node_type(P, 'nano::' + cls)
        except Anchor:
            R.undecided('dispatch ' + cls, 'node type')
            continue
        e = E.Engine(P)
        e.join = False
        node, this = A('obj', 'NODE'), A('obj', 'VIS')

        def vcall(eng, st, fr, x, c, slot, args, P=P):
            im = P.impls(c, slot) if isinstance(c, str) else None
            ps = set()
            for nm, g in im or ():
                m = re.search(r'::visit\((?:nano::)?(\w+)\s*\*\)', P.demangle(nm))
                if m:
                    ps.add(m.group(1))
            if len(ps) == 1 and is_lin(args[0]) and args[0] == this:
                st.emit('visits', ps.pop(), args[1], eng.site(), eng.load_raw(st, this, 8, 'p'))
                return [(ZERO, st)]
            return None
        e.vcall = vcall
        st = E.St()
        opsem.put(P, e, st, node, 'nano::ast_node_t', type=C(ty))
        so = add(this, C(P.field('nano::ast_visitor_t', 'stack')))
        n0 = A('vsize', so, (0, 0))
        for o in e.call_fn(f, [this, node], st):
            key = 'dispatch ' + cls
            v = [t for t in o.st.trace if t[0] == 'visits']
            if o.kind != 'ret':
                R.bad(key, f.loc(), 'dispatch does not know the node kind %s' % cls)
                continue
            if len(v) != 1:
                if not v and not e.opaque.get('<indirect>'):
                    R.bad(key, f.loc(), 'dispatch visits nothing for a %s' % cls)
                else:
                    R.undecided(key, '%d visits' % len(v))
                continue
            if v[0][1] != cls:
                R.bad(key, v[0][3], 'dispatch visits a %s as %s' % (cls, v[0][1]))
            elif v[0][2] != node:
                R.bad(key, v[0][3], 'dispatch visits another node than the one given (%s)' % cls)
            else:
                R.ok('dispatch reaches the visit method of the node kind')
                n += 1
            m = o.st.mem.get((so[1], so[0], 'N'))
            if m is not None:
                d = o.st.const(sub(m[1], n0))
                if d is not None and d != 0:
                    R.bad(key + ':stack', f.loc(), 'dispatch leaves %+d entries on the stack of ancestors for a %s' % (d, cls))
                elif d == 0:
                    R.ok('ancestor stack restored')
    R.floor('node kinds dispatched', n, 20)


# ------------------------------------------------------------------ passes
def passes(ctx, R, only=None):
    P = ctx.P
    jobs = []
    have = {v.split('::')[-1]: v for v in visit.visitors(P)}
    for p in PASSES:
        if only is not None and p not in only:
            continue
        if p not in have:
            R.undecided('pass ' + p, 'no such pass')
            continue
        for cls in CHILDREN:
            jobs.append((p, have[p], cls))
    R.floor('pass/node combinations', len(jobs), 150 if only is None else 20)

    def work(j, r):
        p, v, cls = j
        want, skip = PASSES[p]
        one, lst = CHILDREN[cls]
        one = [c for c in one if (want is ALL or c in want) and (cls, c) not in skip]
        lst = [c for c in lst if (want is ALL or c in want) and (cls, c) not in skip]
        if not one and not lst:
            return
        W = visit.Walk(ctx, v)

        def setup(e, st, n):
            if cls == 'ast_decl_func_t':
                opsem.put(P, e, st, n, 'nano::ast_decl_func_t', is_syscall=ZERO)
                opsem.put(P, e, st, n, 'nano::ast_decl_func_t', is_varargs=ZERO)
        e, outs, f = W.run(cls, setup=setup, seenull=True)
        if f is None:
            r.undecided('%s %s' % (p, cls), 'no visit method')
            return
        r.fn(f)
        key = '%s %s' % (p, cls)
        node = A('obj', cls)
        for o in outs:
            if o.kind != 'ret':
                continue
            for c in one:
                if any(t[0] == 'visit' and t[1] == A('obj', c) for t in o.st.trace):
                    r.ok('child visited on every path')
                elif opaque_visit(o):
                    r.undecided(key, 'child %s' % c)
                else:
                    r.bad(key + '.' + c, f.loc(), '%s does not visit %s of a %s on some path' % (p, c, cls))
            for c in lst:
                vec = W.vec(cls, c, node)
                if o.kind == 'ret':
                    res = covered(e, o, vec)
                    if res is True:
                        r.ok('child list visited completely')
                    elif res is None:
                        r.undecided(key, 'child list %s' % c)
                    else:
                        r.bad(key + '.' + c, f.loc(), '%s does not visit %s of a %s on some path (%s)' % (p, c, cls, res))
        r.sample({'pass': p, 'node': cls, 'paths': len(outs)})
    frame.pmap(work, jobs, R)


def opaque_visit(o):
    """a visit of something that is not recognisably a child"""
    for t in o.st.trace:
        if t[0] == 'visit':
            a = single(t[1]) if is_lin(t[1]) else None
            if a is None or a.kind != 'obj':
                return True
    return False


def elem(v, vec):
    """index term if v is the load of an element of the list at vec, else None"""
    a = single(v) if is_lin(v) else None
    if a is None or a.kind != 'ld':
        return None
    ad = a.args[0]
    b = single(A('vdata', vec))
    if not any(t is b and k == 1 for t, k in ad[1]):
        return None
    return sub(ad, A('vdata', vec))


def covered(e, o, vec):
    """True, None (unknown), or a description of what is missing"""
    n = A('vsize', vec, (0, 0))
    if o.st.facts.const(n) == 0:
        return True
    best = 'not visited at all'
    for t in o.st.trace:
        if t[0] == 'visit' and elem(t[1], vec) is not None:
            best = None
        if t[0] != 'loop':
            continue
        K = t[1]
        ok, some = True, False
        for alt in t[2]:
            ix = [elem(x[1], vec) for x in alt if x[0] == 'visit']
            ix = [i for i in ix if i is not None]
            if ix:
                some = True
            hit = any(i == scale(K, 8) or down(i, K, n) for i in ix)
            if not hit:
                ok = None if ix else False
                if any(x[0] == 'loop' for x in alt):
                    ok = None
                break
        if not some:
            # other loops do not matter
            if len(t) > 4 and any(x[0] == 'visit' for alt in t[2] for x in flat(alt)):
                best = None
            continue
        if ok is False:
            return 'an element is skipped on some path through the loop'
        if ok is None:
            best = None
            continue
        cnt = t[4] if len(t) > 4 else None
        if cnt is None:
            best = None
            continue
        if cnt == n or o.st.const(sub(cnt, n)) == 0:
            return True
        d = o.st.const(sub(cnt, n)) if is_lin(cnt) else None
        d = sub(cnt, n)
        if not d[1] and d[0] < 0:
            return 'the last %d are left out' % -d[0]
        best = None
    if best is None:
        return None
    # no visit of anything unrecognised
    if opaque_visit2(o, vec):
        return None
    return best


def opaque_visit2(o, vec):
    for t in flat(o.st.trace):
        if t[0] == 'visit':
            a = single(t[1]) if is_lin(t[1]) else None
            if a is None or a.kind not in ('obj', 'ld'):
                return True
            if a.kind == 'ld' and elem(t[1], vec) is None and not any(x.kind == 'vdata' for x, k in a.args[0][1]):
                return True
    return False


def down(i, K, n):
    return i == scale(sub(sub(n, ONE), K), 8)


def flat(tr):
    for t in tr:
        if t[0] == 'loop':
            for a in t[2]:
                yield from flat(a)
        else:
            yield t


# ------------------------------------------------------------------ collector
def collect(ctx, R):
    P = ctx.P
    gv = [v for v in visit.visitors(P) if v.endswith('::gc_visitor_t')]
    if not gv:
        raise Anchor('gc_visitor_t')
    nodes = P.field(gv[0], 'nodes_')
    this = A('obj', 'VIS')
    for cls in CHILDREN:
        W = visit.Walk(ctx, gv[0])
        ins = []

        def obs(eng, st, kind, fr, ins_, kw):
            if kind == 'cont' and kw['meth'] in ('insert', 'emplace') and kw['obj'] == add(this, C(nodes)):
                a = kw['args'][0] if kw['args'] else None
                v = st.mem.get((a[1], a[0], 'M')) if is_lin(a) else None
                st.emit('keep', v[1] if v else a)
        e, outs, f = W.run(cls, obs=obs, seenull=True)
        if f is None:
            R.undecided('collect ' + cls, 'no visit method')
            continue
        R.fn(f)
        for o in outs:
            if o.kind != 'ret':
                continue
            k = [t for t in o.st.trace if t[0] == 'keep']
            if any(t[1] == A('obj', cls) for t in k):
                R.ok('visited node is kept')
            elif k:
                R.undecided('collect ' + cls, 'kept node not resolved')
            else:
                R.bad('collect ' + cls, f.loc(), 'the collector does not keep a %s that is in the tree' % cls)
    # only nodes that were not found are deleted
    fs = [f for f in P.find('nano::ast_t::gc') if P.in_repo(f)]
    if not fs:
        raise Anchor('ast_t::gc')
    f = fs[0]
    R.fn(f)
    e = E.Engine(P)
    e.join = False
    e.loopbacks = {}
    AST = A('obj', 'AST')
    prog = add(AST, C(P.field('nano::ast_t', 'program')))

    def found(eng, st, fr, x, fn, args):
        r = A('bool', 'found', args[1])
        return [(r, st)]
    e.hook('nano::gc_visitor_t::found', found)

    def hv(eng, st, fr, x, fn, args):
        st.emit('walk', args[1], eng.site())
        return [(ZERO, st)]
    e.hook('nano::gc_visitor_t::visit', hv)
    e.hook('nano::ast_visitor_t::dispatch', hv)

    def vcall(eng, st, fr, x, c, slot, args):
        # deleting destructor through the vtable, or a virtual visit of the collector
        if len(args) == 1:
            b = A('bool', 'found', args[0])
            st.emit('delete', args[0], st.const(b), eng.site())
            return [(ZERO, st)]
        if len(args) == 2:
            st.emit('walk', args[1], eng.site())
            return [(ZERO, st)]
        return None
    e.vcall = vcall

    def ob(eng, st, kind, fr, ins_, kw):
        pass
    outs = e.call_fn(f, [AST], E.St())
    dels = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        w = [t for t in o.st.trace if t[0] == 'walk']
        if not w:
            R.undecided('gc', 'the tree walk was not seen')
        elif w[0][1] != prog:
            R.undecided('gc', 'root of the walk')
        else:
            R.ok('walk starts at the program')
        for t in flat(o.st.trace):
            if t[0] != 'delete':
                continue
            dels += 1
            if t[2] == 0:
                R.ok('deleted node was not found in the tree')
            elif t[2] == 1:
                R.bad('gc:delete', t[3], 'the collector deletes a node that was found in the tree')
            else:
                R.bad('gc:delete', t[3], 'the collector deletes a node without asking whether it is in the tree')
    if not dels:
        R.undecided('gc', 'no deletion seen')


# ------------------------------------------------------------------ replace_child
def replace(ctx, R):
    P = ctx.P
    n = 0
    for cls, (one, lst) in CHILDREN.items():
        full = 'nano::' + cls
        fs = [f for f in P.find(full + '::replace_child') if P.in_repo(f)]
        if not one and not lst:
            continue
        if not fs:
            R.bad('replace ' + cls, 'source/lib_compiler/ast.h', '%s has children but no replace_child' % cls)
            continue
        f = fs[0]
        R.fn(f)
        W, H = None, A('obj', 'WITH')
        for c in one:
            e = E.Engine(P)
            e.join = False
            st = E.St()
            node = A('obj', 'NODE')
            opsem.put(P, e, st, node, 'nano::ast_node_t', type=C(opsem.node_type(P, full)))
            kid = {k: A('obj', 'kid:' + k) for k in one}
            for k in one:
                opsem.put(P, e, st, node, full, **{k: kid[k]})
            for l in lst:
                st.facts.eq0(A('vsize', add(node, C(P.field(full, l))), (0, 0)))
            outs = e.call_fn(f, [node, kid[c], H], st)
            key = 'replace %s.%s' % (cls, c)
            rets = [o for o in outs if o.kind == 'ret']
            if not rets:
                # a declaration's body is never replaced
                R.undecided(key, 'replace_child does not return')
                continue
            for o in rets:
                for k in one:
                    a = add(node, C(P.field(full, k)))
                    m = o.st.mem.get((a[1], a[0], 'M'))
                    v = m[1] if m else None
                    want = H if k == c else kid[k]
                    alt = single(v) if v is not None and is_lin(v) else None
                    if v == want:
                        R.ok('the child itself is replaced')
                        n += 1
                    elif v == kid[k] or v == H or (v is not None and o.st.const(v) == 0):
                        R.bad(key, f.loc(), 'replace_child(%s) of a %s leaves %s %s' % (
                            c, cls, k, 'replaced' if v == H else 'unchanged' if v == kid[k] else 'empty'))
                    else:
                        R.undecided(key, 'new value of %s' % k)
        for c in lst:
            listcase(ctx, R, f, cls, c, one)
    R.floor('child replacements', n, 20)


def listcase(ctx, R, f, cls, c, one):
    """replace_child on an element of a child list: the matching element, and only it, is stored"""
    P = ctx.P
    full = 'nano::' + cls
    e = E.Engine(P)
    e.join = False
    e.loopbacks = {}
    st = E.St()
    node, H, Wh = A('obj', 'NODE'), A('obj', 'WITH'), A('obj', 'WHICH')
    vec = add(node, C(P.field(full, c)))
    opsem.put(P, e, st, node, 'nano::ast_node_t', type=C(opsem.node_type(P, full)))
    for k in one:
        opsem.put(P, e, st, node, full, **{k: A('obj', 'kid:' + k)})
    if cls == 'ast_decl_func_t':
        opsem.put(P, e, st, H, 'nano::ast_node_t', type=C(opsem.node_type(P, 'nano::ast_decl_var_t')))
    b = single(A('vdata', vec))
    hits = []

    def obs(eng, s, kind, fr, ins, kw):
        if kind == 'store' and is_lin(kw['addr']) and any(t is b for t, k in kw['addr'][1]):
            ad = kw['addr']
            old = s.mem.get((ad[1], ad[0], 'M'))
            old = old[1] if old else A('ld', ad, 'p', (0, 0))
            same = None
            for o in (old,):
                if is_lin(o):
                    same = s.const(sub(o, Wh))
            hits.append((kw['val'] if 'val' in kw else kw.get('v'), same, eng.site()))
    e.obs.append(obs)
    outs = e.call_fn(f, [node, Wh, H], st)
    key = 'replace %s.%s[]' % (cls, c)
    good = [h for h in hits if h[0] == H]
    if not hits:
        if e.opaque:
            R.undecided(key, 'store not seen')
        else:
            R.bad(key, f.loc(), 'replace_child of a %s never replaces an element of %s' % (cls, c))
        return
    for h in hits:
        if h[0] == H:
            R.ok('list element is replaced')
        else:
            R.undecided(key, 'value stored')
    # every position: lists of one to three elements, each element in turn
    for n in (1, 2, 3):
        for i in range(n):
            e = E.Engine(P)
            e.join = False
            st = E.St()
            node = A('obj', 'NODE')
            vec = add(node, C(P.field(full, c)))
            opsem.put(P, e, st, node, 'nano::ast_node_t', type=C(opsem.node_type(P, full)))
            for k in one:
                opsem.put(P, e, st, node, full, **{k: A('obj', 'kid:' + k)})
            if cls == 'ast_decl_func_t':
                opsem.put(P, e, st, H, 'nano::ast_node_t', type=C(opsem.node_type(P, 'nano::ast_decl_var_t')))
            stdmodel.set_vsize(e, st, vec, C(n))
            el = [A('obj', 'elem%d' % q) for q in range(n)]
            for q in range(n):
                e.store_raw(st, add(A("vdata", vec), C(8 * q)), 8, el[q])
            for o in e.call_fn(f, [node, el[i], H], st):
                if o.kind != 'ret':
                    continue
                for q in range(n):
                    v = e.load_raw(o.st, add(A("vdata", vec), C(8 * q)), 8, "p")
                    want = H if q == i else el[q]
                    if v == want:
                        R.ok('list position: the element named, and only it, is replaced')
                    elif v in el or v == H:
                        R.bad(key + ':position', f.loc(), 'replace_child of element %d of %d of a %s leaves element %d %s' % (
                            i, n, cls, q, 'unchanged' if q == i else 'replaced'))
                    else:
                        R.undecided(key, 'position %d of %d' % (i, n))
