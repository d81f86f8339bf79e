"""Function bodies and call targets: entry addresses, frame sizes, fix-ups of call and function-reference operands."""
from terms import *
import skel, opsem
import insem


class Link:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.g = skel.Gen(ctx)
        self.G = self.g.G
        self.old = self.G.engine
        self.info = {}

    def run(self, cls, setup, kids, vecs=()):
        g, G = self.g, self.G

        def engine():
            e = self.old()
            e.last = True
            e.loopinfo = self.info
            e.obs.append(self.obs)
            e.hook('nano::program_t::function_find', self.h_find)
            return e
        G.engine = engine
        try:
            return g.run(cls, setup, kids, vecs)
        finally:
            G.engine = self.old

    def h_find(self, eng, st, fr, x, f, args):
        return [(A('obj', 'FN'), st)]

    def obs(self, eng, st, kind, fr, ins, kw):
        if kind == 'vec_push' and kw['vec'] != self.G.codevec:
            cells = []
            for a in kw.get('args') or ():
                if is_lin(a):
                    s = st.copy()
                    cells.append((eng.load_raw(s, a, 8, 'p'), st.mem.get((a[1], a[0], 'M'))))
            st.emit('call', 'push', kw['vec'], tuple(cells), eng.site())
        elif kind == 'store' and any(a.kind == 'call' and str(a.args[0]).endswith('[]') for a, _ in kw['addr'][1]):
            st.emit('store', 'map', kw['addr'], kw['val'], eng.site())


def run(ctx, R, pid):
    L = Link(ctx)
    functions(L, R, pid)
    if pid == 'C13':
        targets(L, R)
    if pid in ('C13', 'C21', 'C02'):
        pass


def functions(L, R, pid):
    P, g, G = L.P, L.g, L.G
    cls = 'ast_decl_func_t'
    self_ = A('obj', cls)
    ss = A('stack_size', 'SELF')
    nargs = A('vsize', g.fvec(cls, 'args', cls), (0, 0))
    space = add(nargs, ss)
    rt = g.nt('ast_stmt_return_t')

    def fn(e, st, n):
        opsem.put(P, e, st, n, 'nano::' + cls, is_syscall=ZERO, body=A('obj', 'body'), stack_size=ss)
        opsem.put(P, e, st, n, 'nano::ast_node_t', type=C(g.nt(cls)))
        g.node(e, st, 'body', 'ast_block_t')
        st.facts.le0(scale(ss, -1))
        st.facts.le0(sub(ss, C(1 << 20)))
        vec = add(G.this, C(P.field('nano::ast_visitor_t', 'stack')))
        e.store_raw(st, A('vdata', vec), 8, n)
    e, outs, f = L.run(cls, fn, ('body',), ('args',))
    R.fn(f)
    n = 0
    for o, names, vs in outs:
        if o.kind != 'ret':
            ev = [t for t in o.st.trace if t[0] == 'assert_fail']
            R.bad('function:abort', ev[-1][-1] if ev else f.loc(), 'compiling a function can abort')
            continue
        st = o.st
        tr = [t for t in st.trace if not (t[0] in ('call', 'store'))]
        try:
            items, lines = skel.decode(g.info, st, tr, names, vs)
        except skel.Bad as x:
            R.bad('function:code', x.args[1] if len(x.args) > 1 else f.loc(), 'function body: %s' % x.args[0])
            continue
        except skel.Unknown as x:
            R.undecided('function', x)
            continue
        n += 1
        pos0 = A('vsize', G.codevec, (0, 0))
        init = any(isinstance(x, skel.Ins) and x.op == 'INS_GLOBALS' for x in items)
        lab = '@init' if init else 'function'
        # --- entry and end
        for fld, want, what in (('code_start_', pos0, 'entry address'), ('code_end_', None, 'end address')):
            try:
                off = P.field('nano::function_t', fld)
            except Exception:
                continue
            v = st.mem.get(((add(A('obj', 'FN'), C(off)))[1], add(A('obj', 'FN'), C(off))[0], 'M'))
            if want is None:
                w = items[-1].end if items else pos0
            else:
                w = want
            if v is None or w is None:
                R.undecided(lab + ':' + fld, 'not set on this path')
                continue
            insem.same(R, st, v[1], w, lab + ':' + fld, f.loc(), 'the %s of a function is recorded as %%s instead of %%s' % what, 'function ' + what)
        i = 0
        it = items
        # --- locals
        if init:
            if it and isinstance(it[0], skel.Ins) and it[0].op == 'INS_GLOBALS':
                i = 1
                if pid == 'C21':
                    import slots
                    slots.counted(R, P, e, L.info, it[0].args[0], st, it[0].site)
        loc = [x for x in it if isinstance(x, skel.Ins) and x.op == 'INS_LOCALS']
        if loc:
            if loc[0] is not it[i]:
                R.bad(lab + ':locals', loc[0].site, 'space for locals is reserved after other code of the function')
            elif insem.same(R, st, loc[0].args[0], ss, lab + ':locals', loc[0].site, 'a function reserves %s cells for its locals instead of %s',
                            'locals reserved'):
                pass
            i += 1
        elif not init:
            hi = st.facts.rng(ss)[1]
            if hi is None or hi > 0:
                R.bad(lab + ':locals', f.loc(), 'a function with local variables reserves no space for them')
            else:
                R.ok('locals reserved')
        # --- arguments of @init are visited by the base visitor: no code
        rest = [x for x in it[i:] if not (isinstance(x, skel.Each) and x.name == 'args')]
        if not rest or not (isinstance(rest[0], skel.Child) and rest[0].name == 'body'):
            R.bad(lab + ':body', f.loc(), 'the code of a function does not start with its body (%s)' % [repr(x) for x in rest[:2]])
            continue
        rest = rest[1:]
        if not rest:
            # no epilogue: the last statement has to be a return
            s2 = st.copy()
            bv = g.fvec('ast_block_t', 'nodes', 'body')
            sz = A('vsize', bv, (0, 0))
            node = e.load_raw(s2, add(A('vdata', bv), scale(sub(sz, ONE), 8)), 8, 'p')
            ty = e.load_raw(s2, add(node, C(P.field('nano::ast_node_t', 'type'))), 4, 'i')
            c = s2.const(e.cmp(s2, 'eq', ty, C(rt), ('i', 32)))
            if c == 1:
                R.ok('a function without epilogue ends with a return statement')
            elif c == 0 or s2.facts.rng(sz)[1] == 0:
                R.bad(lab + ':epilogue', f.loc(), 'the implicit return is omitted for a function whose last statement is not a return')
            elif any(a in e.accum for fm in st.facts.d for a, _ in fm):
                R.bad(lab + ':epilogue', f.loc(), 'the implicit return is omitted when any statement of the body is a return, not just the last one')
            else:
                R.undecided(lab + ':epilogue', 'whether the last statement is a return')
            continue
        if [x.op for x in rest if isinstance(x, skel.Ins)] and len(rest) == 2 and rest[1].op == 'INS_RET' and rest[0].op.startswith('INS_NEW_'):
            insem.same(R, st, rest[1].args[0], space, lab + ':ret', rest[1].site, 'the implicit return discards %s cells instead of %s', 'frame size of the implicit return')
        else:
            m = skel.Machine(g.info, rest, {}, st)
            try:
                ok = all(c[0] != len(rest) for c in m.graph())
            except (skel.Bad, skel.Unknown):
                ok = None
            if ok is False:
                R.bad(lab + ':epilogue', f.loc(), 'control can run past the end of a function (%s)' % [repr(x) for x in rest])
            else:
                R.undecided(lab + ':epilogue', repr(rest))
    R.floor('function shapes', n, 2)


def targets(L, R):
    """the operand of a direct call / function reference ends up as the entry of that very function"""
    P, g, G = L.P, L.g, L.G
    argv = g.fvec('ast_exp_call_t', 'args', 'ast_exp_call_t')
    tokoff = P.field('nano::ast_decl_func_t', 'token')
    fixvecs = set()

    def call(e, st, n):
        d = g.func(e, st, 'callfn', 0, 0)
        opsem.put(P, e, st, d, 'nano::ast_decl_func_t', token=A('obj', 'CALLTOK'))
        st.facts.eq0(sub(A('vsize', g.fvec('ast_decl_func_t', 'args', 'callfn'), (0, 0)), A('vsize', argv, (0, 0))))
        c = g.node(e, st, 'callee', 'ast_exp_ident_t', decl=d)
        opsem.put(P, e, st, n, 'nano::ast_exp_call_t', callee=c)

    def ref(e, st, n):
        d = g.func(e, st, 'callfn', 0, 0)
        opsem.put(P, e, st, d, 'nano::ast_decl_func_t', token=A('obj', 'CALLTOK'))
        opsem.put(P, e, st, n, 'nano::ast_exp_ident_t', decl=d)
    for cls, su, kids, vecs, op, w in (('ast_exp_call_t', call, ('callee',), ('args',), 'INS_CALL', 1), ('ast_exp_ident_t', ref, (), (), 'INS_NEW_FUNC', 0)):
        e, outs, f = L.run(cls, su, kids, vecs)
        R.fn(f)
        for o, names, vs in outs:
            if o.kind != 'ret' or any(t[0] == 'child0' for t in o.st.trace):
                continue
            tr = [t for t in o.st.trace if t[0] not in ('call', 'store')]
            try:
                items, _ = skel.decode(g.info, o.st, tr, names, vs)
            except skel.Bad as x:
                R.bad(op + ':code', x.args[1] if len(x.args) > 1 else f.loc(), x.args[0])
                continue
            except skel.Unknown as x:
                R.undecided(op, x)
                continue
            ins = [x for x in items if isinstance(x, skel.Ins) and x.op == op]
            ps = [t for t in o.st.trace if t[0] == 'call' and t[1] == 'push']
            if len(ins) != 1:
                R.bad(op, f.loc(), '%s is not emitted for a use of a script function' % op)
                continue
            want = add(ins[0].pos, C(1 + 4 * w))
            hit = None
            for t in ps:
                flat = []
                for v, cell in t[3]:
                    flat += [v] + ([cell[1]] if cell else [])
                if any(is_lin(x) and x == A('obj', 'CALLTOK') for x in flat):
                    hit = t
                    pos = [x for x in flat if is_lin(x) and x != A('obj', 'CALLTOK') and set(a for a, _ in x[1]) == set(a for a, _ in want[1])]
                    if not pos:
                        R.undecided(op + ':fixup', 'recorded position')
                    else:
                        insem.same(R, o.st, pos[-1], want, op + ':fixup', t[4], 'the recorded fix-up position is %s, the operand is at %s', 'call operand recorded for fix-up')
                    fixvecs.add(t[2])
            if hit is None:
                if ps:
                    R.undecided(op + ':fixup', 'how the call target is recorded')
                else:
                    R.bad(op + ':fixup', f.loc(), 'the target of %s is never recorded for fix-up' % op)
    # --- fix-up loop over the recorded calls
    e, outs, f = L.run('ast_program_t', None, (), ())
    R.fn(f)
    for o, names, vs in outs:
        if o.kind != 'ret':
            continue
        loops = [t for t in o.st.trace if t[0] == 'loop']
        done = 0
        for t in loops:
            for body in t[2]:
                for ev in body:
                    if ev[0] == 'patch':
                        done += 1
                        pos, size, val = ev[1], ev[2], ev[3]
                        a, v = single(pos), single(val)
                        ok = a is not None and a.kind == 'ld' and v is not None and v.kind == 'ld' and single(v.args[0]) is not None and \
                            single(v.args[0]).kind == 'call'
                        if not ok:
                            R.undecided('fixup loop', 'shape')
                            continue
                        base = [x for x, _ in a.args[0][1] if x.kind == 'vdata']
                        if base and fixvecs and base[0].args[0] not in fixvecs:
                            R.bad('fixup loop', ev[4], 'the fix-up loop does not run over the recorded calls')
                            continue
                        trip = t[4] if len(t) > 4 else None
                        if trip is not None and base and trip != A('vsize', base[0].args[0], (0, 0)):
                            if is_lin(trip) and all(insem.exact_atom(x) for x, _ in trip[1]):
                                R.bad('fixup loop:trip', ev[4], 'the fix-up loop runs %s times' % show(trip)[:80])
                            else:
                                R.undecided('fixup loop', 'trip count')
                            continue
                        key = single(v.args[0]).args[-1]
                        want = A('ld', sub(a.args[0], C(8)), 'p', (0, 0))
                        ks = atoms_of(key)
                        if not is_lin(key) or not any(x.kind == 'ld' and sub(x.args[0], a.args[0]) == C(-8) for x in ks):
                            R.undecided('fixup loop', 'key %s' % str(key)[:80])
                            continue
                        R.ok('every recorded call is patched with the entry of the function of the recorded token')
        if not done:
            R.bad('fixup loop', f.loc(), 'call targets are never patched')
    # --- entry recorded under the function's own name
    cls = 'ast_decl_func_t'

    def fn(e, st, n):
        opsem.put(P, e, st, n, 'nano::' + cls, is_syscall=ZERO, body=A('obj', 'body'), stack_size=A('stack_size', 'SELF'))
        g.node(e, st, 'body', 'ast_block_t')
    e, outs, f = L.run(cls, fn, ('body',), ('args',))
    for o, names, vs in outs:
        if o.kind != 'ret':
            continue
        ms = [t for t in o.st.trace if t[0] == 'store' and t[1] == 'map']
        if not ms:
            R.undecided('entry map', 'how function entries are recorded')
            continue
        a = single(ms[0][2])
        nm = P.field('nano::' + cls, 'name')
        if not any(x is single(A('obj', cls)) for x in atoms_of(a.args[-1])):
            R.undecided('entry map', 'key')
        insem.same(R, o.st, ms[0][3], A('vsize', G.codevec, (0, 0)), 'entry map', ms[0][4], 'a function is linked at %s instead of its entry %s', 'function entry recorded for linking')
