"""C21: storage slots assigned to arguments, locals and globals."""
import re
import opsem, stdmodel, insem, visit
from terms import *
from opsem import const_of


def find_pass(ctx):
    """the pass that assigns ast_decl_var_t::offset to local declarations, and how: cursor value, cursor address"""
    P = ctx.P
    SC = P.enum('nano::ast_decl_var_t::scope_t')
    off = P.field('nano::ast_decl_var_t', 'offset')
    for cls in visit.visitors(P):
        W = visit.Walk(ctx, cls)
        f = W.V.visit_fn('nano::ast_decl_var_t')
        if f is None or cls not in f.dem:
            continue

        def su(e, st, n):
            opsem.put(P, e, st, n, 'nano::ast_decl_var_t', scope=C(SC['e_local']), is_const=ZERO, offset=A('offset', 'old'))
            free(W, st)
        try:
            e, outs, f = W.run('ast_decl_var_t', su)
        except Exception:
            continue
        for o in outs or ():
            v = o.st.mem.get(key(add(A('obj', 'ast_decl_var_t'), C(off))))
            if o.kind == 'ret' and v and is_lin(v[1]) and v[1] != A('offset', 'old'):
                return W, e, outs, f
    return None


def key(a):
    return (a[1], a[0], 'M')


def free(W, st):
    """containers of the pass object hold at least one element (checked where they are pushed and popped)"""
    c = W.P.classes().get(W.cls)
    for n, fl in (c.fields if c else {}).items():
        if fl[1] == 24:
            st.facts.le0(sub(ONE, A('vsize', add(W.this, C(fl[0])), (0, 0))))


class Cursor:
    def __init__(self, W, addr):
        self.W = W
        self.addr = addr
        self.vec = None
        for a, k in addr[1]:
            if a.kind == 'vdata':
                self.vec = a.args[0]
        self.scalar = self.vec is None

    def at(self, e, st):
        if self.scalar:
            return self.addr
        n = stdmodel.vsize(e, st, self.vec)
        return add(A('vdata', self.vec), add(scale(n, 4), C(-4)))

    def get(self, e, st):
        return e.load_raw(st, self.at(e, st), 4, 'i')

    def set(self, e, st, v):
        e.store_raw(st, self.at(e, st), 4, v)

    def depth(self, e, st):
        return ZERO if self.scalar else stdmodel.vsize(e, st, self.vec)


def run(ctx, R):
    P = ctx.P
    got = find_pass(ctx)
    if not got:
        R.undecided('slots', 'the pass that assigns slots to local variables was not found')
        return
    W, e, outs, f = got
    R.fn(f)
    off = P.field('nano::ast_decl_var_t', 'offset')
    SC = P.enum('nano::ast_decl_var_t::scope_t')
    var = A('obj', 'ast_decl_var_t')
    cur = None
    for o in outs:
        if o.kind != 'ret':
            continue
        v = o.st.mem[key(add(var, C(off)))][1]
        a = single(v) if is_lin(v) else None
        if a is None or a.kind != 'ld':
            R.undecided('slots', 'slot value of a local variable: %s' % (show(v)[:80] if is_lin(v) else ''))
            return
        if cur is None:
            cur = Cursor(W, a.args[0])
    if cur is None:
        R.undecided('slots', 'no path assigns a slot')
        return
    H = high(ctx, W, cur, R)
    declared(R, W, e, outs, f, cur, H, off, var)
    for cls in sorted(visit.CHILDREN):
        if cls in ('ast_program_t', 'ast_decl_func_t', 'ast_decl_var_t'):
            continue
        node(ctx, R, W, cur, H, cls)
    func(ctx, R, W, cur, H, off)
    globs(ctx, R, W, off, SC)


def scalars(W):
    c = W.P.classes().get(W.cls)
    return [(n, fl[0]) for n, fl in c.fields.items() if fl[1] == 4] if c else []


def high(ctx, W, cur, R):
    """the field whose value becomes the frame size"""
    P = W.P
    ss = P.field('nano::ast_decl_func_t', 'stack_size')

    def disp(eng, s, n):
        s.emit('visit', n, eng.site())
        for nm, o in scalars(W):
            e_ = add(W.this, C(o))
            eng.store_raw(s, e_, 4, A('sym', 'field', o))

    def su(e, st, n):
        opsem.put(P, e, st, n, 'nano::ast_decl_func_t', is_syscall=ZERO, stack_size=A('sym', 'oldsize'))
        free(W, st)
    e, outs, f = W.run('ast_decl_func_t', su, disp)
    for o in outs:
        if o.kind == 'ret':
            v = o.st.mem.get(key(add(A('obj', 'ast_decl_func_t'), C(ss))))
            a = single(v[1]) if v and is_lin(v[1]) else None
            if a is not None and a.kind == 'sym' and a.args[0] == 'field':
                return a.args[1]
    R.undecided('slots:frame', 'frame size of a function not recognised')
    return None


def ge(st, a, b):
    """a >= b: True / False (for some input) / None"""
    d = sub(a, b)
    rg = st.facts.rng(d)
    if rg[0] is not None and rg[0] >= 0:
        return True
    if rg[1] is not None and rg[1] < 0:
        return False
    s = st.facts.copy()
    try:
        s.le0(add(d, ONE))
    except Infeasible:
        return True
    return False if all(insem.exact_atom(x) or x.kind in ('cx', 'hx') for x, _ in d[1]) else None


def must_ge(R, st, a, b, key_, where, msg, rule):
    if not (is_lin(a) and is_lin(b)):
        R.undecided(key_, 'value')
        return
    g = ge(st, a, b)
    if g is True:
        R.ok(rule)
    elif g is False:
        R.bad(key_, where, msg)
    else:
        R.undecided(key_, 'cannot compare %s with %s' % (show(a)[:80], show(b)[:80]))


def declared(R, W, e, outs, f, cur, H, off, var):
    for o in outs:
        if o.kind == 'abort':
            continue
        if o.kind != 'ret':
            R.undecided('decl', 'path ends with ' + o.kind)
            continue
        st = o.st
        v = st.mem[key(add(var, C(off)))][1]
        a = single(v) if is_lin(v) else None
        if a is None or a.kind != 'ld' or a.args[0] != cur.addr:
            if is_lin(v) and insem.differs(st, sub(v, A('ld', cur.addr, 'i4', (0, 0)))):
                R.bad('decl:slot', f.loc(), 'a local variable gets slot %s on one path and the next free slot on another' % show(v)[:80])
            else:
                R.undecided('decl:slot', 'slot of a local')
            continue
        nxt = cur.get(e, st)
        must_ge(R, st, nxt, add(v, ONE), 'decl:next', f.loc(), 'after a local variable got a slot the next free slot is %s, not beyond it' % (show(nxt)[:80] if is_lin(nxt) else '?'),
                'a local variable takes the next free slot')
        if H is not None:
            h = e.load_raw(st, add(W.this, C(H)), 4, 'i')
            must_ge(R, st, h, add(v, ONE), 'decl:size', f.loc(), 'the frame size does not grow to include a new local variable', 'the frame size includes every local')
            must_ge(R, st, h, A('ld', add(W.this, C(H)), 'i4', (0, 0)), 'decl:shrink', f.loc(), 'the frame size recorded so far can shrink', 'the frame size never shrinks')


def node(ctx, R, W, cur, H, cls):
    """contract of every other node: the next free slot never ends below where it began, and the statements of a
    block keep what their predecessors took"""
    P = W.P
    c0 = [None]

    def disp(eng, s, n):
        c = cur.get(eng, s)
        k = s.cnt.get('cx', 0)
        s.cnt['cx'] = k + 1
        cx, hx = A('cx', eng.site() or '', n, k), A('hx', n, k)
        s.emit('kid', n, c, cx, eng.site())
        if is_lin(c):
            s.facts.ge0(sub(cx, c))
            if c0[0] is not None and ge(s, c, c0[0]) is True:
                s.facts.ge0(sub(cx, c0[0]))
        cur.set(eng, s, cx)
        if H is not None:
            h0 = eng.load_raw(s, add(W.this, C(H)), 4, 'i')
            if is_lin(h0):
                s.facts.ge0(sub(hx, h0))
                hi = A('ld', add(W.this, C(H)), 'i4', (0, 0))
                if ge(s, h0, hi) is True:
                    s.facts.ge0(sub(hx, hi))
            s.facts.ge0(sub(hx, cx))
            eng.store_raw(s, add(W.this, C(H)), 4, hx)

    def obs(eng, st, kind, fr, ins, kw):
        if cur.scalar:
            if kind == 'store' and kw['addr'] == cur.addr:
                st.emit('cset', kw['val'], eng.site())
            return
        if kind == 'vec_push' and kw['vec'] == cur.vec:
            v = eng.load_raw(st, kw['arg'], 4, 'i') if kw.get('arg') is not None else None
            st.emit('cpush', v, eng.site())
        elif kind == 'vec_access' and kw['vec'] == cur.vec and kw['meth'] == 'pop_back':
            st.emit('cpop', kind, eng.site())
        elif kind in ('vec_resize', 'vec_clear', 'vec_erase', 'vec_insert', 'vec_assign') and kw['vec'] == cur.vec:
            st.emit('codd', kind, eng.site())
        elif kind == 'store' and any(a.kind == 'vdata' and a.args[0] == cur.vec for a, _ in kw['addr'][1]):
            st.emit('cset', kw['val'], eng.site())

    def su(e, st, n):
        free(W, st)
        c = cur.get(e, st)
        c0[0] = c
        st.facts.ge0(c)
        if H is not None:
            h = e.load_raw(st, add(W.this, C(H)), 4, 'i')
            st.facts.ge0(sub(h, c))
    e, outs, f = W.run(cls, su, disp, obs)
    if outs is None:
        R.undecided(cls, 'no visit method')
        return
    R.fn(f)
    for o in outs:
        if o.kind == 'abort':
            continue
        if o.kind != 'ret':
            R.undecided(cls, 'path ends with ' + o.kind)
            continue
        st = o.st
        n = cur.depth(e, st)
        if not cur.scalar and n != A('vsize', cur.vec, (0, 0)):
            d = sub(n, A('vsize', cur.vec, (0, 0)))
            if insem.differs(st, d):
                R.bad(cls + ':depth', f.loc(), 'the scope stack of the slot assignment is not restored after this node')
            else:
                R.undecided(cls + ':depth', 'scope stack depth')
            continue
        loops = [t for t in st.trace if t[0] == 'loop']
        for t in st.trace:
            if t[0] == 'kid' and not (loops and is_lin(t[2]) and any(a.kind == 'lv' for a, _ in t[2][1])):
                must_ge(R, st, t[2], c0[0], cls + ':kid', t[4], 'part of a %s is given slots from %s although slots from %s on are in use' %
                        (cls, show(t[2])[:60] if is_lin(t[2]) else '?', show(c0[0])[:60]), 'children start at a free slot')
        for t in loops:
            for body in t[2]:
                sim(R, W, st, cls, body, t[3])
        if not loops:
            c = cur.get(e, st)
            must_ge(R, st, c, c0[0], cls + ':end', f.loc(), 'after a %s the next free slot is lower than before it' % cls, 'the next free slot is never lowered below the scope')
        if H is not None and not loops:
            h = e.load_raw(st, add(W.this, C(H)), 4, 'i')
            must_ge(R, st, h, A('ld', add(W.this, C(H)), 'i4', (0, 0)), cls + ':size', f.loc(), 'after a %s the recorded frame size can be smaller than needed' % cls, 'the frame size never shrinks')


def sim(R, W, st, cls, body, loc):
    """one iteration over a child list: the position after it must be the one its child ended with"""
    stack = ['X']
    last = None
    for t in body:
        if t[0] == 'kid':
            stack[-1] = last = t[3]
        elif t[0] == 'cpush':
            stack.append(t[1])
        elif t[0] == 'cpop':
            if len(stack) < 2:
                R.undecided(cls, 'scope stack in a loop')
                return
            stack.pop()
        elif t[0] == 'cset':
            stack[-1] = t[1]
        elif t[0] in ('codd', 'loop'):
            R.undecided(cls, 'slot bookkeeping in a loop')
            return
    if last is None:
        return
    if len(stack) != 1:
        R.bad(cls + ':loop', loc, 'every statement of a %s changes the depth of the scope stack of the slot assignment' % cls)
    elif stack[0] == last:
        R.ok('statements of a list keep the slots of their predecessors')
    elif cls == 'ast_block_t':
        if stack[0] == 'X' or is_lin(stack[0]) and all(insem.exact_atom(a) for a, _ in stack[0][1]):
            R.bad(cls + ':loop', loc, 'a statement of a block forgets the slots taken by the declarations before it')
        else:
            R.undecided(cls, 'slot after a statement')


def func(ctx, R, W, cur, H, off):
    P = W.P
    args = W.vec('ast_decl_func_t', 'args')
    ss = P.field('nano::ast_decl_func_t', 'stack_size')
    inits = []

    def disp(eng, s, n):
        c = cur.get(eng, s)
        s.emit('kid', n, c, eng.site())
        if n == A('obj', 'body'):
            cur.set(eng, s, A('cx', 'b'))
            if H is not None:
                h = eng.load_raw(s, add(W.this, C(H)), 4, 'i')
                s.emit('h0', h, eng.site())
                hx = A('hx', 'b')
                if is_lin(h):
                    s.facts.ge0(sub(hx, h))
                eng.store_raw(s, add(W.this, C(H)), 4, hx)

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 4 and is_lin(kw['addr']):
            b = sub(kw['addr'], C(off))
            a = single(b)
            if a is not None and a.kind == 'ld' and any(x.kind == 'vdata' and x.args[0] == args for x, _ in a.args[0][1]):
                st.emit('aoff', a.args[0], kw['val'], eng.site())

    def su(e, st, n):
        opsem.put(P, e, st, n, 'nano::ast_decl_func_t', is_syscall=ZERO, stack_size=A('sym', 'oldsize'))
        W.node(e, st, 'body', 'ast_block_t')
        free(W, st)
    e, outs, f = W.run('ast_decl_func_t', su, disp, obs)
    R.fn(f)
    N = A('vsize', args, (0, 0))
    na = 0
    for o in outs:
        if o.kind == 'abort':
            continue
        if o.kind != 'ret':
            R.undecided('function', 'path ends with ' + o.kind)
            continue
        st = o.st
        tr = list(insem.flat(st.trace))
        kid = [t for t in tr if t[0] == 'kid' and t[1] == A('obj', 'body')]
        if len(kid) != 1:
            R.bad('function:body', f.loc(), 'the slot assignment visits the body of a function %d times' % len(kid))
            continue
        must_ge(R, st, kid[0][2], ZERO, 'function:first', kid[0][3], 'the locals of a function start at slot %s' % (show(kid[0][2])[:60] if is_lin(kid[0][2]) else '?'),
                'locals start at slot 0 of the frame')
        if H is not None:
            v = st.mem.get(key(add(A('obj', 'ast_decl_func_t'), C(ss))))
            if v and is_lin(v[1]):
                if v[1] == A('sym', 'oldsize'):
                    R.bad('function:size', f.loc(), 'the frame size of a function is not recorded')
                else:
                    must_ge(R, st, v[1], A('hx', 'b'), 'function:size', f.loc(), 'the frame size of a function is recorded as %s, which can be smaller than what its locals need' % show(v[1])[:60],
                            'frame size covers every local')
        for t in tr:
            if t[0] == 'aoff':
                na += 1
                d = sub(t[1], A('vdata', args))
                j8 = d
                insem.same(R, st, sub(scale(t[2], 8), j8), scale(N, -8), 'function:args', t[3],
                           'argument slots: 8*slot - 8*index is %s instead of %s (the arguments lie just below the frame)', 'argument i of n has slot i - n')
    if not na:
        R.undecided('function:args', 'no assignment of argument slots found')


def globs(ctx, R, W, off, SC):
    """every non-constant global gets the next number; the same globals are counted for the space reserved"""
    P = W.P
    kids = W.vec('ast_program_t', 'children')
    cst = P.field('nano::ast_decl_var_t', 'is_const')
    typ = P.field('nano::ast_node_t', 'type')
    DV = W.nt('ast_decl_var_t')

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 4 and is_lin(kw['addr']):
            a = single(sub(kw['addr'], C(off)))
            if a is not None and a.kind == 'ld' and any(x.kind == 'vdata' and x.args[0] == kids for x, _ in a.args[0][1]):
                st.emit('goff', (0, ((a, 1),)), kw['val'], eng.site())
    info = {}

    def tune(e):
        e.loopinfo = info
    e, outs, f = W.run('ast_program_t', None, lambda eng, s, n: None, obs, tune=tune)
    R.fn(f)
    seen = 0
    for hv, (iv, ts, K, var) in info.items():
        # the counter whose value is stored into a global's offset
        mine = [(v, s, t) for v, s in ts for t in s.trace if t[0] == 'goff' and t[2] == hv]
        if not mine:
            continue
        seen += 1
        for v, s in ts:
            g = [t for t in s.trace if t[0] == 'goff']
            judge(R, e, s, g, v, hv, cst, typ, DV, f, kids)
    if not seen:
        goffs = [t for o in outs for t in insem.flat(o.st.trace) if t[0] == 'goff']
        if goffs and all(is_lin(t[2]) and not any(x.kind in ('lv', 'K') for x in atoms_of(t[2])) for t in goffs):
            R.bad('globals:slot', goffs[0][3], 'all globals get the same slot %s' % show(goffs[0][2])[:60])
        elif not goffs:
            R.undecided('globals', 'no assignment of global slots found')
        else:
            R.undecided('globals', 'numbering of globals not recognised')


def counted(R, P, e, info, arg, st, where):
    """the space reserved for globals: one cell for every non-constant global"""
    cst = P.field('nano::ast_decl_var_t', 'is_const')
    typ = P.field('nano::ast_node_t', 'type')
    DV = opsem.node_type(P, 'nano::ast_decl_var_t')
    if not is_lin(arg):
        R.undecided('globals:count', 'operand')
        return
    lvs = [a for a in atoms_of(arg) if a.kind == 'lv' and (0, ((a, 1),)) in info]
    if not lvs:
        if not arg[1] or all(insem.exact_atom(a) and a.kind != 'K' for a, _ in arg[1]):
            R.bad('globals:count', where, 'space for %s globals is reserved, not one per global' % show(arg)[:60])
        else:
            R.undecided('globals:count', 'operand %s' % show(arg)[:60])
        return
    hv = (0, ((lvs[0], 1),))
    if arg != hv:
        d = sub(arg, hv)
        fake = A('input', 'globals')
        w = subst(arg, {lvs[0]: fake})
        s = st.copy()
        s.facts.ge0(fake)
        must_ge2(R, s, w, fake, where)
        return
    iv, ts, K, var = info[hv]
    if iv != ZERO:
        R.undecided('globals:count', 'initial count')
    for v, s in ts:
        step = sub(v, hv) if is_lin(v) else None
        if step is None or step[1]:
            R.undecided('globals:count', 'step')
            continue
        if step[0] >= 1:
            R.ok('a global is counted')
            continue
        kids = [a for a in atoms_of_state(s) if a.kind == 'ld' and is_lin(a.args[0]) and a.args[1] == 'p' and any(x is single(K) for x, _ in a.args[0][1])]
        qs = [child_is_var(e, s, (0, ((a, 1),)), cst, typ, DV) for a in kids]
        if not qs:
            R.undecided('globals:count', 'child')
        elif all(q is False for q in qs):
            R.ok('only constants and functions are not counted')
        elif True in qs:
            R.bad('globals:count', where, 'a global variable is not counted in the space reserved for globals')
        else:
            R.undecided('globals:count', 'path condition')


def must_ge2(R, s, w, fake, where):
    d = sub(w, fake)
    rg = s.facts.rng(d)
    if rg[0] is not None and rg[0] >= 0:
        R.ok('space for globals')
    elif insem.differs(s, d):
        R.bad('globals:count', where, 'space for %s globals is reserved where `globals` are needed' % show(w)[:60])
    else:
        R.undecided('globals:count', 'operand')


def child_is_var(e, s, child, cst, typ, DV):
    """is the child of this iteration a non-constant variable: True / False / None"""
    if const_of(s, child) == 0:
        return False
    t = e.load_raw(s.copy(), add(child, C(typ)), 4, 'i')
    c = const_of(s, t) if is_lin(t) else None
    if c is not None and c != DV:
        return False
    if c is None:
        rg = s.copy()
        try:
            rg.facts.eq0(sub(t, C(DV)))
        except Infeasible:
            return False
        return None
    k = e.load_raw(s.copy(), add(child, C(cst)), 1, 'i')
    z = const_of(s, k) if is_lin(k) else None
    if z is None:
        q = insem.izero(s, k) if is_lin(k) else None
        return None if q in ('both', None) else q
    return z == 0


def judge(R, e, s, g, v, hv, cst, typ, DV, f, kids):
    step = sub(v, hv) if is_lin(v) else None
    if step is None:
        R.undecided('globals', 'counter')
        return
    if g:
        if step == ONE or not step[1] and step[0] >= 1:
            R.ok('a global takes the next slot')
        elif not step[1]:
            R.bad('globals:step', g[0][3], 'the slot counter of globals does not advance after a global')
        else:
            # a step computed from a condition: can it be zero?
            a, fs = None, []
            if len(step[1]) == 1 and step[1][0][0].kind in ('cmp', 'bool'):
                a, k = step[1][0]
                fs = [(step[0] + k * int(t), q) for t, q in e.fork(s.copy(), (0, ((a, 1),)))]
            free = [x for x in atoms_of(step) if x is not a]
            zero = any(t <= 0 for t, _ in fs)
            if fs and not zero:
                R.ok('a global takes the next slot')
            elif zero and len(fs) == 2 and not s.facts.lossy and free and all(insem.exact_atom(x) or x.kind in ('vdata', 'obj', 'K') for x in free):
                R.bad('globals:step', g[0][3], 'the slot counter of globals does not advance after some globals (it advances by %s)' % show(step)[:60])
            else:
                R.undecided('globals', 'counter step ' + show(step)[:80])
    else:
        # no slot assigned on this path: the child must not be a variable that needs one
        child = A('ld', add(A('vdata', kids), ZERO), 'p', (0, 0))
        for a in list(atoms_of_state(s)):
            if a.kind == 'ld' and is_lin(a.args[0]) and any(x.kind == 'vdata' and x.args[0] == kids for x, _ in a.args[0][1]):
                child = (0, ((a, 1),))
        q = child_is_var(e, s, child, cst, typ, DV)
        if q is False:
            R.ok('only constants and functions get no global slot')
        elif q is True:
            R.bad('globals:missing', f.loc(), 'a global variable can be left without a slot of its own')
        else:
            R.undecided('globals:missing', 'path condition')


def atoms_of_state(s):
    out = set()
    for form in s.facts.d:
        for a, _ in form:
            out.add(a)
            out |= set(atoms_of((0, ((a, 1),))))
    return out
