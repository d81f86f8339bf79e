"""C22: breakpoints and halting stop a thread without losing work."""
import eng as E
import frame, thr
from checks import c06
from terms import *

EXPLAIN = (
    'The interpreter step is analysed for every opcode with a non-empty breakpoint set: after it the thread is halted '
    'exactly on the paths where the line of the new position has a breakpoint and differs from the line remembered '
    'before, and that line is remembered.  A halt requested by a builtin survives the instruction.  thread_t::resume '
    'starts no instruction while the thread is halted, clears an earlier halt, and neither it nor the stepping functions '
    'write the position, stacks or error themselves; step_line goes on only while the line is unchanged and stops only on '
    'another line or the end.  Adding, removing and clearing breakpoints perform exactly that set operation, and adding '
    'the first one never trusts an out-of-date line.')

I32 = ('i', 32)


def halves(eng, st, t):
    a = single(t)
    if not t[1]:
        lo, hi = t[0] & 0xffffffff, (t[0] >> 32) & 0xffffffff
        return [C(x - (1 << 32) if x >> 31 else x) for x in (lo, hi)]
    if a is not None and a.kind == 'pair':
        return list(a.args)
    return [A('half', ZERO, t), A('half', ONE, t)]


def load2(e, st, addr):
    v = e.load_raw(st, addr, 8, 'i')
    if is_lin(v) and single(v) is not None and single(v).kind == 'ld':
        st.mem.pop((addr[1], addr[0], 'M'), None)
        return [e.load_raw(st, addr, 4, 'i'), e.load_raw(st, add(addr, C(4)), 4, 'i')]
    return halves(e, st, v) if is_lin(v) else None


def same(e, st, a, b):
    """do two line pairs agree: True / False / None"""
    s = st.copy()
    try:
        for x, y in zip(a, b):
            e.assume(s, e.cmp(s, 'eq', x, y, I32), True)
    except Infeasible:
        return False
    try:
        for x, y in zip(a, b):
            s = st.copy()
            try:
                e.assume(s, e.cmp(s, 'eq', x, y, I32), False)
            except Infeasible:
                continue
            return None
    except Infeasible:
        pass
    return True


class Lines:
    def __init__(self, ctx):
        self.T = thr.Thr(ctx)
        self.V = self.T.V

    def hook(self, e):
        V = self.V

        def h(eng, st, fr, x, f, a):
            pc = a[1] if len(a) > 1 else V.field(st, V.o_pc)
            return [(A('line', pc), st)]
        e.hook('nano::program_t::get_line', h)

    def last0(self, e, st):
        a = add(self.V.th, C(self.T.o_last))
        for d in (0, 4):
            e.store_raw(st, add(a, C(d)), 4, A('sym', 'last%d' % d))
        return [A('sym', 'last0'), A('sym', 'last4')]


def free_set(V, st):
    """forget that the breakpoint set is empty"""
    for f in [f for f in st.facts.d if any(a.kind == 'usize' for a, _ in f)]:
        del st.facts.d[f]
    return A('usize', 'set', add(V.th, C(V.o_bp)), (0, 0))


def steps(ctx, R):
    L = Lines(ctx)
    V, T = L.V, L.T
    jobs, res = c06.cases(ctx)
    sel = [j for j in jobs if j[0] == 'op' and len(set(j[2])) == 1 and j[2][0] in ('int', 'array', 'func', 'syscall', 'none')]
    R.floor('opcodes analysed with breakpoints', len({j[1] for j in sel}), 30)
    tracks = {}

    def work(j, r):
        hold = {}

        def more(e, st):
            L.hook(e)
            hold['last'] = L.last0(e, st)
            hold['n'] = free_set(V, st)
        e, outs, key, what, site = c06.run_case(ctx, j, res, None, more)
        last, n = hold['last'], hold['n']
        for o in outs:
            if o.kind != 'ret':
                continue
            st = o.st
            fin = st.const(T.flag(st, V.o_fin) or A('unk', 0))
            if fin != 0:
                continue
            pc = V.field(st, V.o_pc)
            if pc is None or not is_lin(pc):
                r.undecided(key, 'position')
                continue
            ln = A('line', pc)
            now = halves(e, st, ln)
            bpset = add(V.th, C(V.o_bp))
            cnt = None
            cnt = A('cnt', 'set', bpset, (0, 0), (ln,))
            fnd = A('call', 'set.find', bpset, (0, 0), (ln,))
            end = A('call', 'set.end', bpset, (0, 0))
            halt = st.const(T.flag(st, V.o_halt) or A('unk', 0))
            if halt is None:
                r.undecided(key, 'halted flag')
                continue
            # is the line in the set on this path
            inset = None
            for form, rg in st.facts.d.items():
                pass
            if infeasible(st, cnt, ZERO) or infeasible(st, fnd, end):
                inset = True
            elif st.const(cnt) == 0 or st.const(sub(fnd, end)) == 0 or st.const(n) == 0:
                inset = False
            eq = same(e, st, now, last)
            if st.facts.lossy:
                r.undecided(key, 'joined paths')
                continue
            if halt == 1:
                if inset is True and eq is False:
                    r.ok('halts on reaching a line with a breakpoint')
                elif inset is False or eq is True or (inset is None and known(st, bpset)) or (inset and eq is None):
                    r.bad('step:spurious', site, '%s: the thread is halted although %s' % (
                        what, 'the line reached has no breakpoint' if inset is not True else 'it was already on that line'))
                else:
                    r.undecided(key, 'condition of the halt')
            else:
                if inset is False or eq is True:
                    r.ok('not halted without a breakpoint or on the same line')
                elif inset is None and not known(st, bpset):
                    r.bad('step:unchecked', site, '%s: a step does not look at the breakpoints although there are some' % what)
                elif inset is True and (eq is False or eq is None):
                    r.bad('step:missed', site, '%s: a breakpoint on the line reached does not halt the thread' % what)
                else:
                    r.undecided(key, 'condition of not halting')
            # the line is remembered
            l2 = load2(e, st.copy(), add(V.th, C(T.o_last)))
            g = same(e, st, l2, now) if l2 else None
            empty = st.const(n) == 0
            if g is True:
                r.ok('line remembered')
            elif empty:
                r.ok('no breakpoints')
                r.sample({'untracked': 1})
            elif g is None and l2 is not None and same(e, st, l2, last) is True or g is False:
                r.bad('step:line', site, '%s: the line reached is not remembered while there are breakpoints' % what)
            else:
                r.undecided(key, 'remembered line')
    frame.pmap(work, sel, R)


def infeasible(st, a, b):
    s = st.facts.copy()
    try:
        s.eq0(sub(a, b))
    except Infeasible:
        return True
    return False


def known(st, bpset):
    """does the path consult the set for a line"""
    for f in st.facts.d:
        for a, _ in f:
            if (a.kind == 'cnt' and a.args[1] == bpset) or (a.kind == 'call' and a.args[0] in ('set.find', 'set.lower_bound') and a.args[1] == bpset):
                return True
    return False


def host_halts(ctx, R):
    V = ctx.vm()
    jobs, res = c06.cases(ctx)
    sel = [j for j in jobs if j[0] == 'op' and j[1] in ('INS_SCALL', 'INS_ICALL') and len(set(j[2])) == 1]

    def work(j, r):
        def more(e, st):
            def h(eng, s, fr, x, fv, args):
                s.emit('host', fv, tuple(args), eng.site())
                eng.store_raw(s, add(V.th, C(V.o_halt)), 1, ONE)
                t = fr.fn.mod.resolve(x.ty)
                return [(ZERO if t[0] == 'void' else ONE, s)]
            e.hook('<indirect>', h)
        e, outs, key, what, site = c06.run_case(ctx, j, res, None, more)
        for o in outs:
            if o.kind != 'ret' or not any(t[0] == 'host' for t in thr.flat(o.st.trace)):
                continue
            s = V.summary(o)
            h = o.st.const(s.halt) if s.halt is not None else None
            if h == 1:
                r.ok('halt requested by a builtin survives the instruction')
            elif h is None:
                r.undecided(key, 'halted flag')
            else:
                r.bad(j[1] + ':lost', site, '%s: the halt requested by the builtin is lost' % what)
    frame.pmap(work, sel, R)
    # thread_t::halt is that request
    T = thr.Thr(ctx)
    fs = [f for f in ctx.P.find('nano::thread_t::halt') if ctx.P.in_repo(f)]
    for f in fs[:1]:
        e = V.engine()
        st = V.state(e)
        e.store_raw(st, add(V.th, C(V.o_halt)), 1, ZERO)
        for o in e.call_fn(f, [V.th], st):
            h = o.st.const(T.flag(o.st, V.o_halt))
            if h == 1:
                R.ok('halt() sets the flag')
            elif h == 0:
                R.bad('halt:noop', f.loc(), 'thread_t::halt does not request a halt')


def drivers(ctx, R):
    P = ctx.P
    L = Lines(ctx)
    V, T = L.V, L.T
    n = A('sym', 'budget')
    szs = P.cls('nano::thread_t').fields
    keep = {'pc_': V.o_pc, 'error_': V.o_err, 'finished_': V.o_fin}
    span = []
    for k in ('pc_', 'error_', 'finished_', 'f_', 'stack_'):
        if k in szs:
            span.append((szs[k][0], szs[k][0] + szs[k][1], k))
    for m, args in (('resume', [n]), ('step_inst', []), ('step_line', [])):
        hits = []

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'store' and is_lin(kw['addr']) and kw['addr'][1] == V.th[1]:
                for lo, hi, k in span:
                    if lo <= kw['addr'][0] < hi:
                        hits.append((fr.fn.mod.loc(ins.dbg) or fr.fn.loc(), k))
            if kind in ('vec_push', 'vec_erase', 'vec_clear', 'vec_resize', 'vec_pop_back') and kw.get('vec') in (V.stackvec, V.fvec):
                hits.append((fr.fn.mod.loc(ins.dbg) or fr.fn.loc(), 'stack'))

        def tune(e, st):
            L.hook(e)
            if args:
                st.facts.le0(scale(n, -1))
        e, outs, f, stp = T.drive('nano::thread_t::' + m, args, tune=tune, obs=obs)
        R.fn(f)
        if hits:
            R.bad(m + ':state', hits[0][0], '%s changes %s of the thread itself' % (m, hits[0][1]))
        else:
            R.ok('driver leaves the execution state to the instructions')
        if m == 'resume':
            for st, site in stp:
                h = T.values(e, st, T.flag(st, V.o_halt))
                if h == {0}:
                    R.ok('no instruction while halted')
                elif h is None:
                    R.undecided('resume:halted', 'halted flag at instruction start')
                elif 1 in h:
                    R.bad('resume:halted', site, 'resume executes another instruction after the thread was halted')
            for o in outs:
                if o.kind != 'ret':
                    continue
                c = thr.count(o.st.trace, 'step')
                if c == ZERO:
                    s = o.st.facts.copy()
                    try:
                        s.le0(sub(ONE, n))
                        R.bad('resume:stuck', f.loc(), 'resume executes nothing although the budget is not zero and the thread is not finished')
                    except Infeasible:
                        R.ok('resume continues a halted thread')
            early(T, V, n, L, R)
        if m == 'step_line':
            l0 = halves(e, None, A('line', V.pc0))
            for o in outs:
                if o.kind != 'ret':
                    continue
                st = o.st
                fin = T.values(e, st, T.flag(st, V.o_fin))
                if fin == {1}:
                    R.ok('line step ends with the thread')
                    continue
                pc = V.field(st, V.o_pc)
                c = thr.count(st.trace, 'step')
                if c == ZERO:
                    R.bad('step_line:none', f.loc(), 'a line step of a running thread executes nothing')
                    continue
                g = same(e, st, halves(e, None, A('line', pc)), l0) if is_lin(pc) else None
                if g is False:
                    R.ok('line step stops on another line')
                elif st.facts.lossy or fin is None:
                    R.undecided('step_line', 'exit condition')
                else:
                    R.bad('step_line:same', f.loc(), 'a line step can stop although the line has not changed')
            for hv, (init, backs, K, var) in e.loopinfo.items():
                if var[0] == 'm' and var[1][0] == V.th[1] and var[1][1] == V.o_pc:
                    for v, s in backs:
                        g = same(e, s, halves(e, None, A('line', v)), l0)
                        if g is True:
                            R.ok('line step goes on only on the same line')
                        elif s.facts.lossy:
                            R.undecided('step_line', 'continuation')
                        else:
                            R.bad('step_line:past', f.loc(), 'a line step can go on although another line was reached')


def early(T, V, n, L, R):
    """resume of a halted thread stops only on the budget, a new halt or the end"""
    def tune(e, st):
        L.hook(e)
        e.store_raw(st, add(V.th, C(V.o_halt)), 1, ONE)
        st.facts.le0(scale(n, -1))
    e, outs, f, stp = T.drive('nano::thread_t::resume', [n], tune=tune)
    for o in outs:
        if o.kind != 'ret':
            continue
        rs = [t for t in o.st.trace if t[0] in ('res', 'loop')]
        if not rs or rs[-1] != ('res', 'run'):
            continue
        c = thr.count(o.st.trace, 'step')
        if c is None or o.st.facts.lossy:
            R.undecided('resume:early', 'number of steps')
            continue
        s = o.st.facts.copy()
        try:
            s.le0(sub(add(c, ONE), n))
        except Infeasible:
            R.ok('resume of a halted thread uses the whole budget')
            continue
        R.bad('resume:early', f.loc(), 'resume of a thread halted before stops early although no instruction halted it again')


def lines(ctx, R):
    """equality and order of source lines, which the breakpoint set relies on"""
    V = ctx.vm()
    P = ctx.P
    a, b = A('obj', 'LA'), A('obj', 'LB')
    of, ol = P.field('nano::line_t', 'file'), P.field('nano::line_t', 'line')
    for op in ('==', '!=', '<'):
        fs = [f for f in P.find('nano::line_t::operator' + op) if P.in_repo(f)]
        if not fs:
            continue
        R.fn(fs[0])
        for x in (-1, 0, 1):
            for y in (-1, 0, 1):
                e = V.engine()
                e.join = False
                st = V.state(e)
                v = {}
                for k, (o, d) in (('f', (of, x)), ('l', (ol, y))):
                    t = A('sym', 'line.' + k)
                    st.facts.le0(sub(C(-1), t))
                    st.facts.le0(sub(t, C(1 << 30)))
                    u = A('sym', 'line.' + k + '2')
                    st.facts.le0(sub(C(-1), u))
                    st.facts.le0(sub(u, C(1 << 30)))
                    if d == 0:
                        u = t
                    elif d > 0:
                        st.facts.le0(sub(add(t, ONE), u))
                    else:
                        st.facts.le0(sub(add(u, ONE), t))
                    e.store_raw(st, add(a, C(o)), 4, t)
                    e.store_raw(st, add(b, C(o)), 4, u)
                want = {'==': x == 0 and y == 0, '!=': x != 0 or y != 0, '<': x > 0 or (x == 0 and y > 0)}[op]
                for o in e.call_fn(fs[0], [a, b], st):
                    if o.kind != 'ret':
                        continue
                    g = o.st.const(o.val) if is_lin(o.val) else None
                    if g is None or o.st.facts.lossy:
                        R.undecided('line' + op, 'result')
                    elif op == '<':
                        # any strict total order will do: exactly one of a<b, b<a unless equal
                        ORD.setdefault(fs[0], {})[x, y] = bool(g)
                        R.ok('order decided')
                    elif bool(g) == want:
                        R.ok('line comparison')
                    else:
                        R.bad('line' + op, fs[0].loc(), 'operator%s of source lines is %s for lines whose file %s and line %s' % (
                            op, bool(g), 'is equal' if x == 0 else 'differs', 'is equal' if y == 0 else 'differs'))
    for f, d in ORD.items():
        for (x, y), g in d.items():
            if (-x, -y) in d and (d[-x, -y] == g) != (x == 0 and y == 0) or (x == y == 0 and g):
                R.bad('line<', f.loc(), 'operator< of source lines does not order two different lines, so breakpoints on them can be confused')
    ORD.clear()


ORD = {}


def edit(ctx, R):
    P = ctx.P
    L = Lines(ctx)
    V, T = L.V, L.T
    bp = add(V.th, C(V.o_bp))
    LN = A('sym', 'LN')
    tracked = untracked(ctx, L)
    for name in ('breakpoint_add', 'breakpoint_remove', 'breakpoint_clear'):
        f = T.fn('nano::thread_t::' + name)
        R.fn(f)
        e = V.engine()
        e.join = False
        st = V.state(e)
        n = free_set(V, st)
        L.hook(e)
        last = L.last0(e, st)
        e.store_raw(st, add(V.th, C(V.o_pc)), 4, V.pc0)

        def obs(eng, s, kind, fr, ins, kw):
            if kind == 'cont' and kw['obj'] == bp and kw['meth'] in MUTS:
                ks = []
                for a in kw['args']:
                    v = s.mem.get((a[1], a[0], 'M')) if is_lin(a) else None
                    if v is None and is_lin(a) and a[1] and a[1][0][0].kind == 'al':
                        v = (8, eng.load_raw(s, a, 8, 'i'))
                    elif v is not None and v[0] == 4:
                        v = (8, eng.load_raw(s, a, 8, 'i'))
                    ks.append(v[1] if v else a)
                s.emit('bp', kw['meth'], tuple(ks), fr.fn.mod.loc(ins.dbg) or fr.fn.loc())
        e.obs.append(obs)
        outs = e.call_fn(f, [V.th] + ([LN] if 'clear' not in name else []), st)
        for o in outs:
            if o.kind != 'ret':
                R.undecided(name, 'assertion')
                continue
            st = o.st
            ev = [t for t in thr.flat(st.trace) if t[0] == 'bp']
            fnd = A('call', 'set.find', bp, (0, 0), (LN,))
            end = A('call', 'set.end', bp, (0, 0))
            cnt = A('cnt', 'set', bp, (0, 0), (LN,))
            absent = st.const(sub(fnd, end)) == 0 or st.const(cnt) == 0 or st.const(n) == 0
            present = infeasible(st, cnt, ZERO) or infeasible(st, fnd, end)
            if name == 'breakpoint_add':
                if any(t[1] in ('insert', 'emplace') and t[2] and t[2][-1] == LN for t in ev) and all(t[1] in ('insert', 'emplace') for t in ev):
                    R.ok('breakpoint added')
                elif present and not ev:
                    R.ok('breakpoint present')
                elif not ev:
                    R.bad(name + ':noop', f.loc(), 'adding a breakpoint can have no effect')
                elif any(t[1] in ('erase', 'clear') for t in ev):
                    R.bad(name + ':drops', ev[0][3], 'adding a breakpoint removes others')
                else:
                    R.undecided(name, 'set operation %s' % (ev[0][1:3],))
                if not tracked and st.const(n) == 0 or (not tracked and not infeasible(st, n, ZERO)):
                    l2 = load2(e, st.copy(), add(V.th, C(T.o_last)))
                    now = halves(e, None, A('line', V.pc0))
                    if l2 and all(st.const(x) is not None and st.const(x) < 0 for x in l2) or l2 and same(e, st, l2, now) is True:
                        R.ok('first breakpoint does not trust an old line')
                    elif l2 and same(e, st, l2, last) is True and st.const(n) == 0 and not st.facts.lossy:
                        R.bad(name + ':stale', f.loc(), 'the first breakpoint added keeps a remembered line that is out of date: the next '
                              'time that line is reached the thread is not stopped')
                    elif l2 and same(e, st, l2, last) is True and not known_n(st, n) and not st.facts.lossy:
                        R.bad(name + ':stale', f.loc(), 'the first breakpoint added keeps a remembered line that is out of date: the next '
                              'time that line is reached the thread is not stopped')
                    else:
                        R.undecided(name, 'remembered line')
            elif name == 'breakpoint_remove':
                if absent and not ev:
                    R.ok('nothing to remove')
                elif any(t[1] == 'erase' and t[2] and (t[2][-1] == LN or t[2][-1] == fnd or single(t[2][-1]) is single(fnd)) for t in ev) and len(ev) == 1:
                    R.ok('exactly that breakpoint removed')
                elif not ev:
                    R.bad(name + ':keeps', f.loc(), 'a breakpoint that is set can survive its removal')
                elif any(t[1] == 'clear' or t[1] == 'erase' and len(t[2]) == 2 for t in ev):
                    R.bad(name + ':all', ev[0][3], 'removing one breakpoint removes all of them')
                else:
                    R.undecided(name, 'set operation %s' % (ev[0][1],))
            else:
                if any(t[1] in ('clear', 'operator=', 'swap') for t in ev) or st.const(n) == 0:
                    R.ok('all breakpoints removed')
                elif len(ev) == 1 and ev[0][1] == 'erase' and len(ev[0][2]) == 2 and ends(ev[0][2], bp):
                    R.ok('all breakpoints removed')
                elif not ev or len(ev) == 1 and not st.facts.lossy and not any(t[0] == 'loop' for t in st.trace) and ev[0][1] == 'erase' and len(ev[0][2]) == 1:
                    R.bad(name + ':keeps', f.loc(), 'clearing the breakpoints can keep them')
                else:
                    R.undecided(name, 'set operation')


def ends(k, bp):
    return k[0] == A('call', 'set.begin', bp, (0, 0)) and k[1] == A('call', 'set.end', bp, (0, 0))


MUTS = {'insert', 'emplace', 'erase', 'clear', 'operator=', 'swap', 'emplace_hint'}


def known_n(st, n):
    return st.const(n) is not None or infeasible(st, n, ZERO)


def untracked(ctx, L):
    """is the line remembered by a step even when there are no breakpoints"""
    V, T = L.V, L.T
    hold = {}

    def more(e, st):
        L.hook(e)
        hold['last'] = L.last0(e, st)
    e, outs, key, what, site = c06.run_case(ctx, ('op', 'INS_NEW_NONE', ('int', 'int')), {}, None, more)
    for o in outs:
        l2 = load2(e, o.st.copy(), add(V.th, C(T.o_last)))
        if not l2 or same(e, o.st, l2, halves(e, None, A('line', V.field(o.st, V.o_pc)))) is not True:
            return False
    return True


def prepare(ctx, R):
    """a prepared thread starts without a remembered line"""
    L = Lines(ctx)
    V, T = L.V, L.T
    f = T.fn('nano::thread_t::prepare')
    R.fn(f)
    e = V.engine()
    st = V.state(e)
    last = L.last0(e, st)
    outs = e.call_fn(f, [V.th, A('obj', 'FN'), A('sym', 'argc'), A('obj', 'ARGV')], st)
    for o in outs:
        if o.kind != 'ret' or o.st.const(o.val) == 0:
            continue
        l2 = load2(e, o.st.copy(), add(V.th, C(T.o_last)))
        h = o.st.const(T.flag(o.st, V.o_halt) or A('unk', 0))
        if l2 and all(o.st.const(x) is not None and o.st.const(x) < 0 for x in l2):
            R.ok('prepared thread remembers no line')
        elif l2 and same(e, o.st, l2, last) is True and not o.st.facts.lossy:
            R.bad('prepare:stale', f.loc(), 'a prepared thread keeps the line remembered by its previous run')
        else:
            R.undecided('prepare', 'remembered line')
        if h == 0:
            R.ok('prepared thread is not halted')


def run(ctx, R):
    frame.guard(R, steps, ctx, R)
    frame.guard(R, host_halts, ctx, R)
    frame.guard(R, drivers, ctx, R)
    frame.guard(R, edit, ctx, R)
    frame.guard(R, prepare, ctx, R)
    frame.guard(R, lines, ctx, R)
