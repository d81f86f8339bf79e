"""C10: resuming a thread runs at most the granted number of instructions."""
import eng as E
import frame, thr
from checks import c06
from terms import *

EXPLAIN = (
    'thread_t::resume is abstractly interpreted with one instruction abstracted to its outcomes (running, halted, '
    'finished, failed) and the loop generalised over its iterations.  At every exit the number of '
    'instructions executed must be provably within the budget, no instruction starts on a finished thread, and every exit '
    'with budget left must be finished, failed or halted.  Each interpreter step is analysed for every opcode: the cycle '
    'counter grows by exactly one on every path, no second opcode is fetched and left behind by the program counter, and no other code of the thread writes it except when preparing.')


def resume(ctx, R):
    T = thr.Thr(ctx)
    V = T.V
    n = A('sym', 'budget')

    def tune(e, st):
        st.facts.le0(scale(n, -1))
        st.facts.le0(sub(n, C((1 << 31) - 1)))
    e, outs, f, steps = T.drive('nano::thread_t::resume', [n], tune=tune)
    R.fn(f)
    R.floor('instruction starts in resume', len(steps), 1)
    for st, site in steps:
        fin = T.values(e, st, T.flag(st, V.o_fin))
        if fin is None:
            R.undecided('resume:finished', 'finished flag at instruction start')
        elif fin == {0}:
            R.ok('no instruction after the thread finished')
        else:
            R.bad('resume:finished', site, 'resume can execute an instruction of a thread that has finished')
    for o in outs:
        if o.kind != 'ret':
            R.undecided('resume:abort', 'assertion in resume')
            continue
        st = o.st
        c = thr.count(st.trace, 'step')
        fin = T.values(e, st, T.flag(st, V.o_fin))
        halt = T.values(e, st, T.flag(st, V.o_halt))
        if c is None:
            R.undecided('resume:budget', 'instruction count')
        else:
            s = st.facts.copy()
            try:
                s.le0(add(sub(n, c), ONE))
                if st.facts.lossy or not settled(e, s, n, c):
                    R.undecided('resume:budget', 'count %s' % show(c))
                else:
                    R.bad('resume:budget', f.loc(), 'resume can execute more instructions (%s) than the budget allows' % show(c))
            except Infeasible:
                R.ok('instructions executed within the budget')
        if fin == {1} or (halt == {1}):
            R.ok('stops because the thread finished, failed or was halted')
            continue
        if c is None:
            R.undecided('resume:early', 'instruction count')
            continue
        s = st.facts.copy()
        try:
            s.le0(add(sub(c, n), ONE))
        except Infeasible:
            R.ok('stops when the budget is used up')
            continue
        if fin == {0} and halt == {0} and not st.facts.lossy and settled(e, s, n, c):
            R.bad('resume:early', f.loc(), 'resume can stop after %s of %s instructions although the thread is neither finished nor halted' % (show(c), show(n)))
        else:
            R.undecided('resume:early', 'exit condition')
    # a finished thread
    for err in (0, 1):
        e, outs, f, steps = T.drive('nano::thread_t::resume', [n], entry=(1, err), tune=tune)
        if steps:
            R.bad('resume:dead', steps[0][1], 'resume executes instructions of a finished thread')
        else:
            R.ok('a finished thread executes nothing')
    for m in ('step_inst', 'step_line'):
        for err in (0, 1):
            e, outs, f, steps = T.drive('nano::thread_t::' + m, [], entry=(1, err))
            R.fn(f)
            if steps:
                R.bad('%s:dead' % m, steps[0][1], '%s executes instructions of a finished thread' % m)
            else:
                R.ok('a finished thread executes nothing')
    e, outs, f, steps = T.drive('nano::thread_t::step_inst', [])
    for o in outs:
        c = thr.count(o.st.trace, 'step')
        if o.kind == 'ret' and c == ONE:
            R.ok('single step executes one instruction')
        elif o.kind == 'ret' and c is not None and not c[1]:
            R.bad('step_inst:count', f.loc(), 'single step executes %s instructions' % show(c))
        else:
            R.undecided('step_inst:count', o.kind)


def settled(e, facts, n, c):
    """is the count understood well enough for a definite answer: only loop counters whose loop variables all move
    by constants"""
    ks = [a for a in atoms_of(c) if a.kind == 'K']
    if any(a.kind not in ('K', 'sym') for a in atoms_of(c)):
        return False
    return True


def counter(ctx, R):
    V = ctx.vm()
    T = thr.Thr(ctx)
    jobs, res = c06.cases(ctx)
    seen = set()
    sel = [j for j in jobs if j[0] == 'op' and len(set(j[2])) == 1]
    R.floor('opcodes analysed for the cycle counter', len({j[1] for j in sel}), 30)
    c0 = A('sym', 'cyc0')

    def more(e, st):
        e.store_raw(st, add(V.th, C(T.o_cyc)), 4, c0)

    base = single(V.code)

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'load' and kw['size'] == 1 and is_lin(kw['addr']) and any(t is base for t, k in kw['addr'][1]):
            st.emit('fetch', sub(kw['addr'], V.code), fr.fn.mod.loc(ins.dbg))

    def work(j, r):
        e, outs, key, what, site = c06.run_case(ctx, j, res, obs, more)
        for o in outs:
            if o.kind != 'ret':
                continue
            # code bytes read on their own (not part of a multi-byte operand) and left behind by the program counter
            ds = {}
            for t in thr.flat(o.st.trace):
                if t[0] == 'fetch' and t[1] != V.pc0:
                    ds.setdefault(t[1], t[2])
            pc = T.flag(o.st, V.o_pc)
            two = False
            for d, where in ds.items():
                if add(d, ONE) in ds or sub(d, ONE) in ds or not is_lin(pc):
                    continue
                g = o.st.const(sub(pc, d))
                if g is not None and 0 < g < 16:
                    r.bad(j[1] + ':second', where or site, '%s: the step goes on to fetch and execute a second opcode, which is not counted' % what)
                    two = True
                    break
            if not two:
                r.ok('one step executes one instruction')
            c = T.flag(o.st, T.o_cyc)
            if c is None:
                r.undecided(key, 'cycle counter not tracked')
            elif o.st.const(sub(sub(c, c0), ONE)) == 0:
                r.ok('one instruction, one cycle')
            elif o.st.const(sub(c, c0)) is not None:
                r.bad(j[1] + ':cycles', site, '%s: the cycle counter changes by %d' % (what, o.st.const(sub(c, c0))))
            else:
                r.undecided(key, 'cycle counter %s' % show(c))
    frame.pmap(work, sel, R)


def writers(ctx, R):
    """the drivers themselves do not touch the counter"""
    T = thr.Thr(ctx)
    V = T.V
    addr = add(V.th, C(T.o_cyc))
    for m, args in (('resume', [A('sym', 'budget')]), ('step_inst', []), ('step_line', [])):
        hits = []

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'store' and is_lin(kw['addr']) and kw['addr'][1] == addr[1] and kw['addr'][0] == addr[0]:
                hits.append((fr.fn.mod.loc(ins.dbg), kw['val'], st.mem.get((addr[1], addr[0], 'M'))))

        def tune(e, st):
            e.store_raw(st, addr, 4, A('sym', 'cyc0'))
        e, outs, f, steps = T.drive('nano::thread_t::' + m, args, obs=obs, tune=tune)
        if hits:
            R.bad('%s:counter' % m, hits[0][0] or f.loc(), '%s changes the cycle counter outside of executing an instruction' % m)
        else:
            R.ok('driver leaves the cycle counter alone')


def run(ctx, R):
    frame.guard(R, resume, ctx, R)
    frame.guard(R, writers, ctx, R)
    frame.guard(R, counter, ctx, R)
