"""C09: a run-time error stops the thread and is reported."""
import eng as E
import bltin
import frame, thr
from checks import c06
from ir import Anchor
from terms import *

EXPLAIN = (
    'Every interpreter step (all opcodes, all operand kinds) and every builtin (all argument kinds) is analysed path by '
    'path: a path that stores an error ends with the thread finished, never clears or replaces the first error, and an '
    'error raised by a called builtin survives to the end of the call instruction.  thread_t::resume, step_inst, '
    'step_line, vm_t::call_init and vm_t::call_once are then analysed with one instruction (or one slice) abstracted to '
    'its outcomes: no instruction starts after a failure, the result is failure exactly when the thread failed, the error '
    'code handed out is the one of the thread, and the error callback is invoked once for a failing thread under resume.')


# ---------------------------------------------------------------- instructions and builtins
def err_obs(V):
    a = add(V.th, C(V.o_err))

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and is_lin(kw['addr']) and kw['addr'] == a:
            st.emit('err', kw['val'], fr.fn.mod.loc(ins.dbg) or fr.fn.loc())
    return obs


def judge(R, V, j, key, what, outs, site):
    for o in outs:
        if o.kind != 'ret':
            continue
        st = o.st
        s = V.summary(o)
        errs = [(t[1], t[2]) for t in thr.flat(st.trace) if t[0] == 'err']
        err = st.const(s.err) if s.err is not None else None
        fin = st.const(s.fin) if s.fin is not None else None
        vals = [st.const(v) if is_lin(v) else None for v, _ in errs]
        raised = [(v, l) for v, (_, l) in zip(vals, errs) if v != 0]
        k = (j[1] if j[0] == 'op' else 'builtin ' + j[1])
        if not raised and err == 0:
            R.ok('no error raised')
            continue
        if err is None or any(v is None for v in vals):
            R.undecided(key, 'error state')
            continue
        if err == 0:
            R.bad(k + ':cleared', errs[-1][1], '%s: the error raised is cleared again' % what)
            continue
        if raised and raised[0][0] != err:
            R.bad(k + ':first', raised[-1][1], '%s: error %s replaces the first error %s' % (what, err, raised[0][0]))
            continue
        if fin is None:
            R.undecided(key, 'finished flag')
        elif fin != 1:
            R.bad(k + ':goeson', raised[-1][1] if raised else site, '%s: the thread is not finished after error %s' % (what, err))
        else:
            R.ok('first error kept and thread finished')


def steps(ctx, R):
    P, V = ctx.P, ctx.vm()
    jobs, res = c06.cases(ctx)
    R.floor('instruction and builtin cases', len(jobs), 1200)
    obs = err_obs(V)

    def work(j, r):
        e, outs, key, what, site = c06.run_case(ctx, j, res, obs)
        for f in e.fns_seen:
            if P.in_repo(f):
                r.fn(f)
        judge(r, V, j, key, what, outs, site)
    frame.pmap(work, jobs, R)


def host_fails(ctx, R):
    """a builtin that raises an error inside a call instruction; also with a handler that does"""
    P, V = ctx.P, ctx.vm()
    jobs, res = c06.cases(ctx)
    sel = [j for j in jobs if j[0] == 'op' and j[1] in ('INS_SCALL', 'INS_ICALL')]
    E5 = C(5)

    def work(j, r):
        hit = []

        def more(e, st):
            def h(eng, s, fr, x, fv, args):
                s.emit('host', fv, tuple(args), eng.site())
                hit.append(1)
                eng.store_raw(s, add(V.th, C(V.o_err)), 4, E5)
                eng.store_raw(s, add(V.th, C(V.o_fin)), 1, ONE)
                t = fr.fn.mod.resolve(x.ty)
                return [(ZERO if t[0] == 'void' else ONE, s)]
            e.hook('<indirect>', h)
        e, outs, key, what, site = c06.run_case(ctx, j, res, None, more)
        for o in outs:
            if o.kind != 'ret' or not any(t[0] == 'host' for t in thr.flat(o.st.trace)):
                continue
            s = V.summary(o)
            err = o.st.const(s.err) if s.err is not None else None
            fin = o.st.const(s.fin) if s.fin is not None else None
            if err is None or fin is None:
                r.undecided(key, 'error state after a failing builtin')
            elif err != 5:
                r.bad(j[1] + ':lost', site, '%s: the error raised by the builtin is replaced by %d' % (what, err))
            elif fin != 1:
                r.bad(j[1] + ':lost', site, '%s: the thread goes on after the builtin failed' % what)
            else:
                r.ok('error of a builtin survives the call instruction')
    frame.pmap(work, sel, R)


# ---------------------------------------------------------------- drivers of a thread
def handler(V, P, name):
    return P.field('nano::handlers_t', name)


def drivers(ctx, R):
    P = ctx.P
    T = thr.Thr(ctx)
    V = T.V
    hoff = V.o_handlers + handler(V, P, 'on_thread_error')
    for m, args in (('resume', [A('sym', 'budget')]), ('step_inst', []), ('step_line', [])):
        def tune(e, st):
            if args:
                st.facts.le0(scale(args[0], -1))
            for off in V.handler_fields():
                a = add(V.vm, C(V.o_handlers + off))
                e.store_raw(st, a, 8, A('obj', 'H%d' % off))
        H = A('obj', 'H%d' % handler(V, P, 'on_thread_error'))
        e, outs, f, stp = T.drive('nano::thread_t::' + m, args, tune=tune)
        R.fn(f)
        R.floor('%s: instruction starts' % m, len(stp), 1)
        for st, site in stp:
            v = T.values(e, st, T.flag(st, V.o_err))
            w = T.values(e, st, T.flag(st, V.o_fin))
            if w == {0} or v == {0}:
                R.ok('no instruction after a failure')
            elif w is None:
                R.undecided(m, 'finished flag at instruction start')
            else:
                R.bad(m + ':goeson', site, '%s can execute an instruction after the thread failed' % m)
        for o in outs:
            if o.kind != 'ret':
                ev = [t for t in o.st.trace if t[0] == 'assert_fail']
                R.undecided(m, 'assertion %s' % (ev[-1][1] if ev else ''))
                continue
            st = o.st
            ev = T.flag(st, V.o_err)
            fin = T.values(e, st, T.flag(st, V.o_fin))
            failed = None if ev is None else (ev == thr.ERRV or (False if st.const(ev) == 0 else None))
            ret = st.const(o.val) if o.val is not None and is_lin(o.val) else None
            if failed is None or failed is False and st.const(ev) != 0:
                vs = T.values(e, st, ev) if ev is not None else None
                if vs == {0}:
                    failed = False
                else:
                    R.undecided(m, 'error state at return')
                    continue
            if ret is None:
                R.undecided(m, 'result')
            elif failed and ret:
                R.bad(m + ':success', f.loc(), '%s reports success for a thread that failed' % m)
            elif not failed and not ret:
                R.bad(m + ':failure', f.loc(), '%s reports failure although no error was raised' % m)
            else:
                R.ok('%s reports failure exactly on error' % m)
            if m == 'resume':
                calls = [t for t in st.trace if t[0] == 'host' and t[1] == H]
                inl = [t for t in thr.flat(st.trace) if t[0] == 'host' and t[1] == H]
                if failed and len(calls) == 1 and len(inl) == 1:
                    if T.V.th in calls[0][2]:
                        R.ok('error callback invoked once with the thread')
                    else:
                        R.bad(m + ':cbarg', calls[0][3], 'the error callback is not given the failing thread')
                elif failed and not inl:
                    R.bad(m + ':nocb', f.loc(), 'resume does not invoke the error callback for a thread that failed')
                elif failed:
                    R.bad(m + ':cbtwice', calls[0][3] if calls else f.loc(), 'resume invokes the error callback %d times' % len(inl))
                elif inl:
                    R.bad(m + ':cbspur', inl[0][3], 'resume invokes the error callback although no error was raised')
                else:
                    R.ok('no error callback without error')
        # a thread that failed before
        e, outs, f, stp = T.drive('nano::thread_t::' + m, args, entry=(1, 1), tune=tune)
        if stp:
            R.bad(m + ':dead', stp[0][1], '%s executes an instruction of a failed thread' % m)
        for o in outs:
            if o.kind != 'ret':
                continue
            ret = o.st.const(o.val)
            ev = T.flag(o.st, V.o_err)
            if ret == 0 and ev == thr.ERRV:
                R.ok('a failed thread stays failed')
            elif ret is None or ev is None:
                R.undecided(m, 'result for a failed thread')
            else:
                R.bad(m + ':forgets', f.loc(), '%s on a failed thread reports success or clears the error' % m)


def machine(ctx, R):
    """call_init and call_once with a thread slice abstracted"""
    P = ctx.P
    T = thr.Thr(ctx)
    V = T.V
    NT = A('obj', 'NT')
    ret = A('obj', 'RETVAL')
    for name in ('call_init', 'call_once'):
        f = T.fn('nano::vm_t::' + name)
        R.fn(f)
        e = V.engine()
        e.join = False
        e.loopinfo = {}
        st = V.state(e)
        st.facts.le0(sub(ONE, thr.ERRV))
        slices = []

        def resume(eng, s, fr, x, fn, args):
            slices.append((s.copy(), eng.site()))
            s.emit('slice', args[0], eng.site())
            res = []
            for r_, fin, err in ((1, 0, 0), (1, 1, 0), (0, 1, 1)):
                t = s.copy()
                T.set(eng, t, NT, fin, err)
                res.append((C(r_), t))
            return res

        def new(eng, s, fr, x, fn, args):
            res = []
            for null in (True, False):
                t = s.copy()
                if null:
                    t.emit('nothread', eng.site())
                    res.append((ZERO, t))
                else:
                    T.set(eng, t, NT, 0, 0, 0)
                    t.emit('thread', eng.site())
                    res.append((NT, t))
            return res

        def find(eng, s, fr, x, fn, args):
            res = []
            for null in (True, False):
                t = s.copy()
                t.emit('nofunc' if null else 'func', eng.site())
                res.append((ZERO if null else A('obj', 'FN'), t))
            return res
        e.hook('nano::thread_t::resume', resume)
        e.hook('nano::vm_t::new_thread', new)
        if name == 'call_init':
            e.hook('nano::program_t::function_find', find)
        e.hook('nano::thread_t::get_return_value', lambda eng, s, fr, x, fn, args: [(ret, (s.emit('getret', args[0]), s)[1])])
        if name == 'call_init':
            args = [V.vm]
        else:
            args = [V.vm, A('obj', 'FN'), A('sym', 'argc'), A('obj', 'ARGV'), A('obj', 'RC'), A('obj', 'ERR')]
        outs = e.call_fn(f, args, st)
        R.floor('%s: slices' % name, len(slices), 1)
        for s, site in slices:
            w = T.values(e, s, T.flag(s, V.o_fin, NT))
            if w is not None and 1 in w:
                v = T.values(e, s, T.flag(s, V.o_err, NT))
        for o in outs:
            if o.kind != 'ret':
                R.undecided(name, 'assertion')
                continue
            s = o.st
            r_ = s.const(o.val)
            names = {t[0] for t in s.trace}
            if r_ is None:
                R.undecided(name, 'result')
                continue
            if 'nofunc' in names or 'nothread' in names:
                if r_:
                    R.bad(name + ':nothread', f.loc(), '%s reports success although %s' % (
                        name, 'there is no initialiser' if 'nofunc' in names else 'the thread could not be prepared'))
                    continue
                if name == 'call_once':
                    c = mem(s, A('obj', 'ERR'))
                    if c is not None and s.const(c) == 0:
                        R.bad(name + ':nocode', f.loc(), 'call_once fails without an error code when the thread cannot be prepared')
                        continue
                R.ok('no thread is a failure')
                continue
            ev = T.flag(s, V.o_err, NT)
            fin = T.values(e, s, T.flag(s, V.o_fin, NT))
            vs = None if ev is None else ({1} if ev == thr.ERRV else T.values(e, s, ev))
            if vs is None or fin is None or len(vs) != 1:
                R.undecided(name, 'thread state at return')
                continue
            failed = vs != {0}
            if failed and r_:
                R.bad(name + ':success', f.loc(), '%s reports success although the thread failed' % name)
            elif not failed and not r_:
                R.bad(name + ':failure', f.loc(), '%s reports failure although the thread did not fail' % name)
            elif not failed and 1 not in fin:
                R.bad(name + ':unfinished', f.loc(), '%s reports success before the thread has finished' % name)
            else:
                R.ok('%s reports the outcome of its thread' % name)
            if name == 'call_once':
                c = mem(s, A('obj', 'ERR'))
                if c is None:
                    R.undecided(name, 'error code handed out')
                elif failed and c == thr.ERRV or not failed and s.const(c) == 0:
                    R.ok('error code handed out is the one of the thread')
                elif is_lin(c) and s.const(c) is not None:
                    R.bad(name + ':code', f.loc(), 'call_once hands out error %d for a thread that %s' % (s.const(c), 'failed' if failed else 'succeeded'))
                else:
                    R.undecided(name, 'error code handed out')


def mem(st, addr):
    v = st.mem.get((addr[1], addr[0], 'M'))
    return v[1] if v else None


def run(ctx, R):
    frame.guard(R, drivers, ctx, R)
    frame.guard(R, machine, ctx, R)
    frame.guard(R, host_fails, ctx, R)
    frame.guard(R, steps, ctx, R)
