"""C20: machine-wide resume schedules every thread fairly and frees it once."""
import frame, thr
from terms import *

EXPLAIN = (
    'vm_t::resume is analysed with the thread list abstracted to iterators and their successors, one arbitrary element per '
    'loop iteration and a slice of a thread abstracted to its outcomes.  On every path round the loop: a waiting thread only '
    'has its wait count lowered by one; a finished or failed thread is destroyed and unlinked once and not touched afterwards; '
    'any other thread gets exactly one slice of the granted cycles; the iterator then is the successor of the element.  The '
    'loop is left only at the end of the list or when the slice failed, which is the result.  finished and has_error are all / '
    'any over the list; new_thread links a prepared thread once, in front, and destroys one that cannot be prepared; reset '
    'destroys every thread.')

VM = A('obj', 'VM')
CYC = A('sym', 'cyc')


class Lst:
    def __init__(self, ctx):
        self.P = ctx.P
        self.T = thr.Thr(ctx)
        self.V = self.T.V
        self.o_thr = self.P.field('nano::vm_t', 'threads_')
        self.obj = add(VM, C(self.o_thr))
        self.end = A('call', 'list.end', self.obj, 0)
        self.begin = A('call', 'list.begin', self.obj, (0, 0))
        self.names = {self.V.o_fin: 'fin', self.V.o_err: 'err', self.T.o_waits: 'waits'}

    def run(self, name, args, hooks=()):
        V, T = self.V, self.T
        e = V.engine()
        e.join = False
        e.loopinfo = {}
        st = V.state(e)
        st.facts.le0(sub(ONE, thr.ERRV))
        st.facts.le0(sub(thr.ERRV, C(100)))

        def elem(a):
            """(thread pointer term, offset) of an address inside a list element"""
            x = a[1][0][0] if len(a[1]) == 1 and a[1][0][1] == 1 else None
            if x is not None and x.kind in ('ld', 'new'):
                if x.kind == 'new' or any(y.kind == 'node' for y in atoms_of(x.args[0])):
                    return (0, ((x, 1),)), a[0]
            return None

        def resume(eng, s, fr, x, f, a):
            s.emit('slice', a[0], a[1], eng.site())
            out = []
            for fin, err, val in ((0, 0, 1), (1, 0, 1), (1, 1, 0)):
                t = s.copy()
                T.set(eng, t, a[0], fin, err)
                t.emit('res', val)
                out.append((C(val), t))
            return out

        def dtor(eng, s, fr, x, f, a):
            s.emit('dtor', a[0], eng.site())
            return [(ZERO, s)]
        e.hook('nano::thread_t::resume', resume)
        e.hook('nano::thread_t::~thread_t', dtor)
        for k, h in hooks:
            e.hook(k, h)

        def obs(eng, s, kind, fr, ins, kw):
            where = fr.fn.mod.loc(ins.dbg) or fr.fn.loc()
            if kind == 'cont' and kw['cont'] == 'list' and kw['obj'] == self.obj and kw['meth'] not in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
                ks = []
                for a in kw['args']:
                    v = s.mem.get((a[1], a[0], 'M')) if is_lin(a) and kw['meth'].startswith(('push', 'emplace', 'insert')) else None
                    ks.append(v[1] if v else a)
                s.emit('list', kw['meth'], tuple(ks), where)
            elif kind == 'free':
                s.emit('free', kw['ptr'], where)
            elif kind in ('uptr_reset', 'uptr_del') and is_lin(kw['old']) and s.const(kw['old']) != 0:
                s.emit('dtor', kw['old'], where)
                s.emit('free', kw['old'], where)
            elif kind == 'liter':
                s.emit('iter', kw['it'], where)
            elif kind in ('load', 'store') and is_lin(kw['addr']):
                el = elem(kw['addr'])
                if el is None:
                    return
                nm = self.names.get(el[1], 'other')
                if kind == 'load':
                    v = s.mem.get((kw['addr'][1], kw['addr'][0], 'M'))
                    w = v[1] if v else eng.load_raw(s, kw['addr'], kw['size'], 'i')
                    if nm == 'waits' and is_lin(w):
                        s.facts.le0(scale(w, -1))       # wait counts are never negative (C12: builtin wait)
                    s.emit('rd', nm, el[0], v[1] if v else eng.load_raw(s, kw['addr'], kw['size'], 'i'), where)
                else:
                    s.emit('wr', nm, el[0], kw['val'], where)
        e.obs.append(obs)
        f = T.fn(name)
        return e, e.call_fn(f, [VM] + args, st), f

    def loops(self, e):
        """iterators over the thread list: [(iterator at the loop head, [(next, state)])]"""
        return [(hv, backs) for hv, (init, backs, K, var) in e.loopinfo.items() if init == self.begin]

    def ptr(self, hv):
        """the element under an iterator, as the loads inside the loop name it: any ld of its node"""
        def isp(t):
            a = single(t) if is_lin(t) else None
            return a is not None and a.kind == 'ld' and is_lin(a.args[0]) and a.args[0] == A('node', hv, 0)
        return isp


def truth(st, t, tr):
    """what is known about the first value read of field t: 0, 1 (non-zero) or None"""
    for x in tr:
        if x[0] == 'rd' and x[1] == t:
            v = x[3]
            if not is_lin(v):
                return None
            c = st.const(v)
            if c is not None:
                return int(c != 0)
            s = st.facts.copy()
            try:
                s.eq0(v)
            except Infeasible:
                return 1
            return None
        if x[0] == 'slice':
            return None
    return None


def null(st, hv):
    return any(a.kind == 'ld' and a.args[0] == A('node', hv, 0) and st.const((0, ((a, 1),))) == 0 for fm in st.facts.d for a, _ in fm)


def iteration(L, R, f, hv, nxt, st, tr):
    """one way round the loop; nxt None when the loop is left"""
    isp = L.ptr(hv)
    tr = [t for t in tr if t[0] != 'loop']
    w, fin, err = (truth(st, k, tr) for k in ('waits', 'fin', 'err'))
    sl = [t for t in tr if t[0] == 'slice']
    dt = [t for t in tr if t[0] == 'dtor']
    fr = [t for t in tr if t[0] == 'free' and isp(t[1])]
    er = [t for t in tr if t[0] == 'list' and t[1] == 'erase']
    ot = [t for t in tr if t[0] == 'list' and t[1] != 'erase']
    wr = [t for t in tr if t[0] == 'wr' and t[1] == 'waits']
    where = f.loc()
    if null(st, hv):
        return
    if st.facts.lossy or ot:
        R.undecided('resume', 'iteration not understood')
        return
    # nothing after destruction
    dead = unlinked = False
    for t in tr:
        if dead and (t[0] in ('rd', 'wr') and isp(t[2]) or t[0] in ('slice', 'dtor', 'free') and isp(t[1]) and not (t[0] == 'free' and dead == 'dtor')):
            R.bad('resume:dangling', t[-1], 'a destroyed thread is used again')
            return
        if unlinked and t[0] == 'iter' and t[1] == hv:
            R.bad('resume:iterator', t[-1], 'the iterator of an unlinked thread is used again')
            return
        if t[0] == 'dtor' and isp(t[1]):
            dead = 'dtor'
        if t[0] == 'free' and isp(t[1]):
            dead = 'free'
        if t in er and t[2] and t[2][0] == hv:
            unlinked = True
    if nxt is not None and is_lin(nxt):
        if nxt == A('next', hv):
            R.ok('loop advances to the next thread')
        elif nxt == hv:
            R.bad('resume:stuck', where, 'the loop does not advance to the next thread')
            return
        elif nxt == A('next', A('next', hv)):
            R.bad('resume:skip', where, 'the loop skips a thread')
            return
        else:
            R.undecided('resume', 'next iterator')
    if len(sl) > 1:
        R.bad('resume:twice', sl[1][3], 'a thread gets two slices in one resume')
        return
    if (dt or fr) and not er or er and not fr:
        if nxt is not None:
            R.bad('resume:unlink', where, 'a thread is destroyed but stays in the list' if fr or dt else 'a thread is unlinked but never destroyed')
            return
    if len(er) > 1 or len(fr) > 1:
        R.bad('resume:free2', where, 'a thread is removed twice')
        return
    if sl and not isp(sl[0][1]):
        R.undecided('resume', 'thread resumed')
        return
    if sl and sl[0][2] != CYC:
        R.bad('resume:cycles', sl[0][3], 'a thread is granted %s instead of the cycles given' % (show(sl[0][2]) if is_lin(sl[0][2]) else '?'))
        return
    if w != 0 and (sl or fr):
        R.bad('resume:wait', (sl[0][3] if sl else fr[0][2]), 'a thread that still has to wait is %s' % ('resumed' if sl else 'removed'))
        return
    if w == 1:
        rd = [t for t in tr if t[0] == 'rd' and t[1] == 'waits'][0]
        wr = wr[-1:]
        if len(wr) == 1 and st.const(sub(sub(rd[3], ONE), wr[0][3])) == 0:
            R.ok('wait count lowered by one')
        elif not wr:
            R.bad('resume:nowait', where, 'the wait count of a waiting thread is not lowered')
        elif len(wr) == 1 and st.const(sub(rd[3], wr[0][3])) is not None:
            R.bad('resume:waitby', wr[0][4], 'the wait count of a waiting thread changes by %d' % -st.const(sub(rd[3], wr[0][3])))
        else:
            R.undecided('resume', 'wait count')
        return
    if wr:
        R.undecided('resume', 'wait count written')
    over = fin == 1 or err == 1
    if sl:
        if fin == 0:
            R.ok('unfinished thread gets one slice')
        elif over:
            R.bad('resume:over', sl[0][3], 'a thread that is over is resumed')
        else:
            R.bad('resume:unchecked', sl[0][3], 'a thread is resumed without looking whether it is over')
    elif fr:
        if over:
            R.ok('finished thread removed once')
        elif fin == 0 and err in (0, None):
            R.bad('resume:live', fr[0][2], 'a thread that is still running is removed')
        else:
            R.undecided('resume', 'thread removed')
    elif nxt is not None:
        if w is None:
            R.undecided('resume', 'iteration without effect')
        elif over:
            R.bad('resume:keep', where, 'a thread that is over is never removed')
        else:
            R.bad('resume:starve', where, 'an unfinished thread that does not wait gets no slice')


def resume(ctx, R):
    L = Lst(ctx)
    e, outs, f = L.run('nano::vm_t::resume', [CYC])
    R.fn(f)
    ls = L.loops(e)
    if not ls:
        R.undecided('resume', 'no loop over the thread list')
        return
    for hv, backs in ls:
        for v, s in backs:
            iteration(L, R, f, hv, v, s, s.trace)
    hv = ls[0][0]
    failing = any(('res', 0) in s.trace for v, s in ls[0][1])
    for o in outs:
        if o.kind != 'ret':
            if any(t[0] == 'assert_fail' for t in o.st.trace):
                pass
            continue
        tr = o.st.trace
        i = max([k for k, t in enumerate(tr) if t[0] == 'loop'] or [-1])
        last = tr[i + 1:]
        val = o.st.const(o.val) if is_lin(o.val) else None
        atend = o.st.const(sub(hv, L.end)) == 0 or o.st.const(sub(L.begin, L.end)) == 0
        if any(t[0] in ('slice', 'free') for t in last):
            iteration(L, R, f, hv, None, o.st, last)
        fail = ('res', 0) in last
        if val is None or o.st.facts.lossy:
            R.undecided('resume', 'result')
        elif fail:
            if val == 0:
                R.ok('a failed slice is reported')
            else:
                R.bad('resume:swallow', f.loc(), 'a thread that failed is reported as success')
        elif atend:
            if val == 1 and not failing:
                R.ok('left at the end of the list')
            elif val == 1:
                R.bad('resume:swallow', f.loc(), 'a thread that failed is reported as success')
            elif not failing:
                R.bad('resume:error', f.loc(), 'an error is reported although no thread failed')
        else:
            R.bad('resume:early', f.loc(), 'the loop over the threads is left before its end although no thread failed')


def quantifier(ctx, R, name, field, every):
    """finished: all (every=True), has_error: any"""
    L = Lst(ctx)
    e, outs, f = L.run('nano::vm_t::' + name, [])
    R.fn(f)
    ls = L.loops(e)
    if not ls:
        R.undecided(name, 'no loop over the thread list')
        return
    go = 1 if every else 0
    for hv, backs in ls:
        for v, s in backs:
            t = truth(s, field, s.trace)
            if is_lin(v) and v != A('next', hv):
                if v == A('next', A('next', hv)):
                    R.bad(name + ':skip', f.loc(), '%s skips threads' % name)
                else:
                    R.undecided(name, 'next iterator')
            elif s.facts.lossy:
                R.undecided(name, 'iteration')
            elif t == go:
                R.ok('search goes on past a thread that does not decide')
            elif t is not None:
                R.bad(name + ':past', f.loc(), '%s goes on past a thread that %s' % (name, 'is not finished' if every else 'has failed'))
            elif not e.loopinfo or len([1 for x in e.loopinfo if True]) and accum(e, s):
                R.undecided(name, 'accumulated result')
            else:
                R.bad(name + ':ignore', f.loc(), '%s does not look at every thread' % name)
    hv = ls[0][0]
    for o in outs:
        if o.kind != 'ret':
            continue
        tr = o.st.trace
        i = max([k for k, t in enumerate(tr) if t[0] == 'loop'] or [-1])
        last = tr[i + 1:]
        val = o.st.const(o.val) if is_lin(o.val) else None
        atend = o.st.const(sub(hv, L.end)) == 0 or o.st.const(sub(L.begin, L.end)) == 0
        t = truth(o.st, field, last)
        if val is None or o.st.facts.lossy:
            R.undecided(name, 'result')
        elif atend:
            if val == go:
                R.ok('result at the end of the list')
            else:
                R.bad(name + ':end', f.loc(), '%s is %s although no thread says so' % (name, bool(val)))
        elif t is None:
            R.undecided(name, 'early result')
        elif t == go or val == go:
            R.bad(name + ':early', f.loc(), '%s is %s because of a thread that %s' % (
                name, bool(val), ('is finished' if t else 'is not finished') if every else ('failed' if t else 'did not fail')))
        else:
            R.ok('result decided by one thread')


def accum(e, s):
    return any(var[0] == 'e' or (var[1][0] and var[1][0][0][0].kind == 'al') for hv, (i, b, K, var) in e.loopinfo.items()
               if any(v is not None and is_lin(v) and any(a.kind in ('cmp', 'or', 'and', 'ite', 'ld') for a in atoms_of(v)) for v, _ in b))


def reset(ctx, R):
    L = Lst(ctx)
    for name in ('nano::vm_t::reset', 'nano::vm_t::~vm_t'):
        e, outs, f = L.run(name, [])
        R.fn(f)
        ls = L.loops(e)
        if not ls:
            if any(o.kind == 'ret' for o in outs) and not any(t[0] in ('free', 'dtor', 'list') for o in outs for t in thr.flat(o.st.trace)):
                R.bad(name.split('::')[-1] + ':leak', f.loc(), '%s does not destroy the threads' % name)
            else:
                R.undecided(name, 'no loop over the thread list')
            continue
        for hv, backs in ls:
            isp = L.ptr(hv)
            for v, s in backs:
                fr = [t for t in s.trace if t[0] == 'free' and isp(t[1])]
                dt = [t for t in s.trace if t[0] == 'dtor' and isp(t[1])]
                isnull = null(s, hv)
                er = any(t[0] == 'list' and t[1] == 'erase' for t in s.trace)
                if s.facts.lossy or is_lin(v) and v != A('next', hv):
                    R.undecided(name, 'iteration')
                elif len(fr) == 1 and len(dt) == 1 or isnull:
                    R.ok('thread destroyed once')
                elif len(fr) > 1:
                    R.bad('reset:twice', f.loc(), 'reset destroys a thread twice')
                else:
                    R.bad('reset:leak', f.loc(), 'reset can keep a thread alive')
        for o in outs:
            if o.kind != 'ret' or o.st.facts.lossy:
                continue
            i = max([k for k, t in enumerate(o.st.trace) if t[0] == 'loop'] or [-1])
            body = [t for t in thr.flat(o.st.trace)]
            if name.endswith('reset') and not any(t[0] == 'list' and t[1] in ('clear', 'erase', 'swap', 'operator=') for t in body) and not any(t[0] == 'list' for t in body):
                R.bad('reset:stale', f.loc(), 'reset keeps destroyed threads in the list')
            else:
                R.ok('list emptied')


def create(ctx, R):
    L = Lst(ctx)
    V, T = L.V, L.T

    def prepare(eng, s, fr, x, f, a):
        s.emit('prepare', a[0])
        out = []
        for r in (0, 1):
            t = s.copy()
            t.emit('res', r)
            out.append((C(r), t))
        return out
    e, outs, f = L.run('nano::vm_t::new_thread', [A('obj', 'FN'), A('sym', 'argc'), A('obj', 'ARGV')], [('nano::thread_t::prepare', prepare)])
    R.fn(f)
    for o in outs:
        if o.kind != 'ret':
            continue
        tr = list(thr.flat(o.st.trace))
        pr = [t for t in tr if t[0] == 'prepare']
        if len(pr) != 1 or o.st.facts.lossy:
            R.undecided('new_thread', 'preparation')
            continue
        t = pr[0][1]
        good = ('res', 1) in tr
        push = [x for x in tr if x[0] == 'list']
        free = [x for x in tr if x[0] == 'free' and x[1] == t]
        mine = [x for x in push if x[1].startswith(('push', 'emplace', 'insert')) and x[2] and x[2][-1] == t]
        if good:
            if len(mine) == 1 and not free and o.val == t and len(push) == 1:
                ins = mine[0]
                if ins[1] in ('push_front', 'emplace_front') or ins[1] in ('insert', 'emplace') and ins[2][0] == L.begin:
                    R.ok('new thread linked once, in front')
                elif ins[1] in ('push_back', 'emplace_back') or ins[1] in ('insert', 'emplace') and ins[2][0] == L.end:
                    R.bad('new_thread:back', ins[3], 'a thread created during a slice is put behind the running one and runs in the same resume')
                else:
                    R.undecided('new_thread', 'position')
                v = T.flag(o.st, T.o_waits, t)
                if v is not None and o.st.const(v) == 0:
                    R.ok('new thread does not wait')
                elif v is not None and o.st.const(v) is not None:
                    R.bad('new_thread:waits', f.loc(), 'a new thread starts waiting')
                else:
                    R.undecided('new_thread', 'wait count %s' % (v and show(v)))
            elif free:
                R.bad('new_thread:dangling', free[0][2], 'a prepared thread is destroyed while in use')
            elif not mine and not push:
                R.bad('new_thread:lost', f.loc(), 'a prepared thread is not added to the machine')
            elif len(mine) > 1:
                R.bad('new_thread:twice', mine[1][3], 'a new thread is linked twice')
            elif is_lin(o.val) and o.st.const(o.val) == 0:
                R.bad('new_thread:null', f.loc(), 'a prepared thread is not returned')
            else:
                R.undecided('new_thread', 'result')
        else:
            if mine and free:
                R.bad('new_thread:dangling', mine[0][3], 'a thread that could not be prepared stays in the list after it was destroyed')
            elif mine:
                R.bad('new_thread:kept', mine[0][3], 'a thread that could not be prepared is added to the machine')
            elif not free:
                R.bad('new_thread:leak', f.loc(), 'a thread that could not be prepared is never destroyed')
            elif len(free) > 1:
                R.bad('new_thread:free2', free[1][2], 'a thread that could not be prepared is destroyed twice')
            elif is_lin(o.val) and o.st.const(o.val) == 0:
                R.ok('failed preparation gives no thread')
            elif is_lin(o.val) and o.val == t:
                R.bad('new_thread:dangling', f.loc(), 'a destroyed thread is returned')
            else:
                R.undecided('new_thread', 'result')


def run(ctx, R):
    frame.guard(R, resume, ctx, R)
    frame.guard(R, quantifier, ctx, R, 'finished', 'fin', True)
    frame.guard(R, quantifier, ctx, R, 'has_error', 'err', False)
    frame.guard(R, reset, ctx, R)
    frame.guard(R, create, ctx, R)
