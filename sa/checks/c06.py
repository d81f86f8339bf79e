"""C06: no script operation on any kinds of values can crash the host process."""
import itertools
from terms import *
import opsem, bltin, stdmodel
import frame

EXPLAIN = (
    'Every opcode of the interpreter is analysed once per combination of the kinds (none, int, string, array, float, '
    'func, syscall) of the stack operands it can touch, and every builtin once per combination of argument kinds and '
    'for right and wrong argument counts.  On the LLVM IR of the handler (all callees inlined, path facts kept, no '
    'join) no path may reach a failing assertion, abort, a null dereference or a read of string/array contents of a '
    'value of another kind; every path that raises no error must leave the operand stack one value per result.')

KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')


def seed(V, P):
    """facts the code generator guarantees about instruction operands (checked by C01/C02/C21)"""
    f = lambda c, n: P.field('nano::' + c, n)
    sv = add(V.prog, C(f('program_t', 'strings_')))
    yv = add(V.prog, C(f('program_t', 'syscalls_')))

    def extra(e, st):
        F = st.facts
        for k in range(2):
            op = A('op', k)
            F.le0(scale(op, -1))
            F.le0(sub(op, C((1 << 31) - 1)))
            F.le0(sub(add(op, C(8)), V.N0()))
            F.le0(sub(add(op, ONE), A('vsize', sv, (0, 0))))
            F.le0(sub(add(op, ONE), A('vsize', yv, (0, 0))))
    return extra


class NullWatch:
    def __init__(self):
        self.hits = {}

    def __call__(self, eng, st, kind, fr, ins, kw):
        if kind in ('load', 'store'):
            a = kw['addr']
            if is_lin(a) and not a[1] and 0 <= a[0] < 4096:
                self.hits.setdefault(eng.site(), kind)


def outcome(R, key, what, O, outs, watch, site):
    for o in outs:
        if o.kind == 'ret':
            r = O.result(o)
            if r['err'] is not None and r['err'] != 0 and r['fin'] == 0:
                R.bad(key + ':goeson', site, '%s: the thread keeps running after error %d' % (what, r['err']))
            else:
                R.ok('path neither aborts nor continues after an error')
            continue
        if o.kind == 'exc':
            R.undecided(key, 'exception path')
            continue
        ev = [t for t in o.st.trace if t[0] in ('assert_fail', 'terminate', 'abort', 'trap')]
        R.bad(key + ':abort', ev[-1][-1] if ev else site,
              '%s: reaches %s' % (what, 'failing assertion "%s"' % ev[-1][1] if ev and ev[-1][0] == 'assert_fail' else o.kind))
    for s, k in watch.hits.items():
        R.bad(key + ':null', s, '%s: %s through a null value' % (what, k))
    if not watch.hits:
        R.ok('no null dereference')


def arity(V, opname, P):
    """how many operand-stack cells the instruction can inspect"""
    return 3 if opname in ('INS_SETA',) else 2


def cases(ctx):
    """all instruction / operand kind and builtin / argument kind combinations"""
    P, V = ctx.P, ctx.vm()
    jobs = []
    for op in V.INS:
        n = arity(V, op, P)
        for ks in itertools.product(KINDS, repeat=n):
            jobs.append(('op', op, ks))
    reg, res, f1, f2 = bltin.functions(P)
    for n in sorted(set(reg) | set(res)):
        if n not in res:
            continue
        a = reg.get(n, 1)
        m = 2 if a < 0 else a
        for ks in itertools.product(KINDS, repeat=m):
            jobs.append(('bi', n, ks, m))
        if a >= 0:
            for wrong in (m - 1, m + 1):
                for k in KINDS:
                    jobs.append(('bi', n, (k,) * max(wrong, 0), wrong))
        else:
            jobs.append(('bi', n, (), 0))
            for k in KINDS:
                jobs.append(('bi', n, (k,), 1))
    return jobs, res


def run_case(ctx, j, res, obs, more=None):
    """-> engine, outcomes, key, description, site"""
    P, V = ctx.P, ctx.vm()
    if j[0] == 'op':
        _, op, ks = j
        ex0 = seed(V, P)

        def extra(e, st):
            ex0(e, st)
            if op in ('INS_ARY_INIT', 'INS_NEW_ARY'):
                st.facts.le0(sub(ONE, A('op', 0)))
            # a call target read from a function value is a function of this program
            find_total(e, V)
            if more:
                more(e, st)
        e, outs, ts = V.case(op, ks, nojoin=True, obs=obs, extra=extra)
        key = '%s %s' % (op, ' '.join(ks))
        what = '%s on (top first) %s' % (op, ', '.join(ks))
        site = V.entry().loc()
    else:
        _, n, ks, na = j

        def extra(e, st):
            hook_new_thread(e, V)
            if more:
                more(e, st)
        e, outs, ts = bltin.case(V, res[n], na, ks, obs=obs, extra=extra)
        key = 'builtin %s/%d %s' % (n, na, ' '.join(ks))
        what = 'builtin %s called with (%s)' % (n, ', '.join(ks))
        site = res[n].loc()
    return e, outs, key, what, site


def run(ctx, R):
    P = ctx.P
    O = opsem.Ops(ctx)
    jobs, res = cases(ctx)
    R.floor('instruction/kind and builtin/kind combinations', len(jobs), 1200)

    def work(j, r):
        w = NullWatch()
        e, outs, key, what, site = run_case(ctx, j, res, w)
        for f in e.fns_seen:
            if P.in_repo(f):
                r.fn(f)
        outcome(r, key, what, O, outs, w, site)
        r.sample({'case': key, 'paths': len(outs)})
    frame.pmap(work, jobs, R)


def find_total(e, V):
    """program_t::function_find on the address of a function value finds that function (C17/C03 establish that such
    addresses are function entry points)"""
    import re

    def h(eng, st, fr, x, f, args):
        if len(args) == 2 and f is not None and 'string' not in f.dem:
            st.emit('find', args[1], eng.site())
            return [(A('obj', 'FUNC'), st)]
        return None
    e.hook('nano::program_t::function_find', h)


def hook_new_thread(e, V):
    def h(eng, st, fr, x, f, args):
        st.emit('new_thread', tuple(args[1:]), eng.site())
        return [(A('call', 'new_thread', eng.fresh(st, 'nt')), st)]
    e.hook('nano::vm_t::new_thread', h)
