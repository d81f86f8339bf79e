"""Abstract runs of the functions that drive threads: thread_t::resume, step_*, vm_t::call_*, vm_t::resume.

One instruction is abstracted by the outcomes it can have (running, halted, finished, failed); what an instruction
really does to these flags is established per instruction by the checks that use this module."""
import eng as E
from ir import Anchor
from terms import *

OUT = {'run': (0, 0, 0), 'halt': (0, 0, 1), 'end': (1, 0, 0), 'endhalt': (1, 0, 1), 'fail': (1, 1, 0), 'failhalt': (1, 1, 1)}
ERRV = A('sym', 'errcode')


class Thr:
    def __init__(self, ctx):
        self.P, self.V = ctx.P, ctx.vm()
        self.o_cyc = self.P.field('nano::thread_t', 'cycles_')
        self.o_last = self.P.field('nano::thread_t', 'last_line_')
        self.o_waits = self.P.field('nano::thread_t', 'waits')

    def fn(self, name, nargs=None):
        l = [f for f in self.P.find(name) if self.P.in_repo(f) and (nargs is None or len(f.params) == nargs)]
        if not l:
            raise Anchor(name)
        return l[0]

    def flag(self, st, off, th=None):
        a = add(th if th is not None else self.V.th, C(off))
        v = st.mem.get((a[1], a[0], 'M'))
        return v[1] if v else None

    def set(self, eng, st, th, fin, err, halt=None):
        V = self.V
        eng.store_raw(st, add(th, C(V.o_fin)), 1, C(fin))
        eng.store_raw(st, add(th, C(V.o_err)), 4, ERRV if err else ZERO)
        if halt is not None:
            eng.store_raw(st, add(th, C(V.o_halt)), 1, C(halt))

    def drive(self, name, args, entry=(0, 0), tune=None, obs=None):
        """run a method of thread_t with step_imp_ abstracted -> engine, outs, function, steps [(state, site)]"""
        V = self.V
        e = V.engine()
        e.join = False
        e.loopinfo = {}
        st = V.state(e)
        steps = []
        st.facts.le0(sub(ONE, ERRV))
        st.facts.le0(sub(ERRV, C(100)))

        def step(eng, s, fr, x, f, a):
            steps.append((s.copy(), eng.site()))
            n = eng.fresh(s, 'step')
            s.emit('step', a[0], n, eng.site())
            res = []
            for k, (fin, err, halt) in OUT.items():
                t = s.copy()
                self.set(eng, t, V.th, fin, err, halt if halt else None)
                eng.store_raw(t, add(V.th, C(V.o_pc)), 4, A('pcn', n, eng.fresh(t, 'pc')))
                t.facts.le0(sub(ONE, A('vsize', V.fvec, (0, 0))))
                t.emit('res', k)
                res.append((ZERO, t))
            return res
        e.hook('nano::thread_t::step_imp_', step)
        self.set(e, st, V.th, entry[0], entry[1])
        e.store_raw(st, add(V.th, C(V.o_pc)), 4, V.pc0)
        e.store_raw(st, add(V.th, C(V.o_halt)), 1, A('sym', 'halt0'))
        st.facts.le0(sub(ONE, A('vsize', V.fvec, (0, 0))))
        if obs:
            e.obs.append(obs)
        if tune:
            tune(e, st)
        f = self.fn(name)
        outs = e.call_fn(f, [V.th] + args, st)
        return e, outs, f, steps

    def values(self, e, st, t, depth=0):
        """constants a flag can hold in st: set of ints, or None when not known"""
        if not is_lin(t):
            return None
        c = st.const(t)
        if c is not None:
            return {c}
        a = single(t)
        if a is not None and a.kind == 'lv' and depth < 4:
            for hv, (init, backs, K, var) in e.loopinfo.items():
                if is_lin(hv) and single(hv) is a:
                    res = set()
                    for v, s in [(init, st)] + list(backs):
                        w = {0} if single(v) is a else self.values(e, s, v, depth + 1)
                        if single(v) is a:
                            continue
                        if w is None:
                            return None
                        res |= w
                    return res
        return None


def count(trace, what):
    """number of `what` events as a linear term, or None when alternatives differ"""
    n = ZERO
    for t in trace:
        if t[0] == what:
            n = add(n, ONE)
        elif t[0] == 'loop':
            K = t[4] if len(t) > 4 else t[1]
            if K == ZERO:
                continue
            cs = {count(alt, what) for alt in t[2]} if t[2] else {ZERO}
            if len(cs) != 1:
                if all(c == ZERO for c in cs):
                    continue
                return None
            c = cs.pop()
            if c is None:
                return None
            if c == ZERO:
                continue
            if c[1]:
                return None
            n = add(n, scale(K, c[0]))
    return n


def flat(trace):
    for t in trace:
        if t[0] == 'loop':
            for alt in t[2]:
                for x in flat(alt):
                    yield x
        else:
            yield t
