"""Instruction semantics of the virtual machine, derived from the interpreter's own code."""
import re
from terms import *
import eng as E
from ir import Anchor, base_name

VT = 'nano::value_type_t'


class Sem:
    """one path through one instruction"""
    __slots__ = ('op', 'kind', 'st', 'pc', 'dstack', 'pushed', 'err', 'fin', 'trace', 'opaque', 'sets', 'halt', 'writes')


class VM:
    def __init__(self, prog):
        self.P = P = prog
        self.INS = {k: v for k, v in P.enum('nano::instruction_e').items() if not k.startswith('__')}
        self.ERR = P.enum('nano::thread_error_t')
        self.VT = P.enum(VT)
        f = lambda c, n: P.field('nano::' + c, n)
        self.th = A('obj', 'T')
        self.vm = A('obj', 'VM')
        self.prog = A('obj', 'PROG')
        self.gc = A('obj', 'GC')
        self.pc0 = A('sym', 'pc0')
        self.o_pc = f('thread_t', 'pc_')
        self.o_vm = f('thread_t', 'vm_')
        self.o_gc = f('thread_t', 'gc_')
        self.o_stack = f('thread_t', 'stack_')
        self.o_vec = f('value_stack_t', 'stack_')
        self.o_st_thread = f('value_stack_t', 'thread_')
        self.o_st_gc = f('value_stack_t', 'gc_')
        self.o_err = f('thread_t', 'error_')
        self.o_fin = f('thread_t', 'finished_')
        self.o_halt = f('thread_t', 'halted_')
        self.o_f = f('thread_t', 'f_')
        self.o_bp = f('thread_t', 'breakpoints_')
        self.o_prog = f('vm_t', 'program_')
        self.o_vmgc = f('vm_t', 'gc_')
        self.o_g = f('vm_t', 'g_')
        self.o_handlers = f('vm_t', 'handlers')
        self.o_code = f('program_t', 'code_')
        self.o_v = f('value_t', 'v')
        self.o_type = f('value_t', 'type_')
        self.stackvec = add(self.th, C(self.o_stack + self.o_vec))
        self.code = A('vdata', add(self.prog, C(self.o_code)))
        self.gvec = add(self.vm, C(self.o_g))
        self.fvec = add(self.th, C(self.o_f))
        self.cache = {}

    def state(self, e):
        st = E.St()
        th = self.th
        e.store_raw(st, add(th, C(self.o_vm)), 8, self.vm)
        e.store_raw(st, add(th, C(self.o_gc)), 8, self.gc)
        e.store_raw(st, add(self.vm, C(self.o_prog)), 8, self.prog)
        e.store_raw(st, add(self.vm, C(self.o_vmgc)), 8, self.gc)
        e.store_raw(st, add(th, C(self.o_stack + self.o_st_thread)), 8, th)
        e.store_raw(st, add(th, C(self.o_stack + self.o_st_gc)), 8, self.gc)
        st.facts.eq0(A('usize', 'set', add(th, C(self.o_bp)), (0, 0)))
        return st

    def engine(self, handlers=False):
        e = E.Engine(self.P)
        e.hook(re.compile(r'nano::arena_t::alloc<'), self.h_alloc)
        e.hook('<indirect>', self.h_indirect)
        e.hook('nano::vm_t::gc_collect', self.h_noop('gc'))
        e.hook('nano::value_gc_t::trace', self.h_noop('gc'))
        e.hook('nano::value_gc_t::collect', self.h_noop('gc'))
        return e

    def h_noop(self, ev):
        def h(eng, st, fr, x, f, args):
            st.emit(ev, eng.site())
            return [(ZERO, st)]
        return h

    def h_alloc(self, eng, st, fr, x, f, args):
        n = eng.fresh(st, 'arena')
        v = A('arena', n)
        st.emit('alloc', v, args[1], eng.site())
        return [(v, st)]

    def h_indirect(self, eng, st, fr, x, fv, args):
        """host callback (user handler or syscall): may push results and raise errors"""
        a = single(fv)
        t = fr.fn.mod.resolve(x.ty)
        st.emit('host', fv, tuple(args), eng.site())
        n = eng.fresh(st, 'hostcall')
        r = ZERO if t[0] == 'void' else (A('bool', 'host', n) if t == ('i', 1) else A('call', 'host', n))
        return [(r, st)]

    def entry(self):
        for n in ('nano::thread_t::step_imp_', 'nano::thread_t::step_inst'):
            l = [f for f in self.P.find(n) if self.P.in_repo(f)]
            if l:
                return l[0]
        raise Anchor('interpreter step function')

    def run(self, opname, setup=None, obs=None, engine=None):
        e = engine or self.engine()
        if obs:
            e.obs.append(obs)
        st = self.state(e)
        e.store_raw(st, add(self.th, C(self.o_pc)), 4, self.pc0)
        e.store_raw(st, add(self.th, C(self.o_fin)), 1, ZERO)
        e.store_raw(st, add(self.th, C(self.o_err)), 4, ZERO)
        e.store_raw(st, add(self.th, C(self.o_halt)), 1, ZERO)
        e.store_raw(st, add(self.code, self.pc0), 1, C(self.INS[opname] if isinstance(opname, str) else opname))
        if setup:
            setup(e, st)
        outs = e.call_fn(self.entry(), [self.th], st)
        return e, outs

    # ------------------------------------------------------------ one instruction, operand kinds fixed
    KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')

    def case(self, opname, slots=(), nohost=True, obs=None, extra=None, nojoin=False):
        """analyse one instruction with the kinds of its topmost stack operands fixed.
        -> (engine, outs, slot terms)"""
        e = self.engine()
        e.join = not nojoin
        reads = []
        base = single(self.code)

        def o(eng, st, kind, fr, ins, kw):
            if kind == 'load':
                a = kw['addr']
                if any(t is base for t, k in a[1]):
                    d = sub(sub(a, self.code), self.pc0)
                    if not d[1]:
                        reads.append((d[0], kw['size']))
        e.obs.append(o)
        if obs:
            e.obs.append(obs)
        e.code_reads = reads
        terms = []

        def setup(eng, st):
            F = st.facts
            n = self.N0()
            F.le0(sub(C(16), n))
            F.le0(sub(n, C(1 << 20)))
            F.le0(sub(ONE, A('vsize', self.fvec, (0, 0))))
            F.le0(sub(C(64), A('vsize', add(self.prog, C(self.o_code)), (0, 0))))
            F.le0(scale(self.pc0, -1))
            F.le0(sub(self.pc0, C(1 << 30)))
            for k in range(2):
                eng.store_raw(st, add(self.code, add(self.pc0, C(1 + 4 * k))), 4, A('op', k))
            if nohost:
                for off in self.handler_fields():
                    eng.store_raw(st, add(self.vm, C(self.o_handlers + off)), 8, ZERO)
            for i, t in enumerate(slots):
                if t is None:
                    s = A('slot', i)
                    terms.append(s)
                    eng.store_raw(st, self.slot0(i), 8, s)
                    continue
                s = self.mkval(eng, st, A('slot', i), t)
                terms.append(s)
                eng.store_raw(st, self.slot0(i), 8, s)
            if extra:
                extra(eng, st)
        _, outs = self.run(opname, setup=setup, engine=e)
        return e, outs, terms

    def init(self, st, addr, size, val):
        """initial content (no aliasing effects: nothing has executed yet)"""
        st.mem[(addr[1], addr[0], 'M')] = (size, val)

    def mkval(self, eng, st, s, t):
        if t == 'none':
            return ZERO
        self.init(st, add(s, C(self.o_type)), 4, C(self.VT['val_type_' + t]))
        v = A('ld', s, 'i4', (0, 0))
        if t == 'float':
            self.init(st, add(s, C(self.o_v)), 4, A('ld', s, 'f', (0, 0)))
            return s
        self.init(st, add(s, C(self.o_v)), 4, v)
        if t == 'array':
            st.facts.le0(sub(ONE, v))
        if t in ('string', 'func', 'syscall'):
            st.facts.le0(scale(v, -1))
        if t == 'syscall':
            # only syscall numbers of the program's table are ever boxed
            st.facts.le0(sub(add(v, ONE), A('vsize', add(self.prog, C(self.P.field('nano::program_t', 'syscalls_'))), (0, 0))))
        st.facts.le0(sub(v, C((1 << 31) - 1)))
        st.facts.le0(sub(C(-(1 << 31)), v))
        return s

    def handler_fields(self):
        c = self.P.cls('nano::handlers_t')
        return [f[0] for f in c.fields.values()]

    def N0(self):
        return A('vsize', self.stackvec, (0, 0))

    def slot0(self, i):
        """term for the initial content of stack slot N0 - 1 - i"""
        return add(A('vdata', self.stackvec), scale(sub(self.N0(), C(1 + i)), 8))

    def get(self, st, addr, size, dflt=None):
        v = st.mem.get((addr[1], addr[0], 'M'))
        return v[1] if v else dflt

    def field(self, st, off, dflt=None):
        return self.get(st, add(self.th, C(off)), 4, dflt)

    def summary(self, o):
        s = Sem()
        st = o.st
        s.kind = o.kind
        s.st = st
        s.trace = st.trace
        s.pc = self.field(st, self.o_pc)
        n = st.mem.get((self.stackvec[1], self.stackvec[0], 'N'))
        s.dstack = sub(n[1], self.N0()) if n else ZERO
        s.err = self.field(st, self.o_err)
        s.fin = self.field(st, self.o_fin)
        s.halt = self.field(st, self.o_halt)
        return s
