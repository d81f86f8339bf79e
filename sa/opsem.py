"""Operators end to end: which instruction the code generator emits for an operator token, in which order the
operands are evaluated, and what the virtual machine computes for every combination of operand kinds."""
import itertools
from terms import *
import eng as E
import stdmodel
from ir import Anchor

I32 = ('i', 32)


def const_of(st, t):
    return st.const(t) if is_lin(t) else None


def node_type(P, cls):
    """the value the constructor of an AST node class stores in ast_node_t::type"""
    short = cls.split('::')[-1]
    ctors = [f for f in P.find(cls + '::' + short) if P.in_repo(f)]
    if not ctors:
        raise Anchor('constructor of ' + cls)
    off = P.field('nano::ast_node_t', 'type')
    f = ctors[0]
    e = E.Engine(P)
    st = E.St()
    o = A('obj', 'N')
    e.fr(f)
    outs = e.call_fn(f, [o] + [A('arg', i) for i in range(len(f.params) - 1)], st)
    for x in outs:
        v = x.st.mem.get((add(o, C(off))[1], add(o, C(off))[0], 'M'))
        if v:
            c = x.st.const(v[1])
            if c is not None:
                return c
    raise Anchor('node type of ' + cls)


def put(P, eng, st, node, cls, **fields):
    """initial field values of an AST node"""
    for k, v in fields.items():
        off, size = P.cls(cls).fields[k][:2] if k in P.cls(cls).fields else (P.field(cls, k), 8)
        a = add(node, C(P.field(cls, k)))
        st.mem[(a[1], a[0], 'M')] = (size, v)


def skeleton(o):
    """emission events of one path, without line-table events"""
    return [t for t in o.st.trace if t[0] != 'line']


class Ops:
    def __init__(self, ctx):
        self.P = ctx.P
        self.V = ctx.vm()
        self.G = ctx.cg()
        self.TOK = self.P.enum('nano::token_e')
        self.cache = {}

    # -------------------------------------------------- compiler side
    def binary(self, tok):
        """-> list of (order, opcode) per path; order = names of the children in evaluation order"""
        L, R_ = A('obj', 'left'), A('obj', 'right')
        cls = 'nano::ast_exp_bin_op_t'

        def setup(e, st, n):
            put(self.P, e, st, n, cls, op=C(self.TOK[tok]), left=L, right=R_, token=A('obj', 'optoken'))
            put(self.P, e, st, A('obj', 'optoken'), 'nano::token_t', type_=C(self.TOK[tok]))
        e, n, outs, f = self.G.visit(cls, setup)
        return self.emitted(outs, {single(L): 'left', single(R_): 'right'}), f

    def unary(self, tok):
        Ch = A('obj', 'child')
        cls = 'nano::ast_exp_unary_op_t'

        def setup(e, st, n):
            put(self.P, e, st, n, cls, op=A('obj', 'optoken'), child=Ch)
            put(self.P, e, st, A('obj', 'optoken'), 'nano::token_t', type_=C(self.TOK[tok]))
        e, n, outs, f = self.G.visit(cls, setup)
        return self.emitted(outs, {single(Ch): 'child'}), f

    def emitted(self, outs, names):
        res = []
        for o in outs:
            if o.kind != 'ret':
                res.append((o.kind, None, None, o))
                continue
            order, ops, odd = [], [], None
            for t in skeleton(o):
                if t[0] == 'child':
                    a = single(t[1])
                    order.append(names.get(a, '?'))
                    if ops:
                        odd = 'code before operand'
                elif t[0] == 'byte':
                    c = o.st.const(t[2]) if t[2] is not None else None
                    ops.append(c)
                else:
                    odd = t[0]
            res.append(('ret', order, ops, o if odd is None else odd))
        return res

    # -------------------------------------------------- machine side
    def vm_case(self, opcode, slots, extra=None, obs=None):
        V = self.V
        name = {v: k for k, v in V.INS.items()}.get(opcode)
        return V.case(name if name is not None else opcode, slots, nojoin=True, extra=extra, obs=obs)

    def result(self, o):
        """-> dict(err, fin, dstack, kind, payload, ptr) of the state after one instruction"""
        V = self.V
        s = V.summary(o)
        st = o.st
        r = {'err': const_of(st, s.err) if s.err is not None else None,
             'fin': const_of(st, s.fin) if s.fin is not None else None,
             'halt': const_of(st, s.halt) if s.halt is not None else None,
             'dstack': const_of(st, s.dstack), 'sum': s, 'kind': None, 'payload': None, 'ptr': None}
        if r['dstack'] is not None:
            top = add(A('vdata', V.stackvec), scale(add(V.N0(), C(r['dstack'] - 1)), 8))
            p = V.get(st, top, 8)
            r['ptr'] = p
            if p is not None:
                r.update(self.value(st, p))
        return r

    def value(self, st, p):
        V = self.V
        if const_of(st, p) == 0:
            return {'kind': 'none', 'payload': None}
        t = V.get(st, add(p, C(V.o_type)), 4)
        k = const_of(st, t) if t is not None else None
        inv = {v: n[len('val_type_'):] for n, v in V.VT.items()}
        return {'kind': inv.get(k), 'payload': V.get(st, add(p, C(V.o_v)), 4)}


def truth_agrees(eng, st, cond, got):
    """does `got` equal the 0/1 value of cond in st?  True / False / None (unknown)"""
    if is_lin(got) and got == cond:
        return True
    res = True
    for t in (True, False):
        s = st.copy()
        try:
            eng.assume(s, cond, t)
        except Infeasible:
            continue
        c = const_of(s, got)
        if c is None:
            # the result may itself be a condition
            a = sub(got, cond) if is_lin(got) else None
            if a is not None and const_of(s, a) == 0:
                continue
            res = None if res else res
        elif c != (1 if t else 0):
            return False
    return res
