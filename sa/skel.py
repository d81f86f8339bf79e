"""Bytecode skeletons: decoded emission of one AST node kind, and its abstract execution.

decode() turns the emission trace of a code generator path into items
   Ins(op, operands, pos, line)   Child(name, pos)   Each(vector name, pos)
with linear position terms; run() walks the items as the virtual machine would (instruction effects come from the
analysis of the interpreter, see Info) and yields the automaton of observable events.
"""
from terms import *
import opsem
from ir import Anchor


class Bad(Exception):
    """the emitted code is malformed: (message, site)"""


class Unknown(Exception):
    pass


class Ins:
    __slots__ = ('op', 'args', 'raw', 'psite', 'pos', 'line', 'site', 'end')

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(show(a) for a in self.args))


class Child:
    __slots__ = ('name', 'pos', 'site', 'end')

    def __repr__(self):
        return '<%s>' % self.name


class Each(Child):
    __slots__ = ()

    def __repr__(self):
        return '<each %s>' % self.name


class Info:
    """per opcode: encoded length, stack effect, control behaviour -- from the interpreter's code"""

    def __init__(self, ctx):
        self.V = ctx.vm()
        self.memo = {}
        self.byno = {v: k for k, v in self.V.INS.items()}
        import checks.c06 as c06
        self.seed = c06.seed(self.V, ctx.P)
        self.c06 = c06

    def get(self, no):
        if no not in self.memo:
            self.memo[no] = self.mk(no)
        return self.memo[no]

    def mk(self, no):
        V = self.V
        name = self.byno.get(no)
        if name is None:
            raise Bad('opcode %s is not an instruction' % no, '')

        def extra(e, st):
            self.seed(e, st)
            if name in ('INS_ARY_INIT', 'INS_NEW_ARY'):
                st.facts.le0(sub(ONE, A('op', 0)))
            self.c06.find_total(e, V)
        res = {'name': name, 'pcs': set(), 'd': set(), 'ops': 0, 'err': set()}
        best = None
        for kinds in (('int', 'int', 'int'), ('array', 'int', 'int'), ('func', 'int', 'int'), ('string', 'int', 'int'), ('none', 'int', 'int')):
            e, outs, ts = V.case(name, kinds, nojoin=True, extra=extra)
            for off, size in e.code_reads:
                if off > 0:
                    res['ops'] = max(res['ops'], (off - 1 + size))
            for o in outs:
                if o.kind != 'ret':
                    continue
                r = V.summary(o)
                err = opsem.const_of(o.st, r.err) if r.err is not None else None
                if err:
                    res['err'].add(err)
                    continue
                res['pcs'].add(self.pc(r.pc))
                res['d'].add(r.dstack)
        res['len'] = 1 + res['ops']
        nxt = ('next', res['len'])
        res['fall'] = nxt in res['pcs']
        return res

    def pc(self, p):
        if not is_lin(p):
            return ('?',)
        d = sub(p, self.V.pc0)
        if not d[1]:
            return ('next', d[0])
        a = single(p)
        if a is not None and a.kind == 'op':
            return ('op', a.args[0])
        return ('other', show(p))


def vec_of(t):
    """(vector address, index term) of an element address load"""
    a = single(t)
    if a is None or a.kind != 'ld':
        return None
    addr = a.args[0]
    for x, k in addr[1]:
        if x.kind == 'vdata' and k == 1:
            rest = sub(addr, (0, ((x, 1),)))
            return x.args[0], rest
    return None


def decode(info, st, trace, names, vecs):
    """names: {atom: child name}; vecs: {vector address term: name}.  -> (items, line events)"""
    items = []
    i = 0
    tr = [t for t in trace if t[0] != 'child0']
    line = None
    pend = None

    def cbytes(bs, site=None):
        """4 byte terms -> operand term"""
        cs = [st.const(b) if is_lin(b) else None for b in bs]
        if all(c is not None for c in cs):
            v = sum((c & 255) << (8 * k) for k, c in enumerate(cs))
            return C(v - (1 << 32) if v >> 31 else v)
        if not all(is_lin(b) for b in bs):
            raise Unknown('operand bytes')
        a = single(bs[0])
        if a is None:
            raise Unknown('operand bytes %s' % [show(b) for b in bs])
        v = a.args[1] if a.kind == 'byte' and a.args[0] == ZERO else bs[0]
        import insem
        for k, b in enumerate(bs):
            a = single(b)
            if a is not None and a.kind == 'byte' and a.args[0] in (k, C(k)) and a.args[1] == v:
                continue
            w = A('byte', C(k), v)
            if b == w or (k == 0 and b == v):
                continue
            if insem.differs(st, sub(b, w)):
                raise Bad('byte %d of the operand %s is written as %s' % (k, show(v)[:40], show(b)[:60]), site)
            raise Unknown('operand bytes %s' % [show(b) for b in bs])
        return v
    lines = []
    if any(t[0] == 'oddcode' or (t[0] == 'loop' and any(e[0] in ('oddcode', 'byte', 'patch') for b in t[2] for e in b)) for t in tr):
        raise Unknown('code is written in bulk')
    while i < len(tr):
        t = tr[i]
        k = t[0]
        if k == 'line':
            line = t[1]
            lines.append((t[1], t[2], t[3]))
            i += 1
        elif k == 'byte':
            no = st.const(t[2]) if t[2] is not None and is_lin(t[2]) else None
            if no is None:
                raise Unknown('opcode byte %s' % (show(t[2]) if t[2] is not None and is_lin(t[2]) else t[2]))
            inf = info.get(no)
            x = Ins()
            x.op, x.pos, x.site, x.line = inf['name'], t[1], t[3], line
            n = inf['ops']
            bs = []
            for q in range(n):
                if i + 1 + q >= len(tr) or tr[i + 1 + q][0] != 'byte':
                    raise Bad('%s is emitted with %d operand bytes, the interpreter reads %d' % (x.op, q, n), t[3])
                u = tr[i + 1 + q]
                if u[1] != add(t[1], C(1 + q)):
                    raise Unknown('operand position')
                bs.append(u[2])
            x.args = [cbytes(bs[4 * w:4 * w + 4], t[3]) for w in range(n // 4)]
            x.raw = [{} for w in range(n // 4)]
            x.end = add(t[1], C(1 + n))
            items.append(x)
            line = None
            i += 1 + n
        elif k == 'child':
            x = Child()
            a = single(t[1])
            x.name = names.get(a)
            if x.name is None:
                ve = vec_of(t[1])
                raise Unknown('child %s' % show(t[1])[:80])
            x.pos, x.site = t[2], t[-1]
            x.end = add(t[2], t[3])
            items.append(x)
            i += 1
        elif k == 'loop':
            bodies = [[e for e in b if e[0] not in ('child0', 'br')] for b in t[2]]
            bodies = [b for b in bodies if b]
            if not bodies:
                i += 1
                continue
            if len(bodies) != 1 or len(bodies[0]) != 1 or bodies[0][0][0] != 'child':
                raise Unknown('emission loop')
            ve = vec_of(bodies[0][0][1])
            if ve is None or ve[0] not in vecs:
                raise Unknown('loop over %s' % show(bodies[0][0][1])[:80])
            idx = ve[1]
            x = Each()
            x.name = vecs[ve[0]]
            x.site = t[3]
            x.pos = bodies[0][0][2]
            x.end = None
            if idx[0] != 0 or len(idx[1]) != 1 or idx[1][0][0] is not single(t[1]) or idx[1][0][1] != 8:
                raise Bad('%s are not visited in order' % x.name, t[3])
            trip = t[4] if len(t) > 4 else None
            if trip is None or trip != A('vsize', ve[0], (0, 0)):
                if trip is not None and is_lin(trip) and single(trip) is None:
                    raise Bad('not all of %s are visited' % x.name, t[3])
                raise Unknown('trip count of the loop over %s' % x.name)
            items.append(x)
            i += 1
        elif k == 'patch':
            done = False
            for x in items:
                if isinstance(x, Ins):
                    for w in range(len(x.args)):
                        o = sub(t[1], x.pos)
                        if o[1] or not 1 + 4 * w <= o[0] < 5 + 4 * w:
                            continue
                        o = o[0] - 1 - 4 * w
                        done = True
                        if (o, t[2]) == (0, 4):
                            x.args[w] = t[3]
                            x.raw[w] = {}
                        elif t[2] == 1:
                            x.raw[w][o] = t[3]
                        elif o + t[2] <= 4:
                            for q in range(t[2]):
                                x.raw[w][o + q] = None
                        else:
                            raise Bad('a jump fix-up overwrites the code after an operand', t[4])
                        x.psite = t[4]
            if not done:
                raise Bad('a jump fix-up writes to %s, which is not an instruction operand' % show(sub(t[1], items[0].pos) if items else t[1])[:80], t[4])
            i += 1
        elif k in ('addstr', 'call', 'store'):
            i += 1
        else:
            raise Unknown('emission event %s' % k)
    for x in items:
        for w, raw in enumerate(getattr(x, 'raw', ())):
            if not raw:
                continue
            if len(raw) < 4:
                raise Bad('a fix-up of %s writes only %d of the 4 operand bytes' % (x.op, len(raw)), x.psite)
            if any(v is None for v in raw.values()):
                raise Unknown('partial patch')
            x.args[w] = cbytes([raw[q] for q in range(4)], x.psite)
    return items, lines


# ------------------------------------------------------------------ AST node kinds and their emission
SCOPES = ('e_local', 'e_global', 'e_arg')


class Gen:
    """code generator skeletons for every node kind"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.G = ctx.cg()
        self.info = Info(ctx)
        self.TOK = self.P.enum('nano::token_e')
        try:
            self.SC = self.P.enum('nano::ast_decl_var_t::scope_t')
        except Exception:
            raise Anchor('ast_decl_var_t::scope_t')
        self.ntype = {}

    def nt(self, cls):
        if cls not in self.ntype:
            self.ntype[cls] = opsem.node_type(self.P, 'nano::' + cls)
        return self.ntype[cls]

    def node(self, e, st, name, cls, **f):
        o = A('obj', name)
        opsem.put(self.P, e, st, o, 'nano::ast_node_t', type=C(self.nt(cls)))
        opsem.put(self.P, e, st, o, 'nano::' + cls, **f)
        return o

    def var(self, e, st, name, scope, const=0):
        return self.node(e, st, name, 'ast_decl_var_t', scope=C(self.SC[scope]), is_const=C(const),
                         offset=A('offset', name), expr=ZERO)

    def func(self, e, st, name, syscall=0, varargs=0):
        return self.node(e, st, name, 'ast_decl_func_t', is_syscall=C(syscall), is_varargs=C(varargs),
                         stack_size=A('stack_size', name))

    def fvec(self, cls, field, obj):
        return add(A('obj', obj), C(self.P.field('nano::' + cls, field)))

    def run(self, cls, setup, kids, vecs=(), this=None):
        """setup(e, st, node) -> None; kids: names of child objects; vecs: {field: name} of vector fields"""
        names = {single(A('obj', k)): k for k in kids}
        vs = {}
        nm = cls
        for f in vecs:
            vs[add(A('obj', nm), C(self.P.field('nano::' + cls, f)))] = f

        def su(e, st, n):
            # the enclosing function is at the bottom of the visitor stack
            so = self.P.field('nano::ast_visitor_t', 'stack')
            vec = add(self.G.this, C(so))
            st.facts.le0(sub(ONE, A('vsize', vec, (0, 0))))
            fn = self.func(e, st, 'FUNC')
            e.store_raw(st, A('vdata', vec), 8, fn)
            self.node(e, st, nm, cls)
            for k in kids:
                pass
            if setup:
                setup(e, st, n)
        e, n, outs, f = self.G.visit('nano::' + cls, su)
        res = []
        for o in outs:
            res.append((o, names, vs))
        return e, res, f

    def decoded(self, cls, setup, kids, vecs=()):
        """-> engine, [(outcome, items | None, lines, problem)], function"""
        e, outs, f = self.run(cls, setup, kids, vecs)
        res = []
        for o, names, vs in outs:
            if o.kind != 'ret':
                res.append((o, None, None, None))
                continue
            try:
                items, lines = decode(self.info, o.st, o.st.trace, names, vs)
                res.append((o, items, lines, None))
            except (Bad, Unknown) as x:
                res.append((o, None, None, x))
        return e, res, f


# ------------------------------------------------------------------ abstract execution of a skeleton
class Machine:
    """walks decoded items; stack cells are value terms:
       ('val', child) ('each', vec) ('int', n) ('none',) ('var', scope, offset) ('op', name, args...) ..."""

    def __init__(self, info, items, roles, st):
        self.info = info
        self.items = items
        self.roles = roles          # child name -> 'E' (pushes one value) | 'S' (no effect)
        self.st = st
        self.at = {}
        for i, x in enumerate(items):
            self.at.setdefault(x.pos, i)
        self.endpos = items[-1].end if items else None
        if self.endpos is not None:
            self.at.setdefault(self.endpos, len(items))

    def target(self, t, ins):
        i = self.at.get(t)
        if i is None:
            d = sub(t, ins.pos)
            raise Bad('%s jumps to %s which is not the start of an instruction of this statement' % (ins.op, 'code offset %s' % show(t)[:100]), ins.site)
        return i

    def step(self, i, stack):
        """-> list of (event | None, next index | 'ret', stack)"""
        x = self.items[i]
        st = self.st
        if isinstance(x, Each):
            if self.roles.get(x.name) == 'E':
                return [(('evaleach', x.name), i + 1, stack + (('each', x.name),))]
            return [(('evaleach', x.name), i + 1, stack)]
        if isinstance(x, Child):
            if self.roles.get(x.name) == 'E':
                return [(('eval', x.name), i + 1, stack + (('val', x.name),))]
            return [(('eval', x.name), i + 1, stack)]
        n = x.op
        inf = self.info.get(self.info.V.INS[n])
        a = x.args

        def pop(k):
            nonlocal stack
            if k > len(stack):
                raise Bad('%s consumes %d values, only %d were pushed by this construct' % (n, k, len(stack)), x.site)
            r = stack[len(stack) - k:]
            stack = stack[:len(stack) - k]
            return r
        if n in ('INS_NEW_INT', 'INS_NEW_STR', 'INS_NEW_FLT', 'INS_NEW_FUNC', 'INS_NEW_SCALL', 'INS_NEW_NONE', 'INS_NEW_ARY'):
            return [(None, i + 1, stack + ((n,) + tuple(a),))]
        if n in ('INS_GETV', 'INS_GETG'):
            return [(None, i + 1, stack + ((n, a[0]),))]
        if n in ('INS_SETV', 'INS_SETG'):
            v = pop(1)
            return [(('set', n, a[0], v[0]), i + 1, stack)]
        if n == 'INS_JMP':
            return [(None, self.target(a[0], x), stack)]
        if n in ('INS_TJMP', 'INS_FJMP'):
            v = pop(1)[0]
            t = self.target(a[0], x)
            on = n == 'INS_TJMP'
            return [(('branch', v, on), t, stack), (('branch', v, not on), i + 1, stack)]
        if n == 'INS_RET':
            v = pop(1)[0]
            return [(('ret', v, a[0]), 'ret', stack)]
        if n == 'INS_POP':
            c = st.const(a[0])
            if c is None or c < 0:
                raise Unknown('pop count')
            v = pop(c)
            return [(('drop', v), i + 1, stack)]
        if n in ('INS_LOCALS', 'INS_GLOBALS'):
            return [((n, a[0]), i + 1, stack)]
        if n in ('INS_CALL', 'INS_SCALL', 'INS_ICALL'):
            callee = ()
            if n == 'INS_ICALL':
                callee = pop(1)
            # the arguments: a[0] of them
            c = st.const(a[0])
            if c is not None:
                args = pop(c)
            else:
                if stack and stack[-1][0] == 'each' and self.veclen(stack[-1][1]) == a[0]:
                    args = pop(1)
                else:
                    raise Bad('%s passes %s arguments, but %d values were pushed' % (n, show(a[0])[:60], len(stack)), x.site)
            return [((n,) + tuple(a) + (callee, args), i + 1, stack + ((n, args),))]
        if n == 'INS_ARY_INIT':
            c = st.const(a[0])
            if c is None:
                if stack and stack[-1][0] == 'each' and self.veclen(stack[-1][1]) == a[0]:
                    args = pop(1)
                else:
                    raise Bad('array initialiser of %s elements, but %d values were pushed' % (show(a[0])[:60], len(stack)), x.site)
            else:
                args = pop(c)
            return [(None, i + 1, stack + ((n, args),))]
        if n == 'INS_SETA':
            v = pop(3)
            return [(('seta',) + v, i + 1, stack)]
        if n == 'INS_DEREF':
            v = pop(2)
            return [(None, i + 1, stack + (('deref',) + v,))]
        if n == 'INS_GETM':
            v = pop(1)
            return [(None, i + 1, stack + (('getm', a[0]) + v,))]
        if n == 'INS_SETM':
            v = pop(2)
            return [(('setm', a[0]) + v, i + 1, stack)]
        # plain operators: constant stack effect known from the interpreter
        ds = {st.const(d) for d in inf['d']}
        if len(ds) == 1 and list(ds)[0] is not None:
            d = list(ds)[0]
            k = 1 - d
            if k < 0:
                raise Unknown('operator %s' % n)
            v = pop(k)
            return [(None, i + 1, stack + (('op', n) + v,))]
        raise Unknown('stack effect of %s' % n)

    def veclen(self, name):
        return self.lens.get(name)

    lens = {}

    def graph(self):
        """reachable configurations: {(i, stack): [(event, (j, stack'))]}; final configurations have i == len(items)"""
        start = (0, ())
        g = {}
        todo = [start]
        n = len(self.items)
        while todo:
            c = todo.pop()
            if c in g or c[0] == 'ret' or c[0] == n:
                g.setdefault(c, [])
                continue
            g[c] = []
            for ev, j, stk in self.step(*c):
                g[c].append((ev, (j, stk)))
                todo.append((j, stk))
            if len(g) > 400:
                raise Unknown('configurations')
        return g
