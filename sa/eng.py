"""Abstract interpreter over LLVM IR.

Domain: value numbering terms (terms.py) + range facts per linear form, a store keyed by address term, a
trace of client-selected events (with loop nodes).  States at a join are merged when only the facts differ;
loops are solved by generalisation (induction variables become init + step*K, everything else becomes an
unknown) - no unrolling, no solver, no execution.
"""
import re
from terms import *
import terms as T
from ir import base_name, Anchor, unescape, PTR


class Explosion(Exception):
    """analysis gave up on this entry (too many abstract states): obligations undecided"""


class St:
    __slots__ = ('mem', 'facts', 'trace', 'ver', 'epoch', 'exn', 'cnt', 'vt', 'user')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.trace = ()
        self.ver = {}
        self.epoch = 0
        self.exn = None
        self.cnt = {}
        self.vt = {}
        self.user = ()

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.trace = self.trace
        s.ver = dict(self.ver)
        s.epoch = self.epoch
        s.exn = self.exn
        s.cnt = dict(self.cnt)
        s.vt = dict(self.vt)
        s.user = self.user
        return s

    def emit(self, *ev):
        self.trace = self.trace + (ev,)

    # ---- client tags
    def const(self, t):
        return self.facts.const(t)


PTRKINDS = {'al', 'glob', 'new', 'vdata', 'obj', 'arg', 'ld', 'call', 'sym', 'lv', 'sdata', 'arena', 'fnp', 'exn', 'slot'}


def nextver(v):
    return v + 1 if type(v) is int else ('+', v)


def roots(atoms):
    r = [a for a, k in atoms if k == 1 and a.kind in PTRKINDS]
    if len(r) > 1:
        r2 = [a for a in r if a.kind in ('al', 'glob', 'new', 'vdata', 'obj', 'sdata', 'arena')]
        if r2:
            r = r2
        else:
            r2 = [a for a in r if a.kind != 'ld' or a.args[1] == 'p']
            if r2:
                r = r2
    return r


class Out:
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind = kind; self.val = val; self.st = st

    def __repr__(self):
        return 'Out(%s,%s)' % (self.kind, show(self.val) if self.val is not None else None)


class Fr:
    """static per-function info"""

    def __init__(self, fn):
        fn.parse()
        self.fn = fn
        self.blocks = fn.blocks
        self.rpo()
        self.loops()
        self.liveness()

    def rpo(self):
        seen = set()
        order = []
        stack = [(self.fn.entry.name, 0)]
        seen.add(self.fn.entry.name)
        while stack:
            b, i = stack.pop()
            ss = self.blocks[b].succs
            if i < len(ss):
                stack.append((b, i + 1))
                if ss[i] not in seen:
                    seen.add(ss[i])
                    stack.append((ss[i], 0))
            else:
                order.append(b)
        order.reverse()
        self.num = {b: i for i, b in enumerate(order)}
        self.order = order
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        num = self.num
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in self.blocks[b].preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.order[0]:
                return False
            b = self.idom[b]

    def loops(self):
        self.loop = {}
        for b in self.order:
            for s in self.blocks[b].succs:
                if s in self.num and self.num[s] <= self.num[b] and self.dom(s, b):
                    body = self.loop.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(p for p in self.blocks[x].preds if p in self.num)

    def liveness(self):
        use = {}
        dfn = {}
        phiuse = {}   # (pred) -> set
        for b in self.order:
            u = set()
            d = set()
            for i in self.blocks[b].ins:
                if i.op == 'phi':
                    for v, p in i.a:
                        if v[0] == 'l':
                            phiuse.setdefault(p, set()).add(v[1])
                else:
                    for v in operands(i):
                        if v[0] == 'l' and v[1] not in d:
                            u.add(v[1])
                if i.res is not None:
                    d.add(i.res)
            use[b] = u
            dfn[b] = d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set(phiuse.get(b, ()))
                for s in self.blocks[b].succs:
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.phis = {b: [i for i in self.blocks[b].ins if i.op == 'phi'] for b in self.order}


def _ops(v, out):
    if v[0] in ('l',):
        out.append(v)
    elif v[0] == 'agg':
        for t, x in v[1]:
            _ops(x, out)


def operands(i):
    out = []
    op = i.op
    a = i.a
    if op in ('call', 'invoke'):
        _ops(a[0], out)
        for t, v in a[1]:
            _ops(v, out)
    elif op == 'getelementptr':
        _ops(a[0], out)
        for t, v in a[1]:
            _ops(v, out)
    elif op in ('icmp', 'fcmp'):
        _ops(a[1], out); _ops(a[2], out)
    elif op in T_CAST:
        _ops(a[1], out)
    elif op in ('br', 'switch', 'ret'):
        if a[0] is not None:
            _ops(a[0], out)
    elif op == 'extractvalue':
        _ops(a[0], out)
    elif op == 'insertvalue':
        _ops(a[0], out); _ops(a[1], out)
    elif op in ('landingpad', 'unreachable') or op.startswith('other'):
        pass
    elif op == 'phi':
        for v, b in a:
            _ops(v, out)
    else:
        for v in a:
            _ops(v, out)
    return out


from ir import CAST as T_CAST, BIN as T_BIN

FLIP = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
        'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Engine:
    MAX_STATES = 600
    JOIN = 64          # with join off, states are still joined beyond this many
    MAX_DEPTH = 40
    MAX_STEPS = 3000000

    def __init__(self, prog):
        self.prog = prog
        self.frs = {}
        self.hooks = []          # list of (matcher, fn)
        self.hook_cache = {}
        self.obs = []
        self.maxrec = 1            # instruction observers: f(eng, st, kind, info)
        self.fns_seen = set()
        self.steps = 0
        self.ncalls = 0
        self.nloops = 0
        self.opaque = {}
        self.stack = []          # function names on the abstract call stack
        self.sites = []          # call-site locations
        self.fmod = None
        self.inline_std = None
        self._classify = {}
        self.tids = {}
        self.loopno = {}
        self.assume_noabort = False
        self.join = True
        self.loopbacks = None  # {(K, trace of one iteration): state at the end of that iteration}
        self.loopinfo = None   # {value at loop head: (initial value, [(value after one iteration, state)], K, variable)}
        self.accum = set()     # boolean loop variables that are only ever switched on
        self.last = False      # track 'value of the last iteration' of boolean loop variables
        self.deadline = None
        self.once = None         # (eng, fr, header, init, state) -> state to start one single iteration from, or None
        self.finite = {}         # container object -> number of elements it holds
        self.unroll = 0          # loops that certainly end within this many iterations are followed iteration by iteration
        self.keep_loops = False  # leave a node in the trace for loops without events, too
        self.vcall = None        # hook for unresolved virtual calls

    # ------------------------------------------------------------- hooks
    def hook(self, name, fn):
        """name: exact demangled base name, or compiled regex on the base name"""
        self.hooks.append((name, fn))
        self.hook_cache.clear()

    def find_hook(self, dem):
        r = self.hook_cache.get(dem, 0)
        if r == 0:
            r = None
            bn = base_name(dem)
            for n, f in reversed(self.hooks):
                if isinstance(n, str):
                    if n == bn or n == dem:
                        r = f
                        break
                elif n.search(bn):
                    r = f
                    break
            self.hook_cache[dem] = r
        return r

    def fr(self, fn):
        r = self.frs.get(id(fn))
        if r is None:
            r = self.frs[id(fn)] = Fr(fn)
        return r

    def where(self):
        return self.cur_loc

    # ------------------------------------------------------------- memory
    def mkey(self, addr):
        return addr[1], addr[0]

    def load_raw(self, st, addr, size, kind):
        """kind: 'p' pointer, 'i' int, 'f' float, 'N' vector size, 'S' string content"""
        at, c = addr[1], addr[0]
        v = st.mem.get((at, c, 'M' if kind in 'pif' else kind))
        if v is not None:
            if v[0] == size:
                if v[1] == UNDEF:
                    return A('undef', addr)
                return v[1]
            if type(v[1]) is tuple and is_lin(v[1]) and not v[1][1] and size < v[0]:
                return C(v[1][0] & ((1 << (8 * size)) - 1))
            if kind == 'i' and size == 1 and v[0] in (2, 4, 8) and is_lin(v[1]) and self.intval(v[1]):
                return self.byte(st, v[1])
        if v is None and kind == 'i' and size == 1:
            for d in range(1, 8):
                w = st.mem.get((at, c - d, 'M'))
                if w is not None and w[0] > d:
                    if w[0] in (2, 4, 8) and is_lin(w[1]) and self.intval(w[1]):
                        if not w[1][1]:
                            return C((w[1][0] >> (8 * d)) & 255)
                        return A('byte', C(d), w[1])
                    break
        if kind == 'i' and size == 4 and (v is None or v[0] == 1):
            ws = [st.mem.get((at, c + d, 'M')) for d in range(4)]
            if all(w is not None and w[0] == 1 and is_lin(w[1]) for w in ws):
                if all(not w[1][1] for w in ws):
                    n = sum((w[1][0] & 255) << (8 * d) for d, w in enumerate(ws))
                    return C(n - (1 << 32) if n >> 31 else n)
                bs = [single(w[1]) for w in ws]
                if all(b is not None and b.kind == 'byte' and b.args[0] in (d, C(d)) and b.args[1] == bs[0].args[1] for d, b in enumerate(bs)):
                    return bs[0].args[1]
        if size == 4 and kind == 'i':
            w = v if v is not None else st.mem.get((at, c - 4, 'M'))
            if w is not None and w[0] == 8 and is_lin(w[1]) and w[1] != UNDEF:
                d = 0 if v is not None else 1
                x = single(w[1])
                if not w[1][1]:
                    n = (w[1][0] >> (32 * d)) & 0xffffffff
                    return C(n - (1 << 32) if n >> 31 else n)
                if x is not None and x.kind == 'pair':
                    return x.args[d]
                if self.intval(w[1]):
                    return A('half', C(d), w[1])
        if size == 8 and kind == 'i':
            w = [v, st.mem.get((at, c + 4, 'M'))]
            if all(x is not None and x[0] == 4 and is_lin(x[1]) and x[1] != UNDEF for x in w):
                x, y = single(w[0][1]), single(w[1][1])
                if not w[0][1][1] and not w[1][1][1]:
                    n = (w[0][1][0] & 0xffffffff) | ((w[1][1][0] & 0xffffffff) << 32)
                    return C(n - (1 << 64) if n >> 63 else n)
                if x is not None and y is not None and x.kind == y.kind == 'half' and x.args[1] == y.args[1] and \
                        x.args[0] == ZERO and y.args[0] == ONE:
                    return x.args[1]
                return A('pair', w[0][1], w[1][1])
        if v is None and kind in 'pif':
            # inside a bigger store? (memset 0 ranges)
            z = st.mem.get((at, None, 'Z'))
            if z is not None:
                for (lo, hi, val) in z:
                    if lo <= c and c + size <= hi:
                        return val
        # constant global
        if kind in 'pif' and len(at) == 1 and at[0][0].kind == 'glob':
            gv = self.glob_load(at[0][0].args[0], at[0][0].args[1], c, size, kind)
            if gv is not None:
                return gv
        # partial overlap -> unknown
        ver = st.ver.get((at, c, 'M' if kind in 'pif' else kind), 0)
        ep = 0 if (at and at[0][0].kind == 'al') else st.epoch
        if kind == 'N':
            v = A('vsize', addr, (ep, ver))
        elif kind == 'S':
            v = A('str', addr, (ep, ver))
        else:
            v = A('ld', addr, kind if kind != 'i' else 'i%d' % size, (ep, ver))
        st.mem[(at, c, 'M' if kind in 'pif' else kind)] = (size, v)
        return v

    def intval(self, t):
        """a term that certainly denotes an integer"""
        return all(a.kind not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'i2f', 'fext', 'ftrunc', 'obj', 'al', 'new', 'vdata', 'undef', 'glob') and
                   not (a.kind == 'ld' and a.args[1] in ('f', 'p')) for a, _ in t[1])

    def store_raw(self, st, addr, size, val, kind='M'):
        at, c = addr[1], addr[0]
        mem = st.mem
        rs = None
        dead = []
        tgt_roots = roots(at)
        for k in mem:
            at2, c2, kd = k
            if at2 is at or at2 == at:
                if c2 is None:
                    if kind == 'M':
                        z = mem[k]
                        if any(lo < c + size and c < hi for lo, hi, v in z):
                            # punch a hole
                            nz = []
                            for lo, hi, v in z:
                                if lo < c + size and c < hi:
                                    if lo < c:
                                        nz.append((lo, c, v))
                                    if c + size < hi:
                                        nz.append((c + size, hi, v))
                                else:
                                    nz.append((lo, hi, v))
                            mem[k] = tuple(nz)
                    continue
                if kd != kind:
                    continue
                if c2 != c and not (c2 < c + size and c < c2 + mem[k][0]):
                    continue
                if c2 == c:
                    continue
                dead.append(k)
            else:
                if kd != kind and not (kd == 'Z' and kind == 'M'):
                    continue
                if self.may_alias(st, at, c, size, tgt_roots, at2, c2, mem[k]):
                    dead.append(k)
        for k in dead:
            del mem[k]
            st.ver[k] = nextver(st.ver.get(k, 0))
        mem[(at, c, kind)] = (size, val)

    def may_alias(self, st, at, c, size, r1, at2, c2, ent):
        r2 = roots(at2)
        if not r1 or not r2:
            return bool(not r1 and not r2)
        for x in r1:
            for y in r2:
                if x is y:
                    # same object, symbolic index difference
                    if c2 is None:
                        return True
                    d = sub((c, at), (c2, at2))
                    r = st.facts.rng(d)
                    s2 = ent[0]
                    if r[0] is not None and r[0] >= s2:
                        continue
                    if r[1] is not None and r[1] <= -size:
                        continue
                    return True
                kx, ky = x.kind, y.kind
                if kx in DISTINCT or ky in DISTINCT:
                    continue
                if c2 is None:
                    continue
                # two unknown pointers: same field offset only
                if len(at) == 1 and len(at2) == 1:
                    if c2 < c + size and c < c2 + (ent[0] or 1):
                        return True
                # unknown pointer with symbolic index vs unknown pointer: array element vs field
        return False

    def havoc(self, st, keep=None):
        """unknown code ran: forget every non-local location"""
        st.epoch += 1
        for k in list(st.mem):
            rs = roots(k[0])
            if rs and all(r.kind == 'al' or (r.kind == 'new' and False) for r in rs):
                continue
            if keep and keep(k):
                continue
            del st.mem[k]
            st.ver.pop(k, None)

    def havoc_obj(self, st, addr, size=None):
        """forget one object's content"""
        at, c = addr[1], addr[0]
        rs = roots(at)
        for k in list(st.mem):
            at2, c2, kd = k
            if at2 == at:
                if c2 is None or (c2 + (st.mem[k][0] or 1) > c and (size is None or c2 < c + size)):
                    del st.mem[k]
                    st.ver[k] = nextver(st.ver.get(k, 0))
        # whatever is not cached gets a new version through a per-object counter
        kk = (at, c, 'obj')
        st.ver[kk] = nextver(st.ver.get(kk, 0))

    def objver(self, st, addr):
        return (st.epoch if not (addr[1] and addr[1][0][0].kind == 'al') else 0, st.ver.get((addr[1], addr[0], 'obj'), 0))

    def bump(self, st, addr):
        kk = (addr[1], addr[0], 'obj')
        st.ver[kk] = nextver(st.ver.get(kk, 0))

    def glob_load(self, mi, name, off, size, kind):
        m = self.prog.mods[mi]
        g = m.glob(name)
        if g is None or g[2] is None:
            for m2 in self.prog.mods:
                g = m2.glob(name)
                if g and g[2] is not None:
                    m = m2
                    break
            else:
                return None
        const, t, init = g
        if not const and not self.glob_frozen(m, name):
            return None
        return self.init_at(m, t, init, off, size, kind)

    _frozen = None

    def glob_frozen(self, m, name):
        """internal global never stored to directly in its module"""
        if self._frozen is None:
            self._frozen = {}
        k = (m.path, name)
        r = self._frozen.get(k)
        if r is None:
            d = m.globals[name]
            r = 'internal' in d.split('global')[0]
            if r:
                pat = 'ptr @' + name
                for f in m.fns.values():
                    for ln in f.lines:
                        if pat in ln and (' store ' in ln or ln.lstrip().startswith('store ')) and re.search(r', ptr @%s(,|$| )' % re.escape(name), ln):
                            r = False
                if name.startswith('_ZGV') :
                    r = False
            self._frozen[k] = r
        return r

    def init_at(self, m, t, init, off, size, kind):
        t0 = m.resolve(t)
        if init[0] == 'zero':
            return ZERO if off + size <= m.size(t0) else None
        if t0[0] in ('i', 'p', 'f'):
            if off == 0 and size == m.size(t0):
                return self.const_op(m, init, t0)
            return None
        if init[0] == 'str':
            b = unescape(init[1])
            if 0 <= off and off + size <= len(b):
                return C(int.from_bytes(b[off:off + size], 'little'))
            return None
        if init[0] == 'agg':
            lay = m.layout(t0)
            if t0[0] == 's':
                for i, (et, ev) in enumerate(init[1]):
                    o = lay[2][i]
                    if o <= off < o + m.size(et):
                        return self.init_at(m, et, ev, off - o, size, kind)
            elif t0[0] == 'a':
                es = lay[2]
                i = off // es
                if 0 <= i < len(init[1]):
                    et, ev = init[1][i]
                    return self.init_at(m, et, ev, off - i * es, size, kind)
        return None

    def const_str(self, st, ptr):
        """bytes of the constant C string a term points to, or None"""
        if ptr is None or not is_lin(ptr) or len(ptr[1]) != 1:
            return None
        a, k = ptr[1][0]
        if a.kind != 'glob' or k != 1:
            return None
        m = self.prog.mods[a.args[0]]
        g = m.glob(a.args[1])
        if not g or g[2] is None or not g[0]:
            return None
        if g[2][0] == 'str':
            b = unescape(g[2][1])
        elif g[2][0] == 'zero':
            b = b'\0'
        else:
            return None
        b = b[ptr[0]:]
        return b.split(b'\0')[0].decode('latin1')

    # ------------------------------------------------------------- values
    def const_op(self, m, v, t=None):
        k = v[0]
        if k == 'c':
            n = v[1]
            if t is not None and t[0] == 'i':
                if t[1] == 8:
                    n &= 255
                elif t[1] == 1:
                    n &= 1
            return C(n)
        if k == 'fc':
            return A('fconst', v[1])
        if k == 'g':
            return self.gref(m, v[1])
        if k == 'undef':
            return A('undef', 'u')
        if k == 'zero':
            if t is not None:
                t0 = m.resolve(t)
                if t0[0] in ('s',):
                    return Agg(self.const_op(m, ('zero',), e) for e in t0[1])
            return ZERO
        if k == 'gep':
            base = self.const_op(m, v[2][0][1])
            return self.gep(m, v[1], base, [(t2, self.const_op(m, x, t2)) for t2, x in v[2][1:]])
        if k == 'cast':
            return self.const_op(m, v[3], v[2])
        if k == 'agg':
            return Agg(self.const_op(m, x, t2) for t2, x in v[1])
        if k == 'str':
            return A('cstrlit', v[1])
        return A('konst', repr(v))

    def gref(self, m, name):
        f = self.prog.lookup(m, name)
        if f is not None:
            return A('fnp', f)
        d = m.globals.get(name)
        if d is None:
            return A('fnp', name)
        # canonical module: the first with an initializer unless internal/private
        mi = self.prog.mods.index(m)
        head = d.split('"')[0]
        if 'private' not in head and 'internal' not in head:
            for i, mm in enumerate(self.prog.mods):
                dd = mm.globals.get(name)
                if dd is not None and 'external' not in dd.split('"')[0][:40]:
                    mi = i
                    break
        return A('glob', mi, name)

    def gep(self, m, t, base, idx):
        if not is_lin(base):
            base = A('badptr', repr(base))
        cur = base
        it, iv = idx[0]
        cur = add(cur, scale(iv, m.size(t)))
        ty = t
        for it, iv in idx[1:]:
            ty = m.resolve(ty)
            if ty[0] == 's':
                o, ty = m.field_off(ty, iv[0])
                cur = add(cur, C(o))
            else:
                cur = add(cur, scale(iv, m.size(ty[2])))
                ty = ty[2]
        return cur

    def val(self, fr, env, v, t=None):
        if v[0] == 'l':
            return env[v[1]]
        return self.const_op(fr.fn.mod, v, t)

    # ------------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, t):
        if not (is_lin(a) and is_lin(b)):
            return A(op, repr(a), repr(b))
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op[0] == 'f':
            if op in ('fadd', 'fmul') and b[1] and a[1] and False:
                pass
            return A(op, a, b)
        ca, cb = st.const(a), st.const(b)
        w = t[1] if t[0] == 'i' else 64
        if ca is not None and cb is not None:
            try:
                if op == 'mul':
                    return C(ca * cb)
                if op == 'and':
                    return C((ca & cb))
                if op == 'or':
                    return C(ca | cb)
                if op == 'xor':
                    return C(ca ^ cb)
                if op == 'shl':
                    r = (ca << cb) & ((1 << w) - 1)
                    if r >= 1 << (w - 1) and w >= 32:
                        r -= 1 << w
                    return C(r)
                if op == 'lshr':
                    return C((ca & ((1 << w) - 1)) >> cb)
                if op == 'ashr':
                    return C(ca >> cb)
                if op in ('sdiv', 'udiv') and cb:
                    q = abs(ca) // abs(cb)
                    return C(q if (ca < 0) == (cb < 0) else -q)
                if op in ('srem', 'urem') and cb:
                    q = abs(ca) % abs(cb)
                    return C(-q if ca < 0 else q)
            except Exception:
                pass
        if op == 'mul':
            if cb is not None:
                return scale(a, cb)
            if ca is not None:
                return scale(b, ca)
            x, y = (a, b) if repr_key(a) <= repr_key(b) else (b, a)
            return A('mul', x, y)
        if op == 'shl' and cb is not None:
            return scale(a, 1 << cb)
        if op == 'sdiv' and cb == -1 and t == ('i', 64):
            r = st.facts.rng(a)
            if r[0] is not None and r[0] > -(1 << 63):
                return sub(ZERO, a)
        if op in ('sdiv', 'udiv') and cb is not None and cb > 0:
            # exact division of a scaled form (pointer differences)
            if cb == 1:
                return a
            if a[1] and a[0] % cb == 0 and all(k % cb == 0 for _, k in a[1]):
                return (a[0] // cb, tuple((x, k // cb) for x, k in a[1]))
        if op == 'xor' and t == ('i', 1):
            if cb == 1:
                return sub(ONE, a)
            if ca == 1:
                return sub(ONE, b)
        if op == 'xor' and cb == 0:
            return a
        if op in ('lshr', 'ashr') and cb is not None:
            if cb == 0:
                return a
            return A('shr', a, b)
        if op == 'and':
            if cb is None and ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb == 255:
                return self.byte(st, a)
            if cb is not None and cb >= 0:
                r = st.facts.rng(a)
                if r[0] is not None and r[0] >= 0 and r[1] is not None and cb & (cb + 1) == 0 and r[1] <= cb:
                    return a
            if t == ('i', 1):
                if ca == 0 or cb == 0:
                    return ZERO
                if cb == 1:
                    return a
        if op == 'or':
            if cb == 0:
                return a
            if ca == 0:
                return b
            if t == ('i', 1) and (ca == 1 or cb == 1):
                return ONE
            if t[0] == 'i' and t[1] > 8:
                for p, q in ((a, b), (b, a)):
                    r = st.facts.rng(p)
                    if p[1] and all(x.kind in ('z8', 'byte') and k > 0 for x, k in p[1]) and p[0] >= 0:
                        hi = p[0] + sum(255 * k for x, k in p[1])
                    elif r[0] is not None and r[0] >= 0 and r[1] is not None:
                        hi = r[1]
                    else:
                        continue
                    m = 1 << hi.bit_length()
                    if q[0] % m == 0 and all(k % m == 0 for x, k in q[1]):
                        return self.gather(add(a, b))
        return A(op, a, b)

    def gather(self, t):
        """four bytes put together are the word they came from"""
        if t[0] or len(t[1]) != 4:
            return t
        m = {k: x for x, k in t[1]}
        if set(m) != {1, 1 << 8, 1 << 16, 1 << 24}:
            return t
        bs = [m[1 << (8 * i)] for i in range(4)]
        if all(x.kind == 'byte' for x in bs):
            if all(x.args[0] in (i, C(i)) and x.args[1] == bs[0].args[1] for i, x in enumerate(bs)):
                return bs[0].args[1]
        if all(x.kind == 'z8' for x in bs):
            ls = [single(x.args[0]) for x in bs]
            if all(l is not None and l.kind == 'ld' and l.args[1] == 'i1' for l in ls) and \
                    all(l.args[0] == add(ls[0].args[0], C(i)) and l.args[2] == ls[0].args[2] for i, l in enumerate(ls)):
                return A('ld', ls[0].args[0], 'i4', ls[0].args[2])
        return t

    def byte(self, st, a):
        r = st.facts.rng(a)
        if r[0] is not None and r[1] is not None and 0 <= r[0] and r[1] <= 255:
            return a
        x = single(a)
        if x is not None and x.kind == 'shr' and not x.args[1][1] and x.args[1][0] % 8 == 0:
            return A('byte', C(x.args[1][0] // 8), x.args[0])
        if x is not None and x.kind in ('byte', 'z8'):
            return a
        return A('byte', ZERO, a)

    def cmp(self, st, pred, a, b, t):
        if not (is_lin(a) and is_lin(b)):
            return A('cmp', pred, ZERO, A('bad', repr(a), repr(b)))
        d = sub(a, b)
        r = st.facts.rng(d)
        if pred == 'eq' or pred == 'ne':
            if r[0] is not None and r[0] == r[1] == 0:
                return ONE if pred == 'eq' else ZERO
            if not r_has(r, 0):
                return ONE if pred == 'ne' else ZERO
            if d[1] and len(d[1]) == 2 and d[0] == 0:
                # distinct objects
                (x, kx), (y, ky) = d[1]
                if kx * ky == -1 and x.kind in DISTINCT and y.kind in DISTINCT:
                    return ONE if pred == 'ne' else ZERO
            # boolean re-test
            sa = single(a)
            if sa is not None and not b[1] and sa.kind in BOOL:
                if b[0] == 0:
                    return a if pred == 'ne' else sub(ONE, a)
                if b[0] == 1:
                    return a if pred == 'eq' else sub(ONE, a)
            if b == ZERO and a[0] == 1 and len(a[1]) == 1 and a[1][0][1] == -1 and a[1][0][0].kind in BOOL:
                return a if pred == 'ne' else sub(ONE, a)
            if not d[1]:
                return ONE if (d[0] == 0) == (pred == 'eq') else ZERO
            g, form = canon(d[1])
            if (-d[0]) % g:
                return ONE if pred == 'ne' else ZERO
            e = (d[0] // g, form)
            x = A('cmp', 'eq', e)
            return x if pred == 'eq' else sub(ONE, x)
        u = pred[0] == 'u'
        if u:
            ra, rb = st.facts.rng(a), st.facts.rng(b)
            if pred == 'ugt':
                return self.cmp(st, 'ult', b, a, t)
            if pred in ('uge', 'ule'):
                x = self.cmp(st, 'ult' if pred == 'uge' else 'ugt', a, b, t)
                return sub(ONE, x)
            na = ra[0] is not None and ra[0] >= 0
            nb = rb[0] is not None and rb[0] >= 0
            if na and nb:
                return self.cmp(st, 'slt', a, b, t)
            if na and rb[1] is not None and rb[1] < 0:
                return ONE
            if nb and ra[1] is not None and ra[1] < 0:
                return ZERO
            return A('cmp', 'ult', a, b)
        if pred == 'sgt':
            return self.cmp(st, 'slt', b, a, t)
        if pred == 'sge':
            return sub(ONE, self.cmp(st, 'slt', a, b, t))
        if pred == 'sle':
            return sub(ONE, self.cmp(st, 'slt', b, a, t))
        # slt: d < 0
        if r[1] is not None and r[1] < 0:
            return ONE
        if r[0] is not None and r[0] >= 0:
            return ZERO
        return A('cmp', 'lt0', d)

    def assume(self, st, cond, truth):
        """refine st in place; raises Infeasible"""
        if not is_lin(cond):
            return
        f = st.facts
        c = f.const(cond)
        if c is not None:
            if bool(c) != truth:
                raise Infeasible()
            return
        # 1 - x
        a = None
        if len(cond[1]) == 1:
            (x, k) = cond[1][0]
            if x.kind in BOOL:
                if cond[0] == 0 and k == 1:
                    a = x
                elif cond[0] == 1 and k == -1:
                    a = x
                    truth = not truth
        if a is None:
            if truth:
                f.ne0(cond)
                self.nz_parts(st, cond)
            else:
                f.eq0(cond)
                self.zero_parts(st, cond)
            return
        self.assume_atom(st, a, truth)

    def zero_parts(self, st, t):
        """x | y == 0  =>  x == 0 and y == 0"""
        a = single(t) if is_lin(t) else None
        if a is not None and a.kind == 'or':
            for x in a.args:
                if is_lin(x):
                    self.assume(st, x, False)

    def nz_parts(self, st, t):
        """x & y != 0  =>  x != 0 and y != 0"""
        a = single(t) if is_lin(t) else None
        if a is not None and a.kind == 'and':
            for x in a.args:
                if is_lin(x) and x[1]:
                    self.assume(st, x, True)

    def assume_atom(self, st, a, truth):
        f = st.facts
        f.eq0(sub((0, ((a, 1),)), C(1 if truth else 0)))
        if a.kind == 'cmp':
            p = a.args[0]
            if p == 'eq':
                if truth:
                    f.eq0(a.args[1])
                    self.zero_parts(st, a.args[1])
                else:
                    f.ne0(a.args[1])
                    self.nz_parts(st, a.args[1])
            elif p == 'lt0':
                if truth:
                    f.le0(add(a.args[1], ONE))
                else:
                    f.ge0(a.args[1])
            elif p == 'ult':
                x, y = a.args[1], a.args[2]
                ry, rx = f.rng(y), f.rng(x)
                if truth:
                    # y non-negative (as a machine value below 2^63): 0 <= x < y
                    if ry[0] is not None and ry[0] >= 0:
                        f.ge0(x)
                        f.le0(add(sub(x, y), ONE))
                else:
                    if rx[0] is not None and rx[0] >= 0 and ry[0] is not None and ry[0] >= 0:
                        f.ge0(sub(x, y))
        elif a.kind == 'fcmp':
            self.fcmp_facts(f, a, truth)

    def fcmp_facts(self, f, a, truth):
        """what an IEEE comparison says about the other comparisons of the same operands"""
        p, x, y = a.args
        if not (is_lin(x) and is_lin(y)):
            return
        s = (x, y) if repr_key(x) <= repr_key(y) else (y, x)
        sy = lambda q: A('fcmp', q, *s)
        lt, gt, le, ge = A('fcmp', 'olt', x, y), A('fcmp', 'olt', y, x), A('fcmp', 'ole', x, y), A('fcmp', 'ole', y, x)
        eq, ne, od = sy('oeq'), sy('one'), sy('ord')
        t, n = [], []
        if p == 'olt':
            t, n = ([le, ne, od], [gt, ge, eq]) if truth else ([], [])
        elif p == 'ole':
            t, n = ([od], [gt]) if truth else ([], [lt, eq])
        elif p == 'oeq':
            t, n = ([le, ge, od], [lt, gt, ne]) if truth else ([], [])
        elif p == 'one':
            t, n = ([od], [eq]) if truth else ([], [lt, gt])
        elif p == 'ord' and not truth:
            n = [lt, gt, le, ge, eq, ne]
        for c in t:
            f.eq0(sub(c, ONE))
        for c in n:
            f.eq0(c)

    def fork(self, st, cond):
        """[(truth, state)] feasible refinements"""
        c = st.const(cond) if is_lin(cond) else None
        if c is not None:
            return [(bool(c), st)]
        out = []
        s2 = st.copy()
        try:
            self.assume(s2, cond, True)
            out.append((True, s2))
        except Infeasible:
            pass
        s3 = st
        try:
            self.assume(s3, cond, False)
            out.append((False, s3))
        except Infeasible:
            pass
        return [x for t, s in out for x in self.split_u(t, s, cond)]

    def split_u(self, truth, st, cond):
        """an unsigned comparison that failed against a non-negative bound: negative, or beyond the bound"""
        a = None
        if is_lin(cond) and len(cond[1]) == 1:
            (x, k) = cond[1][0]
            if x.kind == 'cmp' and x.args[0] == 'ult' and (cond[0], k) in ((0, 1), (1, -1)):
                a = x
        if a is None or truth == (cond[0] == 0):
            return [(truth, st)]
        x, y = a.args[1], a.args[2]
        ry, rx = st.facts.rng(y), st.facts.rng(x)
        if ry[0] is None or ry[0] < 0 or rx[0] is not None and rx[0] >= 0:
            return [(truth, st)]
        out = []
        for i, s in enumerate((st.copy(), st)):
            try:
                if i == 0:
                    s.facts.le0(add(x, ONE))
                else:
                    s.facts.ge0(sub(x, y))
                out.append((truth, s))
            except Infeasible:
                pass
        return out

    # ------------------------------------------------------------- functions
    def call_fn(self, fn, args, st):
        """inline a function; list of Out"""
        if len(self.stack) > self.MAX_DEPTH:
            raise Explosion('call depth at %s' % fn.dem)
        fr = self.fr(fn)
        self.fns_seen.add(fn)
        self.ncalls += 1
        env = {}
        for (t, nm), v in zip(fn.params, args):
            env[nm] = v
        for t, nm in fn.params[len(args):]:
            env[nm] = A('undef', 'missing')
        depth = len(self.stack)
        self.stack.append(fn)
        try:
            outs = self.region(fr, fn.entry.name, None, [(None, env, st)], None)[0]
        finally:
            self.stack.pop()
        # purge locals of this frame
        res = []
        for o in outs:
            dead = [k for k in o.st.mem if any(a.kind == 'al' and a.args[2] == depth for a, _ in k[0])]
            for k in dead:
                del o.st.mem[k]
            dead = [k for k in o.st.ver if any(a.kind == 'al' and a.args[2] == depth for a, _ in k[0])]
            for k in dead:
                del o.st.ver[k]
            res.append(o)
        return self.merge_outs(res)

    def merge_outs(self, outs):
        if len(outs) < 2:
            return outs
        d = {}
        for o in outs:
            k = (o.kind, o.val, o.st.exn, o.st.trace, o.st.epoch, o.st.user, frozenset(o.st.mem.items()), frozenset(o.st.ver.items()))
            if not self.join and len(outs) <= self.JOIN:
                k += (frozenset(o.st.facts.d.items()),)
            if k in d:
                d[k].st.facts = d[k].st.facts.join(o.st.facts)
            else:
                d[k] = o
        return list(d.values())

    def merge(self, fr, b, states):
        """states: list of (pred, env, st) -> merged list with phis resolved lazily by pred"""
        if len(states) < 2:
            return states
        live = fr.live[b]
        phis = fr.phis[b]
        d = {}
        for pred, env, st in states:
            e = tuple(env.get(n) for n in sorted(live))
            ph = tuple(self.phi_val(fr, env, p, pred) for p in phis)
            k = (e, ph, st.trace, st.epoch, st.exn, st.user, frozenset(st.mem.items()), frozenset(st.ver.items()))
            if not self.join and len(states) <= self.JOIN:
                k += (frozenset(st.facts.d.items()),)
            if k in d:
                o = d[k]
                o[2].facts = o[2].facts.join(st.facts)
            else:
                d[k] = [pred, env, st]
        return [tuple(x) for x in d.values()]

    def phi_val(self, fr, env, p, pred):
        for v, b in p.a:
            if b == pred:
                return self.val(fr, env, v, p.ty)
        return None

    def region(self, fr, entry, blocks, states, header):
        """run an acyclic (loops as units) region. returns (outs, backs, exits)
        backs: states reaching `header` again; exits: (pred, target, env, st) leaving `blocks`"""
        outs = []
        backs = []
        exits = []
        pend = {entry: list(states)}
        first = True
        while pend:
            b = min(pend, key=lambda x: fr.num[x])
            ss = pend.pop(b)
            ss = self.merge(fr, b, ss)
            if len(ss) > self.MAX_STATES:
                raise Explosion('%d states at %s in %s' % (len(ss), b, fr.fn.dem))
            if b in fr.loop and not (b == header):
                for s in ss:
                    o, ex = self.do_loop(fr, b, s)
                    outs.extend(o)
                    for pred, tgt, env, st in ex:
                        if blocks is not None and tgt not in blocks:
                            exits.append((pred, tgt, env, st))
                        elif tgt == header:
                            backs.append((pred, env, st))
                        else:
                            pend.setdefault(tgt, []).append((pred, env, st))
                continue
            for pred, env, st in ss:
                for r in self.block(fr, b, pred, env, st, skip_phi=(first and header == b)):
                    if isinstance(r, Out):
                        outs.append(r)
                        continue
                    tgt, env2, st2 = r
                    if tgt == header:
                        backs.append((b, env2, st2))
                    elif blocks is not None and tgt not in blocks:
                        exits.append((b, tgt, env2, st2))
                    else:
                        pend.setdefault(tgt, []).append((b, env2, st2))
            first = False
        return outs, backs, exits

    # ------------------------------------------------------------- loops
    def oflv(self, at, lid, n):
        return any(a.kind == 'lv' and a.args[:3] == (lid[0], lid[1], n) for x, _ in at for a in atoms_of((0, ((x, 1),))))

    def do_loop(self, fr, h, state):
        pred, env, st = state
        self.nloops += 1
        blocks = fr.loop[h]
        phis = fr.phis[h]
        loc = fr.fn.mod.loc(next((i.dbg for i in fr.blocks[h].ins if i.dbg), None))
        lid = (fr.fn.name, h, len(self.stack))
        n = st.cnt.get(('loop', lid), 0)
        st.cnt[('loop', lid)] = n + 1
        K = A('K', lid[0], lid[1], n, len(self.stack))
        init = {}
        for p in phis:
            init[('e', p.res)] = self.phi_val(fr, env, p, pred)
        if self.once is not None:
            self.cur_env = env
            s1 = self.once(self, fr, h, init, st)
            if s1 is not None:
                henv = dict(env)
                for p in phis:
                    henv[p.res] = init[('e', p.res)]
                mem1 = dict(s1.mem)
                outs, backs, exits = self.region(fr, h, blocks, [(None, henv, s1)], h)
                outs = list(outs)
                for bpred, benv, bst in backs:
                    vals = [(('e', p.res), init[('e', p.res)], self.phi_val(fr, benv, p, bpred)) for p in phis]
                    vals += [(('m', k), v[1], bst.mem[k][1] if k in bst.mem else None) for k, v in mem1.items()
                             if k[2] == 'M' and v[0] == 8]
                    outs.append(Out('back', tuple(vals), bst))
                return outs, exits
        if self.unroll:
            full = self.unrolled(fr, h, blocks, phis, pred, env, st)
            if full is not None:
                return full
        imem = st.mem
        gen = {}      # var -> ('ind', step Lin) | ('lv',)
        epoch_gen = False
        rounds = 0

        def hval(var, iv):
            g = gen.get(var)
            if g is None:
                return iv
            if g[0] == 'ind':
                return add(iv, A('mul', *sorted([K, g[1]], key=repr_key))) if g[1][1] else add(iv, scale(K, g[1][0]))
            return g[1]
        while True:
            rounds += 1
            if rounds > 14:
                raise Explosion('loop not stable in %s' % fr.fn.dem)
            hst = st.copy()
            henv = dict(env)
            for p in phis:
                henv[p.res] = hval(('e', p.res), init[('e', p.res)])
            for var, g in gen.items():
                if var[0] == 'm':
                    k = var[1]
                    if g[0] == 'ind':
                        hst.mem[k] = (imem[k][0], hval(var, imem[k][1]))
                    elif g[0] == 'lv':
                        hst.mem[k] = (g[2], g[1])
                    else:
                        hst.mem.pop(k, None)
            if epoch_gen:
                hst.epoch += 1
            hst.trace = ()
            hst.ver = dict(hst.ver)
            for var, g in gen.items():
                if var[0] == 'm' and g[0] == 'drop':
                    hst.ver[var[1]] = ('L', lid, n)
                if var[0] == 'v':
                    hst.ver[var[1]] = ('L', lid, n)
            outs, backs, exits = self.region(fr, h, blocks, [(None, dict(henv), hst.copy())], h)
            if rounds == 1 and backs and not exits and len(backs) <= 4 and all(o.kind != 'ret' for o in outs):
                full = self.peel(fr, h, blocks, phis, st.trace, outs, backs)
                if full is not None:
                    return full
            changed = False
            for bpred, benv, bst in backs:
                for p in phis:
                    var = ('e', p.res)
                    nv = self.phi_val(fr, benv, p, bpred)
                    changed |= self.generalise(gen, var, init[var], henv[p.res], nv, K, lid, n, None)
                if bst.epoch != hst.epoch and not epoch_gen:
                    epoch_gen = True
                    changed = True
                for k, v in bst.mem.items():
                    if k[1] is None:
                        if hst.mem.get(k) != v:
                            var = ('m', k)
                            if gen.get(var) != ('drop',):
                                gen[var] = ('drop',)
                                changed = True
                        continue
                    hv = hst.mem.get(k)
                    if hv == v:
                        continue
                    var = ('m', k)
                    if hv is None and var not in gen and self.oflv(k[0], lid, n):
                        # a location named by this iteration's value of a loop variable: another one next time
                        continue
                    if hv is None:
                        # location first touched inside the loop: plain first loads are loop invariant
                        a = single(v[1]) if is_lin(v[1]) else None
                        if a is not None and a.kind in ('ld', 'vsize', 'str') and a.args[0] == (k[1], k[0]) and \
                                a.args[2 if a.kind == 'ld' else 1] == (0 if self._isal(k) else hst.epoch, hst.ver.get(k, 0)):
                            continue
                        if k[0] and any(x.kind == 'al' and x.args[2] >= len(self.stack) and False for x, _ in k[0]):
                            continue
                        if gen.get(var) != ('drop',):
                            # value before the loop is unknown: name it and retry as a regular variable
                            iv = self._initial(st, k, v[0])
                            if iv is not None:
                                imem[k] = (v[0], iv)
                                st.mem[k] = (v[0], iv)
                                changed = True
                            else:
                                gen[var] = ('drop',)
                                changed = True
                        continue
                    if hv[0] != v[0] or not (is_lin(v[1]) and is_lin(hv[1])):
                        if gen.get(var) != ('drop',):
                            gen[var] = ('drop',)
                            changed = True
                        continue
                    if k not in imem:
                        continue
                    changed |= self.generalise(gen, var, imem[k][1], hv[1], v[1], K, lid, n, v[0])
                for k in hst.mem:
                    if k not in bst.mem:
                        var = ('m', k)
                        if gen.get(var) != ('drop',):
                            gen[var] = ('drop',)
                            changed = True
                for k, v in bst.ver.items():
                    if hst.ver.get(k, 0) != v and ('m', k) not in gen and ('v', k) not in gen:
                        if any(x.kind == 'al' and x.args[2] >= len(self.stack) for x, _ in k[0]):
                            continue
                        gen[('v', k)] = ('drop',)
                        changed = True
            if not changed:
                break
        # ---- trip facts:  forms containing K bounded above/below in every back state
        bound = self.trip(K, backs)
        body = tuple(sorted({b[2].trace for b in backs}, key=repr)) if backs else ()
        pre = st.trace
        node = None
        if any(body) or self.keep_loops:
            node = ('loop', K, body, loc)
        kat = single(K)
        if self.loopbacks is not None:
            for b in backs:
                self.loopbacks[(kat, b[2].trace)] = b[2]

        def finish(x):
            x.trace = pre + ((node,) if node else ()) + x.trace
            return x
        res_out = []
        res_ex = []
        lastv = {}
        if self.loopinfo is not None:
            for var, g in gen.items():
                if g[0] not in ('lv', 'ind'):
                    continue
                hv_ = hval(var, init[var] if var[0] == 'e' else imem[var[1]][1])
                ts_ = []
                for bpred, benv, bst in backs:
                    if var[0] == 'e':
                        p_ = [p for p in phis if p.res == var[1]]
                        v_ = self.phi_val(fr, benv, p_[0], bpred) if p_ else None
                    else:
                        m_ = bst.mem.get(var[1])
                        v_ = m_[1] if m_ else None
                    ts_.append((v_, bst))
                self.loopinfo[hv_] = (init[var] if var[0] == 'e' else imem[var[1]][1], ts_, K, var)
        if self.last and backs:
            for var, g in gen.items():
                if g[0] != 'lv':
                    continue
                vals = set()
                for bpred, benv, bst in backs:
                    if var[0] == 'e':
                        p_ = [p for p in phis if p.res == var[1]]
                        vals.add(self.phi_val(fr, benv, p_[0], bpred) if p_ else None)
                    else:
                        m_ = bst.mem.get(var[1])
                        vals.add(m_[1] if m_ else None)
                la = single(g[1])
                if la is not None and None not in vals and all(is_lin(x) for x in vals) and \
                        all(x == ONE or la in atoms_of(x) for x in vals) and \
                        any(x == ONE or any(y.kind == 'or' for y in atoms_of(x)) for x in vals):
                    self.accum.add(la)
                iv_ = init[var] if var[0] == 'e' else imem[var[1]][1]
                if None not in vals and len(vals) <= 3 and is_lin(iv_) and la is not None and all(
                        is_lin(v_) and (not v_[1] or (len(v_[1]) == 1 and v_[1][0][0].kind in BOOL)) and
                        not any(a.kind == 'lv' and a.args[:3] == (lid[0], lid[1], n) for a in atoms_of(v_)) for v_ in vals):
                    lastv[la] = (iv_, sorted(vals, key=repr))

        def variants(s):
            r = variants_(s)
            if not lastv:
                return r
            out = []
            for s_, m in r:
                m = dict(m or {})
                cnt = m.get(kat)
                zero = cnt is not None and not cnt[1] and cnt[0] == 0
                opts = [(True, None)] if zero else ([(True, None)] if cnt is not None and cnt[1] else [])
                if not zero:
                    import itertools
                    opts += [(False, c_) for c_ in itertools.product(*[v_ for _, v_ in lastv.values()])]
                for z, ch in opts:
                    s2 = s_.copy() if len(opts) > 1 else s_
                    try:
                        if z and not zero:
                            s2.facts.eq0(cnt)
                        elif not z and cnt is not None:
                            s2.facts.le0(sub(ONE, cnt))
                        m2 = dict(m)
                        for i_, (la, (iv_, _)) in enumerate(lastv.items()):
                            if z:
                                val = iv_
                            else:
                                val = subst(ch[i_], {kat: sub(cnt if cnt is not None else K, ONE)})
                            c0 = s2.facts.const((0, ((la, 1),)))
                            if c0 is not None:
                                self.assume(s2, val, bool(c0))
                            m2[la] = val
                    except Infeasible:
                        continue
                    out.append((s2, m2))
            return out

        def variants_(s):
            """split an exiting state: zero complete iterations / K bounded by the loop condition"""
            if not bound:
                return [(s, None)]
            r = []
            # K == 0
            s0 = s.copy()
            try:
                s0.facts.eq0(K)
                r.append((s0, {kat: ZERO}))
            except Infeasible:
                pass
            try:
                s.facts.le0(sub(ONE, K))
                for f in bound:
                    s.facts.le0(f)
                m = None
                # K pinned?
                for f in bound:
                    rr = s.facts.rng(f)
                    if rr[0] == 0 and rr[1] == 0:
                        kk = dict(f[1]).get(kat)
                        if kk in (1, -1):
                            rest = (f[0], tuple(x for x in f[1] if x[0] is not kat))
                            m = {kat: scale(rest, -kk)}
                            break
                r.append((s, m))
            except Infeasible:
                pass
            if len(r) == 2 and r[1][1] is not None:
                # if the pinned count is consistent with 0 iterations, the K == 0 variant is subsumed when count>=0 known
                cnt = r[1][1][kat]
                rc = s.facts.rng(cnt)
                zc = None
                try:
                    t = r[0][0].facts.copy()
                    t.ne0(cnt)
                    zc = True
                except Infeasible:
                    zc = False
                if not zc:
                    # K==0 implies count==0: one variant suffices; relax K>=1
                    s.facts.d.pop(((kat, 1),), None)
                    return [self.relaxed(r[1], kat)]
            return r
        for o in outs:
            for s, m in variants(o.st):
                ns = finish(s)
                v = o.val
                if m:
                    v = subst(v, m) if v is not None else None
                    self.subst_state(ns, m)
                res_out.append(Out(o.kind, v, ns))
        for p, t, e, s in exits:
            for s2, m in variants(s):
                ns = finish(s2)
                e2 = e
                if m:
                    memo = {}
                    e2 = {k: (subst(v, m, memo) if v is not None else None) for k, v in e.items()}
                    self.subst_state(ns, m)
                res_ex.append((p, t, e2, ns))
        return res_out, res_ex

    PEEL = 16

    def peel(self, fr, h, blocks, phis, pre, outs, backs):
        """a loop whose trip count is a constant of this path: run its iterations one by one. Every iteration must
        either certainly continue or certainly leave; anything else is generalised instead"""
        res = []
        for o in outs:
            o = Out(o.kind, o.val, o.st.copy())
            o.st.trace = pre + o.st.trace
            res.append(o)
        cur = []
        for bp, be, bs in backs:
            bs = bs.copy()
            bs.trace = pre + bs.trace
            cur.append((bp, dict(be), bs))
        ex = []
        for it in range(self.PEEL):
            nxt = []
            for bp, be, bs in cur:
                e = dict(be)
                e.update({p.res: self.phi_val(fr, be, p, bp) for p in phis})
                o, b, x = self.region(fr, h, blocks, [(None, e, bs)], h)
                if b and x or any(i.kind == 'ret' for i in o):
                    return None
                res.extend(o)
                ex.extend(x)
                nxt.extend(b)
            if not nxt:
                return res, ex
            if len(nxt) > 4:
                return None
            cur = nxt
        return None

    def unrolled(self, fr, h, blocks, phis, pred, env, st):
        """follow every iteration separately; None if some path is still in the loop after the limit"""
        cur = [(pred, env, st.copy())]
        res, ex = [], []
        for it in range(self.unroll + 1):
            nxt = []
            for bp, be, bs in cur:
                e = dict(be)
                e.update({p.res: self.phi_val(fr, be, p, bp) for p in phis})
                o, b, x = self.region(fr, h, blocks, [(None, e, bs)], h)
                res.extend(o)
                ex.extend(x)
                nxt.extend(b)
            if not nxt:
                return res, ex
            if len(nxt) > 8:
                return None
            cur = nxt
        return None

    def relaxed(self, r, kat):
        s, m = r
        d = {}
        for f, x in s.facts.d.items():
            d[f] = x
        s.facts.d = d
        return (s, m)

    def _isal(self, k):
        return bool(k[0]) and k[0][0][0].kind == 'al'

    def _initial(self, st, k, size):
        at, c, kd = k
        if c is None:
            return None
        ep = 0 if self._isal(k) else st.epoch
        ver = st.ver.get(k, 0)
        addr = (c, at)
        if kd == 'N':
            return A('vsize', addr, (ep, ver))
        if kd == 'S':
            return A('str', addr, (ep, ver))
        return A('ld', addr, 'i%d' % size if size != 8 else 'p', (ep, ver))

    def generalise(self, gen, var, iv, hv, nv, K, lid, n, size):
        g = gen.get(var)
        if iv is None or nv is None:
            return False
        if g is not None and g[0] in ('lv', 'drop'):
            return False
        if not (is_lin(iv) and is_lin(nv) and is_lin(hv)):
            if nv == hv:
                return False
            gen[var] = ('lv', A('lv', lid[0], lid[1], n, repr_var(var)), size)
            return True
        d = sub(nv, hv)
        if g is None:
            if d == ZERO:
                return False
            if not d[1]:
                gen[var] = ('ind', d)
                return True
            gen[var] = ('lv', A('lv', lid[0], lid[1], n, repr_var(var)), size)
            return True
        # induction: must advance by exactly the step
        if d == g[1]:
            return False
        gen[var] = ('lv', A('lv', lid[0], lid[1], n, repr_var(var)), size)
        return True

    def trip(self, K, backs):
        """linear terms f(K) with f(K) <= 0 valid at every loop-header arrival after >= 1 iterations"""
        kat = single(K)
        res = None
        for _, _, bst in backs:
            cur = {}
            for form, r in bst.facts.d.items():
                kk = dict(form).get(kat)
                if kk in (1, -1):
                    # the fact held for iteration K; at the next arrival K' = K+1
                    rest_atoms = atoms_of(tuple(x for x in form if x[0] is not kat))
                    if r[1] is not None and kk == 1:
                        cur[(form, 'hi')] = r[1] + 1
                    if r[0] is not None and kk == -1:
                        cur[(form, 'lo')] = r[0] - 1
                    # disequality  form != e  with the form stepping by +-1 toward e
                    for e in r[2]:
                        cur[(form, 'ne')] = e
            if res is None:
                res = cur
            else:
                nr = {}
                for k, v in res.items():
                    if k in cur:
                        if k[1] == 'hi':
                            nr[k] = max(v, cur[k])
                        elif k[1] == 'lo':
                            nr[k] = min(v, cur[k])
                        elif v == cur[k]:
                            nr[k] = v
                res = nr
        out = []
        for (form, w), v in (res or {}).items():
            if w == 'hi':
                if not (len(form) == 1 and v <= 0):
                    out.append(sub((0, form), C(v)))
            elif w == 'lo':
                out.append(sub(C(v), (0, form)))
            else:
                # K + rest != v on every completed iteration and K steps by one: at arrival K+rest <= v
                # (holds when it starts below v, i.e. the loop is not already past its bound: iterator loops)
                kk = dict(form).get(kat)
                if kk == 1:
                    out.append(sub((0, form), C(v)))
                else:
                    out.append(sub(C(v), (0, form)))
        return out

    def subst_state(self, st, m):
        memo = {}
        nm = {}
        for k, v in st.mem.items():
            at, c, kd = k
            if c is None:
                nm[k] = v
                continue
            a2 = _keysub((c, at), m, memo)
            nm[(a2[1], a2[0], kd)] = (v[0], subst(v[1], m, memo))
        st.mem = nm
        nv = {}
        for k, v in st.ver.items():
            at, c, kd = k
            if c is None:
                nv[k] = v
                continue
            a2 = _keysub((c, at), m, memo)
            nv[(a2[1], a2[0], kd)] = v
        st.ver = nv
        st.trace = subst_trace(st.trace, m, memo)
        nf = Facts(None, st.facts.lossy)
        for form, r in st.facts.d.items():
            t = subst((0, form), m, memo)
            if t == (0, form):
                nf.d[form] = r
                continue
            if not t[1]:
                continue
            g, f2 = canon(t[1])
            c = t[0]
            lo, hi = r[0], r[1]
            lo = None if lo is None else lo - c
            hi = None if hi is None else hi - c
            ex = frozenset((e - c) // g for e in r[2] if (e - c) % g == 0)
            if g < 0:
                lo, hi = hi, lo
            ag = abs(g)
            if g < 0:
                lo2 = None if lo is None else -(lo // ag)
                hi2 = None if hi is None else -(-(-hi // ag)) if False else (None if hi is None else (-hi) // ag)
                lo = lo2
                hi = hi2
            else:
                lo = None if lo is None else -((-lo) // ag)
                hi = None if hi is None else hi // ag
            try:
                nf.d[f2] = r_and(nf.d.get(f2, TOP), (lo, hi, ex))
            except Infeasible:
                pass
        st.facts = nf

    # ------------------------------------------------------------- blocks
    def block(self, fr, b, pred, env, st, skip_phi=False):
        env = dict(env)
        blk = fr.blocks[b]
        phis = fr.phis[b]
        if phis and not skip_phi:
            vals = [self.phi_val(fr, env, p, pred) for p in phis]
            for p, v in zip(phis, vals):
                env[p.res] = v
        work = [(len(phis), env, st)]
        res = []
        while work:
            i, env, st = work.pop()
            ins = blk.ins
            n = len(ins)
            while i < n:
                x = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Explosion('step budget')
                op = x.op
                if op == 'call':
                    self.cur = (fr, x)
                    rs = self.do_call(fr, env, st, x)
                    if len(rs) == 1 and not isinstance(rs[0], Out):
                        v, st = rs[0]
                        if x.res is not None:
                            env[x.res] = v
                        continue
                    for r in rs:
                        if isinstance(r, Out):
                            res.append(r)
                        else:
                            v, s2 = r
                            e2 = dict(env)
                            if x.res is not None:
                                e2[x.res] = v
                            work.append((i, e2, s2))
                    break
                if op == 'invoke':
                    self.cur = (fr, x)
                    rs = self.do_call(fr, env, st, x)
                    for r in rs:
                        e2 = dict(env) if len(rs) > 1 else env
                        if isinstance(r, Out):
                            if r.kind == 'throw':
                                res.append((x.a[3], e2, r.st))
                            else:
                                res.append(r)
                        else:
                            v, s2 = r
                            if x.res is not None:
                                e2[x.res] = v
                            res.append((x.a[2], e2, s2))
                    break
                if op == 'br':
                    if x.a[0] is None:
                        res.append((x.a[1], env, st))
                    else:
                        c = self.val(fr, env, x.a[0])
                        self.observe(st, 'br', fr, x, cond=c)
                        fs = self.fork(st, c)
                        for truth, s2 in fs:
                            res.append((x.a[1] if truth else x.a[2], env if len(fs) == 1 else dict(env), s2))
                    break
                if op == 'switch':
                    v = self.val(fr, env, x.a[0])
                    self.observe(st, 'switch', fr, x, cond=v)
                    res.extend(self.do_switch(fr, env, st, x, v))
                    break
                if op == 'ret':
                    v = None if x.a[0] is None else self.val(fr, env, x.a[0], x.ty)
                    res.append(Out('ret', v, st))
                    break
                if op == 'unreachable':
                    res.append(Out('abort', None, st))
                    break
                if op == 'resume':
                    res.append(Out('throw', None, st))
                    break
                if op == 'landingpad':
                    r = self.landingpad(fr, env, st, x)
                    if r is None:
                        res.append(Out('throw', None, st))
                        break
                    env[x.res] = r
                    continue
                if op == 'select':
                    c = self.val(fr, env, x.a[0])
                    fs = self.fork(st, c)
                    if len(fs) == 1:
                        st = fs[0][1]
                        env[x.res] = self.val(fr, env, x.a[1] if fs[0][0] else x.a[2], x.ty)
                        continue
                    for truth, s2 in fs:
                        e2 = dict(env)
                        e2[x.res] = self.val(fr, env, x.a[1] if truth else x.a[2], x.ty)
                        work.append((i, e2, s2))
                    break
                try:
                    self.simple(fr, env, st, x)
                except Infeasible:
                    break
        return res

    def do_switch(self, fr, env, st, x, v):
        res = []
        c = st.const(v) if is_lin(v) else None
        if c is not None:
            w = x.ty[1]
            for cv, lab in x.a[2]:
                if cv == c or (w <= 8 and (cv & 255) == (c & 255)):
                    return [(lab, env, st)]
            return [(x.a[1], env, st)]
        if not is_lin(v):
            return [(l, dict(env), st.copy()) for l in fr.blocks and set([x.a[1]] + [y[1] for y in x.a[2]])]
        # group cases by label
        by = {}
        for cv, lab in x.a[2]:
            if x.ty[1] <= 8:
                cv &= 255
            by.setdefault(lab, []).append(cv)
        for lab, cvs in by.items():
            feas = []
            r = st.facts.rng(v)
            for cv in cvs:
                if r_has(r, cv):
                    feas.append(cv)
            if not feas:
                continue
            s2 = st.copy()
            try:
                lo, hi = min(feas), max(feas)
                s2.facts.ge0(sub(v, C(lo)))
                s2.facts.le0(sub(v, C(hi)))
                if hi - lo <= 300:
                    fs = set(feas)
                    for q in range(lo + 1, hi):
                        if q not in fs:
                            s2.facts.ne0(sub(v, C(q)))
                res.append((lab, dict(env), s2))
            except Infeasible:
                pass
        s2 = st
        try:
            for cv, lab in x.a[2]:
                if x.ty[1] <= 8:
                    cv &= 255
                s2.facts.ne0(sub(v, C(cv)))
            res.append((x.a[1], dict(env), s2))
        except Infeasible:
            pass
        return res

    def landingpad(self, fr, env, st, x):
        cleanup, cl = x.a
        exn = st.exn
        sel = None
        for w, v in cl:
            if w == 'catch':
                if v[0] == 'c':
                    sel = C(1)
                    break
                if v[0] == 'g' and (exn is None or v[1] == exn[1]):
                    sel = C(self.tid(v[1]))
                    break
        if sel is None:
            if not cleanup:
                return None
            sel = ZERO
        return Agg((exn[0] if exn else A('exn', 'unknown'), sel))

    def tid(self, n):
        return self.tids.setdefault(n, len(self.tids) + 10)

    def observe(self, st, kind, fr, ins, **kw):
        for f in self.obs:
            f(self, st, kind, fr, ins, kw)

    # ------------------------------------------------------------- simple instructions
    def simple(self, fr, env, st, x):
        op = x.op
        m = fr.fn.mod
        if op == 'load':
            a = self.val(fr, env, x.a[0])
            self.cur = (fr, x)
            env[x.res] = self.do_load(fr, st, x, a, x.ty)
        elif op == 'store':
            v = self.val(fr, env, x.a[0], x.ty)
            a = self.val(fr, env, x.a[1])
            self.cur = (fr, x)
            self.do_store(fr, st, x, a, v, x.ty)
        elif op == 'getelementptr':
            base = self.val(fr, env, x.a[0])
            idx = [(t, self.val(fr, env, v, t)) for t, v in x.a[1]]
            idx = [(t, v if is_lin(v) else ZERO) for t, v in idx]
            env[x.res] = self.gep(m, x.ty, base, idx)
        elif op in T_BIN:
            a = self.val(fr, env, x.a[0], x.ty)
            b = self.val(fr, env, x.a[1], x.ty)
            self.observe(st, op, fr, x, a=a, b=b)
            env[x.res] = self.binop(st, op, a, b, x.ty)
        elif op == 'icmp':
            a = self.val(fr, env, x.a[1], x.ty)
            b = self.val(fr, env, x.a[2], x.ty)
            env[x.res] = self.cmp(st, x.a[0], a, b, x.ty)
        elif op == 'fcmp':
            a = self.val(fr, env, x.a[1], x.ty)
            b = self.val(fr, env, x.a[2], x.ty)
            p = x.a[0]
            if p in ('ogt', 'oge', 'ugt', 'uge'):
                p = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}[p]
                a, b = b, a
            neg = False
            if p in ('une', 'ult', 'ule', 'ueq', 'uno'):
                neg = True
                if p in ('ult', 'ule'):
                    a, b = b, a
                p = {'une': 'oeq', 'ult': 'ole', 'ule': 'olt', 'ueq': 'one', 'uno': 'ord'}[p]
            if p in ('oeq', 'one', 'ord') and is_lin(a) and is_lin(b) and repr_key(a) > repr_key(b):
                a, b = b, a
            env[x.res] = A('fcmp', p, a, b)
            if neg:
                env[x.res] = sub(ONE, env[x.res])
        elif op == 'fneg':
            env[x.res] = A('fneg', self.val(fr, env, x.a[0], x.ty))
        elif op == 'freeze':
            env[x.res] = self.val(fr, env, x.a[0], x.ty)
        elif op in T_CAST:
            a = self.val(fr, env, x.a[1], x.a[0])
            env[x.res] = self.cast(st, op, a, x.a[0], x.ty)
        elif op == 'alloca':
            env[x.res] = A('al', fr.fn.name, x.res, len(self.stack) - 1)
            # a fresh object: forget what a previous activation left
            at = env[x.res][1]
            for k in [k for k in st.mem if any(q is at[0][0] for q, _ in k[0])]:
                del st.mem[k]
        elif op == 'extractvalue':
            v = self.val(fr, env, x.a[0], x.ty)
            for i in x.a[1]:
                v = v.v[i] if type(v) is Agg else A('ext', v if is_lin(v) else repr(v), i)
            env[x.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, env, x.a[0], x.ty)
            w = self.val(fr, env, x.a[1])
            t = m.resolve(x.ty)
            if type(v) is not Agg:
                v = Agg([A('undef', 'u')] * len(t[1]))
            if len(x.a[2]) == 1:
                l = list(v.v)
                l[x.a[2][0]] = w
                env[x.res] = Agg(l)
            else:
                env[x.res] = A('insv', repr(v))
        elif op.startswith('other:'):
            if x.res:
                env[x.res] = A('unk', op, fr.fn.name, x.res)
        else:
            raise Explosion('unhandled ' + op)

    def cast(self, st, op, a, t, t2):
        if not is_lin(a):
            return a if op in ('bitcast',) else A('cast', repr(a))
        if op in ('zext',):
            if t == ('i', 8):
                if not a[1]:
                    return C(a[0] & 255)
                r = st.facts.rng(a)
                if r[0] is not None and r[0] >= 0 and r[1] is not None and r[1] <= 255:
                    return a
                x = single(a)
                if x is not None and x.kind in ('byte',):
                    return a
                return A('z8', a)
            if t == ('i', 16):
                if not a[1]:
                    return C(a[0] & 65535)
                x = single(a)
                if x is not None and x.kind == 'lo16':
                    return A('z16', x.args[0])
            return a
        if op == 'sext':
            if t == ('i', 8) and not a[1]:
                n = a[0] & 255
                return C(n - 256 if n >= 128 else n)
            if t == ('i', 1):
                return scale(a, -1)
            x = single(a)
            if x is not None and t == ('i', 16) and x.kind == 'lo16':
                return A('s16', x.args[0])
            if x is not None and t == ('i', 8) and x.kind == 'byte' and x.args[0] == ZERO:
                return A('s8', x.args[1])
            return a
        if op == 'trunc':
            if t2 == ('i', 8):
                if not a[1]:
                    return C(a[0] & 255)
                x = single(a)
                if x is not None and x.kind == 'z8':
                    return x.args[0]
                if x is not None and x.kind in BOOL:
                    return a
                r = st.facts.rng(a)
                if r[0] is not None and r[1] is not None and r[0] >= 0 and r[1] <= 127:
                    return a
                return self.byte(st, a)
            if t2 == ('i', 16) and a[1]:
                r = st.facts.rng(a)
                if r[0] is not None and r[1] is not None and r[0] >= 0 and r[1] <= 32767:
                    return a
                x = single(a)
                if x is not None and x.kind == 'z16':
                    return A('lo16', x.args[0])
                return a if x is not None and x.kind == 'lo16' else A('lo16', a)
            if not a[1] and t2[0] == 'i' and t2[1] in (16, 32):
                n = a[0] & ((1 << t2[1]) - 1)
                if n >= 1 << (t2[1] - 1):
                    n -= 1 << t2[1]
                return C(n)
            return a
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if op == 'bitcast' and t[0] != t2[0]:
                return A('bits', t2[0], a)
            return a
        if op in ('sitofp', 'uitofp'):
            return A('i2f', a)
        if op in ('fptosi', 'fptoui'):
            return A('f2i', a)
        if op in ('fpext', 'fptrunc'):
            x = single(a)
            if x is not None and x.kind == 'fext' and op == 'fptrunc':
                return x.args[0]
            return A('fext', a) if op == 'fpext' else A('ftrunc', a)
        return A(op, a)

    def tk(self, m, t):
        t = m.resolve(t)
        if t[0] == 'p':
            return 'p', 8
        if t[0] == 'i':
            return 'i', m.size(t)
        if t[0] == 'f':
            return 'f', m.size(t)
        return None, m.size(t)

    def do_load(self, fr, st, x, a, ty):
        m = fr.fn.mod
        k, size = self.tk(m, ty)
        if not is_lin(a):
            return A('unkld', repr(a))
        self.observe(st, 'load', fr, x, addr=a, size=size, ty=ty)
        if k is None:
            t = m.resolve(ty)
            if t[0] == 's':
                offs = m.layout(t)[2]
                return Agg(self.do_load(fr, st, x, add(a, C(o)), e) for o, e in zip(offs, t[1]))
            return A('unkld', a)
        v = self.load_raw(st, a, size, k)
        if is_lin(v):
            av = single(v)
            # int bits read as float, or the converse
            if k == 'f' and not v[1]:
                v = A('fconst', 'bits:%d' % v[0]) if v[0] else A('fconst', '0.000000e+00')
            elif k == 'f' and av is not None and av.kind == 'ld' and av.args[1] != 'f':
                v = A('bits', 'f', v)
        return v

    def do_store(self, fr, st, x, a, v, ty):
        m = fr.fn.mod
        k, size = self.tk(m, ty)
        if not is_lin(a):
            return
        self.observe(st, 'store', fr, x, addr=a, size=size, val=v, ty=ty)
        if k is None:
            t = m.resolve(ty)
            if t[0] == 's' and type(v) is Agg:
                offs = m.layout(t)[2]
                for o, e, w in zip(offs, t[1], v.v):
                    self.do_store(fr, st, x, add(a, C(o)), w, e)
                return
            self.havoc_obj(st, a, size)
            return
        self.store_raw(st, a, size, v)

    def memcpy(self, st, dst, src, n):
        """field-wise copy of what is known"""
        nc = st.const(n) if is_lin(n) else None
        if nc is not None and nc <= 4096 and is_lin(dst) and is_lin(src):
            items = []
            at, c = src[1], src[0]
            for k, v in list(st.mem.items()):
                if k[0] == at and k[1] is not None and c <= k[1] < c + nc:
                    items.append((k[1] - c, k[2], v))
            if nc in (1, 2, 4, 8) and not items:
                v = self.load_raw(st, src, nc, 'p' if nc == 8 else 'i')
                items.append((0, 'M', (nc, v)))
            elif nc <= 64 and nc % 4 == 0 and all(kd == 'M' for o, kd, v in items):
                # words of the source nothing is known about yet
                have = set()
                for o, kd, v in items:
                    have.update(range(o, o + v[0]))
                o = 0
                while o < nc:
                    if not any(q in have for q in range(o, o + 8)) and o % 8 == 0 and o + 8 <= nc:
                        items.append((o, 'M', (8, self.load_raw(st, add(src, C(o)), 8, 'p'))))
                        o += 8
                        continue
                    if not any(q in have for q in range(o, o + 4)):
                        items.append((o, 'M', (4, self.load_raw(st, add(src, C(o)), 4, 'i'))))
                    o += 4
            self.havoc_obj(st, dst, nc)
            for o, kd, v in items:
                if kd != 'Z':
                    self.store_raw(st, add(dst, C(o)), v[0], v[1], kd)
            if not items:
                pass
        elif is_lin(dst):
            self.havoc_obj(st, dst, nc)

    # ------------------------------------------------------------- calls
    def do_call(self, fr, env, st, x):
        """list of (val, st) | Out"""
        m = fr.fn.mod
        cal = x.a[0]
        if cal[0] == 'g':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(fr, env, st, x, name)
            args = [self.val(fr, env, v, t) for t, v in x.a[1] if t[0] != 'meta']
            f = self.prog.lookup(m, name)
            return self.call_sym(fr, st, x, name, f, args)
        if cal[0] == 'asm':
            return [(A('asm', fr.fn.name, x.res), st)]
        args = [self.val(fr, env, v, t) for t, v in x.a[1]]
        fv = self.val(fr, env, cal)
        return self.call_ptr(fr, st, x, fv, args)

    def call_ptr(self, fr, st, x, fv, args):
        a = single(fv) if is_lin(fv) else None
        if a is not None and a.kind == 'fnp':
            f = a.args[0]
            if isinstance(f, str):
                return self.call_sym(fr, st, x, f, None, args)
            return self.call_sym(fr, st, x, f.name, f, args)
        # virtual?
        info = self.vinfo(st, fv)
        if info is not None:
            cls, slot, obj = info
            if self.vcall:
                r = self.vcall(self, st, fr, x, cls, slot, args)
                if r is not None:
                    return r
            im = self.prog.impls(cls, slot) if isinstance(cls, str) else None
            im = {i for i in im if i[0] != '__cxa_pure_virtual'} if im else im
            if im and len(im) == 1:
                n, f = next(iter(im))
                if f is not None and self.prog.in_repo(f):
                    return self.call_sym(fr, st, x, n, f, args)
        h = self.find_hook('<indirect>')
        if h:
            r = h(self, st, fr, x, fv, args)
            if r is not None:
                return r
        return self.opaque_call(fr, st, x, '<indirect>', args, havoc=True)

    def vinfo(self, st, fv):
        """(class mangled typeid, slot) of a virtual callee term: load(load(obj)+8*slot)"""
        a = single(fv) if is_lin(fv) else None
        if a is None or a.kind != 'ld':
            return None
        addr = a.args[0]
        if len(addr[1]) != 1 or addr[1][0][1] != 1:
            return None
        vt = addr[1][0][0]
        cls = st.vt.get(vt)
        if cls is None:
            return None
        obj = vt.args[0] if vt.kind == 'ld' else None
        return cls, addr[0] // 8, obj

    def call_sym(self, fr, st, x, name, f, args):
        dem = self.prog.demangle(name)
        h = self.find_hook(dem)
        if h:
            r = h(self, st, fr, x, f, args)
            if r is not None:
                return r
        if name == '__assert_fail':
            return [self.assert_fail(fr, st, x, args)]
        if name == '__cxa_throw':
            ti = single(args[1])
            tn = ti.args[1] if ti is not None and ti.kind == 'glob' else str(args[1])
            if ti is not None and ti.kind == 'fnp':
                tn = ti.args[0] if isinstance(ti.args[0], str) else ti.args[0].name
            st.exn = (args[0], tn)
            return [Out('throw', None, st)]
        if name == '__cxa_rethrow':
            return [Out('throw', None, st)]
        if f is not None and (self.prog.in_repo(f)):
            if sum(g is f for g in self.stack) >= self.maxrec:
                return self.recursive(fr, st, x, f, args)
            return self.inline(f, args, st, x)
        import stdmodel
        r = stdmodel.model(self, st, fr, x, name, dem, f, args)
        if r is not None:
            return r
        if f is not None and stdmodel.inlinable(dem, f) and len(self.stack) < 30 and not any(g is f for g in self.stack):
            return self.inline(f, args, st, x)
        return self.opaque_call(fr, st, x, dem, args)

    def inline(self, f, args, st, x):
        saved = self.cur
        outs = self.call_fn(f, args, st)
        self.cur = saved
        res = []
        for o in outs:
            if o.kind == 'ret':
                res.append((o.val if o.val is not None else ZERO, o.st))
            else:
                res.append(o)
        return res

    def recursive(self, fr, st, x, f, args):
        st.emit('rec', f.dem, tuple(args), self.site())
        return self.opaque_call(fr, st, x, f.dem, args, havoc=True)

    def assert_fail(self, fr, st, x, args):
        msg = self.const_str(st, args[0]) or '?'
        st.emit('assert_fail', msg, self.site())
        return Out('abort', None, st)

    def site(self, x=None):
        fr, ins = self.cur
        return fr.fn.mod.loc(ins.dbg).replace(self.prog.repo + '/', '')

    def fresh(self, st, key):
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def opaque_call(self, fr, st, x, dem, args, havoc=False):
        self.opaque[dem] = self.opaque.get(dem, 0) + 1
        bn = base_name(dem)
        n = self.fresh(st, ('call', bn))
        targs = tuple(a if is_lin(a) else repr(a) for a in args)
        if havoc:
            self.havoc(st)
        else:
            # may write through pointer arguments to locals
            for a in args:
                if is_lin(a) and len(a[1]) == 1 and a[1][0][0].kind == 'al':
                    self.havoc_obj(st, a)
        if x.ty[0] == 'void':
            return [(ZERO, st)]
        t = fr.fn.mod.resolve(x.ty)
        if t[0] == 's':
            return [(Agg(A('call', bn, targs, n, i) for i in range(len(t[1]))), st)]
        if t == ('i', 1):
            return [(A('bool', bn, targs, n), st)]
        return [(A('call', bn, targs, n), st)]

    def intrinsic(self, fr, env, st, x, name):
        a = [self.val(fr, env, v, t) if t[0] != 'meta' else v for t, v in x.a[1]]
        n = name
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.observe(st, 'memcpy', fr, x, dst=a[0], src=a[1], n=a[2])
            self.memcpy(st, a[0], a[1], a[2])
            return [(ZERO, st)]
        if n.startswith('llvm.memset'):
            self.observe(st, 'memset', fr, x, dst=a[0], n=a[2], val=a[1])
            nc = st.const(a[2])
            if is_lin(a[0]):
                self.havoc_obj(st, a[0], nc)
                if a[1] == ZERO and nc is not None:
                    k = (a[0][1], None, 'Z')
                    st.mem[k] = tuple(st.mem.get(k, ())) + ((a[0][0], a[0][0] + nc, ZERO),)
            return [(ZERO, st)]
        if n == 'llvm.type.test':
            vt = single(a[0])
            md = a[1][1] if isinstance(a[1], tuple) else None
            if vt is not None and md:
                st.vt[vt] = md.strip('!"')
            return [(ONE, st)]
        if n in ('llvm.assume',):
            try:
                if is_lin(a[0]):
                    self.assume(st, a[0], True)
            except Infeasible:
                return []
            return [(ZERO, st)]
        if n == 'llvm.eh.typeid.for' or n.startswith('llvm.eh.typeid.for'):
            v = x.a[1][0][1]
            return [(C(self.tid(v[1])), st)]
        if n.startswith('llvm.va_') or n.startswith('llvm.lifetime') or n in ('llvm.trap', 'llvm.stackrestore', 'llvm.donothing'):
            return [(ZERO, st)]
        if n.startswith('llvm.stacksave'):
            return [(ZERO, st)]
        args = tuple(y if is_lin(y) else repr(y) for y in a)
        return [(A('fn', n, args), st)]


DISTINCT = {'al', 'glob', 'new', 'vdata', 'obj', 'sdata', 'arena', 'fnp', 'exn'}


def repr_key(t):
    if is_lin(t):
        return (len(t[1]), tuple((a.id, k) for a, k in t[1]), t[0])
    return ()


def repr_var(v):
    if v[0] == 'e':
        return v[1]
    return v[1]


def _keysub(addr, m, memo):
    r = subst(addr, m, memo)
    return r


def subst_trace(tr, m, memo):
    out = []
    for ev in tr:
        if ev[0] == 'loop':
            k = ev[1]
            kk = single(k) if is_lin(k) else None
            cnt = m.get(kk) if kk in m else None
            body = ev[2]
            m2 = m if cnt is None else {q: v for q, v in m.items() if q is not kk}
            if m2:
                body = tuple(subst_trace(b, m2, {}) for b in body)
            tail = ev[4:] if cnt is None else (cnt,)
            out.append(('loop', ev[1], body, ev[3]) + tuple(tail))
        else:
            out.append(tuple(T._subst_arg(y, m, memo) if not isinstance(y, str) else y for y in ev))
    return tuple(out)
