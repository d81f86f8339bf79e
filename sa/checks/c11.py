"""C11: garbage collection preserves every reachable value."""
import re
import eng as E
import frame, thr
from ir import Anchor
from terms import *

EXPLAIN = (
    'value_gc_t::trace is analysed for an arbitrary list with one arbitrary element per iteration, for every kind of value and '
    'both half spaces: a value outside the target space is replaced by a copy allocated in the target space with the same kind '
    'and payload (all characters of a string, all elements of an array), an array already moved by its recorded copy; an array '
    'is recorded before its elements are traced, and elements of new and of moved arrays are traced.  collect frees only the '
    'space that was left, gc_collect traces the globals and the stack of every thread and only then collects, no collection is '
    'reachable in the call graph from an instruction or a builtin, and no other member of a class holds values that survive a '
    'collection untraced.  Allocation never overlaps, and freeing the heap drops the globals.')

LIST, NUM = A('obj', 'LIST'), A('sym', 'num')
HDR = None


def owns_hook(eng, s, fr, x, f, a):
    out = []
    for r in (0, 1):
        t = s.copy()
        try:
            t.facts.eq0(sub(A('owns', a[0], a[1]), C(r)))
            if r:
                t.facts.ne0(a[1])
        except Infeasible:
            continue
        out.append((C(r), t))
    return out


class Gc:
    def __init__(self, ctx):
        self.P = ctx.P
        self.T = thr.Thr(ctx)
        self.V = self.T.V
        P = self.P
        self.o_ff = P.field('nano::value_gc_t', 'flipflop_')
        self.o_sp = P.field('nano::value_gc_t', 'space_')
        self.o_fw = P.field('nano::value_gc_t', 'forward_')
        self.asz = P.cls('nano::arena_t').size
        self.o_head = P.field('nano::arena_t', 'head_')
        self.hdr = P.cls('nano::value_t').size

    def arena(self, i):
        return add(self.V.gc, C(self.o_sp + i * self.asz))

    def fn(self, name):
        return self.T.fn(name)

    def state(self, e, ff):
        st = self.V.state(e)
        e.store_raw(st, add(self.V.gc, C(self.o_ff)), 4, C(ff))
        for i in (0, 1):
            h = A('sym', 'head%d' % i)
            st.facts.le0(scale(h, -1))
            st.facts.le0(sub(h, C(1 << 30)))
            e.store_raw(st, add(self.arena(i), C(self.o_head)), 8, h)
        return st


def feasible(st, t, c):
    s = st.facts.copy()
    try:
        s.eq0(sub(t, C(c)))
        return True
    except Infeasible:
        return False


def traces(ctx, R):
    g = Gc(ctx)
    for ff in (0, 1):
        trace1(g, R, ff)


def trace1(g, R, ff):
    V, P = g.V, g.P
    e = V.engine()
    e.join = False
    e.loopinfo = {}
    st = g.state(e, ff)
    to, frm = g.arena(1 - ff), g.arena(ff)
    e.hook('nano::arena_t::owns', owns_hook)

    def alloc(eng, s, fr, x, f, a):
        v = A('arena', eng.fresh(s, 'arena'))
        s.emit('alloc', v, a[0], a[1], eng.site())
        return [(v, s)]

    def trace(eng, s, fr, x, f, a):
        s.emit('trace', a[1], a[2], eng.site())
        return [(ZERO, s)]
    e.hook(re.compile(r'nano::arena_t::alloc<'), alloc)
    e.hook('nano::value_gc_t::trace', trace)

    def obs(eng, s, kind, fr, ins, kw):
        where = fr.fn.mod.loc(ins.dbg) or fr.fn.loc()
        if kind == 'memcpy':
            s.emit('copy', kw['dst'], kw['src'], kw['n'], where)
        elif kind == 'load' and is_lin(kw['addr']) and len(kw['addr'][1]) == 1 and kw['addr'][1][0][0].kind == 'node' and kw['size'] == 8:
            v = eng.load_raw(s, kw['addr'], 8, 'p')
            if is_lin(v):
                s.facts.ne0(v)      # only copies are recorded, never none (shown by the record rules below)
        elif kind == 'load' and is_lin(kw['addr']) and kw['size'] == 8 and recorded(kw['addr']) is not None and forwarded(s, recorded(kw['addr'])) == 1:
            v = eng.load_raw(s, kw['addr'], 8, 'p')
            if is_lin(v):
                s.facts.ne0(v)
        elif kind == 'load' and is_lin(kw['addr']) and len(kw['addr'][1]) == 1 and kw['addr'][1][0][0].kind in ('lv', 'ld') and kw['size'] == 4:
            s.emit('fld', kw['addr'], eng.load_raw(s, kw['addr'], 4, 'f' if kw['ty'][0] in ('f', 'float') else 'i'), where)
        elif kind == 'load' and is_lin(kw['addr']) and any(a is LIST[1][0][0] for a, _ in kw['addr'][1]):
            s.emit('elem', kw['addr'], eng.load_raw(s, kw['addr'], 8, 'p'), where)
        elif kind == 'store' and is_lin(kw['addr']):
            a = single(kw['addr'])
            if a is not None and a.kind == 'call' and a.args[0] == 'unordered_map[]':
                s.emit('fwd', a.args[-1], kw['val'], where)
            elif any(x is LIST[1][0][0] for x, _ in kw['addr'][1]):
                s.emit('put', kw['addr'], kw['val'], where)
            elif any(x.kind == 'arena' for x, _ in kw['addr'][1]) or len(kw['addr'][1]) == 1 and kw['addr'][1][0][0].kind in ('ld', 'lv'):
                s.emit('set', kw['addr'], kw['val'], where)
        elif kind == 'cont' and kw['cont'] == 'unordered_map' and kw['meth'] not in ('find', 'end', 'count', 'operator[]', 'begin', 'size', 'empty'):
            s.emit('map', kw['meth'], where)
    e.obs.append(obs)
    f = [x for x in P.find('nano::value_gc_t::trace') if P.in_repo(x)]
    if not f:
        raise Anchor('value_gc_t::trace')
    f = f[0]
    R.fn(f)
    st.facts.le0(scale(NUM, -1))
    st.facts.le0(sub(NUM, C(1 << 40)))
    outs = e.call_fn(f, [V.gc, LIST, NUM], st)
    seen = set()
    K = None
    nback = 0
    for hv, (init, backs, k, var) in e.loopinfo.items():
        for v, s in backs:
            if id(s) in seen:
                continue
            seen.add(id(s))
            nback += 1
            K = k
            element(g, R, f, s, k, to, frm, ff)
    R.floor('ways round the trace loop', nback, 8)
    for o in outs:
        if o.kind == 'abort' and not o.st.facts.lossy:
            el = [t for t in o.st.trace if t[0] == 'elem']
            if el and by_count(o.st, el[0][2]) == 1 and by_find(o.st, el[0][2]) is None:
                R.bad('trace:abort', f.loc(), 'tracing gives up on an array that was moved before')
        if o.kind != 'ret' or K is None:
            continue
        if o.st.facts.lossy:
            R.undecided('trace', 'exit')
            continue
        s = o.st.facts.copy()
        n = next((t[4] for t in o.st.trace if t[0] == 'loop' and len(t) > 4), K)
        try:
            s.le0(sub(add(n, ONE), NUM))
        except Infeasible:
            R.ok('every element of the list is visited')
            continue
        if any(x[0] == 'elem' for x in o.st.trace):
            R.bad('trace:early', f.loc(), 'tracing a list can stop before its last element')
        else:
            R.undecided('trace', 'exit')


def first(tr, addr):
    return next((t[2] for t in tr if t[0] == 'fld' and t[1] == addr), None)


def last(tr, addr):
    l = [t for t in tr if t[0] == 'set' and t[1] == addr]
    return (4, l[-1][2]) if l else None


def element(g, R, f, s, K, to, frm, ff):
    V = g.V
    tr = s.trace
    el = [t for t in tr if t[0] == 'elem']
    if s.facts.lossy:
        R.undecided('trace', 'joined paths')
        return
    if not el:
        R.bad('trace:skip', f.loc(), 'an element of a traced list is not looked at')
        return
    cell, v0 = el[0][1], el[0][2]
    if cell != add(LIST, scale(K, 8)):
        R.undecided('trace', 'element address %s' % show(cell))
        return
    m = s.mem.get((cell[1], cell[0], 'M'))
    new = m[1] if m else v0
    where = f.loc()
    owned = s.const(A('owns', to, v0))
    if s.const(v0) == 0:
        if s.const(new) == 0:
            R.ok('none stays none')
        else:
            R.bad('trace:none', where, 'none is changed by a collection')
        return
    typ, pay = first(tr, add(v0, C(V.o_type))), first(tr, add(v0, C(V.o_v)))
    pay = (4, pay) if pay is not None else None
    kinds = [k for k in V.KINDS if k != 'none' and (typ is None or feasible(s, typ, V.VT['val_type_' + k]))]
    find = A('call', 'unordered_map.find', add(V.gc, C(g.o_fw)), None)
    fwd = forwarded(s, v0)
    for k in kinds:
        if owned == 1:
            if new != v0:
                R.bad('trace:moved', where, 'a value already in the target space is replaced')
                continue
            if k == 'array':
                recursion(g, R, f, s, v0, v0, fwd, 'a new array')
            else:
                R.ok('new value left alone')
            continue
        if owned is None and s.const(A('owns', frm, v0)) != 1:
            R.undecided('trace', 'space of the value')
            continue
        if new == v0:
            R.bad('trace:stays', where, 'a reachable %s is left in the space that is freed' % k)
            continue
        a = single(new)
        if k == 'array' and fwd == 1 and a is not None and a.kind == 'ld' and any(
                x.kind == 'node' for x in atoms_of(a.args[0])):
            if any(x.kind == 'call' and x.args[0] == 'unordered_map.find' and v0 in x.args[-1] for x in atoms_of(a)):
                R.ok('moved array replaced by its copy')
            else:
                R.undecided('trace', 'recorded copy')
            continue
        if k == 'array' and fwd == 1 and a is not None and a.kind == 'ld' and recorded(a.args[0]) is not None:
            if recorded(a.args[0]) == v0:
                R.ok('moved array replaced by its copy')
            else:
                R.undecided('trace', 'recorded copy')
            continue
        al = [t for t in tr if t[0] == 'alloc' and t[1] == new]
        if not al:
            R.undecided('trace', 'replacement %s' % show(new))
            continue
        if al[0][2] == frm:
            R.bad('trace:space', al[0][4], 'a %s is copied into the space that is freed' % k)
            continue
        if al[0][2] != to:
            R.undecided('trace', 'space')
            continue
        extra = al[0][3]
        nt, nv = (s.mem.get((new[1], new[0] + q, 'M')) or last(tr, add(new, C(q))) for q in (V.o_type, V.o_v))
        t0 = typ if typ is not None else None
        if nt is None:
            R.bad('trace:kind', al[0][4], 'the copy of a %s has no kind' % k)
            continue
        s2 = s.copy()
        try:
            if typ is not None:
                s2.facts.eq0(sub(typ, C(V.VT['val_type_' + k])))
        except Infeasible:
            continue
        if s2.const(nt[1]) == V.VT['val_type_' + k]:
            R.ok('kind copied')
        elif s2.const(nt[1]) is not None:
            R.bad('trace:kind', al[0][4], 'the copy of a %s has another kind' % k)
            continue
        else:
            R.undecided('trace', 'kind of the copy')
        if nv is None:
            R.bad('trace:value', al[0][4], 'the value of a %s is not copied' % k)
            continue
        if not samepay(nv[1], pay[1] if pay else None, v0, V.o_v):
            if nv[1] is not None and is_lin(nv[1]) and s2.const(nv[1]) is not None or pay and is_lin(nv[1]) and s2.const(sub(nv[1], pay[1])) not in (None, 0) \
                    or converted(nv[1], pay, v0, V.o_v):
                R.bad('trace:value', al[0][4], 'the copy of a %s has another value' % k)
            else:
                R.undecided('trace', 'value of the copy')
            continue
        R.ok('value copied')
        if k == 'string':
            n = add(pay[1], ONE) if pay else None
            cp = [t for t in tr if t[0] == 'copy' and t[1] == add(new, C(g.hdr)) and t[2] == add(v0, C(g.hdr))]
            if n is None:
                R.undecided('trace', 'string length')
                continue
            if s.const(sub(extra, n)) is not None and s.const(sub(extra, n)) < 0:
                R.bad('trace:room', al[0][4], 'too little room is reserved for the copy of a string')
                continue
            term = [t for t in tr if t[0] == 'set' and t[1] == add(add(new, C(g.hdr)), pay[1]) and s.const(t[2]) == 0]
            d = s.const(sub(cp[0][3], n)) if cp else None
            if cp and d is not None and (d >= 0 or d == -1 and term):
                R.ok('all characters copied')
            elif cp and d is not None:
                R.bad('trace:chars', cp[0][4], 'not all characters of a string are copied')
            elif not [t for t in tr if t[0] == 'copy'] and not any(t[0] == 'loop' for t in tr):
                R.bad('trace:chars', al[0][4], 'the characters of a string are not copied')
            else:
                R.undecided('trace', 'characters')
        elif k == 'array':
            n = scale(pay[1], 8) if pay else None
            if n is None:
                R.undecided('trace', 'array size')
                continue
            d = s.const(sub(extra, n))
            if d is not None and d < 0:
                R.bad('trace:room', al[0][4], 'too little room is reserved for the copy of an array')
                continue
            if d is None:
                R.undecided('trace', 'room for the array')
            cp = [t for t in tr if t[0] == 'copy' and t[1] == add(new, C(g.hdr)) and t[2] == add(v0, C(g.hdr))]
            d = s.const(sub(cp[0][3], n)) if cp else None
            if cp and d == 0:
                R.ok('all elements copied')
            elif cp and d is not None and d < 0 or (cp and is_lin(cp[0][3]) and cp[0][3] == pay[1]):
                R.bad('trace:elements', cp[0][4], 'not all elements of an array are copied')
                continue
            elif not cp and not any(t[0] in ('loop', 'copy') for t in tr):
                R.bad('trace:elements', al[0][4], 'the elements of an array are not copied')
                continue
            else:
                R.undecided('trace', 'elements')
            if fwd is None:
                R.bad('trace:share', al[0][4], 'an array is moved without looking whether it was moved before: a shared array is duplicated')
                continue
            if fwd == 1:
                R.bad('trace:share', al[0][4], 'an array that was moved before is copied again: a shared array is duplicated')
                continue
            recursion(g, R, f, s, v0, new, fwd, 'a moved array')


def recorded(addr):
    """the key of the record an address belongs to, read with []"""
    a = single(addr) if is_lin(addr) else None
    return a.args[-1] if a is not None and a.kind == 'call' and a.args[0] == 'unordered_map[]' else None


def forwarded(s, v0):
    """is v0 recorded as moved on this path: 1, 0, None (not looked up)"""
    r = by_find(s, v0)
    if r is None:
        r = by_count(s, v0)
    return r


def looked(s, v0, kind):
    for fm in s.facts.d:
        for x, _ in fm:
            for a in atoms_of(x):
                if a.kind == kind and isinstance(a.args[-1], tuple) and v0 in a.args[-1]:
                    yield a


def known(s, d):
    if s.const(d) == 0:
        return 0
    c = s.facts.copy()
    try:
        c.eq0(d)
    except Infeasible:
        return 1
    return None


def by_find(s, v0):
    for a in looked(s, v0, 'call'):
        if a.args[0] == 'unordered_map.find':
            r = known(s, sub((0, ((a, 1),)), A('call', 'unordered_map.end', a.args[1], a.args[2])))
            if r is not None:
                return r
    return None


def by_count(s, v0):
    for a in looked(s, v0, 'cnt'):
        if a.args[0] == 'unordered_map':
            r = known(s, (0, ((a, 1),)))
            if r is not None:
                return r
    return None


def recursion(g, R, f, s, v0, new, fwd, what):
    """elements of `new` traced, after v0 was recorded"""
    tr = s.trace
    pay = first(tr, add(v0, C(g.V.o_v)))
    pay = (4, pay) if pay is not None else None
    rec = [i for i, t in enumerate(tr) if t[0] == 'trace' and t[1] == add(new, C(g.hdr))]
    fw = [i for i, t in enumerate(tr) if t[0] == 'fwd' and t[1] == v0]
    if fwd == 1:
        if rec:
            R.undecided('trace', 'elements traced again')
        else:
            R.ok('array traced before')
        return
    if any(t[0] == 'map' for t in tr):
        R.undecided('trace', 'record of moved arrays')
        return
    if not rec:
        other = [t for t in tr if t[0] == 'trace']
        if other and other[0][1] == add(v0, C(g.hdr)) and new != v0:
            R.bad('trace:oldelems', other[0][3], 'the elements of the freed array are traced instead of those of its copy')
        elif other or any(t[0] == 'loop' for t in tr):
            R.undecided('trace', 'elements of %s' % what)
        else:
            R.bad('trace:elems', f.loc(), 'the elements of %s are not traced' % what)
        return
    t = tr[rec[0]]
    n = t[2]
    d = s.const(sub(n, pay[1])) if pay and is_lin(n) else None
    if d == 0:
        R.ok('all elements traced')
    elif d is not None:
        R.bad('trace:count', t[3], '%d element(s) of %s too %s are traced' % (abs(d), what, 'few' if d < 0 else 'many'))
    else:
        R.undecided('trace', 'number of elements traced')
    if not fw:
        R.bad('trace:record', t[3], 'the elements of %s are traced without recording it: a cyclic or shared array is not preserved' % what)
    elif fw[0] > rec[0]:
        R.bad('trace:order', t[3], 'the elements of %s are traced before it is recorded: a cyclic array is traced for ever' % what)
    elif tr[fw[0]][2] == new:
        R.ok('array recorded before its elements')
    elif is_lin(tr[fw[0]][2]) and tr[fw[0]][2] == v0:
        R.bad('trace:recval', tr[fw[0]][3], 'a moved array is recorded as itself: later references keep the freed one')
    else:
        R.undecided('trace', 'recorded copy')


CONV = ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'i2f', 'f2i', 'u2f', 'f2u', 'cvt')


def converted(nv, pay, v0, off):
    """the payload after a conversion between integer and floating point"""
    a = single(nv) if is_lin(nv) else nv
    if getattr(a, 'kind', None) not in CONV:
        return False
    return any(x.kind == 'ld' and x.args[0] == add(v0, C(off)) for x in atoms_of(nv)) or bool(pay and atoms_of(pay[1]) & atoms_of(nv))


def samepay(nv, pv, v0, off):
    if pv is not None and nv == pv:
        return True
    a = single(nv) if is_lin(nv) else nv
    return getattr(a, 'kind', None) == 'ld' and a.args[0] == add(v0, C(off))


def collects(ctx, R):
    g = Gc(ctx)
    V = g.V
    f = g.fn('nano::value_gc_t::collect')
    R.fn(f)
    for ff in (0, 1):
        e = V.engine()
        e.hooks = [h for h in e.hooks if h[0] != 'nano::value_gc_t::collect'] if isinstance(e.hooks, list) else {
            k: h for k, h in e.hooks.items() if k != 'nano::value_gc_t::collect'}
        e.join = False
        st = g.state(e, ff)

        def obs(eng, s, kind, fr, ins, kw):
            if kind == 'cont' and kw['obj'] == add(V.gc, C(g.o_fw)):
                s.emit('fw', kw['meth'])
        e.obs.append(obs)
        for o in e.call_fn(f, [V.gc], st):
            if o.kind != 'ret' or o.st.facts.lossy:
                R.undecided('collect', o.kind)
                continue
            s = o.st
            nf = V.get(s, add(V.gc, C(g.o_ff)), 4)
            nf = s.const(nf) if nf is not None else None
            hd = [V.get(s, add(g.arena(i), C(g.o_head)), 8) for i in (0, 1)]
            if nf is None or None in hd:
                R.undecided('collect', 'state')
                continue
            # survivors were put into the target space 1 - ff
            if hd[1 - ff] != A('sym', 'head%d' % (1 - ff)):
                R.bad('collect:live', f.loc(), 'a collection frees the space that holds the surviving values')
            elif nf & 1 == ff:
                R.bad('collect:swap', f.loc(), 'a collection does not exchange the spaces')
            else:
                R.ok('spaces exchanged, survivors kept')
            if s.const(hd[ff]) == 0:
                R.ok('the other space is empty')
            elif hd[ff] == A('sym', 'head%d' % ff):
                R.bad('collect:full', f.loc(), 'a collection does not free the space that was left')
            else:
                R.undecided('collect', 'freed space')
            if any(t[0] == 'fw' and t[1] in ('clear', 'operator=', 'swap') for t in s.trace):
                R.ok('records of moved arrays dropped')
            elif not any(t[0] == 'fw' for t in s.trace):
                R.bad('collect:records', f.loc(), 'records of moved arrays survive the collection and name freed values')
            else:
                R.undecided('collect', 'records')


def roots(ctx, R):
    from checks import c20
    g = Gc(ctx)
    V, P = g.V, g.P
    L = c20.Lst(ctx)
    o_g = P.field('nano::vm_t', 'g_')
    o_vmgc = P.field('nano::vm_t', 'gc_')
    e = V.engine()
    e.join = False
    e.loopinfo = {}
    e.hooks = {k: h for k, h in e.hooks.items() if k != 'nano::vm_t::gc_collect'} if isinstance(e.hooks, dict) else [
        h for h in e.hooks if h[0] != 'nano::vm_t::gc_collect']
    st = V.state(e)
    e.store_raw(st, add(c20.VM, C(o_vmgc)), 8, V.gc)

    def trace(eng, s, fr, x, f, a):
        s.emit('trace', a[0], a[1], a[2], eng.site())
        return [(ZERO, s)]

    def collect(eng, s, fr, x, f, a):
        s.emit('collect', a[0], eng.site())
        return [(ZERO, s)]
    e.hook('nano::value_gc_t::trace', trace)
    e.hook('nano::value_gc_t::collect', collect)
    fs = [f for f in P.find('nano::vm_t::gc_collect') if P.in_repo(f)]
    if not fs:
        raise Anchor('vm_t::gc_collect')
    f = fs[0]
    R.fn(f)
    outs = e.call_fn(f, [c20.VM], st)
    gv = add(c20.VM, C(o_g))
    ls = L.loops(e)
    if not ls:
        R.undecided('gc_collect', 'no loop over the threads')
    for hv, backs in ls:
        isp = L.ptr(hv)
        for v, s in backs:
            if s.facts.lossy:
                R.undecided('gc_collect', 'joined paths')
                continue
            if is_lin(v) and v != A('next', hv):
                R.bad('gc_collect:skip', f.loc(), 'a collection skips threads') if v == A('next', A('next', hv)) else R.undecided('gc_collect', 'next thread')
                continue
            t = [x for x in s.trace if x[0] == 'trace']
            if not t:
                if c20.null(s, hv):
                    continue
                R.bad('gc_collect:thread', f.loc(), 'the stack of a thread is not traced')
                continue
            ok = None
            for x in t:
                a, n = x[2], x[3]
                va, vn = single(a), single(n)
                if va is not None and va.kind == 'vdata' and vn is not None and vn.kind == 'vsize' and vn.args[0] == va.args[0]:
                    base = va.args[0]
                    if len(base[1]) == 1 and isp((0, base[1])) and base[0] == V.o_stack + stackoff(V):
                        ok = True
                elif va is not None and va.kind == 'vdata':
                    base = va.args[0]
                    if is_lin(n) and n[1] and any(y.kind == 'vsize' and y.args[0] == base for y, _ in n[1]) and s.const(sub(n, A('vsize', base, next(y for y, _ in n[1] if y.kind == 'vsize').args[1]))) is not None:
                        ok = False
            if ok:
                R.ok('stack of every thread traced')
            elif ok is False:
                R.bad('gc_collect:short', t[0][4], 'not the whole stack of a thread is traced')
            else:
                R.undecided('gc_collect', 'list traced %s %s' % (show(t[0][2]), show(t[0][3])))
    for o in outs:
        if o.kind != 'ret' or o.st.facts.lossy:
            R.undecided('gc_collect', o.kind)
            continue
        tr = o.st.trace
        ci = [i for i, t in enumerate(tr) if t[0] == 'collect']
        li = [i for i, t in enumerate(tr) if t[0] == 'loop']
        gi = [i for i, t in enumerate(tr) if t[0] == 'trace' and single(t[2]) is not None and single(t[2]).kind == 'vdata' and single(t[2]).args[0] == gv]
        empty = o.st.const(A('vsize', gv, (0, 0))) == 0
        if not ci:
            R.bad('gc_collect:none', f.loc(), 'gc_collect does not collect')
        elif len(ci) > 1:
            R.bad('gc_collect:twice', tr[ci[1]][2], 'the spaces are exchanged twice: everything reachable is freed')
        elif any(i > ci[0] for i in li + gi):
            R.bad('gc_collect:order', tr[ci[0]][2], 'the heap is collected before everything reachable was traced')
        else:
            R.ok('collected after tracing')
        if not gi and not empty:
            if any(t[0] == 'trace' for t in tr):
                R.undecided('gc_collect', 'globals')
            else:
                R.bad('gc_collect:globals', f.loc(), 'the globals are not traced')
        elif gi:
            n = tr[gi[0]][3]
            a = single(n)
            if a is not None and a.kind == 'vsize' and a.args[0] == gv:
                R.ok('all globals traced')
            elif is_lin(n) and any(x.kind == 'vsize' and x.args[0] == gv for x, _ in n[1]) and n[0] < 0:
                R.bad('gc_collect:short', tr[gi[0]][4], 'not all globals are traced')
            else:
                R.undecided('gc_collect', 'number of globals')


def stackoff(V):
    return V.stackvec[0] - V.th[0] - V.o_stack


def arena(ctx, R):
    g = Gc(ctx)
    V, P = g.V, g.P
    ar = A('obj', 'AR')
    h = A('sym', 'head')
    x = A('sym', 'extra')
    o_data = P.field('nano::arena_t', 'data_')
    cap = P.cls('nano::arena_t').fields['data_'][1]
    fs = [f for d, l in P.by_dem.items() for f in l if 'nano::arena_t::alloc<nano::value_t>' in d and P.in_repo(f)]
    if not fs:
        raise Anchor('arena_t::alloc')
    f = fs[0]
    R.fn(f)
    e = E.Engine(P)
    e.join = False
    st = V.state(e)
    for t in (h, x):
        st.facts.le0(scale(t, -1))
        st.facts.le0(sub(t, C(1 << 30)))
    st.facts.le0(sub(h, C(cap)))
    e.store_raw(st, add(ar, C(g.o_head)), 8, h)
    for o in e.call_fn(f, [ar, x], st):
        if o.kind != 'ret' or o.st.facts.lossy:
            continue
        s = o.st
        nh = V.get(s, add(ar, C(g.o_head)), 8)
        if s.const(o.val) == 0:
            R.ok('no room, no value') if nh == h else R.undecided('alloc', 'failed allocation')
            continue
        use = add(C(g.hdr), x)
        if o.val != add(add(ar, C(o_data)), h):
            R.undecided('alloc', 'address')
            continue
        t = s.facts.copy()
        try:
            t.le0(sub(add(C(cap), ONE), add(h, use)))
            R.bad('alloc:past', f.loc(), 'a value can be allocated past the end of its space')
        except Infeasible:
            R.ok('value inside its space')
        d = s.const(sub(nh, add(h, use))) if nh is not None else None
        if d is not None and d < 0 or nh == h:
            R.bad('alloc:overlap', f.loc(), 'values allocated one after the other overlap')
        elif d is not None:
            R.ok('values do not overlap')
        else:
            t = s.facts.copy()
            try:
                t.le0(sub(add(nh, ONE), add(h, use)))
                if single(sub(nh, h)) is not None or not sub(nh, h)[1]:
                    R.bad('alloc:overlap', f.loc(), 'values allocated one after the other overlap')
                else:
                    R.undecided('alloc', 'size reserved')
            except Infeasible:
                R.ok('values do not overlap')
    for n in (0, 1, 3, 5, 8, 13, 24):
        e = E.Engine(P)
        st = V.state(e)
        e.store_raw(st, add(ar, C(g.o_head)), 8, C(64))
        for o in e.call_fn(f, [ar, C(n)], st):
            nh = V.get(o.st, add(ar, C(g.o_head)), 8)
            if o.kind != 'ret' or o.st.const(o.val) == 0 or nh is None or o.st.const(nh) is None:
                continue
            if o.st.const(nh) < 64 + g.hdr + n:
                R.bad('alloc:overlap', f.loc(), 'values allocated one after the other overlap')
            else:
                R.ok('values do not overlap')
    fs = [f for f in P.find('nano::arena_t::owns') if P.in_repo(f)]
    o_s, o_e = (P.cls('nano::arena_t').fields.get(k, (None,))[0] for k in ('start_', 'end_'))
    for f in fs[:1]:
        R.fn(f)
        e = E.Engine(P)
        e.join = False
        st = V.state(e)
        base = add(ar, C(o_data))
        if o_s is not None and o_e is not None:
            e.store_raw(st, add(ar, C(o_s)), 8, base)
            e.store_raw(st, add(ar, C(o_e)), 8, add(base, C(cap)))
        d = A('sym', 'delta')
        for lo, hi, want in ((0, cap - 8, 1), (cap, cap + (1 << 20), 0), (-(1 << 20), -1, 0)):
            s0 = st.copy()
            s0.facts.le0(sub(C(lo), d))
            s0.facts.le0(sub(d, C(hi)))
            for o in e.call_fn(f, [ar, add(base, d)], s0):
                v = o.st.const(o.val) if o.kind == 'ret' and is_lin(o.val) else None
                if v is None or o.st.facts.lossy:
                    R.undecided('owns', 'result')
                elif bool(v) == bool(want):
                    R.ok('space of an address')
                else:
                    R.bad('owns', f.loc(), 'an address %s a space is taken to be %s it' % (('inside', 'outside') if want else ('outside', 'inside')))


def copies(ctx, R):
    """value_gc_t::copy"""
    g = Gc(ctx)
    V, P = g.V, g.P
    f = g.fn('nano::value_gc_t::copy')
    R.fn(f)
    for k in V.KINDS:
        e = V.engine()
        e.join = False
        st = g.state(e, 0)

        def obs(eng, s, kind, fr, ins, kw):
            if kind == 'memcpy':
                s.emit('copy', kw['dst'], kw['src'], kw['n'])
            elif kind == 'store' and is_lin(kw['addr']) and len(kw['addr'][1]) >= 1 and kw['addr'][1][0][0].kind == 'arena' or (
                    kind == 'store' and is_lin(kw['addr']) and any(a.kind == 'arena' for a, _ in kw['addr'][1])):
                s.emit('set', kw['addr'], kw['val'])
        e.obs.append(obs)
        v0 = V.mkval(e, st, A('obj', 'SRC'), k)
        for o in e.call_fn(f, [V.gc, v0], st):
            if o.kind != 'ret':
                R.undecided('copy', '%s: %s' % (k, o.kind))
                continue
            s = o.st
            if k in ('none', 'array'):
                if o.val == v0:
                    R.ok('reference or none copied')
                else:
                    R.bad('copy:' + k, f.loc(), 'the copy of %s is something else' % k)
                continue
            nt = V.get(s, add(o.val, C(V.o_type)), 4)
            nv = V.get(s, add(o.val, C(V.o_v)), 4)
            p0 = V.get(s, add(v0, C(V.o_v)), 4)
            if o.val == v0:
                R.undecided('copy', 'shared %s' % k)
            elif s.const(o.val) == 0 or nt is not None and s.const(nt) not in (None, V.VT['val_type_' + k]):
                R.bad('copy:' + k, f.loc(), 'the copy of a %s has another kind' % k)
            elif nt is None or nv is None:
                R.undecided('copy', k)
            elif not samepay(nv, p0, v0, V.o_v):
                R.bad('copy:' + k, f.loc(), 'the copy of a %s has another value' % k) if is_lin(nv) and (
                    s.const(nv) is not None or is_lin(p0) and s.const(sub(nv, p0)) is not None) else R.undecided('copy', k)
            else:
                R.ok('value copied')
                if k == 'string':
                    cp = [t for t in s.trace if t[0] == 'copy' and t[1] == add(o.val, C(g.hdr)) and t[2] == add(v0, C(g.hdr))]
                    d = s.const(sub(cp[0][3], p0)) if cp else None
                    z = [t for t in s.trace if t[0] == 'set' and t[1] == add(add(o.val, C(g.hdr)), p0) and s.const(t[2]) == 0]
                    if cp and d is not None and (d >= 1 or d == 0 and z):
                        R.ok('characters copied')
                    elif cp and d is not None or not [t for t in s.trace if t[0] in ('copy', 'loop')]:
                        R.bad('copy:chars', f.loc(), 'the characters of a string are not all copied')
                    else:
                        R.undecided('copy', 'characters')


def between(ctx, R):
    """no collection inside an instruction or builtin: call graph"""
    P = ctx.P
    V = ctx.vm()
    goal = {'nano::value_gc_t::collect', 'nano::value_gc_t::trace', 'nano::vm_t::gc_collect'}
    start = [V.entry()]
    o_sys = None
    for d, l in P.by_dem.items():
        if re.match(r'(?:nano::)?(?:\(anonymous namespace\)::)?builtin_\w+\(nano::thread_t&, int\)', d) or re.search(r'builtin_\w+\(nano::thread_t&, int\)', d):
            start += [f for f in l if P.in_repo(f)]
    seen = {}
    work = list(start)
    for f in work:
        seen[f] = None
    n = 0
    while work:
        f = work.pop()
        n += 1
        for ins, g in calls(P, f):
            b = g.dem.split('(')[0]
            if b in goal:
                path = []
                x = f
                while x is not None:
                    path.append(x.dem.split('(')[0])
                    x = seen[x]
                R.bad('between', f.mod.loc(ins.dbg) or f.loc(), 'a collection can happen inside an instruction: ' + ' <- '.join([b] + path))
                return
            if P.in_repo(g) and g not in seen:
                seen[g] = f
                work.append(g)
    R.floor('functions reachable from an instruction', n, 40)
    R.floor('builtins', len(start) - 1, 10)
    R.ok('no collection reachable from an instruction or builtin')


def calls(P, f):
    f.parse()
    for b in f.blocks.values():
        for ins in b.ins:
            if ins.op in ('call', 'invoke') and ins.a and ins.a[0][0] == 'g':
                g = P.lookup(f.mod, ins.a[0][1])
                if g is not None:
                    yield ins, g


def holders(ctx, R):
    """members that hold values across instructions: only traced ones"""
    P = ctx.P
    known = {('nano::vm_t', 'g_'), ('nano::value_stack_t', 'stack_'), ('nano::value_gc_t', 'forward_')}
    n = 0
    for q, c in P.classes().items():
        if not q.startswith('nano::'):
            continue
        for nm, fld in c.fields.items():
            t = typename(P, c.mod, fld[2])
            if t and re.search(r'\bvalue_t \*|\bvalue_t\s*\*|nano::value_t\*', t):
                n += 1
                if (q, nm) in known:
                    R.ok('holder of values is traced')
                elif q in ('nano::vm_t', 'nano::thread_t', 'nano::value_stack_t', 'nano::frame_t') or 'thread_t' in q:
                    R.undecided('holder %s::%s' % (q, nm), 'another member holds values')
    R.floor('members holding values', n, 2)


def typename(P, mod, ref, depth=0):
    d = mod.md(ref) if ref is not None else {}
    if not d or depth > 6:
        return ''
    if d.get('tag') in ('DW_TAG_pointer_type',):
        return typename(P, mod, d.get('baseType'), depth + 1) + ' *'
    if 'name' in d:
        r = d['name']
        return r
    if 'baseType' in d:
        return typename(P, mod, d['baseType'], depth + 1)
    return ''


def resets(ctx, R):
    """freeing the heap drops the globals"""
    from checks import c20
    g = Gc(ctx)
    V, P = g.V, g.P
    gv = add(c20.VM, C(P.field('nano::vm_t', 'g_')))
    e = V.engine()
    e.join = False
    st = V.state(e)
    e.store_raw(st, add(c20.VM, C(P.field('nano::vm_t', 'gc_'))), 8, V.gc)

    def reset(eng, s, fr, x, f, a):
        s.emit('gcreset', eng.site())
        return [(ZERO, s)]
    e.hook('nano::value_gc_t::reset', reset)
    e.hook('nano::thread_t::~thread_t', lambda eng, s, fr, x, f, a: [(ZERO, s)])
    f = g.fn('nano::vm_t::reset')
    R.fn(f)
    for o in e.call_fn(f, [c20.VM], st):
        if o.kind != 'ret':
            continue
        freed = [t for t in thr.flat(o.st.trace) if t[0] == 'gcreset']
        n = o.st.mem.get((gv[1], gv[0], 'N'))
        if not freed:
            R.ok('heap kept')
        elif n and o.st.const(n[1]) == 0:
            R.ok('globals dropped with the heap')
        elif n is None and not o.st.facts.lossy:
            R.bad('reset:globals', freed[0][1], 'the heap is freed but the globals go on referring to it')
        else:
            R.undecided('reset', 'globals')


def run(ctx, R):
    for r in (traces, collects, roots, arena, copies, between, holders, resets):
        frame.guard(R, r, ctx, R)
