"""C07: array and string element access is bounds-checked and exact."""
import itertools
from terms import *
import nodespec, insem, opsem
from insem import same, eff, handler, paths, flat, exact_atom
from opsem import const_of

EXPLAIN = (
    'DEREF, SETA, ARY_INIT and the array length member are analysed in the interpreter for every combination of '
    'operand kinds: on every path that succeeds the index is proved to lie in [0, n) and the element address is '
    'exactly base + header + index*size; every path that raises a bounds error is proved to have an index outside; '
    'failing paths write nothing.  The code emitted for element reads, element writes and array literals is composed '
    'with these operand roles.  Allocation sizes of arrays and strings are compared with the largest element index.')

KINDS = insem.KINDS


def run(ctx, R):
    S = eff(ctx)
    V = S.V
    n = nodespec.decide(ctx, R, 'C07')
    R.floor('array constructs', n, 3)
    V.o_elem = S.P.cls('nano::value_t').size
    reads(S, R)
    writes(S, R)
    init(S, R)
    length(S, R)
    allocs(S, R)


def inside(st, i, n):
    """is 0 <= i < n implied (True), contradicted (False), or open (None)"""
    s1, s2, s3 = st.copy(), st.copy(), st.copy()
    lo = hi = ok = True
    try:
        s1.facts.le0(add(i, ONE))
    except Infeasible:
        lo = False
    try:
        s2.facts.le0(sub(n, i))
    except Infeasible:
        hi = False
    try:
        s3.facts.le0(scale(i, -1))
        s3.facts.le0(sub(add(i, ONE), n))
    except Infeasible:
        ok = False
    if not lo and not hi:
        return True
    if not ok:
        return False
    # open: only believed if everything known about the index and the length is a plain linear fact
    mine = set(atoms_of(i)) | set(atoms_of(n))
    for form in st.facts.d:
        if mine & set(atoms_of((0, form))) and not all(insem.exact_atom(a) or a.kind == 'cmp' for a, _ in form):
            return 'unclear'
    return None


def elem_kind(V, st, elem):
    """kind established for an element on this path: a kind, None (never examined), -1 (examined, several left)"""
    want = add(elem, C(V.o_type))
    seen = False
    for form in st.facts.d:
        for a, _ in form:
            for b in [a] + list(atoms_of((0, ((a, 1),)))):
                if b.kind == 'ld' and b.args[0] == want:
                    seen = True
                    c = const_of(st, (0, ((b, 1),)))
                    if c is not None:
                        return c
    return -1 if seen else None


def err_expect(S, kind, ikind, store):
    E = S.ERR
    out = set()
    if store:
        if kind != 'array':
            out.add(E['e_bad_array_object'])
    else:
        if kind == 'none':
            out.add(E['e_bad_array_object'])
        elif kind not in ('array', 'string'):
            out |= {E['e_bad_type_operation'], E['e_bad_array_object']}
    if ikind != 'int':
        out.add(E['e_bad_array_index'])
    return out


def reads(S, R):
    V = S.V
    op = 'INS_DEREF'
    w = handler(S, op)
    hdr = V.o_elem
    for ks in itertools.product(KINDS, repeat=2):
        e, res, ts = S.case(op, ks)
        for f in e.fns_seen:
            if S.P.in_repo(f):
                R.fn(f)
        key = '%s %s[%s]' % (op, ks[0], ks[1])
        want = err_expect(S, ks[0], ks[1], False)
        good = bnd = 0
        for r in paths(R, S, op, res, key):
            st = r['st']
            if r['err'] is None:
                R.undecided(key, 'error state')
                continue
            if want:
                if r['err'] == 0:
                    R.bad(key, w, 'reading element %s of a %s value raises no error' % (ks[1], ks[0]))
                elif r['err'] not in want:
                    R.bad(key, w, 'reading element (%s index) of a %s value raises error %d instead of %s' % (ks[1], ks[0], r['err'], sorted(want)))
                else:
                    R.ok('unsuitable element read raises its error')
                continue
            i = A('ld', ts[1], 'i4', (0, 0))
            n = A('ld', ts[0], 'i4', (0, 0))
            ins = inside(st, i, n)
            if r['err']:
                bnd += 1
                if r['err'] != S.ERR['e_bad_array_bounds']:
                    R.bad(key + ':err', w, 'indexing a %s raises error %d' % (ks[0], r['err']))
                elif ins is False:
                    R.ok('bounds error only outside the bounds')
                elif ins:
                    R.undecided(key + ':bounds', 'bounds condition')
                else:
                    R.bad(key + ':bounds', w, 'reading an element of a %s raises a bounds error for an index that can be inside the bounds' % ks[0])
                continue
            good += 1
            if ins is True:
                R.ok('element read inside the bounds')
            elif ins == 'unclear':
                R.undecided(key + ':bounds', 'bounds condition')
            else:
                R.bad(key + ':bounds', w, 'element of a %s is read without a complete bounds check' % ks[0])
            if ks[0] == 'array':
                want_a = add(add(ts[0], C(hdr)), scale(i, 8))
                p = r['ptr']
                a = single(p) if p is not None and is_lin(p) else None
                elem = A('ld', want_a, 'p', (0, 0))
                if r['kind'] == 'none':
                    # only for an element that is none
                    if const_of(st, elem) == 0 or p == ZERO and const_of(st, elem) == 0:
                        R.ok('none element reads as none')
                    else:
                        s = st.copy()
                        try:
                            e.assume(s, e.cmp(s, 'ne', elem, ZERO, ('p',)), True)
                            k2 = elem_kind(V, s, elem)
                            if k2 == V.VT['val_type_none']:
                                R.ok('none element reads as none')
                            elif k2 is not None and k2 < 0:
                                R.undecided(key + ':none', 'kind of the element')
                            else:
                                R.bad(key + ':none', w, 'an array element that is not none reads as none')
                        except Infeasible:
                            R.ok('none element reads as none')
                elif a is not None and a.kind == 'ld':
                    same(R, st, a.args[0], want_a, key + ':addr', w, 'array element is read at %s instead of %s', 'exact array element')
                else:
                    R.undecided(key + ':value', 'value read')
            else:
                want_a = add(add(ts[0], C(hdr)), i)
                if r['kind'] != 'int':
                    R.bad(key + ':kind', w, 'a string element reads as %s' % r['kind']) if r['kind'] else R.undecided(key, 'kind of the element')
                    continue
                p = single(r['payload']) if is_lin(r['payload']) else None
                if p is not None and p.kind == 'z8' and single(p.args[0]) is not None and single(p.args[0]).kind == 'ld':
                    same(R, st, single(p.args[0]).args[0], want_a, key + ':addr', w, 'string character is read at %s instead of %s', 'exact string character')
                elif p is not None and p.kind in ('s8', 'ld') and all(x.kind in ('s8', 'ld', 'slot') for x in atoms_of(r['payload'])):
                    a = p if p.kind == 'ld' else single(p.args[0])
                    R.bad(key + ':sign', w, 'a string character above 127 reads as a negative number')
                else:
                    R.undecided(key + ':value', 'value read %s' % (show(r['payload'])[:80] if is_lin(r['payload']) else ''))
        if not want and not good:
            R.bad(key + ':never', w, 'reading an element of a %s never succeeds' % ks[0])


def writes(S, R):
    V = S.V
    op = 'INS_SETA'
    w = handler(S, op)
    hdr = V.o_elem
    for ks in itertools.product(KINDS, repeat=3):
        if ks[0] != 'array' and ks[2] not in ('int', 'array'):
            continue
        if ks[0] == 'array' and ks[1] != 'int' and ks[2] not in ('int', 'none'):
            continue
        # the array being written is an object of its own: remember all writes into it

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'store' and is_lin(kw['addr']) and any(a.kind == 'slot' for a, _ in kw['addr'][1]):
                st.emit('wr', kw['addr'], kw['size'], kw['val'], eng.site())
        e, res, ts = S.case(op, ks, obs=obs)
        key = '%s %s[%s]=%s' % (op, ks[0], ks[1], ks[2])
        want = err_expect(S, ks[0], ks[1], True)
        good = 0
        for r in paths(R, S, op, res, key):
            st = r['st']
            ws = [t for t in flat(st.trace) if t[0] == 'wr']
            if r['err'] is None:
                R.undecided(key, 'error state')
                continue
            if r['err'] and ws:
                R.bad(key + ':write', ws[0][4], 'an element write that fails still modifies a value')
                continue
            if want:
                if r['err'] == 0:
                    R.bad(key, w, 'writing element (%s index) of a %s value raises no error' % (ks[1], ks[0]))
                elif r['err'] not in want:
                    R.bad(key, w, 'writing element (%s index) of a %s value raises error %d instead of %s' % (ks[1], ks[0], r['err'], sorted(want)))
                else:
                    R.ok('unsuitable element write raises its error')
                continue
            i = A('ld', ts[1], 'i4', (0, 0))
            n = A('ld', ts[0], 'i4', (0, 0))
            ins = inside(st, i, n)
            if r['err']:
                if r['err'] != S.ERR['e_bad_array_bounds']:
                    R.bad(key + ':err', w, 'an element write raises error %d' % r['err'])
                elif ins is False:
                    R.ok('bounds error only outside the bounds')
                elif ins:
                    R.undecided(key + ':bounds', 'bounds condition')
                else:
                    R.bad(key + ':bounds', w, 'writing an element raises a bounds error for an index that can be inside the bounds')
                continue
            good += 1
            if ins is True:
                R.ok('element written inside the bounds')
            elif ins == 'unclear':
                R.undecided(key + ':bounds', 'bounds condition')
            else:
                R.bad(key + ':bounds', w, 'an array element is written without a complete bounds check')
            want_a = add(add(ts[0], C(hdr)), scale(i, 8))
            if len(ws) != 1:
                R.bad(key + ':writes', w, 'an element write modifies %d cells' % len(ws))
                continue
            same(R, st, ws[0][1], want_a, key + ':addr', ws[0][4], 'the element is written at %s instead of %s', 'exact element written')
            v = ws[0][3]
            if v == ts[2]:
                R.ok('the stored element is the value')
                continue
            if ks[2] == 'array':
                same(R, st, v, ts[2], key + ':value', ws[0][4], 'an array stored into an element is replaced by %s instead of being shared (%s)', 'arrays are shared by reference')
                continue
            x = S.O.value(st, v)
            if x['kind'] is None:
                R.undecided(key + ':value', 'stored value')
            elif x['kind'] != ks[2]:
                R.bad(key + ':value', ws[0][4], 'storing a %s into an element stores a %s' % (ks[2], x['kind']))
            elif ks[2] == 'none':
                R.ok('the stored element is the value')
            else:
                pl = A('ld', ts[2], 'f' if ks[2] == 'float' else 'i4', (0, 0))
                same(R, st, x['payload'], pl, key + ':payload', ws[0][4], 'the stored element has the content %s instead of %s', 'the stored element is the value')
        if not want and not good:
            R.bad(key + ':never', w, 'writing an element never succeeds')


def init(S, R):
    V = S.V
    op = 'INS_ARY_INIT'
    w = handler(S, op)

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 8 and is_lin(kw['addr']) and any(a.kind == 'arena' for a, _ in kw['addr'][1]):
            st.emit('wr', kw['addr'], kw['val'], eng.site())
    e, res, ts = S.case(op, (None, None, None), obs=obs)
    R.fn(S.V.entry())
    n = 0
    for r in paths(R, S, op, res, op):
        if r['err']:
            R.bad(op + ':err', w, 'an array literal raises error %d' % r['err'])
            continue
        st = r['st']
        same(R, st, r['d'], sub(ONE, A('op', 0)), op + ':count', w, 'an array literal changes the stack height by %s instead of %s', 'an array literal takes all its elements')
        for t in flat(st.trace):
            if t[0] != 'wr':
                continue
            ar = [a for a, _ in t[1][1] if a.kind == 'arena'][0]
            off = sub(t[1], add((0, ((ar, 1),)), C(V.o_elem)))
            v = single(t[2]) if is_lin(t[2]) else None
            if v is None or v.kind != 'ld' or single(A('vdata', V.stackvec)) not in dict(v.args[0][1]):
                R.undecided(op, 'element value %s' % (show(t[2])[:80] if is_lin(t[2]) else ''))
                continue
            n += 1
            src = sub(v.args[0], A('vdata', V.stackvec))
            same(R, st, sub(src, off), scale(sub(V.N0(), A('op', 0)), 8), op + ':order', t[3],
                 'element i of an array literal is taken from stack byte offset 8*i + %s instead of 8*i + %s',
                 'array literal holds its elements in source order')
    if not n:
        R.undecided(op, 'no element store found')


def length(S, R):
    V = S.V
    op = 'INS_GETM'
    w = handler(S, op)
    for k in KINDS:
        e, res, ts = S.case(op, (k, 'int'))
        good = 0
        for r in paths(R, S, op, res, op):
            st = r['st']
            if r['err']:
                if r['err'] != S.ERR['e_bad_member_access']:
                    R.bad(op + ' %s:err' % k, w, 'a member access on a %s raises error %d' % (k, r['err']))
                else:
                    R.ok('unknown member raises a member error')
                continue
            if r['err'] is None:
                R.undecided(op, 'error state')
                continue
            good += 1
            if k != 'array':
                R.bad(op + ' %s' % k, w, 'a member access on a %s raises no error' % k)
                continue
            if r['kind'] != 'int':
                R.bad(op + ' length:kind', w, 'the length of an array is a %s' % r['kind']) if r['kind'] else R.undecided(op, 'kind')
                continue
            same(R, st, r['payload'], A('ld', ts[0], 'i4', (0, 0)), op + ' length', w, 'the length of an array is %s instead of %s', 'length is the number of elements')
        if k == 'array' and not good:
            R.bad(op + ' length:never', w, 'the length of an array can never be read')


def allocs(S, R):
    V, P = S.V, S.P
    for name, unit, extra, kind in (('new_array', 8, 0, 'array'), ('new_string', 1, 1, 'string')):
        for f in [f for f in P.find('nano::value_gc_t::' + name) if P.in_repo(f)]:
            e = V.engine()
            e.fr(f)
            if len(f.params) != 2 or 'string' in f.dem.split('(')[-1]:
                continue
            e.join = False
            st = V.state(e)
            n = A('arg', 'n')
            st.facts.le0(sub(ONE, n) if kind == 'array' else scale(n, -1))
            st.facts.le0(sub(n, C(1 << 24)))

            def obs(eng, st, kd, fr, ins, kw):
                if kd == 'memset':
                    st.emit('clr', kw['dst'], kw['n'], kw['val'], eng.site())
            e.obs.append(obs)
            outs = e.call_fn(f, [V.gc, n], st)
            R.fn(f)
            for o in outs:
                if o.kind != 'ret':
                    continue
                al = [t for t in o.st.trace if t[0] == 'alloc']
                if len(al) != 1 or not is_lin(o.val):
                    R.undecided(name, 'allocation')
                    continue
                need = add(scale(n, unit), C(extra))
                d = sub(al[0][2], need)
                rg = o.st.facts.rng(d)
                if rg[0] is not None and rg[0] >= 0:
                    R.ok('allocation covers every element')
                elif insem.differs(o.st, d):
                    R.bad(name + ':size', f.loc(), '%s of n elements allocates %s bytes, needs %s' % (name, show(al[0][2])[:60], show(need)))
                else:
                    R.undecided(name, 'allocation size')
                clr = [t for t in o.st.trace if t[0] == 'clr']
                if kind == 'array' and len(clr) == 1 and is_lin(clr[0][1]) and is_lin(clr[0][2]):
                    d0, d1 = sub(clr[0][1], add(o.val, C(V.o_elem))), sub(clr[0][2], scale(n, 8))
                    if const_of(o.st, clr[0][3]) == 0 and d0 == ZERO:
                        rg = o.st.facts.rng(d1)
                        if rg[0] is not None and rg[0] >= 0:
                            R.ok('every element of a new array starts as none')
                        elif insem.differs(o.st, d1):
                            R.bad(name + ':clear', clr[0][4], 'new_array clears %s bytes of %s' % (show(clr[0][2])[:60], show(scale(n, 8))))
                x = S.O.value(o.st, o.val)
                if x['kind'] and x['kind'] != kind:
                    R.bad(name + ':kind', f.loc(), '%s creates a %s' % (name, x['kind']))
                same(R, o.st, x['payload'], n, name + ':len', f.loc(), name + ' records a length of %s instead of %s', 'recorded length')
