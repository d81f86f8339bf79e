"""C12: builtins check their arguments and return the documented results."""
import itertools, re
import frame, bltin, insem, eng as E
from terms import *
from opsem import const_of
from insem import same, flat, differs

EXPLAIN = (
    'Registration and resolution tables are evaluated from the source (name, declared argument count, function); every '
    'builtin is analysed for every combination of argument kinds and for every wrong argument count: error or success, '
    'stack effect, kind and value term of the result compared with its specification; new_thread and wait by their '
    'effect on the machine.')

KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')
ARITY = {'abs': 1, 'min': 2, 'max': 2, 'bitand': 2, 'sin': 1, 'cos': 1, 'tan': 1, 'len': 1, 'chr': 1, 'round': 1,
         'ceil': 1, 'floor': 1, 'sqrt': 1, 'new_thread': -1, 'wait': 1, 'new_array': 1}
MATH = ('sin', 'cos', 'tan', 'round', 'ceil', 'floor', 'sqrt')
NUM = ('int', 'float')


def run(ctx, R):
    S = insem.eff(ctx)
    P = ctx.P
    reg, odd, f1 = bltin.registered(P)
    res, f2, odd2 = bltin.resolved(P, full=True)
    R.fn(f1)
    R.fn(f2)
    if not reg or not res:
        R.undecided('tables', 'builtin tables not recognised')
        reg2, res, f1, f2 = bltin.functions(P)
        reg = reg or ARITY
    for n, a in ARITY.items():
        if n not in reg:
            if not odd:
                R.bad('register:' + n, f1.loc(), 'builtin %s is not known to the compiler' % n)
        elif reg[n] != a:
            R.bad('register:' + n, f1.loc(), 'builtin %s is declared with %d arguments instead of %d' % (n, reg[n], a))
        else:
            R.ok('declared argument count')
        if n not in res and res and odd2:
            R.undecided('resolve:' + n, 'table built in an unknown way')
        elif n not in res and res:
            R.bad('resolve:' + n, f2.loc(), 'builtin %s is never resolved to a function' % n)
    guard = frame.guard
    jobs = sorted(n for n in ARITY if n in res)
    R.floor('builtins', len(jobs), 10)

    def work(n, r):
        r.fn(res[n])
        guard(r, counts, S, r, n, res[n])
        if n == 'new_thread':
            guard(r, new_thread, S, r, res[n])
        else:
            guard(r, values, S, r, n, res[n])
    frame.pmap(work, jobs, R)
    guard(R, resolve, S, R, f2)


def outcomes(S, R, key, outs, f=None):
    for o in outs:
        if o.kind == 'abort':
            af = [t for t in flat(o.st.trace) if t[0] == 'assert_fail']
            if af and f is not None:
                R.bad(key + ':assert', af[0][2], '%s fails an assertion instead of raising an error' % key)
            continue
        if o.kind != 'ret':
            R.undecided(key, 'path ends with ' + o.kind)
            continue
        r = S.O.result(o)
        r['st'], r['d'], r['o'] = o.st, r['sum'].dstack, o
        if r['err'] is None:
            R.undecided(key, 'error state')
            continue
        yield r


def counts(S, R, n, f):
    V = S.V
    na = A('arg', 'nargs')
    want = ARITY[n]

    def ex(e, st):
        st.facts.le0(sub(na, C(8)))
        if want >= 0:
            st.facts.ge0(na)
            st.facts.ne0(sub(na, C(want)))
        else:
            st.facts.le0(na)
            st.facts.ge0(na)
    kinds = {'len': ('array',), 'new_thread': ('func',)}.get(n, ('int', 'int'))

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 8 and any(a.kind == 'vdata' and a.args[0] == V.stackvec for a, _ in kw['addr'][1]):
            st.emit('pushed', eng.site())
    e, outs, ts = bltin.case(V, f, na, kinds, extra=ex, obs=obs)
    some = 0
    for r in outcomes(S, R, n + ':count', outs, f):
        some += 1
        if r['err'] == 0:
            R.bad(n + ':count', f.loc(), 'builtin %s raises no error when called with a wrong number of arguments' % n)
        elif any(t[0] == 'pushed' for t in flat(r['st'].trace)):
            R.bad(n + ':count', f.loc(), 'builtin %s pushes a result although its argument count is wrong' % n)
        elif want >= 0 and r['err'] != S.ERR['e_bad_num_args']:
            R.bad(n + ':count', f.loc(), 'builtin %s raises error %d for a wrong argument count instead of e_bad_num_args' % (n, r['err']))
        else:
            R.ok('wrong argument count raises an error')


def norm(t):
    """strip float<->double conversions"""
    a = single(t) if is_lin(t) else None
    while a is not None and a.kind in ('ftrunc', 'fext'):
        t = a.args[0]
        a = single(t) if is_lin(t) else None
    return t


def fname(a):
    """(mathematical name, argument terms) of a call to a library function"""
    if a is None or a.kind not in ('fn', 'call') or len(a.args) < 2 or not isinstance(a.args[0], str):
        return None, None
    n = a.args[0]
    n = re.sub(r'^llvm\.', '', n)
    n = re.sub(r'\.f(32|64)$', '', n)
    n = n.split('(')[0].replace('std::', '').split()[-1] if n else n
    n = re.sub(r'^_ZSt\d+', '', n)
    if n.endswith('f') and n[:-1] in MATH + ('fmax', 'fmin', 'fabs'):
        n = n[:-1]
    return n, a.args[1]


def asf(ts, i, ks):
    ld = A('ld', ts[i], 'f' if ks[i] == 'float' else 'i4', (0, 0))
    return ld if ks[i] == 'float' else A('i2f', ld)


def asi(ts, i, ks):
    ld = A('ld', ts[i], 'f' if ks[i] == 'float' else 'i4', (0, 0))
    return A('f2i', ld) if ks[i] == 'float' else ld


def suitable(n, ks):
    if n in ('abs', 'min', 'max', 'wait', 'new_array') or n in MATH:
        return all(k in NUM for k in ks)
    if n in ('bitand', 'chr'):
        return all(k == 'int' for k in ks)
    if n == 'len':
        return ks[0] in ('array', 'string')
    return None


def loadf(t):
    """float loads of a slot are recorded with kind f or i4"""
    return t


def values(S, R, n, f):
    V = S.V
    for ks in itertools.product(KINDS, repeat=ARITY[n]):
        cells = []

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'store' and kw['size'] == 8 and any(a.kind == 'vdata' and a.args[0] == V.stackvec for a, _ in kw['addr'][1]):
                st.emit('pushed', eng.site())
            if n == 'chr' and kind == 'store' and kw['size'] == 1 and is_lin(kw['addr']) and len(kw['addr'][1]) == 1 and kw['addr'][1][0][0].kind == 'al':
                st.emit('chr', kw['addr'], kw['val'], eng.site())
        e, outs, ts = bltin.case(V, f, len(ks), ks, obs=obs)
        key = '%s(%s)' % (n, ', '.join(ks))
        ok = suitable(n, ks)
        good = 0
        for r in outcomes(S, R, key, outs, None if ok else f):
            st = r['st']
            if not ok:
                if r['err'] == 0:
                    R.bad(key, f.loc(), '%s raises no error' % key)
                elif any(t[0] == 'pushed' for t in flat(st.trace)):
                    R.bad(key, f.loc(), '%s fails but pushes a value' % key)
                elif r['err'] != S.ERR['e_bad_argument']:
                    R.bad(key, f.loc(), '%s raises error %d instead of e_bad_argument' % (key, r['err']))
                else:
                    R.ok('unsuitable argument kinds raise an error')
                continue
            if r['err']:
                if n == 'new_array':
                    w = asi(ts, 0, ks)
                    s = st.copy()
                    try:
                        s.facts.le0(sub(ONE, w))
                        s.facts.le0(sub(w, C(1 << 20)))
                        if insem.exact_atom(single(w)) or ks[0] == 'float':
                            R.bad(key + ':err', f.loc(), '%s raises an error for a positive size' % key)
                    except Infeasible:
                        R.ok('only a size below one is refused')
                else:
                    R.bad(key + ':err', f.loc(), '%s raises error %d' % (key, r['err']))
                continue
            good += 1
            same(R, st, r['d'], C(1 - len(ks)), key + ':stack', f.loc(), key + ' changes the stack height by %s instead of %s', 'exactly one result')
            frame.guard(R, result, S, R, n, ks, key, e, r, ts, f)
        if ok and not good:
            R.bad(key + ':never', f.loc(), '%s never succeeds' % key)


def kindis(R, r, key, f, want):
    if r['kind'] is None:
        R.undecided(key, 'kind of the result')
        return False
    if r['kind'] != want:
        R.bad(key + ':kind', f.loc(), '%s gives a %s instead of a %s' % (key, r['kind'], want))
        return False
    return True


def forbidden(e, st, cond):
    """cond cannot hold on this path"""
    s = st.copy()
    try:
        e.assume(s, cond, True)
        return False
    except Infeasible:
        return True


def result(S, R, n, ks, key, e, r, ts, f):
    st, p = r['st'], r['payload']
    w = f.loc()
    if r['kind'] == 'float' and n in ('abs', 'min', 'max') + MATH and is_lin(p) and any(a.kind == 'f2i' for a in atoms_of(p)) and 'float' in ks:
        R.bad(key + ':trunc', w, '%s drops the fraction of its argument (%s)' % (key, show(p)[:60]))
        return
    if n == 'abs':
        if not kindis(R, r, key, f, ks[0]):
            return
        x = A('ld', ts[0], 'f' if ks[0] == 'float' else 'i4', (0, 0))
        if ks[0] == 'int':
            if p == x:
                bad = not forbidden(e, st, e.cmp(st, 'slt', x, ZERO, ('i', 32)))
            elif p == scale(x, -1):
                bad = not forbidden(e, st, e.cmp(st, 'slt', ZERO, x, ('i', 32)))
            elif is_lin(p) and all(insem.exact_atom(a) for a, _ in p[1]):
                bad = True
            else:
                R.undecided(key, 'value %s' % (show(p)[:60] if is_lin(p) else ''))
                return
        else:
            q = norm(p)
            a = single(q) if is_lin(q) else None
            nm, ar = fname(a)
            z = A('fconst', 0.0) if False else None
            if nm == 'fabs':
                R.ok('result of abs')
                return
            if q == x:
                bad = not fsign_ok(st, x, False)
            elif a is not None and a.kind == 'fneg' and a.args[0] == x:
                bad = not fsign_ok(st, x, True)
            else:
                R.undecided(key, 'value')
                return
        if bad:
            R.bad(key + ':value', w, '%s is %s on a path where that is not the absolute value' % (key, show(p)[:60]))
        else:
            R.ok('result of abs')
    elif n in ('min', 'max'):
        if not kindis(R, r, key, f, 'float'):
            return
        x, y = asf(ts, 0, ks), asf(ts, 1, ks)
        q = norm(p)
        nm, ar = fname(single(q) if is_lin(q) else None)
        if nm in ('fmax', 'maxnum', 'fmin', 'minnum'):
            if (nm in ('fmax', 'maxnum')) == (n == 'max') and set(ar) == {x, y}:
                R.ok('result of min and max')
            else:
                R.bad(key + ':value', w, '%s computes %s' % (key, show(p)[:80]))
            return
        if q == x:
            o = y
        elif q == y:
            o = x
        else:
            if is_lin(q) and all(a.kind in ('ld', 'i2f', 'slot') for a in atoms_of(q)):
                R.bad(key + ':value', w, '%s is %s' % (key, show(p)[:80]))
            else:
                R.undecided(key, 'value %s' % (show(p)[:60] if is_lin(p) else ''))
            return
        if x == y:
            R.ok('result of min and max')
            return
        # returning q is wrong if the other operand can be strictly better
        better = A('fcmp', 'olt', q, o) if n == 'max' else A('fcmp', 'olt', o, q)
        if forbidden(e, st, better):
            R.ok('result of min and max')
        elif exactf(st):
            R.bad(key + ':value', w, '%s can return the wrong one of its arguments' % key)
        else:
            R.undecided(key, 'comparison')
    elif n in MATH:
        if not kindis(R, r, key, f, 'float'):
            return
        q = norm(p)
        nm, ar = fname(single(q) if is_lin(q) else None)
        if nm is None:
            if q == asf(ts, 0, ks):
                if n in ('round', 'ceil', 'floor') and ks[0] == 'int':
                    R.ok('result of a math function')
                else:
                    R.bad(key + ':value', w, '%s returns its argument' % key)
            elif is_lin(q) and not q[1]:
                R.bad(key + ':value', w, '%s returns a constant' % key)
            else:
                R.undecided(key, 'value %s' % (show(p)[:60] if is_lin(p) else ''))
        elif nm != n:
            if nm in MATH + ('rint', 'nearbyint', 'trunc', 'roundeven', 'exp', 'log', 'cbrt', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'fabs'):
                R.bad(key + ':value', w, '%s computes %s' % (key, nm))
            else:
                R.undecided(key, 'calls ' + nm)
        else:
            if len(ar) == 1 and norm(ar[0]) == asf(ts, 0, ks):
                R.ok('result of a math function')
            elif len(ar) == 1 and is_lin(norm(ar[0])):
                x, y = norm(ar[0]), asf(ts, 0, ks)
                R.bad(key + ':arg', w, '%s applies %s to %s instead of its argument' % (key, n, show(x)[:60]))
            else:
                R.undecided(key, 'argument')
    elif n == 'bitand':
        if not kindis(R, r, key, f, 'int'):
            return
        x, y = asi(ts, 0, ks), asi(ts, 1, ks)
        a = single(p) if is_lin(p) else None
        if a is not None and a.kind == 'and' and set(a.args) == {x, y}:
            R.ok('result of bitand')
        elif a is not None and a.kind in ('or', 'xor', 'and') or is_lin(p) and all(insem.exact_atom(b) for b, _ in p[1]):
            R.bad(key + ':value', w, '%s is %s' % (key, show(p)[:80]))
        else:
            R.undecided(key, 'value')
    elif n == 'len':
        if not kindis(R, r, key, f, 'int'):
            return
        same(R, st, p, A('ld', ts[0], 'i4', (0, 0)), key + ':value', w, key + ' is %s instead of %s', 'length')
    elif n == 'chr':
        if not kindis(R, r, key, f, 'string'):
            return
        x = asi(ts, 0, ks)
        cs = [t for t in flat(st.trace) if t[0] == 'chr']
        first = [t for t in cs if t[2] != ZERO]
        if len(first) != 1:
            R.undecided(key, 'characters')
            return
        v = first[0][2]
        b = A('byte', ZERO, x)
        if v in (b, x):
            R.ok('result of chr')
        elif is_lin(v) and differs(st, sub(norm8(v), b)):
            R.bad(key + ':value', first[0][3], '%s is the character %s' % (key, show(v)[:60]))
        else:
            R.undecided(key, 'character')
    elif n == 'new_array':
        if not kindis(R, r, key, f, 'array'):
            return
        x = asi(ts, 0, ks)
        same(R, st, p, x, key + ':value', w, key + ' makes an array of %s elements instead of %s', 'size of a new array')
    elif n == 'wait':
        V = S.V
        off = S.P.field('nano::thread_t', 'waits')
        cell = st.mem.get((add(V.th, C(off))[1], add(V.th, C(off))[0], 'M'))
        halt = const_of(st, r['sum'].halt) if r['sum'].halt is not None else None
        x = asi(ts, 0, ks)
        if cell is None:
            R.bad(key + ':waits', w, 'wait does not set the wait count')
            return
        v = cell[1]
        if halt is None or not is_lin(v):
            R.undecided(key, 'halt')
            return
        c = const_of(st, v)
        if c is None:
            same(R, st, v, x, key + ':waits', w, key + ' sets a wait count of %s instead of %s', 'wait count') if ks[0] == 'int' or v == x else R.undecided(key, 'wait count')
            if not halt and st.facts.rng(v)[1] != 0:
                R.bad(key + ':halt', w, 'wait does not stop the current slice')
            elif halt:
                R.ok('wait stops the current slice')
        else:
            # a constant count is right only for arguments that are not positive
            s = st.copy()
            try:
                s.facts.le0(sub(ONE, x))
                if s.const(sub(x, C(c))) == 0:
                    R.ok('wait count')
                else:
                    R.bad(key + ':waits', w, '%s sets a wait count of %d for a positive argument' % (key, c))
            except Infeasible:
                if c > 0:
                    R.bad(key + ':waits', w, '%s sets a wait count of %d for an argument below one' % (key, c))
                else:
                    R.ok('wait count')


def norm8(v):
    a = single(v)
    if a is not None and a.kind == 's8':
        return A('byte', ZERO, a.args[0])
    return v if a is not None and a.kind == 'byte' else A('byte', ZERO, v)


def exactf(st):
    """all facts of the path about floats are comparisons of argument values"""
    return all(a.kind not in ('lv', 'unk') for form in st.facts.d for a, _ in form)


def fsign_ok(st, x, neg):
    """no path fact says that x has the opposite sign of what its (negated) use needs"""
    # facts are recorded on fcmp atoms against zero
    for form, rg in st.facts.d.items():
        if len(form) != 1 or form[0][0].kind != 'fcmp':
            continue
        a, k = form[0]
        c = st.const((0, ((a, 1),)))
        if c is None:
            continue
        p, l, r_ = a.args
        if r_ == x and l != x and p in ('olt', 'ole'):
            # const < x
            if c and neg and p == 'olt':
                return False
            if not c and not neg and p == 'ole':
                return False
        elif l == x and r_ != x and p in ('olt', 'ole'):
            if c and not neg and p == 'olt':
                return False
            if not c and neg and p == 'ole':
                return False
            if not c and neg and p == 'olt' and False:
                return False
    return True


def resolve(S, R, f2):
    """the resolution loop gives every builtin of the program the function found under its own name"""
    P = S.P
    e = E.Engine(P)
    e.join = False
    sv = add(A('obj', 'PROG'), C(P.field('nano::program_t', 'syscalls_')))
    rec = [c for n, c in P.classes().items() if n.startswith('nano::program_t::') and 'call_' in c.fields]
    if not rec:
        R.undecided('resolve', 'builtin table layout')
        return
    o_call, o_name, size = rec[0].fields['call_'][0], rec[0].fields['name_'][0], rec[0].size

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 8 and is_lin(kw['addr']) and any(a.kind == 'vdata' and a.args[0] == sv for a, _ in kw['addr'][1]):
            st.emit('set', kw['addr'], kw['val'], eng.site())
    e.obs.append(obs)
    outs = e.call_fn(f2, [A('obj', 'PROG')], E.St())
    seen = 0
    for o in outs:
        for t in flat(o.st.trace):
            if t[0] != 'set':
                continue
            entry = sub(t[1], C(o_call))
            k = [x for x, _ in entry[1] if x.kind == 'K']
            finds = [x for x in atoms_of(t[2])] if is_lin(t[2]) else []
            names = [x for x in finds if x.kind in ('call', 'mfind') and 'find' in str(x.args[0])]
            if not k or not names:
                if is_lin(t[2]) and any(x.kind == 'call' and ('begin' in str(x.args[0]) or 'lower_bound' in str(x.args[0])) for x in finds):
                    R.bad('resolve:entry', t[3], 'a builtin is resolved to an arbitrary entry of the table instead of the one found under its name')
                    seen += 1
                else:
                    R.undecided('resolve', 'resolved function %s' % (show(t[2])[:80] if is_lin(t[2]) else ''))
                continue
            seen += 1
            want = add(entry, C(o_name))
            if any(want in x.args or any(is_lin(y) and y == want for y in flat_args(x.args)) for x in names):
                R.ok('a builtin gets the function found under its name')
            else:
                R.undecided('resolve', 'name looked up: %s' % repr(names[0])[:100])
    if not seen:
        R.undecided('resolve', 'no resolution found')


def flat_args(a):
    for x in a:
        yield x
        if isinstance(x, tuple) and not is_lin(x):
            yield from flat_args(x)


def new_thread(S, R, f):
    """new_thread(func, args...): starts that function with the remaining arguments in call order"""
    V, P = S.V, S.P
    na = A('arg', 'nargs')
    caps = []

    def h(eng, st, fr, x, fn, args):
        a = list(args)
        st.emit('spawn', tuple(a), eng.site())
        return [(A('obj', 'THREAD2'), st)]

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'store' and kw['size'] == 8 and is_lin(kw['addr']):
            b = [a for a, _ in kw['addr'][1] if a.kind == 'vdata' and any(x.kind == 'al' for x in atoms_of(a.args[0]))]
            if b:
                st.emit('arg', sub(kw['addr'], (0, ((b[0], 1),))), kw['val'], b[0].args[0], eng.site())
        if kind == 'store' and kw['size'] == 8 and any(a.kind == 'vdata' and a.args[0] == V.stackvec for a, _ in kw['addr'][1]):
            st.emit('pushed', eng.site())

    def hf(eng, st, fr, x, fn, args):
        st.emit('find', args[-1], eng.site())
        s2 = st.copy()
        return [(A('obj', 'FOUND'), st), (ZERO, s2)]

    def ex(e, st):
        st.facts.le0(sub(ONE, na))
        st.facts.le0(sub(na, C(8)))
        e.hook('nano::vm_t::new_thread', h)
        e.hook('nano::program_t::function_find', hf)
        # the function argument is the deepest one
        fa = add(A('vdata', V.stackvec), scale(sub(V.N0(), na), 8))
        fv = V.mkval(e, st, A('slot', 'F'), 'func')
        e.store_raw(st, fa, 8, fv)
        ex.fv = fv
    e, outs, ts = bltin.case(V, f, na, (), extra=ex, obs=obs)
    spawned = 0
    key = 'new_thread'
    want = A('ld', ex.fv, 'i4', (0, 0))
    for r in outcomes(S, R, key, outs):
        st = r['st']
        tr = list(flat(st.trace))
        sp = [t for t in tr if t[0] == 'spawn']
        if r['err']:
            if sp:
                R.bad(key + ':spawn', f.loc(), 'new_thread reports an error although it started a thread')
            else:
                R.ok('new_thread error starts nothing')
            continue
        if len(sp) != 1:
            R.bad(key + ':spawn', f.loc(), 'new_thread succeeds but starts %d threads' % len(sp))
            continue
        spawned += 1
        a = sp[0][1]
        fd = [t for t in tr if t[0] == 'find']
        if len(fd) == 1 and A('obj', 'FOUND') in a:
            same(R, st, fd[0][1], want, key + ':func', fd[0][2], 'new_thread starts the function at %s instead of %s', 'new_thread starts its function')
            try:
                d = sub(add(A('vsize', add(A('obj', 'FOUND'), C(P.field('nano::function_t', 'args_'))), (0, 0)), ONE), na)
                rg = st.facts.rng(d)
                if rg[0] == 0 and rg[1] == 0:
                    R.ok('new_thread checks the argument count of the function')
                elif differs(st, d):
                    R.bad(key + ':nargs', f.loc(), 'new_thread starts a function with a number of arguments it does not have')
                else:
                    R.undecided(key + ':nargs', 'argument count')
            except KeyError:
                pass
        else:
            R.undecided(key + ':func', 'function started')
        if len(a) >= 3:
            same(R, st, a[-2], sub(na, ONE), key + ':argc', sp[0][2], 'new_thread passes %s arguments instead of %s', 'new_thread argument count')
        for t in tr:
            if t[0] == 'arg':
                v = single(t[2]) if is_lin(t[2]) else None
                if v is None or v.kind != 'ld' or single(A('vdata', V.stackvec)) not in dict(v.args[0][1]):
                    R.undecided(key + ':args', 'argument value')
                    continue
                src = sub(v.args[0], A('vdata', V.stackvec))
                same(R, st, sub(src, t[1]), scale(sub(V.N0(), sub(na, ONE)), 8), key + ':args', t[4],
                     'argument i of the new thread is taken from stack byte offset 8*i + %s instead of 8*i + %s', 'new_thread keeps the argument order')
    if not spawned:
        R.undecided(key, 'no successful path')
