"""C04: every operator computes its documented result for every combination of operand kinds."""
from terms import *
import opsem, stdmodel
import frame
import insem

EXPLAIN = (
    'For each operator token the code generator visit() is analysed to obtain the operand evaluation order and the '
    'emitted opcode; the interpreter step for that opcode is then abstractly interpreted (LLVM IR, value numbering, '
    'path facts, no join) once per combination of operand kinds with symbolic payloads.  Every path must end either in '
    'the documented error or push one value whose kind and payload term equal the specification term.')

KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')
BIN = ['TOK_ADD', 'TOK_SUB', 'TOK_MUL', 'TOK_DIV', 'TOK_MOD', 'TOK_AND', 'TOK_OR', 'TOK_LT', 'TOK_GT', 'TOK_LEQ',
       'TOK_GEQ', 'TOK_EQ']
UN = ['TOK_SUB', 'TOK_NOT']
NUM = ('int', 'float')
EXACT = {'ld', 'mul', 'sdiv', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv', 'i2f', 'fneg', 'slot', 'cmp', 'fcmp'}


def payload(slot, kind):
    return A('ld', slot, 'f' if kind == 'float' else 'i4', (0, 0))


def fl(v, kind):
    return v if kind == 'float' else A('i2f', v)


def truthy(eng, st, v, kind):
    """condition term (0/1) for the truth value"""
    if kind == 'none':
        return ZERO
    if kind in ('array', 'func', 'syscall'):
        return ONE
    if kind == 'float':
        x, y = v, C(0)
        c = A('fcmp', 'oeq', *sorted((v, FZERO), key=E_key))
        return sub(ONE, c)
    return eng.cmp(st, 'ne', v, ZERO, ('i', 32))


def E_key(t):
    import eng
    return eng.repr_key(t)


FZERO = A('fconst', '0.000000e+00')


def same_float(got, want):
    a, b = single(got), single(want)
    if a is b and a is not None:
        return True
    if a is not None and b is not None and a.kind == b.kind and a.kind in ('fadd', 'fmul'):
        if a.args == b.args[::-1]:
            return True
    return False


def decided(t):
    return is_lin(t) and all(a.kind in EXACT for a in atoms_of(t))


class Spec:
    def __init__(self, V):
        self.V = V
        self.E = V.ERR

    def binary(self, tok, kl, kr, l, r):
        """-> ('err', code) | ('val', kind, term) | ('bool', fn(eng, st)) | ('cat',) | ('div', ..) | ('any',)"""
        vl, vr = payload(l, kl) if kl != 'none' else None, payload(r, kr) if kr != 'none' else None
        T = ('err', self.E['e_bad_type_operation'])
        ii = kl == 'int' and kr == 'int'
        nn = kl in NUM and kr in NUM
        if tok in ('TOK_ADD', 'TOK_SUB', 'TOK_MUL'):
            if ii:
                return ('val', 'int', {'TOK_ADD': add(vl, vr), 'TOK_SUB': sub(vl, vr)}.get(tok) or
                        A('mul', *sorted((vl, vr), key=E_key)))
            if nn:
                return ('val', 'float', A({'TOK_ADD': 'fadd', 'TOK_SUB': 'fsub', 'TOK_MUL': 'fmul'}[tok], fl(vl, kl), fl(vr, kr)))
            if tok == 'TOK_ADD' and 'string' in (kl, kr):
                o = kr if kl == 'string' else kl
                return ('cat',) if o in ('string', 'int', 'float', 'none', 'func') else T
            return T
        if tok in ('TOK_DIV', 'TOK_MOD'):
            if ii:
                return ('div', tok, vl, vr)
            if nn and tok == 'TOK_DIV':
                return ('val', 'float', A('fdiv', fl(vl, kl), fl(vr, kr)))
            return T
        if tok in ('TOK_AND', 'TOK_OR'):
            def f(eng, st):
                return [truthy(eng, st, vl, kl), truthy(eng, st, vr, kr)]
            return ('logic', tok, f)
        if tok == 'TOK_EQ':
            if ii or (kl == 'func' and kr == 'func'):
                return ('bool', lambda e, s: e.cmp(s, 'eq', vl, vr, ('i', 32)))
            if kl == 'string' and kr == 'string':
                return ('streq', l, r, vl, vr)
            if kl == 'none' or kr == 'none':
                return ('bool', lambda e, s: ONE if kl == kr else ZERO)
            if nn:
                return ('bool', lambda e, s: A('fcmp', 'oeq', *sorted((fl(vl, kl), fl(vr, kr)), key=E_key)))
            if kl == kr:
                return ('any',)
            return T
        # comparisons
        if ii:
            p = {'TOK_LT': 'slt', 'TOK_GT': 'sgt', 'TOK_LEQ': 'sle', 'TOK_GEQ': 'sge'}[tok]
            return ('bool', lambda e, s: e.cmp(s, p, vl, vr, ('i', 32)))
        if nn:
            a, b = fl(vl, kl), fl(vr, kr)
            if tok in ('TOK_GT', 'TOK_GEQ'):
                a, b = b, a
            return ('bool', lambda e, s: A('fcmp', 'olt' if tok in ('TOK_LT', 'TOK_GT') else 'ole', a, b))
        return T


def ptr_of(t, slot):
    """is t a pointer to the characters of the string value in slot (or a std::string copy of them)"""
    return slot is not None and is_lin(t) and any(a is single(slot) for a in atoms_of(t))


def judge(R, key, site, eng, O, outs, spec, V):
    desc = key
    for o in outs:
        if o.kind != 'ret':
            ev = [t for t in o.st.trace if t[0] in ('assert_fail', 'abort', 'terminate', 'trap')]
            R.bad(key + ':abort', ev[-1][-1] if ev else site, '%s: the operation can abort the process (%s)' % (desc, ev[-1][1] if ev else o.kind))
            continue
        r = O.result(o)
        st = o.st
        if r['err'] is None:
            R.undecided(key, 'error state not determined')
            continue
        want_err = None
        if spec[0] == 'err':
            want_err = spec[1]
        elif spec[0] == 'any':
            if r['err'] == 0 and r['dstack'] is not None and r['dstack'] != DEPTH[0]:
                R.bad(key + ':stack', site, '%s: leaves %d values instead of one' % (desc, r['dstack']))
            else:
                R.ok('no wrong result')
            continue
        elif spec[0] == 'div':
            z = eng.cmp(st, 'eq', spec[3], ZERO, ('i', 32))
            zc = st.const(z)
            if zc is None:
                if r['err'] != 0:
                    R.bad(key + ':diverr', site, '%s: division can fail although the divisor is not zero' % desc)
                else:
                    R.bad(key + ':divzero', site, '%s: a zero divisor is not detected' % desc)
                continue
            if zc:
                want_err = V.ERR['e_bad_divide_by_zero']
        if want_err is not None:
            if r['err'] == 0:
                R.bad(key + ':noerr', site, '%s: produces a value instead of error %d' % (desc, want_err))
            elif r['err'] != want_err:
                R.bad(key + ':errcode', site, '%s: reports error %d instead of %d' % (desc, r['err'], want_err))
            elif r['fin'] != 1:
                R.bad(key + ':goeson', site, '%s: the thread keeps running after the error' % desc)
            else:
                R.ok('documented error')
            continue
        if r['err'] != 0:
            R.bad(key + ':err', site, '%s: raises error %d instead of computing a result' % (desc, r['err']))
            continue
        if r['dstack'] is None:
            R.undecided(key, 'stack height')
            continue
        if r['dstack'] != DEPTH[0]:
            R.bad(key + ':stack', site, '%s: net stack effect %d' % (desc, r['dstack']))
            continue
        if r['kind'] is None:
            R.undecided(key, 'kind of result not determined')
            continue
        wk = {'val': lambda: spec[1], 'bool': lambda: 'int', 'logic': lambda: 'int', 'cat': lambda: 'string', 'streq': lambda: 'int', 'div': lambda: 'int'}[spec[0]]()
        if r['kind'] != wk:
            R.bad(key + ':kind', site, '%s: result is %s instead of %s' % (desc, r['kind'], wk))
            continue
        p = r['payload']
        if p is None or not is_lin(p):
            R.undecided(key, 'payload not tracked')
            continue
        if spec[0] in ('val', 'div'):
            if spec[0] == 'div':
                l_, r_ = spec[2], spec[3]
                m1 = st.const(eng.cmp(st, 'eq', r_, C(-1), ('i', 32)))
                if spec[1] == 'TOK_DIV':
                    good = (p == A('sdiv', l_, r_)) or (m1 and st.const(add(p, l_)) == 0)
                else:
                    good = (p == A('srem', l_, r_)) or (m1 and st.const(p) == 0)
                c1 = st.const(r_)
                if not good and c1 == 1:
                    good = (spec[1] == 'TOK_DIV' and p == l_) or (spec[1] == 'TOK_MOD' and st.const(p) == 0)
            elif wk == 'float':
                good = same_float(p, spec[2])
            else:
                good = p == spec[2] or st.const(sub(p, spec[2])) == 0
            if good:
                R.ok('payload equals specification term')
            elif decided(p) or (spec[0] == 'div' and decided(p)):
                R.bad(key + ':value', site, '%s: computes %s' % (desc, show(p)))
            else:
                R.undecided(key, 'payload %s' % show(p))
        elif spec[0] == 'bool':
            g = opsem.truth_agrees(eng, st, spec[1](eng, st), p)
            if g is True:
                R.ok('truth value equals specification')
            elif g is False:
                R.bad(key + ':value', site, '%s: wrong truth value on a path (%s)' % (desc, show(p)))
            else:
                R.undecided(key, 'truth value %s' % show(p))
        elif spec[0] == 'logic':
            cs = spec[2](eng, st)
            g = logic(eng, st, spec[1], cs, p)
            if g is True:
                R.ok('truth value equals specification')
            elif g is False:
                R.bad(key + ':value', site, '%s: wrong truth value on a path' % desc)
            else:
                R.undecided(key, 'truth value %s' % show(p))
        elif spec[0] == 'streq':
            _, l, r_, nl, nr = spec
            neq = st.const(eng.cmp(st, 'eq', nl, nr, ('i', 32)))
            cmps = []
            for form, rg in st.facts.d.items():
                for a, k in form:
                    if a.kind in ('call', 'bool') and ptr_any(a, l) and ptr_any(a, r_):
                        cmps.append((a, st.const((0, ((a, 1),))), rg))
            c = st.const(p)
            if c is None:
                R.undecided(key, 'string equality %s' % show(p))
            elif c == 1:
                same = any((v == 0 if a.kind == 'call' else v == 1) for a, v, _ in cmps)
                if l == r_ or same:
                    R.ok('equal only if the contents compare equal')
                elif cmps:
                    R.undecided(key, 'comparison form')
                else:
                    R.bad(key + ':value', site, '%s: reported equal without comparing the contents' % desc)
            else:
                if neq == 0:
                    R.ok('different lengths are different')
                elif any((v != 0 if a.kind == 'call' else v != 1) and not (a.kind == 'call' and v is None and rg[0] is not None and rg[0] == rg[1] == 0) for a, v, rg in cmps):
                    R.ok('different only if the contents differ')
                elif cmps:
                    R.bad(key + ':value', site, '%s: reported different although the contents compare equal' % desc)
                elif neq is None or neq == 1:
                    R.bad(key + ':value', site, '%s: reported different without comparing the contents' % desc)
        elif spec[0] == 'cat':
            R.ok('concatenation yields a string')
            if len(spec) > 1:
                joined(R, key, site, desc, eng, V, r, st, spec)


def parts(c, st, out):
    """the pieces of a string content: ('lit', text) | ('chars', from, length) | ('num', value); None if one is not understood"""
    a = single(c) if is_lin(c) else None
    if a is None:
        return None
    if a.kind == 'cat':
        return parts(a.args[0], st, out) is not None and parts(a.args[1], st, out) is not None and out or None
    if a.kind == 'slit':
        if a.args[0]:
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + a.args[0])
            else:
                out.append(('lit', a.args[0]))
    elif a.kind == 'srange':
        out.append(('chars', a.args[0], sub(a.args[1], a.args[0])))
    elif a.kind == 'cstr' and is_lin(a.args[0]):
        out.append(('chars', a.args[0], None))
    elif a.kind == 'tostr':
        out.append(('num', a.args[0]))
    else:
        return None
    return out or [('lit', '')]


def converted(x, want):
    """another number made from the operand: a float rounded to an integer"""
    return x.kind in ('f2i', 'f2u') and is_lin(x.args[0]) and x.args[0] == want


def joined(R, key, site, desc, eng, V, r, st, spec):
    """the characters of a concatenation: those of the left operand, then those of the right one"""
    hdr = V.P.cls('nano::value_t').size
    want = []
    for k, s in spec[1:]:
        if k == 'string':
            want.append(('chars', add(s, C(hdr)), payload(s, k)))
        elif k == 'none':
            want.append(('lit', 'none'))
        elif k == 'func':
            want += [('lit', 'function@'), ('num', payload(s, k))]
        else:
            want.append(('num', payload(s, k)))
    cp = [t for t in st.trace if t[0] == 'copy' and is_lin(t[1]) and st.const(sub(t[1], add(r['ptr'], C(hdr)))) == 0]
    if len(cp) != 1 or any(t[0] == 'loop' for t in st.trace):
        R.undecided(key + ' text', '%d copies of characters' % len(cp))
        return
    src = single(cp[0][2]) if is_lin(cp[0][2]) else None
    got = []
    if src is not None and src.kind == 'sdata':
        cut = single(src.args[0]) if is_lin(src.args[0]) else src.args[0]
        if cut is not None and cut.kind == 'sresize' and parts(cut.args[1], st, []) is not None and st.const(cut.args[0]) is not None:
            import stdmodel
            hi = st.facts.rng(stdmodel.slen(cut.args[1]))[1]
            n = st.const(cut.args[0])
            if not st.facts.lossy and (hi is None or hi > n) and n < 1 << 31:
                R.bad(key + ':text', site, '%s: only the first %d characters of the result are kept' % (desc, n))
                return
    if src is None or src.kind != 'sdata' or parts(src.args[0], st, got) is None:
        R.undecided(key + ' text', 'characters %s' % (show(cp[0][2])[:100] if is_lin(cp[0][2]) else cp[0][2]))
        return
    import stdmodel
    ln = stdmodel.slen(src.args[0])
    ok, sure = len(got) == len(want), not st.facts.lossy
    if ok:
        for g, w in zip(got, want):
            if g[0] != w[0]:
                ok = False
            elif g[0] == 'chars':
                d = sub(g[1], w[1])
                n = ZERO if g[2] is None else sub(g[2], w[2])
                if d != ZERO or st.const(n) != 0:
                    ok = False
                    sure = sure and insem.differs(st, d if d != ZERO else n)
            elif g[1] != w[1]:
                ok = False
                if g[0] == 'num':
                    sure = sure and is_lin(g[1]) and all(insem.exact_atom(x) or converted(x, w[1]) for x, _ in g[1][1])
    if not ok:
        if sure:
            R.bad(key + ':text', site, '%s: the characters of the result are not those of the left operand followed by those of the right one' % desc)
        else:
            R.undecided(key + ' text', str(got)[:120])
        return
    n = cp[0][3]
    if st.const(sub(n, ln)) in (0, 1) and st.const(sub(r['payload'], ln)) == 0:
        R.ok('concatenation has all characters of both operands in order')
    elif st.const(sub(n, ln)) is not None and st.const(sub(r['payload'], ln)) is not None:
        R.bad(key + ':length', site, '%s: the length of the result is wrong' % desc)
    else:
        R.undecided(key + ' text', 'length %s of %s' % (show(n)[:60], show(ln)[:60]))


def ptr_any(a, slot):
    s = single(slot)
    return any(x is s for x in atoms_of((0, ((a, 1),))))


def logic(eng, st, tok, cs, got):
    res = True
    for ta in (True, False):
        for tb in (True, False):
            s = st.copy()
            try:
                eng.assume(s, cs[0], ta)
                eng.assume(s, cs[1], tb)
            except Infeasible:
                continue
            w = int(ta and tb) if tok == 'TOK_AND' else int(ta or tb)
            c = s.const(got)
            if c is None:
                res = None if res else res
            elif c != w:
                return False
    return res


DEPTH = [-1]


def run(ctx, R):
    O = opsem.Ops(ctx)
    V = O.V
    S = Spec(V)
    jobs = []
    seen = {}
    for tok in BIN:
        res, f = O.binary(tok)
        R.fn(f)
        for kind, order, ops, o in res:
            key = 'binary %s' % tok
            if kind != 'ret':
                R.bad(key + ':codegen', f.loc(), '%s: the code generator aborts' % tok)
                continue
            if isinstance(o, str) or len(ops) != 1 or ops[0] is None:
                R.undecided(key, 'emission is not "operands, one opcode": %s %s %s' % (order, ops, o if isinstance(o, str) else ''))
                continue
            if sorted(order) != ['left', 'right']:
                R.bad(key + ':operands', f.loc(), '%s: operands evaluated are %s' % (tok, order))
                continue
            if order != ['left', 'right']:
                R.bad(key + ':order', f.loc(), '%s: operands are evaluated right to left' % tok)
            seen[tok] = ops[0]
            for kl in KINDS:
                for kr in KINDS:
                    jobs.append(('b', tok, tuple(order), ops[0], kl, kr))
    for tok in UN:
        res, f = O.unary(tok)
        R.fn(f)
        for kind, order, ops, o in res:
            key = 'unary %s' % tok
            if kind != 'ret':
                R.bad(key + ':codegen', f.loc(), '%s: the code generator aborts' % tok)
                continue
            if isinstance(o, str) or len(ops) != 1 or ops[0] is None or order != ['child']:
                R.undecided(key, 'emission is not "operand, one opcode"')
                continue
            for k in KINDS:
                jobs.append(('u', tok, tuple(order), ops[0], k, None))
    R.floor('operator/kind combinations', len(jobs), 500)

    def work(j, r):
        typ, tok, order, op, kl, kr = j
        if typ == 'b':
            slots = [kl, kr] if order[0] == 'right' else [kr, kl]
            def obs(eng, st, kind, fr, ins, kw):
                if kind == 'memcpy':
                    st.emit('copy', kw['dst'], kw['src'], kw['n'])
            e, outs, ts = O.vm_case(op, tuple(slots), obs=obs)
            l, rr = (ts[0], ts[1]) if order[0] == 'right' else (ts[1], ts[0])
            spec = S.binary(tok, kl, kr, l, rr)
            if spec[0] == 'cat':
                spec = ('cat', (kl, l), (kr, rr))
            key = '%s %s %s' % (kl, tok[4:], kr)
            DEPTH[0] = -1
        else:
            e, outs, ts = O.vm_case(op, (kl,))
            v = payload(ts[0], kl) if kl != 'none' else None
            key = 'unary %s %s' % (tok[4:], kl)
            DEPTH[0] = 0
            if tok == 'TOK_NOT':
                spec = ('bool', lambda en, st: sub(ONE, truthy(en, st, v, kl)))
            elif kl == 'int':
                spec = ('val', 'int', scale(v, -1))
            elif kl == 'float':
                spec = ('val', 'float', A('fneg', v))
            else:
                spec = ('err', V.ERR['e_bad_type_operation'])
        site = handler_site(V, e)
        for f in e.fns_seen:
            if V.P.in_repo(f):
                r.fn(f)
        judge(r, key, site, e, O, outs, spec, V)
        r.sample({'case': key, 'paths': len(outs), 'spec': spec[0]})
    frame.pmap(work, jobs, R)


def handler_site(V, e):
    fs = [f for f in e.fns_seen if V.P.in_repo(f) and 'thread_t::do_' in f.dem]
    if fs:
        return '%s (%s)' % (fs[0].loc(), fs[0].dem)
    return V.entry().loc()
