"""Specifications of single instructions, decided on the interpreter's code for every operand kind.

Each rule compares the state after one analysed instruction (all paths, exact terms) with the meaning the rest of the
analyses rely on: next instruction, operand stack height, result, frames, variables, array elements, errors."""
from terms import *
import opsem
from opsem import const_of
import checks.c06 as c06
import frame

KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')
# pushes minus pops of the instructions with a fixed effect
FIXED = {'INS_ADD': -1, 'INS_SUB': -1, 'INS_MUL': -1, 'INS_DIV': -1, 'INS_MOD': -1, 'INS_AND': -1, 'INS_OR': -1,
         'INS_NOT': 0, 'INS_NEG': 0, 'INS_LT': -1, 'INS_GT': -1, 'INS_LEQ': -1, 'INS_GEQ': -1, 'INS_EQ': -1,
         'INS_JMP': 0, 'INS_TJMP': -1, 'INS_FJMP': -1, 'INS_CALL': 0, 'INS_NEW_ARY': 1, 'INS_NEW_INT': 1,
         'INS_NEW_STR': 1, 'INS_NEW_NONE': 1, 'INS_NEW_FLT': 1, 'INS_NEW_FUNC': 1, 'INS_NEW_SCALL': 1,
         'INS_GLOBALS': 0, 'INS_GETV': 1, 'INS_SETV': -1, 'INS_GETG': 1, 'INS_SETG': -1, 'INS_DEREF': -1,
         'INS_SETA': -3, 'INS_GETM': 0, 'INS_SETM': -2}


class InSem:
    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.O = opsem.Ops(ctx)
        self.V = self.O.V
        self.seed = c06.seed(self.V, self.P)
        self.ERR = self.V.ERR
        V = self.V
        try:
            self.f_sp = self.P.field('nano::frame_t', 'sp_')
            self.f_ret = self.P.field('nano::frame_t', 'return_')
            self.f_term = self.P.field('nano::frame_t', 'terminal_')
            self.f_size = self.P.cls('nano::frame_t').size
        except Exception:
            self.f_sp = None

    def case(self, op, kinds=(), extra=None, obs=None, nohost=True, seed=True):
        V = self.V

        def ex(e, st):
            if seed:
                self.seed(e, st)
            if op in ('INS_ARY_INIT', 'INS_NEW_ARY'):
                st.facts.le0(sub(ONE, A('op', 0)))
            c06.find_total(e, V)
            if extra:
                extra(e, st)
        e, outs, ts = V.case(op, kinds, nojoin=True, extra=ex, obs=obs, nohost=nohost)
        res = []
        for o in outs:
            r = self.O.result(o)
            r['o'] = o
            r['st'] = o.st
            s = r['sum']
            r['d'] = s.dstack
            r['pc'] = s.pc
            res.append(r)
        return e, res, ts

    def pc_next(self, n):
        return add(self.V.pc0, C(n))

    def frame_top(self, n=0):
        """address of the frame n below the top at entry"""
        V = self.V
        return add(A('vdata', V.fvec), scale(sub(A('vsize', V.fvec, (0, 0)), C(1 + n)), self.f_size))

    def stackcell(self, idx):
        return add(A('vdata', self.V.stackvec), scale(idx, 8))


def c04():
    import checks.c04 as m
    return m


def eff(ctx):
    return ctx.get('insem', lambda: InSem(ctx))


def site(S):
    return S.V.entry().loc()


def handler(S, op):
    """best location for a report: the function of the interpreter that handles the instruction"""
    l = [f for f in S.P.find('nano::thread_t::do_%s_' % op) if S.P.in_repo(f)]
    return l[0].loc() if l else site(S)


def paths(R, S, op, res, key):
    """returning paths; aborting ones are C06's business"""
    for r in res:
        if r['o'].kind == 'ret':
            yield r


def heights(ctx, R, quick=True):
    """C02: stack effect of every instruction, for every kind of its operands"""
    import itertools
    S = eff(ctx)
    jobs = []
    for op in S.V.INS:
        k = 3 if op == 'INS_SETA' else 2
        for ks in itertools.product(KINDS, repeat=k):
            if k == 3 and len(set(ks)) > 2:
                continue
            jobs.append((op, ks))

    def work(j, r_):
        op, ks = j
        e, res, ts = S.case(op, ks)
        for f in e.fns_seen:
            if S.P.in_repo(f):
                r_.fn(f)
        for r in paths(r_, S, op, res, op):
            if r['err'] is None:
                r_.undecided('%s %s' % (op, ks), 'error state unknown')
                continue
            if r['err']:
                continue
            if op in FIXED:
                want = C(FIXED[op])
            elif op == 'INS_LOCALS':
                want = A('op', 0)
            elif op in ('INS_POP', 'INS_RET'):
                want = scale(A('op', 0), -1)
            elif op == 'INS_ARY_INIT':
                want = sub(ONE, A('op', 0))
            elif op == 'INS_ICALL':
                want = C(-1)
            elif op == 'INS_SCALL':
                want = ZERO
            else:
                r_.undecided(op, 'no specification for this instruction')
                continue
            same(r_, r['st'], r['d'], want, '%s %s' % (op, ' '.join(ks)), handler(S, op),
                 '%s changes the operand stack by %%s instead of %%s' % op, 'stack effect of an instruction')
    frame.pmap(work, jobs, R)


def same(R, st, got, want, key, where, msg, rule, scale_=None):
    """got == want in st?"""
    if got is None or not is_lin(got):
        R.undecided(key, 'value not known')
        return None
    if got == want:
        R.ok(rule)
        return True
    d = sub(got, want)
    rg = st.facts.rng(d)
    if rg[0] == 0 and rg[1] == 0:
        R.ok(rule)
        return True
    if differs(st, d):
        R.bad(key, where, msg % (show(got)[:120], show(want)[:120]))
        return False
    R.undecided(key, 'cannot compare %s with %s' % (show(got)[:100], show(want)[:100]))
    return None


EXACT = ('op', 'sym', 'slot', 'vsize', 'vdata', 'obj', 'arena', 'arg', 'val', 'offset', 'stack_size', 'len', 'input', 'K')


def exact_atom(a):
    """an input of the analysed code (may take any value), not an abstraction result"""
    if a.kind in EXACT:
        return True
    if a.kind == 'ld':
        return a.args[0] is not None and is_lin(a.args[0]) and a.args[2] == (0, 0) and all(exact_atom(x) for x, _ in a.args[0][1])
    if a.kind in ('vsize', 'str', 'usize'):
        return True
    return False


def differs(st, d):
    """is d certainly nonzero for some input of this path?  (constants, or a combination of free inputs)"""
    rg = st.facts.rng(d)
    if (rg[0] is not None and rg[0] > 0) or (rg[1] is not None and rg[1] < 0):
        return True
    if not d[1]:
        return d[0] != 0
    if st.facts.lossy:
        return False
    return all(exact_atom(a) for a, _ in d[1]) or witness(st, d)


FUNS = ('z8', 's8', 'z16', 's16', 'byte', 'and', 'shr', 'srem', 'sdiv')
POINTS = (0, 1, -1, 2, 3, 100, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70000, 1 << 24, (1 << 31) - 1, -(1 << 31), -2, -129, -32769)


def leaves(t, out):
    """free inputs below the truncating operations of a term; False if something else occurs"""
    for a, _ in t[1]:
        if exact_atom(a):
            out.add(a)
        elif a.kind in FUNS:
            if not all(is_lin(x) and leaves(x, out) for x in a.args):
                return False
        else:
            return False
    return True


def evw(t, m):
    n = t[0]
    for a, k in t[1]:
        if a in m:
            n += k * m[a]
            continue
        v = [evw(x, m) for x in a.args]
        K = a.kind
        if K == 'z8':
            r = v[0] & 255
        elif K == 's8':
            r = ((v[0] + 128) & 255) - 128
        elif K == 'z16':
            r = v[0] & 65535
        elif K == 's16':
            r = ((v[0] + 32768) & 65535) - 32768
        elif K == 'byte':
            r = (v[1] >> (8 * v[0])) & 255
        elif K == 'and':
            r = v[0] & v[1]
        elif K == 'shr':
            r = v[0] >> v[1]
        else:
            raise KeyError(K)
        n += k * r
    return n


def witness(st, d):
    """an input of this path for which d, a combination of truncations of free inputs, is not zero"""
    ls = set()
    if not leaves(d, ls) or not 1 <= len(ls) <= 2:
        return False
    rel = []
    for form, r in st.facts.d.items():
        fl = set()
        ok = leaves((0, form), fl)
        touched = set()
        for a, _ in form:
            touched |= ls & set(atoms_of((0, ((a, 1),)))) | (ls & {a})
        if touched:
            if not ok or not fl <= ls:
                return False
            rel.append((form, r))
    ls = sorted(ls, key=lambda a: a.id)
    import itertools
    cand = []
    for a in ls:
        lo, hi = st.facts.rng((0, ((a, 1),)))[:2]
        cand.append([x for x in POINTS if (lo is None or x >= lo) and (hi is None or x <= hi)])
    try:
        for vs in itertools.product(*cand):
            m = dict(zip(ls, vs))
            if evw(d, m) == 0:
                continue
            if all((r[0] is None or evw((0, f), m) >= r[0]) and (r[1] is None or evw((0, f), m) <= r[1]) and evw((0, f), m) not in r[2] for f, r in rel):
                return True
    except KeyError:
        pass
    return False


# ------------------------------------------------------------------ C03
def jumps(ctx, R):
    S = eff(ctx)
    V = S.V
    n = 0
    for op in ('INS_JMP', 'INS_TJMP', 'INS_FJMP'):
        ilen = 5
        for k in (KINDS if op != 'INS_JMP' else ('int',)):
            e, res, ts = S.case(op, (k, 'int'))
            key = '%s %s' % (op, k)
            R.fn([f for f in S.P.find('nano::thread_t::do_%s_' % op)][0] if S.P.find('nano::thread_t::do_%s_' % op) else V.entry())
            n += 1
            for r in paths(R, S, op, res, key):
                st = r['st']
                if r['err']:
                    R.bad(key + ':err', handler(S, op), '%s on a %s raises error %d' % (op, k, r['err']))
                    continue
                taken = None
                if r['pc'] == A('op', 0):
                    taken = True
                elif is_lin(r['pc']) and not sub(r['pc'], V.pc0)[1]:
                    off = sub(r['pc'], V.pc0)[0]
                    if off == ilen:
                        taken = False
                    else:
                        R.bad(key + ':next', handler(S, op), '%s not taken continues at offset %d instead of %d' % (op, off, ilen))
                        continue
                if taken is None:
                    same(R, st, r['pc'], A('op', 0), key + ':pc', handler(S, op), op + ' continues at %s instead of %s', 'jump target')
                    continue
                if op == 'INS_JMP':
                    (R.ok('unconditional jump goes to its operand') if taken else
                     R.bad(key, handler(S, op), 'INS_JMP falls through'))
                    continue
                want = taken if op == 'INS_TJMP' else not taken
                if k == 'none':
                    cond = ZERO
                else:
                    cond = c04().truthy(e, st, c04().payload(ts[0], k), k)
                ag = opsem.truth_agrees(e, st, cond, C(1 if want else 0))
                if ag:
                    R.ok('conditional jump follows the truth of the value')
                elif ag is False:
                    R.bad(key, handler(S, op), '%s: a %s value is treated as %s where it is %s' %
                          (op, k, 'true' if want else 'false', 'false (zero, empty or none)' if want else 'true'))
                else:
                    R.undecided(key, 'truth of the %s on this path' % k)
    return n


# ------------------------------------------------------------------ C13
def cell(S, st, addr):
    v = st.mem.get((addr[1], addr[0], 'M'))
    return v[1] if v else None


def fsize(S, st):
    n = st.mem.get((S.V.fvec[1], S.V.fvec[0], 'N'))
    return sub(n[1], A('vsize', S.V.fvec, (0, 0))) if n else ZERO


def entered(S, R, r, key, op, sp, ret, pc, dwant):
    """a new frame was pushed for a call"""
    V, st = S.V, r['st']
    w = handler(S, op)
    same(R, st, fsize(S, st), ONE, key + ':frames', w, op + ': the number of frames grows by %s instead of %s', 'call pushes one frame')
    top = add(A('vdata', V.fvec), scale(A('vsize', V.fvec, (0, 0)), S.f_size))
    for off, want, what in ((S.f_sp, sp, 'frame base'), (S.f_ret, ret, 'return address')):
        same(R, st, cell(S, st, add(top, C(off))), want, key + ':' + what, w, op + ': the ' + what + ' of the new frame is %s instead of %s', what + ' of a call')
    t = cell(S, st, add(top, C(S.f_term)))
    same(R, st, t, ZERO, key + ':terminal', w, op + ': the new frame is marked terminal (%s, expected %s)', 'nested frame is not terminal')
    same(R, st, r['pc'], pc, key + ':pc', w, op + ' continues at %s instead of %s', 'call continues at the callee')
    same(R, st, r['d'], dwant, key + ':stack', w, op + ' changes the operand stack by %s instead of %s', 'arguments stay where they are')


def calls(ctx, R):
    S = eff(ctx)
    V = S.V
    if S.f_sp is None:
        R.undecided('frames', 'frame_t layout')
        return
    # ---- direct call
    for k in KINDS:
        e, res, ts = S.case('INS_CALL', (k, 'int'))
        R.fn(V.entry())
        for r in paths(R, S, 'INS_CALL', res, ''):
            if r['err']:
                R.bad('INS_CALL:err', handler(S, 'INS_CALL'), 'a direct call raises error %d' % r['err'])
                continue
            entered(S, R, r, 'INS_CALL', 'INS_CALL', V.N0(), S.pc_next(9), A('op', 1), ZERO)
            same(R, r['st'], r['sum'].fin, ZERO, 'INS_CALL:fin', handler(S, 'INS_CALL'), 'a call sets the finished flag to %s', 'call keeps running')
    # ---- return
    for k in KINDS:
        e, res, ts = S.case('INS_RET', (k, 'int'))
        w = handler(S, 'INS_RET')
        for r in paths(R, S, 'INS_RET', res, ''):
            st = r['st']
            if r['err']:
                R.bad('INS_RET:err', w, 'a return raises error %d' % r['err'])
                continue
            # top of stack: index N0 - 1 - op0
            top = cell(S, st, S.stackcell(sub(sub(V.N0(), ONE), A('op', 0))))
            same(R, st, r['d'], scale(A('op', 0), -1), 'INS_RET:stack', w, 'a return changes the operand stack by %s instead of %s', 'return discards the frame')
            if top is None:
                R.undecided('INS_RET:value', 'top of stack')
            elif top == ts[0] or (k == 'none' and const_of(st, top) == 0):
                R.ok('return value is on top of the stack')
            else:
                same(R, st, top, ts[0], 'INS_RET:value', w, 'the value left by a return is %s instead of %s', 'return value is on top of the stack')
            ft = S.frame_top()
            ra = A('ld', add(ft, C(S.f_ret)), 'i4', (0, 0))
            same(R, st, r['pc'], ra, 'INS_RET:pc', w, 'a return continues at %s instead of %s', 'return continues after the call')
            same(R, st, fsize(S, st), C(-1), 'INS_RET:frames', w, 'a return changes the number of frames by %s instead of %s', 'return removes one frame')
            fin = r['sum'].fin
            tv = None
            for (at, c, kd), v in st.mem.items():
                if (c, at) == add(ft, C(S.f_term)):
                    tv = v[1]
            if tv is None or fin is None:
                R.undecided('INS_RET:fin', 'finished flag')
                continue
            nf = A('vsize', V.fvec, (0, 0))
            for asm, want, what in (((('t', 1),), 1, 'the terminal frame'), ((('n', 1),), 1, 'the outermost frame'),
                                    ((('t', 0), ('m', 2)), 0, 'an inner frame')):
                s = st.copy()
                try:
                    for a, b in asm:
                        if a == 't':
                            e.assume(s, e.cmp(s, 'ne', tv, ZERO, ('i', 8)), bool(b))
                        elif a == 'n':
                            s.facts.eq0(sub(nf, C(b)))
                        else:
                            s.facts.le0(sub(C(b), nf))
                except Infeasible:
                    continue
                if not consistent(s):
                    continue
                c = finval(s, fin)
                if c is None:
                    # a boolean combination: decide with the assumptions substituted
                    R.undecided('INS_RET:fin ' + what, 'finished = %s' % show(fin)[:120])
                elif (c != 0) == bool(want):
                    R.ok('return from %s %s the thread' % (what, 'finishes' if want else 'does not finish'))
                else:
                    R.bad('INS_RET:fin', w, 'returning from %s %s the thread' % (what, 'does not finish' if want else 'finishes'))
    # ---- indirect call
    for k in KINDS:
        e, res, ts = S.case('INS_ICALL', (k, 'int'))
        w = handler(S, 'INS_ICALL')
        good = 0
        for r in paths(R, S, 'INS_ICALL', res, ''):
            st = r['st']
            host = [t for t in st.trace if t[0] == 'host']
            if k == 'func':
                v = A('ld', ts[0], 'i4', (0, 0))
                na = nargs_of(S, st)
                if r['err']:
                    if r['err'] != S.ERR.get('e_bad_num_args'):
                        R.bad('INS_ICALL func:err', w, 'calling a function value raises error %d' % r['err'])
                    elif na is not None and izero(st, sub(na, A('op', 0))) in (True, 'both'):
                        R.bad('INS_ICALL func:count', w, 'calling a function value with the right number of arguments raises an error')
                    else:
                        R.ok('wrong argument count raises an error')
                    continue
                good += 1
                if na is None:
                    R.undecided('INS_ICALL func:count', 'declared argument count')
                else:
                    z = izero(st, sub(na, A('op', 0)))
                    if z is True:
                        R.ok('function value is called only with matching argument count')
                    elif z in (False, 'both'):
                        R.bad('INS_ICALL func:count', w, 'a function value is called although the number of arguments does not match')
                    else:
                        R.undecided('INS_ICALL func:count', 'argument count')
                entered(S, R, r, 'INS_ICALL', 'INS_ICALL', sub(V.N0(), ONE), S.pc_next(5), v, C(-1))
            elif k == 'syscall':
                if r['err']:
                    if r['err'] == S.ERR.get('e_bad_syscall'):
                        R.ok('unresolved builtin raises an error')
                    else:
                        R.bad('INS_ICALL syscall:err', w, 'calling a builtin value raises error %d' % r['err'])
                    continue
                good += 1
                hostcall(S, R, r, 'INS_ICALL syscall', w, A('ld', ts[0], 'i4', (0, 0)), A('op', 0))
                same(R, st, r['d'], C(-1), 'INS_ICALL syscall:stack', w, 'the stack seen by a builtin called through a value differs by %s instead of %s', 'builtin sees its arguments on top')
            else:
                good += 1
                want = S.ERR.get('e_bad_type_operation')
                if r['err'] == want:
                    R.ok('calling a value that is not callable raises a type error')
                elif r['err'] is not None:
                    R.bad('INS_ICALL ' + k, w, 'calling a %s value %s' % (k, 'raises error %d' % r['err'] if r['err'] else 'raises no error'))
                else:
                    R.undecided('INS_ICALL ' + k, 'error state')
        if not good:
            R.bad('INS_ICALL %s:never' % k, w, 'calling a %s value never succeeds' % k)
    # ---- builtin call
    e, res, ts = S.case('INS_SCALL', ('int', 'int'))
    w = handler(S, 'INS_SCALL')
    for r in paths(R, S, 'INS_SCALL', res, ''):
        if r['err']:
            if r['err'] == S.ERR.get('e_bad_syscall'):
                R.ok('unresolved builtin raises an error')
            else:
                R.bad('INS_SCALL:err', w, 'a builtin call raises error %d itself' % r['err'])
            continue
        hostcall(S, R, r, 'INS_SCALL', w, A('op', 1), A('op', 0))
        same(R, r['st'], r['d'], ZERO, 'INS_SCALL:stack', w, 'the stack seen by a builtin differs by %s instead of %s', 'builtin sees its arguments on top')
        same(R, r['st'], r['pc'], S.pc_next(9), 'INS_SCALL:pc', w, 'after a builtin call execution continues at %s instead of %s', 'builtin call continues after itself')


def finval(s, fin):
    c = s.const(fin)
    if c is not None:
        return c
    # or / and of known parts
    r = ev(s, fin)
    return r


def ev(s, t):
    if not is_lin(t):
        return None
    c = s.const(t)
    if c is not None:
        return c
    tot = t[0]
    for a, k in t[1]:
        v = eva(s, a)
        if v is None:
            return None
        tot += k * v
    return tot


def consistent(s):
    """no assumed boolean combination contradicts the values of its parts"""
    for form, r in s.facts.d.items():
        if len(form) == 1 and form[0][0].kind in ('or', 'and', 'cmp'):
            a, k = form[0]
            v = eva(s, a, True)
            if v is None:
                continue
            v *= k
            if (r[0] is not None and v < r[0]) or (r[1] is not None and v > r[1]) or v in r[2]:
                return False
    return True


def eva(s, a, fresh=False):
    c = s.const((0, ((a, 1),)))
    if c is not None and not fresh:
        return c
    if a.kind in ('or', 'and', 'xor'):
        vs = [ev(s, x) if is_lin(x) else None for x in a.args]
        if a.kind == 'or':
            if any(v not in (None, 0) for v in vs):
                return 1
            return 0 if all(v == 0 for v in vs) else None
        if a.kind == 'and':
            if any(v == 0 for v in vs):
                return 0
        if None in vs:
            return None
        return (vs[0] & vs[1]) if a.kind == 'and' else (vs[0] ^ vs[1])
    if a.kind == 'cmp' and a.args[0] == 'eq':
        v = ev(s, a.args[1])
        if v is not None:
            return int(v == 0)
        # a nonzero boolean combination
        rg = s.facts.rng(a.args[1])
        if (rg[0] or 0) > 0:
            return 0
    return None


def izero(st, t):
    """is integer term t zero on this path: True / False / 'both' (free input) / None"""
    if not is_lin(t):
        return None
    z, nz = st.facts.copy(), st.facts.copy()
    can0 = can1 = True
    try:
        z.eq0(t)
    except Infeasible:
        can0 = False
    try:
        nz.ne0(t)
    except Infeasible:
        can1 = False
    if can0 != can1:
        return can0
    return 'both' if not st.facts.lossy and all(exact_atom(a) for a, _ in t[1]) and t[1] else None


def nargs_of(S, st):
    try:
        off = S.P.field('nano::function_t', 'args_')
        return A('vsize', add(A('obj', 'FUNC'), C(off)), (0, 0))
    except Exception:
        return None


def hostcall(S, R, r, key, w, index, nargs):
    V = S.V
    host = [t for t in r['st'].trace if t[0] == 'host']
    if len(host) != 1:
        R.bad(key + ':host', w, '%s invokes %d host functions' % (key, len(host)))
        return
    fv, args = host[0][1], host[0][2]
    sv = add(V.prog, C(S.P.field('nano::program_t', 'syscalls_')))
    a = single(fv)
    want = add(A('vdata', sv), scale(index, es(S)))
    if a is None or a.kind != 'ld':
        R.undecided(key + ':host', 'called function')
    else:
        d = sub(a.args[0], want)
        if not d[1]:
            R.ok('builtin call reaches the entry of the builtin table selected by its operand')
        elif all(exact_atom(x) for x, _ in d[1]):
            R.bad(key + ':host', w, '%s calls the builtin table entry at %s' % (key, show(a.args[0])[:100]))
        else:
            R.undecided(key + ':host', 'called function')
    if len(args) >= 2:
        same(R, r['st'], args[1], nargs, key + ':nargs', w, key + ' passes an argument count of %s instead of %s', 'builtin gets the argument count of the call')


def es(S):
    """size of an entry of the builtin table"""
    for n, c in S.P.classes().items():
        if n.startswith('nano::program_t::') and 'call_' in c.fields:
            return c.size
    return 40


# ------------------------------------------------------------------ C21
def variables(ctx, R):
    S = eff(ctx)
    V = S.V
    op0 = A('op', 0)
    if S.f_sp is None:
        R.undecided('frames', 'frame_t layout')
        return
    sp = A('ld', add(S.frame_top(), C(S.f_sp)), 'i4', (0, 0))
    lcell = S.stackcell(add(sp, op0))
    gcell = add(A('vdata', V.gvec), scale(op0, 8))
    for op, addr, what in (('INS_GETV', lcell, 'local'), ('INS_GETG', gcell, 'global')):
        e, res, ts = S.case(op, ('int', 'int'), seed=False)
        w = handler(S, op)
        good = 0
        for r in paths(R, S, op, res, op):
            st = r['st']
            if r['err']:
                bounds(S, R, e, r, op, w, what, sp)
                continue
            good += 1
            p = r['ptr']
            a = single(p) if p is not None and is_lin(p) else None
            if a is None:
                R.undecided(op, 'pushed value')
            elif a.kind == 'ld':
                same(R, st, a.args[0], addr, op + ':slot', w, 'reading a %s variable reads cell %%s instead of %%s' % what, 'a variable is read from its own cell')
            else:
                same(R, st, p, A('ld', addr, 'p', (0, 0)), op + ':slot', w, 'reading a %s variable gives %%s instead of %%s' % what, 'a variable is read from its own cell')
        if not good:
            R.bad(op + ':never', w, 'reading a %s variable never succeeds' % what)
    for op, addr, what in (('INS_SETV', lcell, 'local'), ('INS_SETG', gcell, 'global')):
        wr = []

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'store' and kw['size'] == 8:
                b = [a for a, _ in kw['addr'][1] if a.kind == 'vdata']
                if b and b[0].args[0] in (V.stackvec, V.gvec):
                    st.emit('wr', kw['addr'], kw['val'], eng.site())
        for k in ('int', 'array'):
            e, res, ts = S.case(op, (k, 'int'), obs=obs, seed=False)
            w = handler(S, op)
            good = 0
            for r in paths(R, S, op, res, op):
                st = r['st']
                ws = [t for t in st.trace if t[0] == 'wr']
                if r['err']:
                    bounds(S, R, e, r, op, w, what, sp)
                    if ws:
                        R.bad(op + ':errwrite', w, 'a failing store to a %s variable still writes' % what)
                    continue
                good += 1
                if len(ws) != 1:
                    R.bad(op + ':writes', w, 'storing to a %s variable writes %d cells' % (what, len(ws)))
                    continue
                same(R, st, ws[0][1], addr, op + ':slot', w, 'storing to a %s variable writes cell %%s instead of %%s' % what, 'a variable is stored to its own cell')
                same(R, st, ws[0][2], ts[0], op + ':value', w, 'storing to a %s variable stores %%s instead of %%s' % what, 'the stored value is the operand')
            if not good:
                R.bad(op + ':never', w, 'storing to a %s variable never succeeds' % what)
    # ---- locals start as none
    def obs2(eng, st, kind, fr, ins, kw):
        if kind == 'vec_push' and kw['vec'] == V.stackvec:
            a = kw['arg']
            nul = 'nullptr' in (ins_callee(ins) or '')
            st.emit('wr', kw['idx'], ZERO if nul else (eng.load_raw(st.copy(), a, 8, 'p') if a is not None else ZERO), eng.site())
    def obs3(eng, st, kind, fr, ins, kw):
        if kind == 'vec_resize' and kw['vec'] == V.gvec:
            st.emit('gsize', kw['n'], eng.site())
        elif kind == 'memset' and is_lin(kw['dst']) and kw['dst'] == A('vdata', V.gvec):
            st.emit('gclr', kw['n'], kw['val'], eng.site())
    op = 'INS_GLOBALS'
    e, res, ts = S.case(op, ('int', 'int'), obs=obs3)
    w = handler(S, op)
    for r in paths(R, S, op, res, op):
        st = r['st']
        if r['err'] or const_of(st, op0) == 0:
            continue
        gs = [t for t in flat(st.trace) if t[0] == 'gsize']
        gc = [t for t in flat(st.trace) if t[0] == 'gclr']
        rg = st.facts.rng(op0)
        if not gs:
            if not any(t[0] in ('opaque',) for t in st.trace):
                R.undecided(op, 'globals not resized on a path')
            continue
        same(R, st, gs[-1][1], op0, op + ':n', gs[-1][2], 'space for %s globals is made instead of %s', 'space for every global')
        if gc and is_lin(gc[-1][1]):
            d = sub(gc[-1][1], scale(op0, 8))
            rr = st.facts.rng(d)
            if d == ZERO or rr[0] is not None and rr[0] >= 0:
                R.ok('globals start as none')
            elif differs(st, d):
                R.bad(op + ':clear', gc[-1][3], 'only %s bytes of the globals are cleared' % show(gc[-1][1])[:60])
    e, res, ts = S.case('INS_LOCALS', ('int', 'int'), obs=obs2)
    w = handler(S, 'INS_LOCALS')
    for r in paths(R, S, 'INS_LOCALS', res, ''):
        st = r['st']
        if r['err']:
            R.bad('INS_LOCALS:err', w, 'reserving locals raises error %d' % r['err'])
            continue
        same(R, st, r['d'], A('op', 0), 'INS_LOCALS:n', w, 'reserving locals adds %s cells instead of %s', 'locals reserved')
        bad = None
        for t in flat(st.trace):
            if t[0] == 'wr':
                c = const_of(st, t[2]) if is_lin(t[2]) else None
                if c == 0:
                    R.ok('a fresh local is none')
                elif c is None and is_lin(t[2]) and not all(exact_atom(a) for a, _ in t[2][1]):
                    R.undecided('INS_LOCALS:none', 'value of fresh locals %s' % show(t[2])[:80])
                else:
                    R.bad('INS_LOCALS:none', t[3], 'a fresh local starts as %s instead of none' % show(t[2])[:60])


def ins_callee(ins):
    try:
        return str(ins.a)
    except Exception:
        return ''


def flat(tr):
    for t in tr:
        if t[0] == 'loop':
            for b in t[2]:
                yield from flat(b)
        else:
            yield t


def bounds(S, R, e, r, op, w, what, sp):
    """an error of a variable access must only happen for a cell outside the frame / the globals"""
    V, st = S.V, r['st']
    idx = add(sp, A('op', 0)) if what == 'local' else A('op', 0)
    size = V.N0() if what == 'local' else A('vsize', V.gvec, (0, 0))
    s = st.copy()
    try:
        s.facts.le0(scale(idx, -1))
        # the operand has been popped before a store
        s.facts.le0(sub(add(idx, C(2)), size))
        R.bad(op + ':err', w, 'accessing a %s variable inside its area raises error %d' % (what, r['err']))
    except Infeasible:
        R.ok('a variable access fails only outside the reserved area')


def prepare(ctx, R):
    """thread_t::prepare: argument count check, arguments in order, terminal frame at the entry"""
    S = eff(ctx)
    V = S.V
    P = S.P
    fs = [f for f in P.find('nano::thread_t::prepare') if P.in_repo(f)]
    if not fs or S.f_sp is None:
        R.undecided('prepare', 'thread_t::prepare')
        return
    f = fs[0]
    R.fn(f)
    e = V.engine()
    e.join = False

    def h_copy(eng, st, fr, x, fn, args):
        st.emit('copy', args[-1], eng.site())
        return [(A('call', 'copy', args[-1]), st)]
    e.hook('nano::value_gc_t::copy', h_copy)

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'vec_push' and kw['vec'] == V.stackvec and kw['arg'] is not None:
            st.emit('wr', kw['idx'], eng.load_raw(st.copy(), kw['arg'], 8, 'p'), eng.site())
    e.obs.append(obs)
    st = V.state(e)
    F = A('obj', 'FUNC')
    argc, argv = A('arg', 'argc'), A('obj', 'ARGV')
    st.facts.le0(scale(argc, -1))
    st.facts.le0(sub(argc, C(1 << 20)))
    outs = e.call_fn(f, [V.th, F, argc, argv], st)
    na = nargs_of(S, st)
    entry = P.field('nano::function_t', 'code_start_')
    good = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        st = o.st
        s = V.summary(o)
        rv = const_of(st, o.val)
        err = const_of(st, s.err) if s.err is not None else None
        fin = const_of(st, s.fin) if s.fin is not None else None
        if rv is None:
            R.undecided('prepare', 'result')
            continue
        z = izero(st, sub(na, argc)) if na is not None else None
        if not rv:
            if z in (True, 'both'):
                R.bad('prepare:fail', f.loc(), 'preparing a thread with the right number of arguments fails')
            elif fin == 0:
                R.bad('prepare:fin', f.loc(), 'a thread whose preparation failed is not finished')
            else:
                R.ok('preparation fails for a wrong argument count')
            continue
        good += 1
        if z in (False, 'both'):
            R.bad('prepare:count', f.loc(), 'a thread can be prepared with a wrong number of arguments')
        elif z is True:
            R.ok('a prepared thread has the declared number of arguments')
        else:
            R.undecided('prepare:count', 'argument count')
        if fin is not None and fin != 0:
            R.bad('prepare:fin', f.loc(), 'a prepared thread is already finished')
        if err:
            R.bad('prepare:err', f.loc(), 'a prepared thread carries error %d' % err)
        same(R, st, s.pc, A('ld', add(F, C(entry)), 'i4', (0, 0)), 'prepare:pc', f.loc(), 'a prepared thread starts at %s instead of %s', 'thread starts at the entry')
        n = st.mem.get((V.fvec[1], V.fvec[0], 'N'))
        if n is not None:
            same(R, st, n[1], ONE, 'prepare:frames', f.loc(), 'a prepared thread has %s frames instead of %s', 'one frame')
        top = A('vdata', V.fvec)
        # the arguments lie below the frame base, so the base is the argument count
        same(R, st, cell(S, st, add(top, C(S.f_sp))), argc, 'prepare:base', f.loc(), 'the frame base of a prepared thread is %s instead of %s', 'frame base of the first frame')
        t = cell(S, st, add(top, C(S.f_term)))
        same(R, st, t, ONE, 'prepare:terminal', f.loc(), 'the first frame of a thread has terminal flag %s instead of %s', 'first frame is terminal')
        for t in flat(st.trace):
            if t[0] == 'wr':
                src = single(t[2]) if is_lin(t[2]) else None
                if src is None or src.kind != 'call' or src.args[0] != 'copy':
                    R.undecided('prepare:args', 'argument value %s' % (show(t[2])[:80] if is_lin(t[2]) else ''))
                    continue
                p = single(src.args[1])
                if p is None or p.kind != 'ld':
                    R.undecided('prepare:args', 'argument source')
                    continue
                same(R, st, sub(p.args[0], argv), scale(t[1], 8), 'prepare:args', t[3], 'argument cell (byte offset %s) is pushed at position*8 %s', 'arguments pushed in order')
    if not good:
        R.bad('prepare:never', f.loc(), 'a thread can never be prepared')
