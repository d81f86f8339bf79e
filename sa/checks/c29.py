"""C29: literals and references evaluate to exactly what is written."""
import eng as E
import opsem, skel, stdmodel, insem, linkspec
import frame
from terms import *
from ir import Anchor

EXPLAIN = (
    'Compiler side: for every literal, member name, reference to a builtin and call of a builtin the code generator is '
    'analysed on LLVM IR; on every path the operand of the emitted instruction must be the literal itself (integers, the bit '
    'pattern of floats), or the index of an entry of the string or builtin table whose content at the end of the path is '
    'provably the text of that literal or name (pushed at that index, or found there by comparing it).  The text of entries '
    'that exist already is never changed.  Machine side: every instruction that makes a value is analysed: it pushes exactly '
    'one value of the right kind whose payload is the whole operand, and for strings the length and every character of the '
    'table entry the operand selects.  References to and calls of script functions are followed through the fix-up table: the '
    'operand is patched with the entry recorded under the name of that function.')

CONV = ('i2f', 'f2i', 'fneg')
DERIVED = ('srange', 'sresize', 'cat', 'chr', 'slit', 'slower', 'supper')
O = lambda n: A('obj', n)


def text(e, st, got, want):
    """True: same text, False: certainly another one, None: unknown"""
    if not is_lin(got):
        return None
    if got == want:
        return True
    c = stdmodel.s_eq(e, st.copy(), got, want)
    s = st.copy()
    k = s.const(c) if is_lin(c) else None
    if k is None:
        fs = e.fork(s, c)
        k = int(fs[0][0]) if len(fs) == 1 else None
    if k is not None:
        return bool(k)
    if st.facts.lossy:
        return None
    a = single(got)
    if a is None:
        return None
    if a.kind in DERIVED:
        return False
    if a.kind == 'ld' and insem.exact_atom(a) or a.kind == 'str' and is_lin(a.args[0]) and all(insem.exact_atom(x) for x, _ in a.args[0][1]):
        # an existing entry: only a comparison the analysis does not understand could have established its text
        for fm in st.facts.d:
            ats = atoms_of(fm)
            if a in ats and any(x.kind == 'call' and a in atoms_of((0, ((x, 1),))) and not partial(x, st, got, want) for x in ats):
                return None
        return False
    return None


def partial(x, st, got, want):
    """a comparison that looks at some of the characters only"""
    if x.kind != 'call':
        return False
    nm = str(x.args[0])
    if 'strcasecmp' in nm:
        return True
    ar = next((t for t in x.args[1:] if isinstance(t, tuple) and len(t) >= 3 and all(is_lin(q) or isinstance(q, str) for q in t)), None)
    if ar is None or not is_lin(ar[1]):
        return False
    if nm == 'string::compare' and is_lin(ar[0]) and st.const(ar[0]) == 0:
        n = ar[1]
    elif nm in ('strncmp', 'memcmp', 'strncasecmp') and is_lin(ar[2]):
        n = ar[2]
    else:
        return False
    lg, lw = stdmodel.slen(got), stdmodel.slen(want)
    if st.const(n) is not None:
        hi = st.facts.rng(lw)[1]
        return 0 <= st.const(n) < 1 << 31 and (hi is None or hi > st.const(n))
    # as many as the wanted text (or the entry) has: complete only when the lengths are known to agree
    return (st.const(sub(n, lw)) == 0 or st.const(sub(n, lg)) == 0) and st.const(sub(lg, lw)) is None


class Lit:
    def __init__(self, ctx):
        self.P = ctx.P
        self.g = skel.Gen(ctx)
        self.G = self.g.G
        self.old = self.G.engine

    def run(self, cls, setup, kids=(), vecs=()):
        g, G = self.g, self.G

        def engine():
            e = self.old()
            e.join = False
            e.last = True
            e.obs.append(self.obs)
            return e
        G.engine = engine
        try:
            return g.run(cls, setup, kids, vecs)
        finally:
            G.engine = self.old

    def obs(self, eng, st, kind, fr, ins, kw):
        if kind in ('vec_resize', 'vec_erase', 'vec_insert') and kw.get('vec') in (self.G.strvec, self.G.sysvec):
            st.emit('call', 'table', kind, eng.site())
        elif kind == 'opaque_lib' and (self.G.strvec in kw['args'] or self.G.sysvec in kw['args']):
            st.emit('call', 'table', kind, eng.site())
        elif kind == 'vec_push' and kw['vec'] in (self.G.strvec, self.G.sysvec):
            c = stdmodel.scontent(eng, st.copy(), kw['arg']) if kw['arg'] is not None else None
            st.emit('call', 'tpush', kw['vec'], kw['idx'], c, eng.site())


def cases(L):
    P, g = L.P, L.g
    so = P.field('nano::token_t', 'str_')
    put = lambda e, st, n, cls, **kw: opsem.put(P, e, st, n, 'nano::' + cls, **kw)
    tokstr = lambda name: add(O(name), C(so))
    val = A('val', 0)
    yield ('integer literal', 'ast_exp_lit_var_t', lambda e, st, n: put(e, st, n, 'ast_exp_lit_var_t', val=val), (), (), 'INS_NEW_INT', 0, ('value', val))
    yield ('float literal', 'ast_exp_lit_float_t', lambda e, st, n: put(e, st, n, 'ast_exp_lit_float_t', val=val), (), (), 'INS_NEW_FLT', 0, ('value', val))
    yield ('string literal', 'ast_exp_lit_str_t', None, (), (), 'INS_NEW_STR', 0,
           ('string', add(O('ast_exp_lit_str_t'), C(P.field('nano::ast_exp_lit_str_t', 'value')))))
    yield ('none literal', 'ast_exp_none_t', None, (), (), 'INS_NEW_NONE', None, None)
    for sc in skel.SCOPES:
        yield ('member read', 'ast_exp_member_t',
               lambda e, st, n, sc=sc: put(e, st, n, 'ast_exp_member_t', decl=g.var(e, st, 'decl', sc), member=O('MEMBER'), name=O('NAME')), (), (),
               'INS_GETM', 0, ('string', tokstr('MEMBER')))
        yield ('member assignment', 'ast_stmt_assign_member_t',
               lambda e, st, n, sc=sc: put(e, st, n, 'ast_stmt_assign_member_t', decl=g.var(e, st, 'decl', sc), expr=O('expr'), member=O('MEMBER'), name=O('NAME')),
               ('expr',), (), 'INS_SETM', 0, ('string', tokstr('MEMBER')))

    def ref(e, st, n):
        put(e, st, n, 'ast_exp_ident_t', decl=g.func(e, st, 'callfn', 1, 0), name=O('NAME'))
    fname = add(O('callfn'), C(P.field('nano::ast_decl_func_t', 'name')))
    yield ('reference to a builtin', 'ast_exp_ident_t', ref, (), (), 'INS_NEW_SCALL', 0, ('builtin', fname))

    def call(e, st, n):
        d = g.func(e, st, 'callfn', 1, 0)
        argv = g.fvec('ast_exp_call_t', 'args', 'ast_exp_call_t')
        st.facts.eq0(sub(A('vsize', g.fvec('ast_decl_func_t', 'args', 'callfn'), (0, 0)), A('vsize', argv, (0, 0))))
        put(e, st, n, 'ast_exp_call_t', callee=g.node(e, st, 'callee', 'ast_exp_ident_t', decl=d))
    yield ('call of a builtin', 'ast_exp_call_t', call, ('callee',), ('args',), 'INS_SCALL', 1, ('builtin', fname))


def emit(ctx, R):
    L = Lit(ctx)
    P, g, G = L.P, L.g, L.G
    n = 0
    for lab, cls, su, kids, vecs, op, w, want in cases(L):
        e, outs, f = L.run(cls, su, kids, vecs)
        R.fn(f)
        n += 1
        for o, names, vs in outs:
            if o.kind != 'ret' or any(t[0] == 'child0' for t in o.st.trace):
                continue
            st = o.st
            try:
                items, _ = skel.decode(g.info, st, [t for t in st.trace if t[0] not in ('call', 'store')], names, vs)
            except skel.Bad as x:
                if want is not None and want[0] == 'value':
                    R.bad(lab + ':code', x.args[1] if len(x.args) > 1 else f.loc(), '%s: %s' % (lab, x.args[0]))
                else:
                    R.undecided(lab, x.args[0])
                continue
            except skel.Unknown as x:
                R.undecided(lab, x)
                continue
            ins = [x for x in items if isinstance(x, skel.Ins)]
            mine = [x for x in ins if x.op == op]
            if len(mine) != 1:
                make = [x for x in ins if x.op.startswith('INS_NEW_')]
                if not mine and len(ins) == 1 == len(make) and op.startswith('INS_NEW_'):
                    R.bad(lab + ':op', make[0].site, 'a %s is compiled to %s' % (lab, make[0].op))
                else:
                    R.undecided(lab, 'instructions %s' % [x.op for x in ins][:6])
                continue
            x = mine[0]
            if want is None:
                R.ok('none literal')
                continue
            arg = x.args[w] if w < len(x.args) else None
            if arg is None or not is_lin(arg):
                R.undecided(lab, 'operand')
                continue
            if want[0] == 'value':
                if any(t[0] == 'loop' for t in st.trace):
                    R.undecided(lab, 'loop')
                    continue
                if single(arg) is not None and single(arg).kind in CONV and single(want[1]) in atoms_of(arg):
                    R.bad(lab, x.site, 'the operand of a %s is a converted value' % lab)
                    continue
                while single(arg) is not None and single(arg).kind == 'bits' and is_lin(single(arg).args[-1]):
                    arg = single(arg).args[-1]
                insem.same(R, st, arg, want[1], lab, x.site, 'the operand of a ' + lab + ' is %s instead of %s', 'literal is the operand')
                continue
            if any(t[0] == 'call' and t[1] == 'table' for t in st.trace):
                R.undecided(lab, 'the table is changed by other means')
                continue
            vec, es = (G.strvec, 32) if want[0] == 'string' else (G.sysvec, sysize(P))
            wt = stdmodel.scontent(e, st.copy(), want[1])
            ps = [t for t in st.trace if t[0] == 'call' and t[1] == 'tpush' and t[2] == vec]
            if any(t[0] == 'loop' and any(q[0] == 'call' and q[1] == 'tpush' for b in t[2] for q in b) for t in st.trace):
                R.undecided(lab, 'the table is filled in a loop')
                continue
            hit = [t for t in ps if is_lin(t[3]) and st.const(sub(t[3], arg)) == 0]
            if hit:
                got = hit[-1][4]
            else:
                got = stdmodel.scontent(e, st.copy(), add(A('vdata', vec), scale(arg, es)))
                if ps and not all(is_lin(t[3]) and insem.differs(st, sub(t[3], arg)) for t in ps):
                    R.undecided(lab, 'index %s' % show(arg)[:80])
                    continue
            r = text(e, st, got, wt) if got is not None else None
            if r:
                R.ok('the table entry selected is the text written')
            elif r is False:
                R.bad(lab + ':text', x.site, 'a %s selects a table entry whose text (%s) is not the one written' % (lab, show(got)[:80]))
            else:
                R.undecided(lab, 'text %s of entry %s' % (show(got)[:80] if got is not None and is_lin(got) else got, show(arg)[:60]))
    R.floor('constructs', n, 9)


def sysize(P):
    return P.cls('nano::program_t::syscall_t').size if 'nano::program_t::syscall_t' in P.classes() else 40


MAKE = {'INS_NEW_INT': 'int', 'INS_NEW_FLT': 'float', 'INS_NEW_FUNC': 'func', 'INS_NEW_SCALL': 'syscall', 'INS_NEW_STR': 'string', 'INS_NEW_NONE': 'none'}


def machine(ctx, R):
    S = insem.eff(ctx)
    V, P = S.V, ctx.P
    stv = add(V.prog, C(P.field('nano::program_t', 'strings_')))
    hdr = P.cls('nano::value_t').size
    for op, k in MAKE.items():
        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'memcpy':
                st.emit('copy', kw['dst'], kw['src'], kw['n'], eng.site())

        def extra(e, st):
            if op == 'INS_NEW_STR':
                st.facts.le0(sub(add(A('op', 0), ONE), A('vsize', stv, (0, 0))))
            if op in ('INS_NEW_STR', 'INS_NEW_FUNC', 'INS_NEW_SCALL'):
                st.facts.le0(scale(A('op', 0), -1))
        e, res, ts = S.case(op, ('int', 'int'), extra=extra, obs=obs, seed=False)
        n = 0
        for r in insem.paths(R, S, op, res, op):
            st = r['st']
            where = insem.handler(S, op)
            n += 1
            if r['err']:
                R.bad(op + ':err', where, '%s raises error %d' % (op, r['err']))
                continue
            if r['dstack'] is None:
                R.undecided(op, 'stack height')
                continue
            if r['dstack'] != 1:
                R.bad(op + ':push', where, '%s pushes %d values' % (op, r['dstack']))
                continue
            if r['kind'] is None:
                R.undecided(op, 'kind')
                continue
            if r['kind'] != k:
                R.bad(op + ':kind', where, '%s makes a value of kind %s instead of %s' % (op, r['kind'], k))
                continue
            R.ok('kind of the value')
            if k == 'none':
                continue
            pay = r['payload']
            if k != 'string':
                if pay is None:
                    R.bad(op + ':unset', where, '%s leaves the payload unset' % op)
                    continue
                a = single(pay) if is_lin(pay) else None
                while a is not None and a.kind == 'bits':
                    pay = a.args[-1]
                    a = single(pay) if is_lin(pay) else None
                if a is not None and a.kind in CONV and single(A('op', 0)) in atoms_of(pay):
                    R.bad(op + ':payload', where, '%s converts its operand' % op)
                    continue
                insem.same(R, st, pay, A('op', 0), op + ':payload', where, op + ' makes the value %s instead of %s', 'payload is the operand')
                continue
            want = stdmodel.scontent(e, st.copy(), add(A('vdata', stv), scale(A('op', 0), 32)))
            ln = stdmodel.slen(want)
            if pay is None:
                R.undecided(op, 'length')
                continue
            insem.same(R, st, pay, ln, op + ':length', where, 'a string value gets the length %s instead of %s', 'length of the string')
            cp = [t for t in st.trace if t[0] == 'copy' and is_lin(t[1]) and st.const(sub(t[1], add(r['ptr'], C(hdr)))) == 0]
            if len(cp) != 1:
                R.undecided(op, '%d copies of characters' % len(cp))
                continue
            src = single(cp[0][2]) if is_lin(cp[0][2]) else None
            if src is None or src.kind != 'sdata':
                R.undecided(op, 'source of the characters %s' % (show(cp[0][2])[:80] if is_lin(cp[0][2]) else cp[0][2]))
                continue
            c = src.args[0]
            if c == add(A('vdata', stv), scale(A('op', 0), 32)) or c == want:
                R.ok('characters of the selected entry')
            elif is_lin(c) and (insem.differs(st, sub(c, add(A('vdata', stv), scale(A('op', 0), 32)))) or single(c) is not None and single(c).kind == 'ld' and
                                single(c).args[1] == 'S' and insem.differs(st, sub(single(c).args[0], add(A('vdata', stv), scale(A('op', 0), 32))))):
                R.bad(op + ':entry', where, 'a string value is made of another entry of the string table')
                continue
            else:
                R.undecided(op, 'characters %s' % show(c)[:100])
                continue
            m = cp[0][3]
            if st.const(sub(m, ln)) in (0, 1):
                R.ok('all characters copied')
            elif st.const(sub(m, ln)) is not None or not st.facts.lossy and (st.facts.rng(sub(m, ln))[1] or 0) < 0:
                R.bad(op + ':copied', cp[0][4], 'a string value gets %s of the %s characters' % (show(m)[:60], show(ln)[:60]))
            else:
                R.undecided(op, 'number of characters %s' % show(m)[:80])
        if not n:
            R.undecided(op, 'no path completes')


def run(ctx, R):
    frame.guard(R, emit, ctx, R)
    frame.guard(R, machine, ctx, R)
    frame.guard(R, lambda: linkspec.targets(linkspec.Link(ctx), R))
