"""Builtin functions: what the compiler is told (name, arity), what the host resolves (name -> function), and the
abstract behaviour of each function per argument kinds."""
import re
from terms import *
import eng as E
import stdmodel
from ir import Anchor


def the(P, name):
    l = [f for f in P.find(name) if P.in_repo(f)]
    if not l:
        raise Anchor(name)
    return l[0]


def registered(P):
    """-> {name: nargs} passed to nano_t::syscall_register by builtins_register (nargs -1: variadic)"""
    e = E.Engine(P)
    got = {}
    odd = []

    def h(eng, st, fr, x, f, args):
        c = strval(eng, st, args[1])
        n = st.const(args[2])
        if c is None or n is None:
            odd.append(eng.site())
        else:
            got[c] = n
        return [(ZERO, st)]
    e.hook('nano::nano_t::syscall_register', h)
    f = the(P, 'nano::builtins_register')
    e.call_fn(f, [A('obj', 'NANO')], E.St())
    return got, odd, f


def strval(eng, st, p):
    """literal content of the std::string at p"""
    c = stdmodel.scontent(eng, st, p)
    a = single(c) if is_lin(c) else None
    if a is not None and a.kind == 'slit':
        return a.args[0]
    return None


def resolved(P, full=False):
    """-> {name: Function} stored into the name->function map by builtins_resolve"""
    e = E.Engine(P)
    got = {}
    odd = []

    def o(eng, st, kind, fr, ins, kw):
        if kind != 'store' or not is_lin(kw['val']):
            return
        v = single(kw['val'])
        if v is None or v.kind != 'fnp':
            return
        for a in atoms_of(kw['addr']):
            if a.kind == 'slit':
                got[a.args[0]] = v.args[0]
                return
    def table(eng, st, fr, x, fn, args):
        # a map made from a list of pairs { name, function }
        if len(args) < 4:
            return None
        n = st.const(args[2]) if len(args) > 2 and is_lin(args[2]) else None
        if n is None or n > 200:
            odd.append(eng.site())
        else:
            for i in range(n):
                q = add(args[1], C(40 * i))
                s = strval(eng, st, q)
                v = eng.load_raw(st, add(q, C(32)), 8, 'p')
                v = single(v) if is_lin(v) else None
                if s is None or v is None or v.kind != 'fnp':
                    odd.append(eng.site())
                else:
                    got[s] = v.args[0]
        eng.bump(st, args[0])
        return [(ZERO, st)]
    e.hook(re.compile(r'^std::(unordered_)?map<std::(__cxx11::)?(basic_)?string.*>::(unordered_)?map$'), table)
    e.obs.append(o)
    f = the(P, 'nano::builtins_resolve')
    e.call_fn(f, [A('obj', 'PROG')], E.St())
    return (got, f, odd) if full else (got, f)


def functions(P):
    """name -> Function for all builtins; falls back to the naming convention builtin_<name>"""
    reg, odd, f1 = registered(P)
    res, f2 = resolved(P)
    for n in reg:
        if n not in res:
            l = [f for f in P.find('nano::builtin_' + n) if P.in_repo(f)]
            if l and not res:
                res[n] = l[0]
    return reg, res, f1, f2


def case(V, fn, nargs, kinds, obs=None, extra=None):
    """abstract run of a builtin called with nargs arguments whose kinds are `kinds` (last argument on top)"""
    e = V.engine()
    e.join = False
    if obs:
        e.obs.append(obs)
    st = V.state(e)
    F = st.facts
    n = V.N0()
    F.le0(sub(C(16), n))
    F.le0(sub(n, C(1 << 20)))
    F.le0(sub(ONE, A('vsize', V.fvec, (0, 0))))
    e.store_raw(st, add(V.th, C(V.o_fin)), 1, ZERO)
    e.store_raw(st, add(V.th, C(V.o_err)), 4, ZERO)
    e.store_raw(st, add(V.th, C(V.o_halt)), 1, ZERO)
    terms = []
    for i, t in enumerate(reversed(kinds)):
        s = V.mkval(e, st, A('slot', i), t)
        terms.append(s)
        e.store_raw(st, V.slot0(i), 8, s)
    terms.reverse()
    if extra:
        extra(e, st)
    na = C(nargs) if isinstance(nargs, int) else nargs
    outs = e.call_fn(fn, [V.th, na], st)
    return e, outs, terms
