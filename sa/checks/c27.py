"""C27: host handlers are consulted exactly when they should be, with the operands in source order."""
import itertools
from terms import *
import opsem, stdmodel
import frame
from ir import Anchor
from checks import c06

EXPLAIN = (
    'Every opcode is analysed for every combination of the kinds of its operands with the host handler table in four '
    'states: all handlers installed, only the one that belongs to the opcode, all but that one, and none.  On each path '
    'through the interpreter (LLVM IR, callees inlined, no joins) the indirect calls through the table are collected '
    'and compared with the specification: which handler, which operand in which argument, how often, and what is '
    'pushed and raised when it reports handled or not handled.  "The machine has a meaning for these kinds" is taken '
    'from the paths of the same opcode with an empty table.')

KINDS = ('none', 'int', 'string', 'array', 'float', 'func', 'syscall')
# opcode -> handler, operands consumed, values pushed by the machine itself, arguments (operand index counted from
# the top of the stack; 'name' = string operand), consulted first?
SPEC = {
    'INS_ADD': ('on_add', 2, (1, 0), False),
    'INS_SUB': ('on_sub', 2, (1, 0), False),
    'INS_MUL': ('on_mul', 2, (1, 0), False),
    'INS_DIV': ('on_div', 2, (1, 0), False),
    'INS_EQ': ('on_equals', 2, (1, 0), False),
    'INS_DEREF': ('on_array_get', 2, (0, 1), True),
    'INS_SETA': ('on_array_set', 3, (0, 1, 2), True),
    'INS_SETM': ('on_member_set', 2, (0, 1, 'name'), False),
    'INS_GETM': ('on_member_get', 1, (0, 'name'), False),
}


def run(ctx, R):
    P, V = ctx.P, ctx.vm()
    O = opsem.Ops(ctx)
    fields = {n: f[0] for n, f in P.cls('nano::handlers_t').fields.items()}
    for op, s in SPEC.items():
        if s[0] not in fields or op not in V.INS:
            raise Anchor('handler ' + s[0])
    strs = add(V.prog, C(P.field('nano::program_t', 'strings_')))
    jobs = []
    for op in V.INS:
        n = SPEC[op][1] if op in SPEC else c06.arity(V, op, P)
        for ks in itertools.product(KINDS, repeat=n):
            jobs.append((op, ks))
    R.floor('opcode/kind combinations', len(jobs), 800)

    def analyse(op, ks, table):
        ex0 = c06.seed(V, P)

        def extra(e, st):
            ex0(e, st)
            if op in ('INS_ARY_INIT', 'INS_NEW_ARY'):
                st.facts.le0(sub(ONE, A('op', 0)))
            c06.find_total(e, V)
            for n, off in fields.items():
                a = add(V.vm, C(V.o_handlers + off))
                V.init(st, a, 8, A('obj', 'H:' + n) if n in table else ZERO)
        return V.case(op, ks, nohost=False, nojoin=True, extra=extra)

    hsym = {single(A('obj', 'H:' + n)): n for n in fields}

    def events(o):
        """handler calls of a path: (name or None for a null/unknown target, args, index in the trace)"""
        res = []
        for i, t in enumerate(o.st.trace):
            if t[0] != 'host':
                continue
            fv = t[1]
            if is_lin(fv) and not fv[1] and fv[0] == 0:
                res.append(('null', t[2], t[3], i))
            elif single(fv) in hsym:
                res.append((hsym[single(fv)], t[2], t[3], i))
        return res

    def work(j, r):
        op, ks = j
        what = '%s on (top first) %s' % (op, ', '.join(ks))
        key = '%s %s' % (op, ' '.join(ks))
        site = V.entry().loc()
        spec = SPEC.get(op)
        e, base, _ = analyse(op, ks, ())
        for f in e.fns_seen:
            if P.in_repo(f):
                r.fn(f)
        for o in base:
            for h in events(o):
                r.bad(key + ':null', h[2], '%s: calls a handler that is not installed' % what)
        berrs = {O.result(o)['err'] for o in base if o.kind == 'ret'}
        tables = [tuple(fields)]
        if spec:
            tables.append((spec[0],))
            tables.append(tuple(n for n in fields if n != spec[0]))
        for tb in tables:
            e, outs, ts = analyse(op, ks, tb)
            for o in outs:
                ev = events(o)
                for h in ev:
                    if h[0] == 'null':
                        r.bad(key + ':null', h[2], '%s: calls a handler that is not installed' % what)
                ev = [h for h in ev if h[0] != 'null']
                if not spec or spec[0] not in tb:
                    for h in ev:
                        r.bad(key + ':wrong', h[2], '%s: consults %s' % (what, h[0]))
                    if not ev:
                        r.ok('no handler consulted where none applies')
                    continue
                if o.kind != 'ret':
                    r.undecided(key, 'path ends in ' + o.kind)
                    continue
                name, nops, args, first = spec
                q = O.result(o)
                if op == 'INS_GETM':
                    expected = None if ks[0] == 'array' else True
                elif op == 'INS_SETM' or first:
                    expected = True
                elif None in berrs or (V.ERR['e_bad_type_operation'] in berrs and len(berrs) > 1):
                    expected = None
                else:
                    expected = berrs == {V.ERR['e_bad_type_operation']}
                if not ev:
                    if expected:
                        r.bad(key + ':unasked', site, '%s: %s is installed but not consulted' % (what, name))
                    elif expected is None and q['err'] not in (0, None):
                        r.bad(key + ':unasked', site, '%s: raises error %d without consulting %s' % (what, q['err'], name))
                    else:
                        r.ok('handler not consulted where the machine has a meaning')
                    continue
                h = ev[0]
                if expected is False:
                    r.bad(key + ':needless', h[2], '%s: consults %s although the machine has a meaning for these operands' % (what, h[0]))
                    continue
                if h[0] != name:
                    r.bad(key + ':wrong', h[2], '%s: consults %s instead of %s' % (what, h[0], name))
                    continue
                if len(ev) > 1:
                    r.bad(key + ':twice', ev[1][2], '%s: consults handlers %s' % (what, ', '.join(x[0] for x in ev)))
                    continue
                want = [V.th] + [ts[a] if a != 'name' else None for a in args]
                got = list(h[1])
                if len(got) != len(want):
                    r.undecided(key, 'handler called with %d arguments' % len(got))
                    continue
                wrong = None
                for i, (g, w) in enumerate(zip(got, want)):
                    if w is None:
                        # the member name: element `operand` of the program's string table
                        w = add(A('vdata', strs), scale(A('op', 0), 32))
                        if g != w and not member_ok(o.st, g):
                            wrong = (i, 'the member name')
                        elif g != w:
                            r.undecided(key, 'member name argument of %s not resolved' % name)
                        continue
                    d = o.st.const(sub(g, w)) if is_lin(g) and is_lin(w) else None
                    if g == w or d == 0:
                        continue
                    others = [k for k, t in enumerate(ts) if g == t]
                    if others or (is_lin(g) and not g[1]):
                        wrong = (i, 'operand %d from the top' % args[i - 1] if i else 'the thread')
                    else:
                        r.undecided(key, 'argument %d of %s not resolved' % (i, name))
                if wrong:
                    r.bad(key + ':args', h[2], '%s: argument %d of %s is not %s' % (what, wrong[0], name, wrong[1]))
                    continue
                r.ok('right handler called once with its operands in order')
                res = handled(o.st)
                if res is None:
                    # the outcome is not distinguished on this path: neither branch may differ
                    r.bad(key + ':ignored', h[2], '%s: the result of %s makes no difference' % (what, name))
                elif res == 1:
                    if q['err'] not in (0,):
                        if q['err'] is None:
                            r.undecided(key, 'error state unknown')
                        else:
                            r.bad(key + ':handled', h[2], '%s: error %d although %s handled it' % (what, q['err'], name))
                    elif q['dstack'] is not None and q['dstack'] != -nops:
                        r.bad(key + ':push', h[2], '%s: the machine pushes %d value(s) although %s handled it' % (what, q['dstack'] + nops, name))
                    else:
                        r.ok('handled: nothing raised or pushed')
                else:
                    if first:
                        if q['err'] is not None and q['err'] not in berrs and None not in berrs:
                            r.bad(key + ':declined', h[2], '%s: error %d after %s declined, which never happens without a handler' % (what, q['err'], name))
                        else:
                            r.ok('declined: as without a handler')
                    else:
                        want_e = V.ERR['e_bad_member_access' if op in ('INS_GETM', 'INS_SETM') else 'e_bad_type_operation']
                        if q['err'] is None:
                            r.undecided(key, 'error state unknown')
                        elif q['err'] != want_e:
                            r.bad(key + ':declined', h[2], '%s: error code %d instead of %d after %s declined' % (what, q['err'], want_e, name))
                        else:
                            r.ok('declined: the usual error')
        r.sample({'case': key})

    def handled(st):
        for n in range(0, 4):
            c = st.const(A('bool', 'host', n))
            if c is not None:
                return c
        return None

    def member_ok(st, g):
        """any address that is not recognisably another element"""
        base = single(A('vdata', strs))
        if is_lin(g) and any(t is base for t, k in g[1]):
            return False
        return True

    frame.pmap(work, jobs, R)
