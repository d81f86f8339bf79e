"""C32: starting over leaves nothing behind."""
import frame, insem, stdmodel
import eng as E
from sema import O
from terms import *
from thr import flat

EXPLAIN = (
    'The functions that start over - program_t::reset, nano_t::reset, vm_t::reset, value_gc_t::reset, error_t::clear and '
    'thread_t::prepare - are analysed on LLVM IR from an arbitrary state; every path has to leave every table, list and counter that later work '
    'reads in its initial state: containers empty, threads destroyed, both halves of the heap empty, the error, halt, wait and cycle counters zero, '
    'exactly one frame and only the arguments on the stack.  What is not touched at all on a path keeps its old content and is reported.')

FULL = C(3)


def engine(ctx):
    e = E.Engine(ctx.P)
    e.join = False
    e.unroll = 6

    def obs(eng, st, kind, fr, ins, kw):
        if kind == 'cont':
            st.emit('cont', kw['obj'], kw['meth'], eng.site())
        elif kind == 'opaque_lib':
            st.emit('lib', tuple(a for a in kw['args'] if is_lin(a)), eng.site())
        elif kind == 'free':
            st.emit('free', kw['ptr'], eng.site())
    e.obs.append(obs)
    return e


def members(P, cls):
    """(name, offset, kind) of the containers of a class"""
    out = []
    for n, fl in P.cls('nano::' + cls).fields.items():
        if fl[1] == 24:
            out.append((n, fl[0], 'vec'))
        elif fl[1] in (48, 56):
            out.append((n, fl[0], 'map'))
    return out


KEEP = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'find', 'count', 'at', 'back', 'front', 'lower_bound', 'upper_bound', 'rbegin', 'rend'}


def emptied(e, o, at, kind):
    """True / False / None"""
    st = o.st
    if kind == 'vec':
        n = st.const(stdmodel.vsize(e, st, at))
        if n == 0:
            return True
        if any(t[0] == 'lib' and any(a == at for a in t[1]) for t in flat(st.trace)) or st.facts.lossy:
            return None
        return False if n == 3 else None
    ev = [t for t in flat(st.trace) if t[0] == 'cont' and t[1] == at and t[2] not in KEEP]
    if any(t[0] == 'lib' and any(a == at for a in t[1]) for t in flat(st.trace)):
        return None
    if ev and ev[-1][2] == 'clear':
        return True
    other = any(t[0] == 'cont' and t[2] not in KEEP and (single(sub(t[1], C(t[1][0]))) is None or single(sub(t[1], C(t[1][0]))).kind != 'obj') for t in flat(st.trace))
    return False if not ev and not other and not st.facts.lossy else None


def judge(R, f, key, what, r):
    if r:
        R.ok('nothing of before is left: ' + what)
    elif r is False:
        R.bad(key, f.loc(), what + ' of before is kept')
    else:
        R.undecided(key, what)


def get(P, R, name):
    fs = [f for f in P.find(name) if P.in_repo(f)]
    R.floor(name, len(fs), 1)
    for f in fs:
        R.fn(f)
    return fs[:1]


def program(ctx, R):
    P = ctx.P
    ms = members(P, 'program_t')
    R.floor('program tables', len(ms), 5)
    vs = [n for n, off, k in ms if k == 'vec']
    pats = [set(vs), set()] + [set(vs) - {n} for n in vs] + [{n} for n in vs]
    for f, full in [(f, q) for f in get(P, R, 'nano::program_t::reset') for q in pats]:
        e = engine(ctx)
        st = E.St()
        pr = O('PROGRAM')
        for n, off, k in ms:
            if k == 'vec':
                stdmodel.set_vsize(e, st, add(pr, C(off)), FULL if n in full else ZERO)
        for o in e.call_fn(f, [pr], st):
            if o.kind == 'ret':
                for n, off, k in ms:
                    judge(R, f, 'program:' + n, 'the table %s of a program that is reset' % n, emptied(e, o, add(pr, C(off)), k))


def compiler(ctx, R):
    P = ctx.P
    fld = lambda c, n: P.field('nano::' + c, n)
    for f in get(P, R, 'nano::nano_t::reset'):
        e = engine(ctx)
        e.unroll = 8
        st = E.St()
        nano, ast, pr = O('NANO'), O('AST'), O('PROGRAM')
        for n, v in (('ast_', ast), ('program_', pr), ('parser_', O('PARSER')), ('codegen_', O('CG')), ('errors_', O('ERR'))):
            e.store_raw(st, add(nano, C(fld('nano_t', n))), 8, v)
        lex = add(nano, C(fld('nano_t', 'lexer_')))
        kids = add(ast, C(fld('ast_t', 'program') + fld('ast_program_t', 'children')))
        al = add(ast, C(fld('ast_t', 'allocs_')))
        for v in (lex, kids, al):
            stdmodel.set_vsize(e, st, v, FULL)
        for i in range(3):
            e.store_raw(st, add(A('vdata', al), C(8 * i)), 8, O('NODE%d' % i))
        ms = members(P, 'program_t')
        for n, off, k in ms:
            if k == 'vec':
                stdmodel.set_vsize(e, st, add(pr, C(off)), FULL)

        def node(eng, s, fr, x, *a):
            s.emit('free', O('NODE0'), eng.site())
            return [(ZERO, s)]
        e.vcall = node
        e.hook('<indirect>', node)
        for o in e.call_fn(f, [nano], st):
            if o.kind != 'ret':
                continue
            judge(R, f, 'compiler:tokens', 'the tokens of a compiler that is reset', emptied(e, o, lex, 'vec'))
            if e.load_raw(o.st, add(nano, C(fld('nano_t', 'ast_'))), 8, 'p') != ast:
                R.ok('the syntax tree is replaced')
                a = c = None
            else:
                a = emptied(e, o, al, 'vec')
                c = emptied(e, o, kids, 'vec')
                judge(R, f, 'compiler:tree', 'the syntax tree of a compiler that is reset', c)
            # nodes kept and the list kept: only memory; nodes freed and the list kept: freed again later
            gone = any(t[0] == 'free' for t in flat(o.st.trace))
            if a:
                R.ok('nodes released with their list')
            elif a is False and gone and c is not None:
                R.bad('compiler:nodes', f.loc(), 'the nodes of a compiler that is reset are released but stay in the list of nodes to release')
            for n, off, k in ms:
                judge(R, f, 'compiler:program:' + n, 'the table %s of the program of a compiler that is reset' % n, emptied(e, o, add(pr, C(off)), k))


def heap(ctx, R):
    P = ctx.P
    fld = lambda c, n: P.field('nano::' + c, n)
    asz = P.cls('nano::arena_t').size
    for f in get(P, R, 'nano::value_gc_t::reset'):
        for flip in range(4):
            e = engine(ctx)
            st = E.St()
            gc = O('GC')
            at = [add(gc, C(fld('value_gc_t', 'space_') + i * asz + fld('arena_t', 'head_'))) for i in range(2)]
            e.store_raw(st, add(gc, C(fld('value_gc_t', 'flipflop_'))), 4, C(flip))
            e.store_raw(st, at[flip & 1], 8, C(777))
            e.store_raw(st, at[1 - (flip & 1)], 8, ZERO)
            for o in e.call_fn(f, [gc], st):
                if o.kind != 'ret':
                    continue
                for i in range(2):
                    v = e.load_raw(o.st, at[i], 8, 'i')
                    v = o.st.const(v) if is_lin(v) else None
                    judge(R, f, 'heap', 'the content of the heap of a machine that is reset', True if v == 0 else (False if v == 777 and not o.st.facts.lossy else None))


def machine(ctx, R):
    P = ctx.P
    fld = lambda c, n: P.field('nano::' + c, n)
    for f in get(P, R, 'nano::vm_t::reset'):
        e = engine(ctx)
        st = E.St()
        vm, gc = O('VM'), O('GC')
        e.store_raw(st, add(vm, C(fld('vm_t', 'gc_'))), 8, gc)
        g = add(vm, C(fld('vm_t', 'g_')))
        th = add(vm, C(fld('vm_t', 'threads_')))
        stdmodel.set_vsize(e, st, g, FULL)

        def hreset(eng, s, fr, x, fn, a):
            s.emit('gcreset', a[0])
            return [(ZERO, s)]
        e.hook('nano::value_gc_t::reset', hreset)
        e.hook('nano::thread_t::~thread_t', lambda eng, s, fr, x, fn, a: [(ZERO, s)])
        for o in e.call_fn(f, [vm], st):
            if o.kind != 'ret':
                continue
            judge(R, f, 'machine:globals', 'the globals of a machine that is reset', emptied(e, o, g, 'vec'))
            judge(R, f, 'machine:threads', 'the thread list of a machine that is reset', emptied(e, o, th, 'map'))
            n = [t for t in flat(o.st.trace) if t[0] == 'gcreset'] or e.load_raw(o.st, add(vm, C(fld('vm_t', 'gc_'))), 8, 'p') != gc
            judge(R, f, 'machine:heap', 'the heap of a machine that is reset', True if n else (False if not o.st.facts.lossy else None))


def error(ctx, R):
    P = ctx.P
    fld = lambda c, n: P.field('nano::' + c, n)
    for f in get(P, R, 'nano::error_t::clear'):
        e = engine(ctx)
        st = E.St()
        er = O('ERROR')
        stdmodel.set_s(e, st, add(er, C(fld('error_t', 'error'))), A('slit', 'old'))
        l = fld('error_t', 'line')
        for n in P.cls('nano::line_t').fields.values():
            e.store_raw(st, add(er, C(l + n[0])), n[1], C(999))
        for o in e.call_fn(f, [er], st):
            if o.kind != 'ret':
                continue
            c = stdmodel.scontent(e, o.st, add(er, C(fld('error_t', 'error'))))
            judge(R, f, 'error:text', 'the text of an error that is cleared', True if stdmodel.sconst(c) == '' else (False if stdmodel.sconst(c) == 'old' else None))
            for n in P.cls('nano::line_t').fields.values():
                v = e.load_raw(o.st, add(er, C(l + n[0])), n[1], 'i')
                v = o.st.const(v) if is_lin(v) else None
                judge(R, f, 'error:line', 'the line of an error that is cleared', True if v is not None and v != 999 else (False if v == 999 else None))


def thread(ctx, R):
    P = ctx.P
    fld = lambda n: P.field('nano::thread_t', n)
    S = insem.eff(ctx)
    V = S.V
    for f in get(P, R, 'nano::thread_t::prepare'):
        for argc in range(4):
            e = V.engine()
            e.join = False
            e.unroll = 8
            e.hook('nano::value_gc_t::copy', lambda eng, s, fr, x, fn, a: [(A('call', 'copy', a[-1]), s)])
            st = V.state(e)
            F = A('obj', 'FUNC')
            stdmodel.set_vsize(e, st, add(F, C(P.field('nano::function_t', 'args_'))), C(argc))
            e.store_raw(st, add(F, C(P.field('nano::function_t', 'code_start_'))), 4, C(40))
            old = {'waits': 4, 'cycles_': 4, 'halted_': 1, 'finished_': 1, 'error_': P.cls('nano::thread_t').fields['error_'][1], 'pc_': 4}
            for n, w in old.items():
                e.store_raw(st, add(V.th, C(fld(n))), w, C(1 if w == 1 else 5))
            stdmodel.set_vsize(e, st, V.stackvec, C(7))
            fv = add(V.th, C(fld('f_')))
            stdmodel.set_vsize(e, st, fv, C(2))
            outs = e.call_fn(f, [V.th, F, C(argc), A('obj', 'ARGV')], st)
            for o in outs:
                if o.kind != 'ret' or not is_lin(o.val) or not o.st.const(o.val):
                    continue
                want = {'waits': 0, 'cycles_': 0, 'halted_': 0, 'finished_': 0, 'error_': 0, 'pc_': 40}
                lossy = o.st.facts.lossy
                for n, w in want.items():
                    v = e.load_raw(o.st, add(V.th, C(fld(n))), old[n], 'i')
                    v = o.st.const(v) if is_lin(v) else None
                    judge(R, f, 'thread:' + n, '%s of a thread that is prepared again' % n.rstrip('_'), True if v == w else (False if v is not None and not lossy else None))
                for what, vec, k in (('value stack', V.stackvec, argc), ('frames', fv, 1)):
                    n = o.st.const(stdmodel.vsize(e, o.st, vec))
                    judge(R, f, 'thread:' + what, 'the %s of a thread that is prepared again' % what, True if n == k else (False if n is not None and not lossy else None))


def run(ctx, R):
    for r in (program, compiler, heap, machine, error, thread):
        frame.guard(R, r, ctx, R)
