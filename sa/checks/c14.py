"""C14: invalid programs are rejected with an error, never compiled."""
import itertools, re
import eng as E
import opsem, stdmodel, sema, visit, insem
import frame
from sema import O, child_name
from terms import *
from ir import Anchor

EXPLAIN = (
    'Static analysis of every step between finding an error and failing the compilation, on LLVM IR.  Every method of the '
    'error manager raises on all its paths and passes the position of its token (or of the token read last); nano_t::build, '
    'parser_t::parse and codegen_t::run report failure and hand out the error whenever a phase raises or fails, and build '
    'reports success only after all phases ran in order; the semantic checks are among the passes run.  The duplicate pass is '
    'analysed for declarations (rejected when the name is known, entered otherwise), for its scopes and for its lookup over '
    'small scope stacks; the call pass must reject exactly the direct calls whose number of arguments differs from the '
    'number of parameters of a function that takes no variable arguments; unknown names (C24) and constants without constant '
    'value (C15) are rejected.  pop(token) rejects every other token and reports it; parse() rejects every token that cannot '
    'start a top-level declaration and reports that token.')

ETYPE = ['_ZTIN4nano7error_tE']


def fn(P, name):
    fs = [f for f in P.find(name) if P.in_repo(f)]
    if not fs:
        raise Anchor(name)
    return fs[0]


# ------------------------------------------------------------------ error manager
def errors(ctx, R):
    P = ctx.P
    on = fn(P, 'nano::error_manager_t::on_error_')
    e = E.Engine(P)
    e.join = False
    LINE = A('input', 'line')
    outs = e.call_fn(on, [O('EM'), LINE, O('FMT')], E.St())
    R.fn(on)
    oline = P.field('nano::error_t', 'line')
    for o in outs:
        if o.kind == 'throw':
            R.ok('an error is raised')
            if o.st.exn:
                ETYPE[0] = o.st.exn[1]
                a = add(o.st.exn[0], C(oline))
                v = e.load_raw(o.st, a, 8, 'i')
                if v != LINE and not is_lin(v):
                    R.undecided('on_error:line', 'line')
                elif v != LINE:
                    c = o.st.const(v)
                    if c is not None or (single(v) is not None and single(v).kind == 'input'):
                        R.bad('on_error:line', on.loc(), 'the error carries the position %s instead of the one given' % show(v)[:60])
                    else:
                        R.undecided('on_error:line', show(v)[:80])
                else:
                    R.ok('the error carries the position given')
        elif o.kind == 'ret':
            R.bad('on_error', on.loc(), 'an error can be reported without being raised')
    otl = P.field('nano::token_t', 'line_')
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.dem):
        m = re.match(r'nano::error_manager_t::(\w+)\(', f.dem)
        if not m or not P.in_repo(f) or m.group(1) in ('error_manager_t', 'on_error_', 'line_number_'):
            continue
        f.parse()
        if f.mod.resolve(f.rettype)[0] != 'void':
            continue
        n += 1
        e = E.Engine(P)
        e.join = False

        def h(eng, st, fr, x, g, args):
            st.emit('raise', tuple(a if is_lin(a) else ZERO for a in args), eng.site())
            st.exn = (O('EXN'), ETYPE[0])
            return [E.Out('throw', None, st)]
        e.hook('nano::error_manager_t::on_error_', h)

        def ln(eng, st, fr, x, g, args):
            return [(A('input', 'current line'), st)]
        e.hook('nano::error_manager_t::line_number_', ln)
        e.hook('nano::token_stream_t::line_number', ln)
        for q in ('string', 'token_name'):
            e.hook('nano::token_t::' + q, lambda eng, st, fr, x, g, args: [(O('TEXT'), st)])
        args = [O('EM')] + [O('P%d' % i) if (f.mod.resolve(p[0])[0] if isinstance(p, tuple) else 'p') == 'p' else A('input', 'P%d' % i)
                            for i, p in enumerate(f.params[1:], 1)]
        outs = e.call_fn(f, args, E.St())
        R.fn(f)
        nm = m.group(1)
        for o in outs:
            r = [t for t in o.st.trace if t[0] == 'raise']
            if o.kind == 'ret':
                R.bad('error:' + nm, f.loc(), 'error_manager_t::%s can return without raising the error' % nm)
                continue
            if o.kind != 'throw' or not r:
                R.undecided('error:' + nm, o.kind)
                continue
            R.ok('reporting an error raises it')
            if '(nano::token_t const&' in f.dem:
                l = r[0][1][1]
                own = e.load_raw(o.st, add(O('P1'), C(otl)), 8, 'i')
                if l == own or l == A('input', 'current line'):
                    R.ok('the error carries the position of the token')
                elif not is_lin(l) or insem_firm(l):
                    R.bad('error:%s:line' % nm, f.loc(), 'error_manager_t::%s reports position %s instead of that of its token' % (nm, show(l)[:60] if is_lin(l) else l))
                else:
                    R.undecided('error:%s:line' % nm, show(l)[:80])
    R.floor('error methods', n, 30)


def insem_firm(l):
    """the value is certainly not the line of the token: a constant or another field of it"""
    if not l[1]:
        return True
    a = single(l)
    return a is not None and a.kind == 'ld' and child_name(sub(a.args[0], C(a.args[0][0]))) == 'P1'


# ------------------------------------------------------------------ phases
PHASES = ['nano::lexer_t::lex', 'nano::parser_t::parse', 'nano::run_sema', 'nano::run_optimize', 'nano::run_pre_codegen', 'nano::codegen_t::run']


def phases(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::nano_t::build')
    R.fn(f)
    SM, ERR, N = O('SM'), O('ERR'), O('NANO')
    oes = P.field('nano::error_t', 'error')
    vec = None
    for n in ('_sources', 'sources_'):
        try:
            vec = add(SM, C(P.field('nano::source_manager_t', n)))
        except Exception:
            pass
    for bad in [(p, how) for p in PHASES for how in ('throw', 'false') if how == 'throw' or p.split('::')[-1] in ('lex', 'parse', 'run')] + [(None, None)]:
        e = E.Engine(P)
        e.join = False
        e.unroll = 3
        st = E.St()

        def h(eng, s, fr, x, g, args):
            nm = g.dem.split('(')[0] if g is not None else '?'
            s.emit('phase', nm, eng.site())
            if nm == bad[0]:
                if bad[1] == 'throw':
                    s.exn = (O('EXN'), ETYPE[0])
                    return [E.Out('throw', None, s)]
                return [(ZERO, s)]
            return [(ONE, s)]
        for p in PHASES + ['nano::ast_t::gc']:
            e.hook(p, h)
        e.hook('nano::source_manager_t::count', lambda eng, s, fr, x, g, args: [(ONE, s)])
        e.hook('nano::source_manager_t::get_source', lambda eng, s, fr, x, g, args: [(O('SRC'), s)])
        outs = e.call_fn(f, [N, SM, ERR], st)
        site = f.loc()
        key = 'build:%s:%s' % ((bad[0] or 'all').split('::')[-1], bad[1] or 'ok')
        for o in outs:
            if o.kind == 'abort':
                continue
            got = [t[1] for t in o.st.trace if t[0] == 'phase' and t[1] in PHASES]
            if o.kind != 'ret':
                if bad[0]:
                    R.bad(key + ':escapes', site, 'an error raised in %s leaves nano_t::build as an exception' % bad[0])
                else:
                    R.undecided(key, o.kind)
                continue
            v = o.st.const(o.val) if is_lin(o.val) else None
            if v is None:
                R.undecided(key, 'result')
                continue
            if bad[0] is None:
                if not (v & 1):
                    R.bad(key, site, 'nano_t::build fails although no phase failed')
                elif got != PHASES:
                    miss = [p for p in PHASES if p not in got]
                    R.bad(key + ':phases', site, 'nano_t::build succeeds after the phases %s' % [p.split('::')[-1] for p in got] if not miss else
                          'nano_t::build succeeds without running %s' % ', '.join(miss))
                else:
                    R.ok('all phases run in order')
                continue
            if v & 1:
                R.bad(key, site, 'nano_t::build succeeds although %s %s' % (bad[0], 'raised an error' if bad[1] == 'throw' else 'failed'))
                continue
            R.ok('a failing phase fails the build')
            later = [p for p in got if PHASES.index(p) > PHASES.index(bad[0])]
            if later:
                R.bad(key + ':continues', site, '%s runs after %s failed' % (later[0], bad[0]))
            if bad[1] == 'throw':
                carry(R, e, o, key, ERR, oes, P, site)


def carry(R, e, o, key, ERR, oes, P, site):
    """the error handed out is the one that was raised"""
    got = stdmodel.scontent(e, o.st, add(ERR, C(oes)))
    want = stdmodel.scontent(e, o.st, add(O('EXN'), C(oes)))
    if got == want:
        R.ok('the error raised is handed out')
    elif got == A('slit', '') or got == A('str', add(ERR, C(oes)), (0, 0)):
        R.bad(key + ':lost', site, 'the error raised is not handed out')
    else:
        R.undecided(key + ':error', show(got)[:80])
    ol = P.field('nano::error_t', 'line')
    l, m = e.load_raw(o.st, add(ERR, C(ol)), 8, 'i'), e.load_raw(o.st, add(O('EXN'), C(ol)), 8, 'i')
    if l == m:
        R.ok('the position of the error is handed out')
    elif is_lin(l) and not l[1]:
        R.bad(key + ':line', site, 'the position of the error is not handed out')


def inner(ctx, R):
    """parser_t::parse and codegen_t::run turn an error into a failure"""
    P = ctx.P
    oes = P.field('nano::error_t', 'error')
    ERR = O('ERR')
    # parse
    f = fn(P, 'nano::parser_t::parse')
    R.fn(f)
    TT = P.enum('nano::token_e')
    TOK = O('TOK')
    top = {'TOK_VAR': 'global', 'TOK_CONST': 'constant', 'TOK_FUNC': 'function', 'TOK_IMPORT': 'import', 'TOK_EOL': None}
    SUB = re.compile(r'^nano::parser_t::parse_(global|const|function|import)_$')
    subs = {}
    n = 0
    for name in sorted(TT, key=lambda k: TT[k]):
        if name == 'TOK_EOF':
            continue
        for how in ('ok', 'throw'):
            if how == 'throw' and top.get(name, None) is None:
                continue
            e = E.Engine(P)
            e.join = False
            e.unroll = 4
            st = E.St()
            seen = []

            def found(eng, s, fr, x, g, args):
                t = s.const(args[1])
                if t != TT['TOK_EOF']:
                    r = []
                    s.emit('found', t, eng.site())
                    return [(TOK if t == TT[name] else ZERO, s)]
                k = sum(1 for q in s.trace if q[0] == 'eof')
                s.emit('eof')
                return [(ZERO if k == 0 else O('EOFTOK'), s)]

            def pop(eng, s, fr, x, g, args):
                if len(args) > 1:
                    s.emit('popt', s.const(args[1]), eng.site())
                    return [(O('POPT'), s)]
                k = sum(1 for q in s.trace if q[0] == 'pop')
                s.emit('pop', eng.site())
                return [(TOK if k == 0 else O('NEXT%d' % k), s)]

            def sub_(eng, s, fr, x, g, args):
                s.emit('sub', g.dem.split('(')[0].split('::')[-1], args[1] if len(args) > 1 else ZERO, eng.site())
                if how == 'throw':
                    s.exn = (O('EXN'), ETYPE[0])
                    return [E.Out('throw', None, s)]
                return [(O('NODE') if fr.fn.mod.resolve(x.ty)[0] == 'p' else ONE, s)]

            def pk(eng, s, fr, x, g, args):
                return [(TOK if not any(q[0] == 'pop' for q in s.trace) else O('NEXT1'), s)]
            e.hook('nano::token_stream_t::found', found)
            e.hook('nano::token_stream_t::pop', pop)
            e.hook('nano::token_stream_t::peek', pk)
            e.hook(SUB, sub_)
            e.hook(sema.ERR, err_hook)
            kids = []

            def obs(eng, s, kind, fr, x, kw):
                if kind == 'vec_push' and kw['es'] == 8 and kw['arg'] is not None:
                    s.emit('vpush', eng.load_raw(s, kw['arg'], 8, 'p'), eng.site())
            e.obs.append(obs)
            e.store_raw(st, add(TOK, C(P.field('nano::token_t', 'type_'))), 4, C(TT[name]))
            outs = e.call_fn(f, [O('PARSER'), ERR], st)
            key = 'parse:%s:%s' % (name, how)
            for o in outs:
                if o.kind == 'abort':
                    continue
                if o.kind == 'throw':
                    R.bad(key + ':escapes', f.loc(), 'an error raised while parsing leaves parser_t::parse as an exception')
                    continue
                v = o.st.const(o.val) if is_lin(o.val) else None
                er = [t for t in o.st.trace if t[0] == 'err']
                sb = [t for t in o.st.trace if t[0] == 'sub']
                if v is None:
                    R.undecided(key, 'result')
                    continue
                v &= 1
                n += 1
                if how == 'throw':
                    if not sb:
                        R.undecided(key, 'no construct parsed')
                    elif v:
                        R.bad(key, f.loc(), 'parser_t::parse succeeds although an error was raised')
                    else:
                        R.ok('an error raised while parsing fails the parse')
                        carry(R, e, o, key, ERR, oes, P, f.loc())
                elif name in top:
                    if er:
                        R.bad(key, er[0][3], '%s at top level is rejected' % name)
                        continue
                    if not v:
                        R.bad(key, f.loc(), 'a program starting with %s fails without an error' % name)
                        continue
                    if name == 'TOK_EOL':
                        R.ok('line ends between declarations are skipped')
                        continue
                    if len(sb) != 1:
                        R.undecided(key, 'constructs: %s' % [t[1] for t in sb])
                        continue
                    if sb[0][2] != TOK and child_name(sb[0][2]):
                        R.bad(key + ':token', sb[0][3], 'the construct starting with %s is parsed with another token' % name)
                    subs.setdefault(sb[0][1], set()).add(name)
                    vp = [t for t in o.st.trace if t[0] == 'vpush' and t[1] == O('NODE')]
                    if name != 'TOK_IMPORT':
                        if len(vp) != 1:
                            R.bad(key + ':kept', sb[0][3], 'the declaration starting with %s enters the program %d times' % (name, len(vp)))
                        else:
                            R.ok('a parsed declaration enters the program')
                else:
                    if not er and v:
                        R.bad(key, f.loc(), '%s at top level is accepted and ignored' % name)
                    elif not er:
                        R.undecided(key, 'failure without error')
                    else:
                        R.ok('a token that starts no declaration is an error')
                        a = er[0][2][0] if er[0][2] else ZERO
                        if a != TOK and child_name(a):
                            R.bad('parse:token', er[0][3], 'an unexpected token at top level is reported as the token after it')
    for s, names in subs.items():
        if len(names) > 1:
            R.bad('parse:kinds', f.loc(), '%s are parsed alike' % ' and '.join(sorted(names)))
    R.floor('top-level tokens', n, 30)
    # codegen
    g = fn(P, 'nano::codegen_t::run')
    R.fn(g)
    e = E.Engine(P)
    e.join = False

    def boom(eng, s, fr, x, q, args):
        s.emit('visited', eng.site())
        s.exn = (O('EXN'), ETYPE[0])
        return [E.Out('throw', None, s)]
    e.hook(re.compile(r'^nano::codegen_\w+::visit$'), boom)
    hit = 0
    for o in e.call_fn(g, [O('CG'), O('PROGRAM'), ERR], E.St()):
        if not any(t[0] == 'visited' for t in o.st.trace) or o.kind == 'abort':
            continue
        hit += 1
        if o.kind == 'throw':
            R.ok('an error in code generation reaches nano_t::build')
        elif is_lin(o.val) and o.st.const(o.val) is not None:
            if o.st.const(o.val) & 1:
                R.bad('codegen:throw', g.loc(), 'code generation succeeds although an error was raised')
            else:
                R.ok('an error in code generation fails it')
                carry(R, e, o, 'codegen', ERR, oes, P, g.loc())
    if not hit:
        R.undecided('codegen', 'no path reaches the code generator')


def err_hook(eng, st, fr, x, g, args):
    r = sema.raise_hook(eng, st, fr, x, g, args)
    st.exn = (O('EXN'), ETYPE[0])
    return r


# ------------------------------------------------------------------ token stream
def tokens(ctx, R):
    P = ctx.P
    TT = P.enum('nano::token_e')
    S = O('STREAM')
    vec = add(S, C(P.field('nano::token_stream_t', 'stream_')))
    oi = P.field('nano::token_stream_t', 'index_')
    ot = P.field('nano::token_t', 'type_')
    sz = 48
    I = A('input', 'index')
    ids = sorted(TT.values())
    jobs = [(m, a, b) for m in ('pop', 'found') for a in ids[:12] for b in ids[:12]]
    for f in P.find('nano::token_stream_t::pop') + P.find('nano::token_stream_t::found'):
        if not P.in_repo(f):
            continue
        f.parse()
        m = f.dem.split('(')[0].split('::')[-1]
        R.fn(f)
        for same in (True, False):
            e = E.Engine(P)
            e.join = False
            e.hook(sema.ERR, err_hook)
            st = E.St()
            st.facts.ge0(I)
            st.facts.le0(sub(add(I, ONE), A('vsize', vec, (0, 0))))
            stdsz = P.cls('nano::token_t')
            cur = add(A('vdata', vec), scale(I, stdmodel.sizeof(e, f.mod, 'nano::token_t')))
            e.store_raw(st, add(S, C(oi)), ixsize(P), I)
            T = A('input', 'type')
            e.store_raw(st, add(cur, C(ot)), 4, T)
            args = [S]
            if len(f.params) == 2:
                Q = A('input', 'wanted')
                args.append(T if same else Q)
                if not same:
                    st.facts.ne0(sub(Q, T)) if hasattr(st.facts, 'ne0') else None
            elif not same:
                continue
            outs = e.call_fn(f, args, st)
            for o in outs:
                if o.kind == 'abort':
                    continue
                er = [t for t in o.st.trace if t[0] == 'err']
                ix = e.load_raw(o.st, add(S, C(oi)), ixsize(P), 'i')
                if len(f.params) == 2 and not same:
                    q = o.st.const(e.cmp(o.st.copy(), 'eq', T, args[1], ('i', 32)))
                    if q == 1:
                        continue
                    if q is None and not er and o.kind == 'ret':
                        z = o.st.copy()
                        try:
                            z.facts.eq0(sub(T, add(args[1], ONE)))
                        except Exception:
                            continue
                    if m == 'pop':
                        if not er:
                            R.bad('pop:wrong', f.loc(), 'pop(token) accepts another token than the one expected')
                        else:
                            R.ok('an unexpected token is an error')
                            a = er[0][2][0] if er[0][2] else ZERO
                            if a == cur:
                                R.ok('the token found is reported')
                            elif is_lin(a) and not insem.differs(o.st, sub(a, cur)):
                                R.undecided('pop:token', show(a)[:60])
                            else:
                                R.bad('pop:token', er[0][3], 'another token than the unexpected one is reported')
                    else:
                        if o.kind == 'ret' and is_lin(o.val) and o.st.const(o.val) != 0:
                            R.bad('found:wrong', f.loc(), 'found(token) returns another token')
                        elif ix != I:
                            R.bad('found:eats', f.loc(), 'found(token) consumes a token that is not the one asked for')
                        else:
                            R.ok('a token that is not the one asked for is kept')
                    continue
                if er:
                    R.bad(m + ':refused', er[0][3], '%s rejects the token asked for' % m)
                    continue
                if o.kind != 'ret':
                    continue
                if o.val == cur and ix == add(I, ONE):
                    R.ok('the next token is returned and consumed')
                elif is_lin(ix) and insem.differs(o.st, sub(ix, add(I, ONE))):
                    R.bad(m + ':count', f.loc(), '%s consumes %s tokens instead of one' % (m, show(sub(ix, I))[:40]))
                elif is_lin(o.val) and insem.differs(o.st, sub(o.val, cur)):
                    R.bad(m + ':which', f.loc(), '%s returns another token than the next one' % m)
                else:
                    R.undecided(m, 'result')


def ixsize(P):
    return P.cls('nano::token_stream_t').fields['index_'][1]


# ------------------------------------------------------------------ duplicates
def find_dups(ctx, ps):
    for cls in ps:
        S = sema.Pass(ctx, cls)
        if S.isdef and S.scope is not None:
            return S
    return None


def duplicates(ctx, ps, R):
    from checks import c24
    P = ctx.P
    S = find_dups(ctx, ps)
    if S is None:
        l = [c for c in visit.visitors(P) if sema.Pass(ctx, c).isdef and c not in ps]
        if l:
            R.bad('duplicates:off', fn(P, 'nano::run_sema').loc(), 'the pass that rejects second declarations is not run')
        else:
            R.undecided('duplicates', 'pass not found')
        return
    W = S.W
    ostr = P.field('nano::token_t', 'str_')
    for cls in ('ast_decl_var_t', 'ast_decl_func_t'):
        for scope in (P.enum('nano::ast_decl_var_t::scope_t') if cls == 'ast_decl_var_t' else {'': 0}):
            def su(e, st, n):
                if cls == 'ast_decl_var_t':
                    opsem.put(P, e, st, n, 'nano::' + cls, name=O('NAME'), scope=C(P.enum('nano::ast_decl_var_t::scope_t')[scope]))
                else:
                    opsem.put(P, e, st, n, 'nano::' + cls, token=O('NAME'))
            e, outs, f = S.run(cls, su, tune=c24.tune)
            R.fn(f)
            for o in outs:
                if o.kind == 'abort':
                    continue
                want = stdmodel.scontent(e, o.st, add(O('NAME'), C(ostr))) if cls == 'ast_decl_var_t' else \
                    stdmodel.scontent(e, o.st, add(O(cls), C(P.field('nano::' + cls, 'name'))))
                q = [t for t in o.st.trace if t[0] == 'isdef']
                er = [t for t in o.st.trace if t[0] == 'err']
                ins = [(t, sc) for t, sc, l in S.scopes(o)[0] if t[0] == 'ins']
                key = 'duplicates:%s' % cls
                mine = [t for t in q if t[1] == want]
                if not mine:
                    if q:
                        R.undecided(key, 'another name is looked up: %s' % show(q[0][1])[:60])
                    elif o.kind == 'ret':
                        R.bad(key + ':unchecked', f.loc(), 'a %s %sis not checked against the names declared before' % (cls, scope + ' ' if scope else ''))
                    continue
                if any(t[2] for t in mine):
                    if not er:
                        R.bad(key + ':accepted', f.loc(), 'a second declaration (%s) of a name in scope is accepted' % cls)
                    else:
                        R.ok('a second declaration is an error')
                        a = er[0][2][0] if er[0][2] else ZERO
                        if child_name(a) and a != O('NAME'):
                            R.bad(key + ':token', er[0][3], 'the error for a second declaration points to another token')
                else:
                    if er:
                        R.bad(key + ':refused', er[0][3], 'a first declaration (%s) is rejected' % cls)
                        continue
                    got = [(t, sc) for t, sc in ins if t[2] == want]
                    if not got:
                        if ins:
                            R.undecided(key, 'enters %s' % show(ins[0][0][2])[:60])
                        else:
                            R.bad(key + ':forgotten', f.loc(), 'a declaration (%s) is not remembered: a second one is accepted' % cls)
                    elif got[0][1] or got[0][0][1] != ('top', 0):
                        if got[0][0][1] is None:
                            R.undecided(key, 'scope')
                        else:
                            R.bad(key + ':where', got[0][0][3], 'a declaration (%s) is remembered in another scope than its own' % cls)
                    else:
                        R.ok('a declaration is remembered in its scope')
    # scopes
    own = c24.opens(ctx, S)
    for cls in visit.CHILDREN:
        if cls in ('ast_program_t', 'ast_decl_var_t'):
            continue

        def su(e, st, n):
            if cls in c24.KIDS:
                c24.lists(S, e, st, n, cls, c24.KIDS[cls])
        e, outs, f = S.run(cls, su, tune=c24.tune)
        if f is None:
            continue
        R.fn(f)
        for o in outs:
            if o.kind != 'ret' or any(t[0] in ('odd', 'loop') for t in o.st.trace):
                if o.kind == 'ret':
                    R.undecided('duplicates:' + cls, 'scopes')
                continue
            ev, end, low = S.scopes(o)
            if low or end:
                R.bad('duplicates:%s:scopes' % cls, f.loc(), 'the duplicate check %s scope in a %s' % ('closes a foreign' if low else 'leaves open a', cls))
                continue
            used = {}
            for t, sc, l in ev:
                if t[0] != 'visit':
                    continue
                k = child_name(t[1])
                if k not in c24.BLOCKS and not (cls == 'ast_decl_func_t' and k in ('k0', 'k1')):
                    continue
                if own and cls != 'ast_decl_func_t':
                    continue
                if not sc:
                    R.bad('duplicates:%s:%s' % (cls, k), t[2], 'names declared in the %s of a %s still count as declared after it' % (k, cls))
                    continue
                d = [x for x in sc if x in used and not (cls == 'ast_decl_func_t')]
                if d:
                    R.bad('duplicates:%s:%s' % (cls, k), t[2], 'names declared in the %s of a %s count as declared in its %s' % (used[d[0]], cls, k))
                    continue
                for x in sc:
                    used[x] = k
                if cls == 'ast_decl_func_t' and k == 'body':
                    a = [s for q, s, _ in ev if q[0] == 'visit' and child_name(q[1]) in ('k0', 'k1')]
                    if len(a) < 2 or any(x != sc[:len(x)] for x in a):
                        R.bad('duplicates:args', t[2], 'arguments do not count as declared in the body of their function')
                        continue
                R.ok('block has a scope of its own in the duplicate check')
    lookup(ctx, S, R)


def lookup(ctx, S, R):
    """is-declared over small scope stacks"""
    P = ctx.P
    f = S.isdef[0]
    R.fn(f)
    for n in (0, 1, 2, 3):
        for sz in itertools.product((0, 1, 2), repeat=n):
            e = E.Engine(P)
            e.join = False
            e.unroll = 8
            st = E.St()
            stdmodel.set_vsize(e, st, S.scope, C(n))
            els = []
            for i, k in enumerate(sz):
                so = add(A('vdata', S.scope), C(S.esize * i))
                if S.kind == 'set':
                    e.finite[so] = k
                else:
                    R.undecided('isdef', 'scopes kept in a %s' % S.kind)
                    return
                for q in range(k):
                    c = A('str', 'name%d.%d' % (i, q))
                    stdmodel.set_s(e, st, stdmodel.fitel(so, q), c)
                    els.append(c)
            NM = O('NAMESTR')
            W = A('str', 'wanted')
            stdmodel.set_s(e, st, NM, W)
            for o in e.call_fn(f, [S.this, NM], st):
                if o.kind != 'ret' or not is_lin(o.val) or o.st.const(o.val) is None:
                    R.undecided('isdef %s' % (sz,), o.kind)
                    continue
                v = o.st.const(o.val) & 1
                eq = []
                for c in els:
                    fs = e.fork(o.st.copy(), stdmodel.s_eq(e, o.st.copy(), c, W))
                    eq.append(int(fs[0][0]) if len(fs) == 1 else None)
                if v and 1 not in eq:
                    R.bad('isdef:wrong', f.loc(), 'a name counts as declared that no open scope declares')
                elif not v and any(x != 0 for x in eq):
                    R.bad('isdef:miss', f.loc(), 'a name declared in an open scope does not count as declared (scopes %s)' % (sz,))
                else:
                    R.ok('declared exactly when an open scope has the name')


# ------------------------------------------------------------------ number of arguments
def arity(ctx, ps, R):
    P = ctx.P
    NA, NF = A('input', 'given'), A('input', 'declared')
    okc = [0]
    for what in ('function', 'syscall', 'varargs', 'variable'):
        verdict = None
        und = False
        for cls in ps:
            S = ctx.get(('pass', cls), lambda: sema.Pass(ctx, cls))
            W = S.W

            def su(e, st, n):
                d = W.node(e, st, 'DECL', 'ast_decl_func_t' if what != 'variable' else 'ast_decl_var_t')
                if what != 'variable':
                    opsem.put(P, e, st, d, 'nano::ast_decl_func_t', is_syscall=C(int(what != 'function')), is_varargs=C(int(what == 'varargs')))
                    stdmodel.set_vsize(e, st, add(d, C(W.fld('ast_decl_func_t', 'args'))), NF)
                c = W.node(e, st, 'callee', 'ast_exp_ident_t', decl=d, name=O('NAME'))
                opsem.put(P, e, st, n, 'nano::ast_exp_call_t', callee=c)
                stdmodel.set_vsize(e, st, add(n, C(W.fld('ast_exp_call_t', 'args'))), NA)
                st.facts.ge0(NA)
                st.facts.ge0(NF)
            e, outs, f = S.run('ast_exp_call_t', su)
            if f is None:
                continue
            R.fn(f)
            live = [o for o in outs if o.kind in ('ret', 'throw')]
            er = [(o, t) for o in live for t in o.st.trace if t[0] == 'err']
            if not er:
                continue
            if what in ('varargs', 'variable'):
                R.bad('args:%s:refused' % what, er[0][1][3], 'a call of a %s is rejected for its number of arguments' % what)
                continue
            for o, t in er:
                if insem.differs(o.st, sub(NA, NF)) is True or o.st.facts.rng(sub(NA, NF))[0] is not None and o.st.facts.rng(sub(NA, NF))[0] > 0 \
                        or o.st.facts.rng(sub(NA, NF))[1] is not None and o.st.facts.rng(sub(NA, NF))[1] < 0:
                    r = o.st.facts.rng(sub(NA, NF))
                    many = r[0] is not None and r[0] > 0
                    few = r[1] is not None and r[1] < 0
                    if many and 'not_enough' in t[1] or few and 'too_many' in t[1]:
                        R.bad('args:%s:message' % what, t[3], 'a call with too %s arguments is reported as %s' % ('many' if many else 'few', t[1]))
                    else:
                        R.ok('a wrong number of arguments is an error')
                    a = t[2][0] if t[2] else ZERO
                    if child_name(a) and a != O('NAME'):
                        R.bad('args:token', t[3], 'the error for a wrong number of arguments points to another token')
                else:
                    R.bad('args:%s:valid' % what, t[3], 'a call with as many arguments as parameters is rejected (%s)' % t[1])
            bad = [o for o in live if not any(t[0] == 'err' for t in o.st.trace) and o.st.facts.rng(sub(NA, NF))[:2] != (0, 0)]
            if bad:
                if verdict is None:
                    verdict = (f, o)
            else:
                verdict = True
        if what in ('function', 'syscall'):
            if verdict is True:
                R.ok('calls of a %s that compile have the right number of arguments' % what)
            elif verdict is None:
                R.bad('args:%s' % what, 'source/lib_compiler/sema.cpp', 'no pass rejects a call of a %s with a wrong number of arguments' % what)
            else:
                R.bad('args:%s' % what, verdict[0].loc(), 'some calls of a %s with a wrong number of arguments are accepted' % what)
        else:
            R.ok('calls without fixed parameters are not restricted')


def run(ctx, R):
    frame.guard(R, errors, ctx, R)
    frame.guard(R, phases, ctx, R)
    frame.guard(R, inner, ctx, R)
    frame.guard(R, tokens, ctx, R)
    ps, f = sema.passes(ctx)
    R.fn(f)
    R.floor('semantic passes', len(ps), 5)
    from checks import c15, c16, c24
    try:
        S = sema.find_resolver(ctx)
        ctx.memo['resolvers'] = (S.cls,)
    except Anchor:
        S = None
        ctx.memo['resolvers'] = ()
    if S is not None and S.cls not in ps:
        R.bad('names:off', f.loc(), 'the pass that resolves names is not run')
    elif S is not None and ps[0] != S.cls:
        R.undecided('names', 'order of the passes')
    if S is not None:
        for cls in c24.USES:
            frame.guard(R, c24.uses, ctx, S, cls, R)
        frame.guard(R, c24.lookup, ctx, S, R)
    frame.guard(R, duplicates, ctx, ps, R)
    frame.guard(R, arity, ctx, ps, R)
    frame.guard(R, c15.uses, ctx, ps, R)
    frame.guard(R, c15.noinit, ctx, ps, R)
    frame.guard(R, c16.passes, ctx, R, {p.split('::')[-1] for p in ps})
