"""C25: imports load each file once and line lookup returns the right line."""
import re
from terms import *
import stdmodel, insem, frame
import eng as E
from ir import Anchor

EXPLAIN = (
    'source_manager_t::load is analysed with the path comparison and the file loader abstracted: the comparison is made '
    'with the name of every source, an equal one ends the call with success and no change, otherwise the file is loaded '
    'and appended once, and only when it could be read.  The comparison itself is analysed for one step on every pair of '
    'character classes (letter, other case, other letter, slash, backslash, end).  imported_path, parse_import_ and the '
    'source loop of nano_t::build are analysed path by path: which path is loaded, the error on failure, each source lexed '
    'and parsed once with its own index, the number of sources read again after each parse.  The line index and get_line '
    'are analysed for the step on each character class and for all line numbers.')

O = lambda n: A('obj', n)
SM, PATH, SRC = O('SM'), O('PATH'), O('SRC')


def fn(P, name):
    l = [f for f in P.find(name) if P.in_repo(f)]
    if not l:
        l = [f for f in P.fns.values() if f.dem.startswith(name + '[abi:cxx11](') and P.in_repo(f)]
    if not l:
        raise Anchor(name)
    l[0].parse()
    return l[0]


def srcvec(P):
    return add(SM, C(P.field('nano::source_manager_t', 'sources_')))


def flat(tr):
    for t in tr:
        if t[0] == 'loop':
            for b in t[2]:
                yield from flat(b)
        yield t


# ------------------------------------------------------------------ load
def is_name(P, t):
    """content of the file name of element i of the source list: -> index term"""
    a = single(t)
    if a is None or a.kind != 'sdata':
        return None
    s = single(a.args[0])
    if s is None or s.kind != 'str':
        return None
    p = sub(s.args[0], C(P.field('nano::source_t', '_filename')))
    q = single(p)
    if q is None or q.kind != 'ld':
        return None
    return sub(q.args[0], A('vdata', srcvec(P)))


def load(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::source_manager_t::load')
    e = E.Engine(P)
    vec = srcvec(P)
    hits = [0]

    def cmpf(eng, st, fr, x, g, args):
        if g is None or not P.in_repo(g) or len(args) != 2 or PATH not in args or 'load' in g.dem:
            return None
        o = [a for a in args if a != PATH]
        if len(o) != 1 or is_name(P, o[0]) is None:
            return None
        hits[0] += 1
        ctx.c25cmp = (g, args[0] == PATH)
        r = []
        for v in (1, 0):
            s = st.copy()
            s.emit('cmp', is_name(P, o[0]), v, eng.site())
            r.append((C(v), s))
        return r

    def lf(eng, st, fr, x, g, args):
        r = []
        for v in (1, 0):
            s = st.copy()
            s.emit('read', tuple(a for a in args), v, eng.site())
            r.append((C(v), s))
        return r
    e.hook(re.compile('.'), cmpf)
    e.hook('nano::source_t::load_from_file', lf)

    def obs(eng, st, kind, fr, ins, kw):
        if kind.startswith('vec_') and kw.get('vec') == vec and kind not in ('vec_access', 'vec_at', 'vec_index'):
            st.emit('vec', kind, eng.site())
    e.obs.append(obs)
    outs = e.call_fn(f, [SM, PATH], E.St())
    R.fn(f)
    if not hits[0]:
        R.undecided('load', 'the path comparison is not a function of its own')
        return
    for o in outs:
        if o.kind != 'ret':
            R.undecided('load', 'path ends in %s' % o.kind)
            continue
        v = o.st.const(o.val)
        tr = [t for t in o.st.trace]
        flt = list(flat(tr))
        same = [t for t in tr if t[0] == 'cmp' and t[2] == 1]
        reads = [t for t in tr if t[0] == 'read']
        chg = [t for t in flt if t[0] == 'vec']
        if any(t[0] in ('read', 'vec') for l in tr if l[0] == 'loop' for t in flat(l[2] and [x for b in l[2] for x in b])):
            R.undecided('load', 'loading inside the search')
            continue
        if same:
            if v != 1:
                R.bad('load:again', same[0][3], 'importing a file that is already loaded is reported as a failure')
            elif chg or reads:
                R.bad('load:again', same[0][3], 'a file that is already loaded is loaded again')
            else:
                R.ok('already loaded: success, nothing changed')
            continue
        loops = [t for t in tr if t[0] == 'loop' and any(x[0] == 'cmp' for x in flat([y for b in t[2] for y in b]))]
        if not loops:
            if not reads:
                R.undecided('load', 'no comparison on a path')
                continue
            R.bad('load:nocmp', reads[0][3], 'a file is loaded without looking whether it already is')
            continue
        lp = loops[0]
        cover = len(lp) > 4 and is_lin(lp[4]) and lp[4] == A('vsize', vec, (0, 0))
        each = all(any(x[0] == 'cmp' and sub(x[1], scale(lp[1], 8)) == ZERO for x in flat(b)) for b in lp[2])
        if not cover or not each:
            if len(lp) > 4 and is_lin(lp[4]) and insem.differs(o.st, sub(lp[4], A('vsize', vec, (0, 0)))):
                R.bad('load:search', lp[3], 'the search for a file already loaded stops after %s sources' % show(lp[4])[:60])
            elif not each and any(x[0] == 'cmp' and not sub(x[1], scale(lp[1], 8))[1] for b in lp[2] for x in flat(b)):
                R.bad('load:search', lp[3], 'the search for a file already loaded looks at the wrong source')
            else:
                R.undecided('load', 'search loop')
            continue
        if not reads:
            R.bad('load:none', f.loc(), 'a file not loaded yet is not loaded (the call answers %s)' % v)
            continue
        if len(reads) > 1 or reads[0][1][-1] != PATH:
            R.bad('load:path', reads[0][3], 'the file loaded is not the one asked for')
            continue
        pushes = [t for t in chg if t[1] in ('vec_push',)]
        if reads[0][2] == 0:
            if chg:
                R.bad('load:fail', chg[0][2], 'a source that could not be read is added')
            elif v != 0:
                R.bad('load:fail', f.loc(), 'success is reported for a file that could not be read')
            else:
                R.ok('unreadable file reported, nothing added')
        else:
            if len(pushes) != 1 or len(chg) != 1:
                if len(chg) != len(pushes):
                    R.undecided('load', 'source list changed by %s' % sorted({t[1] for t in chg}))
                else:
                    R.bad('load:push', f.loc(), 'a file that was read is added %d times' % len(pushes))
            elif v != 1:
                R.bad('load:ok', f.loc(), 'failure is reported for a file that was loaded')
            else:
                R.ok('new file loaded and added once')


CH = {'a': 'aAbB/\\.\0' }


def compare(ctx, R):
    """one step of the path comparison, for all pairs of character classes"""
    P = ctx.P
    f = fn(P, 'nano::source_manager_t::load')
    chars = 'aAzZ/\\.0\0'

    def eqv(a, b):
        n = lambda c: '/' if c == '\\' else c.lower()
        return n(a) == n(b)
    seen = 0
    if not getattr(ctx, 'c25cmp', None):
        R.undecided('compare', 'the path comparison is not a function of its own')
        return
    g, first = ctx.c25cmp
    NAME = O('NAME')
    for a in chars:
        for b in chars:
            e = E.Engine(P)
            found = []

            def once(eng, fr, h, init, s, a=a, b=b):
                if found:
                    return None
                s = s.copy()
                eng.store_raw(s, NAME, 1, C(ord(a)))
                eng.store_raw(s, PATH, 1, C(ord(b)))
                found.append(1)
                s.emit('start')
                return s
            e.once = once
            outs = e.call_fn(g, [PATH, NAME] if first else [NAME, PATH], E.St())
            if not found:
                R.undecided('compare', 'comparison loop not found')
                return
            R.fn(g)
            st = [o for o in outs if any(t[0] == 'start' for t in flat(o.st.trace))]
            backs = [o for o in st if o.kind == 'back']
            rest = [o for o in st if o.kind == 'ret']
            key = 'compare:%r/%r' % (a, b)
            seen += 1
            if a == b == '\0':
                want = 'equal'
            elif eqv(a, b) and '\0' not in (a, b):
                want = 'next'
            else:
                want = 'differ'
            got = set()
            for o in backs:
                ok = True
                for var, i, n in o.val:
                    if var[0] != 'e':
                        continue
                    d = sub(n, i) if is_lin(n) and is_lin(i) else None
                    if d != ONE:
                        ok = False
                got.add('next' if ok else '?')
            for o in rest:
                v = o.st.const(o.val)
                got.add('differ' if v == 0 else 'equal' if v == 1 else '?')
            if any(o.kind not in ('back', 'ret') for o in st):
                got.add('?')
            if '?' in got or not got:
                R.undecided(key, sorted(got))
            elif got == {'next', 'differ'} and want == 'differ':
                R.undecided(key, sorted(got))
            elif want not in got or len(got) > 1:
                names = {'next': 'goes on to the next character', 'equal': 'finds the paths equal', 'differ': 'finds the paths different'}
                R.bad(key, g.loc(), 'the comparison of path names on %r against %r %s' % (a, b, ' or '.join(names[x] for x in sorted(got))))
            else:
                R.ok('step of the path comparison')
    R.floor('character pairs', seen, 81)


# ------------------------------------------------------------------ relative paths
def relative(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::source_manager_t::imported_path')
    e = E.Engine(P)
    st = E.St()
    S = O('STR')
    old = stdmodel.scontent(e, st, S)
    base = stdmodel.scontent(e, st, add(SRC, C(P.field('nano::source_t', '_filename'))))
    outs = e.call_fn(f, [SM, SRC, S], st)
    R.fn(f)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            R.undecided('imported_path', o.kind)
            continue
        v = stdmodel.scontent(e, o.st, S)
        parts = cat(v)
        fl = [x for fm in o.st.facts.d for x in atoms_of(fm) if x.kind == 'call' and str(x.args[0]) in ('string::find_last_of', 'string::rfind')]
        none = [x for x in fl if o.st.const((0, ((x, 1),))) in (-1, (1 << 64) - 1)]
        if none:
            # there is no slash in the name of the importing file
            if parts == [old]:
                R.ok('import from a file without directory: path unchanged')
                n += 1
            elif parts and parts[-1] == old and all(single(q) is not None and single(q).kind == 'slit' for q in parts[:-1]):
                R.bad('imported_path:nodir', f.loc(), 'importing from a file without a directory prepends %r to the path' % ''.join(single(q).args[0] for q in parts[:-1]))
            else:
                R.undecided('imported_path', show(v)[:100])
            continue
        if len(parts) == 2 and parts[1] == old:
            p = single(parts[0])
            if p is not None and p.kind == 'sresize' and p.args[1] == base:
                l = sub(p.args[0], ONE)
                q = single(l)
                if q is not None and q.kind == 'call' and q.args[0] == 'string::find_last_of' and q.args[1] == base:
                    t = single(q.args[2][0]) if is_lin(q.args[2][0]) else None
                    if t is not None and t.kind == 'slit':
                        if set(t.args[0]) == set('/\\'):
                            R.ok('import path: directory of the importing file, then the path as written')
                            n += 1
                        else:
                            R.bad('imported_path:set', f.loc(), 'the directory of the importing file ends at the last of %r' % t.args[0])
                        continue
                q = [x for x in atoms_of(p.args[0]) if x.kind == 'call' and x.args[0] == 'string::find_last_of']
                if len(q) == 1 and not sub(p.args[0], (0, ((q[0], 1),)))[1]:
                    R.bad('imported_path:cut', f.loc(), 'the directory of the importing file is cut %d characters after its last slash' % sub(p.args[0], (0, ((q[0], 1),)))[0])
                    continue
            q = [x for x in atoms_of(parts[0]) if x.kind == 'call' and x.args[0] in ('string::find_first_of', 'string::find')]
            if p is not None and p.kind == 'sresize' and q:
                R.bad('imported_path:first', f.loc(), 'the directory of the importing file is taken to end at its first slash')
                continue
        if v == old:
            R.bad('imported_path:same', f.loc(), 'a path imported from a file in a directory is not made relative to it')
            continue
        if len(parts) == 2 and parts[0] == old:
            R.bad('imported_path:order', f.loc(), 'the directory of the importing file is put after the path')
            continue
        R.undecided('imported_path', show(v)[:100])
    return n


def cat(t):
    a = single(t)
    if a is not None and a.kind == 'cat':
        return cat(a.args[0]) + cat(a.args[1])
    if a is not None and a.kind == 'slit' and a.args[0] == '':
        return []
    return [t]


# ------------------------------------------------------------------ import statement
def statement(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::parser_t::parse_import_')
    N = O('NANO')
    PR = O('PARSER')
    TOK = O('TOKEN')
    e = E.Engine(P)
    st = E.St()
    # parser_t holds a reference to the compiler
    e.store_raw(st, add(PR, C(P.field('nano::parser_t', 'nano_'))), 8, N)
    e.store_raw(st, add(N, C(P.field('nano::nano_t', 'sources_'))), 8, SM)
    e.store_raw(st, add(N, C(P.field('nano::nano_t', 'source_'))), 8, SRC)
    vec = add(N, C(P.field('nano::nano_t', 'lexer_')))
    st.facts.le0(sub(ONE, A('vsize', vec, (0, 0))))

    def pop(eng, s, fr, x, g, args):
        if len(args) < 2:
            return None
        s.emit('pop', args[1], eng.site())
        return [(TOK, s)]
    e.hook('nano::token_stream_t::pop', pop)

    def imp(eng, s, fr, x, g, args):
        s.emit('rel', args[0], args[1], stdmodel.scontent(eng, s, args[2]), eng.site())
        stdmodel.set_s(eng, s, args[2], A('slit', '<relative>'))
        return [(ZERO, s)]
    e.hook('nano::source_manager_t::imported_path', imp)

    def ld(eng, s, fr, x, g, args):
        r = []
        for v in (1, 0):
            q = s.copy()
            q.emit('load', args[0], stdmodel.lit(eng, q, args[1]), v, eng.site())
            r.append((C(v), q))
        return r
    e.hook('nano::source_manager_t::load', ld)

    def err(eng, s, fr, x, g, args):
        nm = g.dem.split('(')[0].split('::')[-1] if g is not None else '?'
        s.emit('err', nm, tuple(args[1:]), eng.site())
        return [E.Out('throw', None, s)]
    e.hook(re.compile(r'^nano::error_manager_t::(?!error_manager_t|~)'), err)
    e.store_raw(st, add(TOK, C(P.field('nano::token_t', 'type_'))), 4, C(P.enum('nano::token_e')['TOK_STRING']))
    outs = e.call_fn(f, [PR, O('T0')], st)
    R.fn(f)
    TS = P.enum('nano::token_e')['TOK_STRING']
    tstr = stdmodel.scontent(e, st, add(TOK, C(P.field('nano::token_t', 'str_'))))
    for o in outs:
        tr = o.st.trace
        if o.kind == 'abort':
            continue
        pops = [t for t in tr if t[0] == 'pop']
        rel = [t for t in tr if t[0] == 'rel']
        lds = [t for t in tr if t[0] == 'load']
        ers = [t for t in tr if t[0] == 'err']
        if len(pops) != 1 or o.st.const(pops[0][1]) != TS:
            R.undecided('import statement', 'tokens taken: %d' % len(pops))
            continue
        if not lds:
            R.bad('import:noload', f.loc(), 'an import does not load the file')
            continue
        if len(lds) > 1:
            R.undecided('import statement', 'loads %d times' % len(lds))
            continue
        if not rel:
            if lds[0][2] == tstr:
                R.bad('import:relative', lds[0][4], 'the path of an import is not made relative to the importing file')
            else:
                R.undecided('import statement', show(lds[0][2])[:80])
            continue
        ts = A('slit', '') if o.st.const(A('strlen', tstr)) == 0 else tstr
        if rel[0][1] != SM or rel[0][2] != SRC or rel[0][3] not in (ts, tstr):
            if rel[0][3] in (ts, tstr) and rel[0][1] == SM:
                R.bad('import:base', rel[0][4], 'the path of an import is made relative to %s instead of the importing file' % show(rel[0][2])[:60])
            else:
                R.undecided('import statement', [show(x)[:60] for x in rel[0][1:4]])
            continue
        if lds[0][1] != SM or lds[0][2] != A('slit', '<relative>'):
            if lds[0][2] == tstr:
                R.bad('import:relative', lds[0][4], 'the path loaded is the one written, not the relative one')
            else:
                R.undecided('import statement', show(lds[0][2])[:80])
            continue
        if lds[0][3] == 0:
            if not ers:
                R.bad('import:silent', lds[0][4], 'an import that cannot be loaded is not reported')
            else:
                R.ok('failed import is an error')
        else:
            if ers or o.kind == 'throw':
                R.bad('import:refused', ers[0][3] if ers else f.loc(), 'an import that was loaded is reported as an error')
            else:
                R.ok('import loads the path relative to the importing file')


# ------------------------------------------------------------------ all sources are compiled
def sources(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::nano_t::build')
    N, ERR = O('NANO'), O('ERR')
    vec = srcvec(P)
    e = E.Engine(P)
    st = E.St()
    osrc = P.field('nano::nano_t', 'source_')
    osm = P.field('nano::nano_t', 'sources_')
    odata = P.field('nano::source_t', '_data')

    def lex(eng, s, fr, x, g, args):
        s.emit('lex', args[1], args[2], eng.load_raw(s, add(N, C(osrc)), 8, 'p'), eng.site())
        return [(ONE, s)]

    def parse(eng, s, fr, x, g, args):
        cur = eng.load_raw(s, add(N, C(osrc)), 8, 'p')
        lx = [t for t in s.trace if t[0] == 'lex']
        a = single(lx[-1][1]) if lx and is_lin(lx[-1][1]) else None
        if a is not None and a.kind == 'ld':
            el = sub(a.args[0], C(odata))
            if s.facts.rng(sub(cur, el))[:2] == (0, 0):
                cur = el
        s.emit('parse', cur, eng.load_raw(s, add(N, C(osm)), 8, 'p'), eng.site())
        n = stdmodel.vsize(eng, s, vec)
        d = A('imported', eng.fresh(s, 'imp'))
        s.facts.ge0(d)
        stdmodel.set_vsize(eng, s, vec, add(n, d))
        return [(ONE, s)]

    def other(eng, s, fr, x, g, args):
        s.emit('phase', g.dem.split('(')[0] if g is not None else '?', eng.site())
        return [(ONE, s)]
    e.hook('nano::lexer_t::lex', lex)
    e.hook('nano::parser_t::parse', parse)
    for n in ('nano::run_sema', 'nano::run_optimize', 'nano::run_pre_codegen', 'nano::codegen_t::run', 'nano::ast_t::gc'):
        e.hook(n, other)
    outs = e.call_fn(f, [N, SM, ERR], st)
    R.fn(f)
    n0 = A('vsize', vec, (0, 0))
    for o in outs:
        if o.kind != 'ret':
            R.undecided('build', 'path ends in %s' % o.kind)
            continue
        tr = o.st.trace
        if o.st.const(o.val) != 1:
            continue
        loops = [t for t in tr if t[0] == 'loop' and any(x[0] in ('lex', 'parse') for x in flat([y for b in t[2] for y in b]))]
        if len(loops) != 1 or any(t[0] in ('lex', 'parse') for t in tr):
            R.undecided('build', 'source loop')
            continue
        lp = loops[0]
        K = lp[1]
        good = True
        for b in lp[2]:
            ev = list(flat(b))
            lx = [t for t in ev if t[0] == 'lex']
            ps = [t for t in ev if t[0] == 'parse']
            if len(lx) != 1 or len(ps) != 1 or ev.index(lx[0]) > ev.index(ps[0]):
                R.bad('build:each', lp[3], 'a source is lexed %d times and parsed %d times' % (len(lx), len(ps)))
                good = False
                continue
            el = A('ld', add(A('vdata', vec), scale(K, 8)), (0, 0))
            t = lx[0]
            idx = src_index(P, t[1], vec, odata)
            for got, what in ((idx, 'the text lexed is that of source %s'), (t[2], 'the file number given to the lexer is %s'),
                              (elem(ps[0][1], vec), 'imports are resolved against source %s')):
                if got is None:
                    v = ps[0][1]
                    a = single(v) if is_lin(v) else None
                    if what.startswith('imports') and a is not None and (a.kind == 'lv' or v == A('ld', add(N, C(osrc)), (0, 0))) \
                            and not any(single(el) in [x for x, _ in fm] and a in [x for x, _ in fm] for fm in o.st.facts.d):
                        R.bad('build:source', ps[0][3], 'the source against which imports are resolved is not set to the one being parsed')
                    else:
                        R.undecided('build', what)
                    good = False
                elif got != K:
                    if insem.differs(o.st, sub(got, K)):
                        R.bad('build:' + what[:12], t[4], 'for source %s of the list ' % 'K' + what % show(sub(got, K))[:60] + ' more')
                    else:
                        R.undecided('build', what % show(got)[:60])
                    good = False
            if ps[0][2] != SM:
                R.undecided('build', 'source manager')
                good = False
        trip = lp[4] if len(lp) > 4 else None
        if trip is None or not is_lin(trip):
            R.undecided('build', 'number of sources compiled')
            good = False
        elif trip == n0 or not trip[1]:
            R.bad('build:count', lp[3], 'only the sources known before parsing are compiled: a file imported later is ignored' if trip == n0 else 'a fixed number of sources is compiled')
            good = False
        else:
            a = single(trip)
            if a is None:
                d = [x for x, k in trip[1]]
                if len(d) == 1 and d[0].kind == 'lv' and trip[1][0][1] == 1:
                    R.bad('build:count', lp[3], 'the last %d sources are not compiled' % -trip[0])
                else:
                    R.undecided('build', 'number of sources compiled: %s' % show(trip)[:80])
                good = False
            elif a.kind != 'lv':
                R.undecided('build', 'number of sources compiled: %s' % show(trip)[:80])
                good = False
        if good:
            R.ok('every source, imported ones included, is lexed and parsed once under its own index')


def elem(t, vec):
    a = single(t) if is_lin(t) else None
    if a is None or a.kind != 'ld':
        return None
    d = sub(a.args[0], A('vdata', vec))
    if d[0] % 8 or any(k % 8 for _, k in d[1]):
        return None
    return (d[0] // 8, tuple((x, k // 8) for x, k in d[1]))


def src_index(P, t, vec, odata):
    a = single(t) if is_lin(t) else None
    if a is None or a.kind != 'ld':
        return None
    return elem(sub(a.args[0], C(odata)), vec)


# ------------------------------------------------------------------ text and lines of one source
def text(ctx, R):
    """load_from_string/load_from_file: the text is kept whole and ended by NUL, then indexed"""
    P = ctx.P
    for nm in ('load_from_string', 'load_from_file'):
        frame.guard(R, text1, P, R, nm)


def text1(P, R, nm):
    f = fn(P, 'nano::source_t::' + nm)
    IN = O('INPUT')
    osz, odt = None, None
    if nm == 'load_from_file':
        osz = P.field('file_t', '_size')
    data = add(SRC, C(P.field('nano::source_t', '_data')))
    lines = add(SRC, C(P.field('nano::source_t', '_lines')))
    fname = add(SRC, C(P.field('nano::source_t', '_filename')))
    SZ = A('filesize')
    for ch in ('\n', 'x', '\r', '\0'):
        e = E.Engine(P)
        st = E.St()

        def fload(eng, s, fr, x, g, args):
            r = []
            for v in (1, 0):
                q = s.copy()
                q.emit('file', args[1], v)
                eng.store_raw(q, add(args[0], C(osz)), 8, SZ if v else ZERO)
                q.facts.le0(sub(ONE, SZ))
                eng.store_raw(q, add(args[0], C(P.field('file_t', '_data'))), 8, O('FILEDATA'))
                r.append((C(v), q))
            return r
        e.hook('file_t::load', fload)
        allocs = []

        def obs(eng, s, kind, fr, ins, kw):
            if kind == 'memcpy':
                s.emit('copy', kw.get('dst'), kw.get('src'), kw.get('n', kw.get('size')), eng.site())
            elif kind == 'vec_push' and kw['vec'] == lines:
                s.emit('line', eng.load_raw(s.copy(), kw['arg'], 8, 'p') if kw['arg'] is not None else None, eng.site())
            elif kind in ('vec_clear',) and kw.get('vec') == lines:
                s.emit('clear')
            elif kind == 'store' and kw['size'] == 1:
                s.emit('st1', kw['addr'], kw['val'], eng.site())
            elif kind == 'load' and kw['size'] == 1:
                pass
        e.obs.append(obs)
        started = []

        def once(eng, fr, h, init, s):
            v = eng.load_raw(s.copy(), data, 8, 'p')
            ptrs = [x for x in init.values() if is_lin(x)]
            if started or not is_lin(v):
                return None
            s = s.copy()
            started.append((v, [p for p in ptrs], s.trace))
            s.emit('step')
            eng.store_raw(s, v, 1, C(ord(ch)))
            return s
        e.once = once
        outs = e.call_fn(f, [SRC, IN], st)
        R.fn(f)
        if not started:
            R.undecided(nm, 'line loop not found')
            return
        base, ptrs, pre = started[0]
        # --- before the loop: copy of the whole text, NUL behind it, first line at its start
        cp = [t for t in pre if t[0] == 'copy']
        nul = [t for t in pre if t[0] == 'st1']
        want_src = IN if nm == 'load_from_string' else O('FILEDATA')
        size = A('strlen', A('cstr', IN)) if nm == 'load_from_string' else SZ
        if ch == '\n':
            if len(cp) != 1 or cp[0][1] != base or cp[0][2] != want_src or not is_lin(cp[0][3]):
                R.undecided(nm, 'copy of the text')
            else:
                n = cp[0][3]
                if nm == 'load_from_string':
                    a = single(n)
                    okn = a is not None and a.kind in ('strlen', 'call') and IN[1][0][0] in atoms_of(n)
                else:
                    okn = n == SZ
                if not okn:
                    if is_lin(n) and insem.differs(None, sub(n, size)) if False else not sub(n, size)[1]:
                        R.bad(nm + ':size', cp[0][4], 'the text kept is %d characters longer than the source' % sub(n, size)[0])
                    else:
                        R.undecided(nm, 'size %s' % show(n)[:60])
                else:
                    R.ok('text copied whole')
                    z = [t for t in nul if t[1] == add(base, n)]
                    if z and z[-1][2] == ZERO:
                        R.ok('text ended by NUL')
                    elif nul and all(not sub(t[1], add(base, n))[1] for t in nul):
                        R.bad(nm + ':nul', nul[-1][3], 'the text is ended %+d characters from its end' % sub(nul[-1][1], add(base, n))[0])
                    elif not nul:
                        R.bad(nm + ':nul', f.loc(), 'the copy of the text is not ended')
                    else:
                        R.undecided(nm, 'terminator %s' % [(show(t[1]), show(t[2]) if is_lin(t[2]) else t[2]) for t in nul])
            first = [t for t in pre if t[0] == 'line']
            if len(first) != 1 or first[0][1] != base:
                if len(first) == 0 or (len(first) == 1 and first[0][1] is not None and is_lin(first[0][1]) and not sub(first[0][1], base)[1]):
                    R.bad(nm + ':first', f.loc(), 'the first line does not begin at the start of the text')
                else:
                    R.undecided(nm, 'first line')
            else:
                R.ok('the first line begins at the start of the text')
        # --- one step
        key = '%s:%r' % (nm, ch)
        st1 = [o for o in outs if any(t[0] == 'step' for t in o.st.trace)]
        for o in st1:
            tr = o.st.trace
            i = [k for k, t in enumerate(tr) if t[0] == 'step'][0]
            nl = [t for t in flat(tr[i:]) if t[0] == 'line']
            if o.kind == 'back':
                if ch == '\0':
                    R.bad(key, f.loc(), 'indexing the lines goes on behind the end of the text')
                    continue
                dv = [sub(n, j) for v, j, n in o.val if v[0] == 'e' and is_lin(n) and is_lin(j)]
                if any(d != ONE for d in dv):
                    R.undecided(key, 'step %s' % [show(d) for d in dv])
                    continue
                want = [add(base, ONE)] if ch == '\n' else []
                got = [t[1] for t in nl]
                if got == want:
                    R.ok('line index: step')
                elif all(g is not None and is_lin(g) for g in got) and (len(got) != len(want) or all(not sub(g, base)[1] for g in got)):
                    R.bad(key, nl[0][2] if nl else f.loc(), 'on the character %r %s' % (ch, 'no new line begins' if not got else 'a line begins at offset %s' % ', '.join(show(sub(g, base)) for g in got)))
                else:
                    R.undecided(key, 'lines')
            elif o.kind == 'ret':
                if ch != '\0':
                    R.bad(key, f.loc(), 'indexing the lines stops at the character %r' % ch)
                elif nl:
                    R.bad(key, nl[0][2], 'a line begins at the end of the text')
                elif o.st.const(o.val) != 1:
                    R.bad(nm + ':result', f.loc(), 'loading a source is reported as failed')
                else:
                    R.ok('line index: end of the text')
                    v = stdmodel.scontent(e, o.st, fname)
                    if nm == 'load_from_file':
                        if v == A('cstr', IN):
                            R.ok('source keeps the path it was loaded from')
                        elif single(v) is not None and single(v).kind == 'slit':
                            R.bad(nm + ':name', f.loc(), 'a source loaded from a file is named %r' % single(v).args[0])
                        else:
                            R.undecided(nm, 'name %s' % show(v)[:60])
            else:
                R.undecided(key, o.kind)
        if ch == '\n':
            for o in outs:
                if any(t[0] == 'step' for t in o.st.trace) or o.kind != 'ret':
                    continue
                if o.st.const(o.val) == 0:
                    R.ok('nothing to load is reported')
                elif any(t[0] == 'file' and t[2] == 0 for t in o.st.trace):
                    R.bad(nm + ':unread', f.loc(), 'success is reported for a file that could not be read')
                else:
                    R.undecided(nm, 'path without a line index')


def getline(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::source_t::get_line')
    e = E.Engine(P)
    st = E.St()
    num = A('num')
    S = O('STR')
    st.facts.le0(sub(ONE, num))
    st.facts.le0(sub(num, C((1 << 32) - 1)))
    vec = add(SRC, C(P.field('nano::source_t', '_lines')))
    old = stdmodel.scontent(e, st, S)
    n = A('vsize', vec, (0, 0))
    st.facts.le0(sub(n, C((1 << 31) - 1)))
    outs = e.call_fn(f, [SRC, num, S], st)
    R.fn(f)

    def idx(t):
        a = single(t)
        if a is None or a.kind != 'ld':
            return None
        d = sub(a.args[0], A('vdata', vec))
        if d[0] % 8 or any(k % 8 for _, k in d[1]):
            return None
        return (d[0] // 8, tuple((x, k // 8) for x, k in d[1]))
    for o in outs:
        s = o.st
        d = s.facts.rng(sub(num, n))
        lo, hi = d[0], d[1]
        case = 'past' if lo is not None and lo >= 1 else 'last' if lo == 0 and hi == 0 else 'inner' if hi is not None and hi <= -1 else 'any' if hi is not None and hi <= 0 else None
        if o.kind != 'ret':
            ev = [t for t in s.trace if t[0] == 'assert_fail']
            R.bad('get_line:abort', ev[-1][-1] if ev else f.loc(), 'asking for a line number above 0 can abort')
            continue
        if case is None:
            R.undecided('get_line', 'path for %s..%s lines before the end' % (lo, hi))
            continue
        v = s.const(o.val)
        out = stdmodel.scontent(e, s, S)
        if case == 'past':
            if v != 0:
                R.bad('get_line:past', f.loc(), 'a line behind the last one is reported to exist')
            elif out != old:
                R.undecided('get_line', 'output for a missing line')
            else:
                R.ok('no text for a line that does not exist')
            continue
        if v != 1:
            R.bad('get_line:' + case, f.loc(), 'get_line answers that the %s line does not exist' % ('last' if case == 'last' else 'n-th of more than n'))
            continue
        a = single(out)
        if case == 'any' and (a is None or a.kind != 'cstr'):
            R.undecided('get_line', 'last and inner lines together')
        elif case == 'last':
            if a is not None and a.kind == 'cstr' and idx(a.args[0]) is not None:
                i = idx(a.args[0])
                if i == sub(num, ONE) or s.facts.rng(sub(i, sub(num, ONE)))[:2] == (0, 0):
                    R.ok('last line: to the end of the text')
                else:
                    R.bad('get_line:last', f.loc(), 'the text of the last line n begins at line n%+d' % (sub(i, num)[0] + 1))
            else:
                R.undecided('get_line', show(out)[:80])
        else:
            if a is not None and a.kind == 'srange' and idx(a.args[0]) is not None and idx(a.args[1]) is not None:
                i, j = idx(a.args[0]), idx(a.args[1])
                if i == sub(num, ONE) and j == num:
                    R.ok('line n: from its start to the start of the next')
                elif not sub(i, num)[1] and not sub(j, num)[1]:
                    R.bad('get_line:inner', f.loc(), 'line n is answered with the text from line n%+d to line n%+d' % (sub(i, num)[0] + 1, sub(j, num)[0] + 1))
                else:
                    R.undecided('get_line', show(out)[:80])
            elif a is not None and a.kind == 'cstr':
                R.bad('get_line:inner', f.loc(), 'a line is answered with all the text that follows it')
            else:
                R.undecided('get_line', show(out)[:80])


def managerline(ctx, R):
    P = ctx.P
    f = fn(P, 'nano::source_manager_t::get_line')
    e = E.Engine(P)
    st = E.St()
    vec = srcvec(P)
    fno, lno = A('fileno'), A('lineno')
    n = A('vsize', vec, (0, 0))
    st.facts.le0(scale(fno, -1))
    st.facts.le0(sub(add(fno, ONE), n))
    st.facts.le0(sub(fno, C(1 << 30)))
    st.facts.le0(sub(ONE, lno))
    st.facts.le0(sub(lno, C(1 << 30)))
    st.facts.le0(sub(n, C(1 << 30)))
    got = []

    def gl(eng, s, fr, x, g, args):
        s.emit('gl', args[0], args[1], args[2], eng.site())
        stdmodel.set_s(eng, s, args[2], A('slit', '<line>'))
        return [(ONE, s)]
    e.hook('nano::source_t::get_line', gl)
    packed = A('linearg')
    L = O('LINE')
    args = [O('RET'), SM]
    # line_t is passed in one register
    e.packed = None
    ty = f.params[-1][0]
    if ty[0] != 'i' or ty[1] != 64:
        e.store_raw(st, L, 4, fno)
        e.store_raw(st, add(L, C(4)), 4, lno)
        args.append(L)
        lw = None
    else:
        args.append(packed)
        st.facts.ge0(packed)
    outs = e.call_fn(f, args, st)
    R.fn(f)
    for o in outs:
        if o.kind != 'ret':
            continue
        g = [t for t in o.st.trace if t[0] == 'gl']
        if len(g) != 1:
            R.undecided('sources.get_line', 'asks %d sources' % len(g))
            continue
        i = elem(g[0][1], vec)
        if i is None:
            R.undecided('sources.get_line', show(g[0][1])[:80])
            continue
        okf = packed[1][0][0] in atoms_of(i) and 'shr' not in show(i)
        okl = 'shr' in show(g[0][2]) and packed[1][0][0] in atoms_of(g[0][2])
        v = stdmodel.scontent(e, o.st, O('RET'))
        if okf and okl and single(g[0][2]) is not None:
            if v == A('slit', '<line>'):
                R.ok('line of a source by file number and line number')
            else:
                R.undecided('sources.get_line', 'result %s' % show(v)[:60])
        elif is_lin(i) and not i[1]:
            R.bad('sources.get_line:file', f.loc(), 'the line is always taken from source %d' % i[0])
        elif okl and not single(g[0][2]):
            R.bad('sources.get_line:line', f.loc(), 'the line asked for is %s' % show(g[0][2])[:60])
        elif 'shr' in show(i):
            R.bad('sources.get_line:file', f.loc(), 'the source is chosen by the line number')
        else:
            R.undecided('sources.get_line', '%s %s' % (show(i)[:60], show(g[0][2])[:60]))


def run(ctx, R):
    for g in (load, compare, relative, statement, sources, text, getline, managerline):
        frame.guard(R, g, ctx, R)
