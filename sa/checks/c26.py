"""C26: every instruction maps to the source line it came from."""
from terms import *
import skel, nodespec, linkspec, cgsem, stdmodel, frame, insem, opsem
import eng as E
from ir import Anchor
from checks import c06

EXPLAIN = (
    'For every AST node kind the code generator is analysed path by path (children abstracted); every store into an '
    'element of program_t::line_table_ is collected with its key and value and matched with the instructions emitted '
    'on the same path: the key must be the address of an instruction, the value the position (file and line) of a '
    'token of the very construct being compiled, and every instruction must have such an entry.  The lookup functions '
    'program_t::get_line and thread_t::get_source_line are analysed for found/not found; every error path of every '
    'opcode must leave the program counter at the failing instruction.  The lexer paths of C18 give the tokens their '
    'lines and the save/load layouts of C17 keep the table.')

TOKF = ('token', 'name', 'op', 'member', 'end')
# statement children: their lines belong to other constructs
STMT = ('body', 'then', 'else', 'then_block', 'else_block')


class LineCG(cgsem.CG):
    def engine(self):
        e = super().engine()
        e.hooks = [h for h in e.hooks if h[0] != 'nano::program_builder_t::set_line']
        e.obs.append(self.obs_line)
        return e

    def obs_line(self, eng, st, kind, fr, ins, kw):
        lt = self.lt
        if kind == 'store':
            for a, k in kw['addr'][1]:
                if a.kind == 'call' and a.args[0] == 'map[]' and a.args[1] == lt and k == 1:
                    off = sub(kw['addr'], (0, ((a, 1),)))
                    st.emit('call', 'L', a.args[3], off, kw['size'], kw['val'], eng.site())
                    return
        elif kind == 'cont' and kw.get('obj') == lt and kw.get('meth') not in ('operator[]', 'at', 'find', 'end', 'begin', 'size', 'empty', 'count'):
            st.emit('call', 'L?', kw.get('meth'), eng.site())
        elif kind == 'opaque_lib' and lt in kw['args']:
            st.emit('call', 'L?', 'library call', eng.site())

    @property
    def lt(self):
        return add(self.prog_o, C(self.P.field('nano::program_t', 'line_table_')))


def tokfields(P, cls):
    k = P.classes().get('nano::' + cls)
    if k is None:
        return []
    return [(n, f[0]) for n, f in k.fields.items() if n in TOKF and f[1] == 8 and (cls, n) != ('ast_stmt_for_t', 'end')]


def depends(st, lt):
    """has this path tested the contents of the line table (other than that it is not empty)?"""
    for fm, r in st.facts.d.items():
        for a in atoms_of(fm):
            if a.kind not in ('call', 'cnt', 'usize') or not str(a.args[0]).startswith('map'):
                continue
            if lt is not None and len(a.args) > 1 and is_lin(a.args[1]):
                d = sub(a.args[1], lt)
                if d[1] and len(a.args[1][1]) == 1 == len(lt[1]) and a.args[1][1][0][0].kind in ('obj', 'al', 'glob', 'arg') and lt[1][0][0].kind in ('obj', 'arg') \
                        and a.args[1][1][0][0] is not lt[1][0][0]:
                    continue        # another object
                if not d[1] and d[0]:
                    continue
            if a.kind == 'usize' and len(fm) == 1 and fm[0][0] is a and fm[0][1] == 1 and r[0] in (0, 1) and (r[1] is None or r[1] >= (1 << 30)) and not r[2]:
                continue
            return True
    return False


def judge(R, P, st, items, key, lab, allowed, f, absent, endtok=None, lt=None):
    """compare the line events of one path with its instructions"""
    lo = P.field('nano::token_t', 'line_')
    ev = [t for t in st.trace if t[0] == 'call' and len(t) > 1 and t[1] in ('L', 'L?')]
    if any(t[0] == 'loop' and any(x[0] == 'call' and x[1] in ('L', 'L?') for b in t[2] for x in b) for t in st.trace):
        R.undecided(key, 'line entries are made in a loop')
        return
    if any(t[1] == 'L?' for t in ev):
        R.undecided(key, 'line table changed by %s' % [t[2] for t in ev if t[1] == 'L?'][0])
        return
    ins = [x for x in items if isinstance(x, skel.Ins)]
    last = {}
    for _, _, k, off, size, val, site in ev:
        hit = [i for i, x in enumerate(ins) if sub(x.pos, k) == ZERO]
        if not hit:
            if all(insem.differs(st, sub(x.pos, k)) for x in ins):
                R.bad(key + ':key', site, '%s: a line is recorded for position %s, which is not the address of an instruction of the construct'
                      % (lab, show(sub(k, ins[0].pos) if ins else k)[:80]))
            else:
                R.undecided(key, 'line entry at %s' % show(k)[:80])
            return
        last.setdefault(hit[0], {})[off] = (size, val, site)
    for i, x in enumerate(ins):
        w = last.get(i)
        if w is None:
            if absent(x):
                R.ok('instruction without an own line by design')
            elif depends(st, lt):
                R.undecided(key, 'the entry for %s is made depending on the table' % x.op)
            else:
                R.bad(key + ':none', x.site, '%s: the instruction %s has no entry in the line table' % (lab, x.op))
            continue
        toks = set()
        good = True
        for off, (size, val, site) in w.items():
            a = single(val) if is_lin(val) else None
            half = 0
            if a is not None and a.kind == 'shr' and a.args[1] in (32, C(32)) and is_lin(a.args[0]):
                a, half = single(a.args[0]), 4
            if a is None or a.kind != 'ld':
                if is_lin(val) and st.const(val) is not None:
                    R.bad(key + ':val', site, '%s: the line recorded for %s is the constant %s' % (lab, x.op, st.const(val)))
                else:
                    R.undecided(key, 'line value %s' % (show(val)[:80] if is_lin(val) else val))
                good = False
                break
            d = sub(add(a.args[0], C(half)), add(off, C(lo)))
            t = single(d)
            if t is None or t.kind != 'obj' or not str(t.args[0]).startswith('tok.'):
                R.undecided(key, 'line value %s' % show(val)[:80])
                good = False
                break
            toks.add(t.args[0])
            if not any(t.args[0] == q for q in allowed):
                R.bad(key + ':tok', site, '%s: the line recorded for %s is that of %s, which belongs to another construct' % (lab, x.op, t.args[0][4:]))
                good = False
                break
        if not good:
            continue
        if sum(s for s, _, _ in w.values()) != 8:
            R.bad(key + ':part', list(w.values())[0][2], '%s: only %s of the position of %s is recorded' % (lab, 'the line' if C(4) in w else 'the file', x.op))
            continue
        if endtok is not None and i in endtok:
            if toks != {endtok[i]}:
                R.bad(key + ':end', list(w.values())[0][2], '%s: %s at the end of the function is recorded with the line of %s' % (lab, x.op, sorted(toks)))
                continue
        R.ok('instruction recorded with a line of its construct')


def seedtokens(P, e, st, obj, cls):
    r = []
    for n, off in tokfields(P, cls):
        nm = 'tok.%s.%s' % (obj, n)
        a = add(A('obj', obj), C(off))
        if st.mem.get((a[1], a[0], 'M')) is not None:
            v = st.mem[(a[1], a[0], 'M')][1]
            x = single(v) if is_lin(v) else None
            if x is not None and x.kind == 'obj':
                # an object already stands there (operator token): keep it under its own name
                e.store_raw(st, a, 8, A('obj', nm))
                for (at, c, kd), q in list(st.mem.items()):
                    if c is not None and len(at) == 1 and at[0] == (x, 1):
                        st.mem[((((single(A('obj', nm)), 1),)), c, kd)] = q
        else:
            e.store_raw(st, a, 8, A('obj', nm))
        r.append(nm)
    return r


def emission(ctx, R):
    P = ctx.P
    g = skel.Gen(ctx)
    g.G = LineCG(P)
    kidcls = {}
    n = 0
    for sp in nodespec.specs(g):
        cls = sp['cls']
        key = '%s %s' % (cls, sp['label'])
        allowed = []

        def su(e, st, nd, sp=sp, cls=cls):
            if sp['setup']:
                sp['setup'](e, st, nd)
            allowed[:] = seedtokens(P, e, st, cls, cls)
            # expression children: of unknown class; a typed child has its own tokens
            names = set(sp['kids']) | {'callee'}
            for k in names:
                if k in STMT:
                    seedtokens(P, e, st, k, 'ast_exp_call_t')
                    continue
                o = A('obj', k)
                ty = P.field('nano::ast_node_t', 'type')
                m = st.mem.get((o[1], ty, 'M'))
                v = st.const(m[1]) if m and is_lin(m[1]) else None
                c = {g.nt(x): x for x in ('ast_exp_ident_t', 'ast_exp_call_t')}.get(v)
                allowed.extend(seedtokens(P, e, st, k, c or 'ast_exp_call_t'))
        try:
            e, res, f = g.decoded(cls, su, sp['kids'], sp['vecs'])
        except Exception as x:
            if x.__class__.__name__ in ('Explosion', 'Anchor'):
                R.undecided(key, x)
                continue
            raise
        R.fn(f)
        n += 1
        for o, items, lines, prob in res:
            if o.kind != 'ret' or any(t[0] == 'child0' for t in o.st.trace):
                continue
            if prob is not None:
                R.undecided(key, prob)
                continue
            judge(R, P, o.st, items, key, sp['label'], allowed, f, lambda x: cls == 'ast_stmt_if_t' and x.op == 'INS_JMP', lt=g.G.lt)
    R.floor('constructs', n, 40)
    # functions
    L = linkspec.Link(ctx)
    L.g, L.G = g, g.G
    L.old = g.G.engine
    cls = 'ast_decl_func_t'
    toks = []

    def fn(e, st, nd):
        ss = A('stack_size', 'SELF')
        opsem.put(P, e, st, nd, 'nano::' + cls, is_syscall=ZERO, body=A('obj', 'body'), stack_size=ss)
        opsem.put(P, e, st, nd, 'nano::ast_node_t', type=C(g.nt(cls)))
        g.node(e, st, 'body', 'ast_block_t')
        st.facts.le0(scale(ss, -1))
        st.facts.le0(sub(ss, C(1 << 20)))
        vec = add(g.G.this, C(P.field('nano::ast_visitor_t', 'stack')))
        e.store_raw(st, A('vdata', vec), 8, nd)
        toks[:] = seedtokens(P, e, st, cls, cls)
    e, outs, f = L.run(cls, fn, ('body',), ('args',))
    R.fn(f)
    for o, names, vs in outs:
        if o.kind != 'ret':
            continue
        tr = [t for t in o.st.trace if t[0] not in ('call', 'store')]
        try:
            items, _ = skel.decode(g.info, o.st, tr, names, vs)
        except (skel.Bad, skel.Unknown) as x:
            R.undecided('function', x)
            continue
        ins = [x for x in items if isinstance(x, skel.Ins)]
        init = any(x.op == 'INS_GLOBALS' for x in ins)
        body = [x for x in items if not isinstance(x, skel.Ins)]
        endtok = None
        if body and not init and body[-1].end is not None:
            at = items.index(body[-1])
            endtok = {i: 'tok.%s.end' % cls for i, x in enumerate(ins) if items.index(x) > at}
        judge(R, P, o.st, items, 'function', 'function', toks, f, lambda x, init=init: init, endtok, lt=g.G.lt if hasattr(g.G, 'lt') else None)


def lookup(ctx, R):
    P = ctx.P
    fs = [f for f in P.find('nano::program_t::get_line') if P.in_repo(f)]
    if not fs:
        raise Anchor('program_t::get_line')
    f = fs[0]
    f.parse()
    prog = A('obj', 'PROG')
    lt = add(prog, C(P.field('nano::program_t', 'line_table_')))
    pc = A('pc')
    e = E.Engine(P)
    st = E.St()
    st.facts.le0(scale(pc, -1))
    st.facts.le0(sub(pc, C(1 << 30)))
    outs = call_line(P, e, f, st, [prog, pc])
    R.fn(f)
    found = miss = 0
    for kind, s, parts in outs:
        if kind != 'ret':
            R.undecided('get_line', 'path ends in %s' % kind)
            continue
        if parts is None:
            R.undecided('get_line', 'result not understood')
            continue
        how = classify(s, lt, pc, parts)
        if how[0] == 'entry':
            if how[1] is True:
                found += 1
            elif how[1] is False:
                R.bad('get_line:key', f.loc(), 'get_line looks up %s instead of the position asked for' % how[2])
            else:
                R.undecided('get_line', how[2])
        elif how[0] == 'const':
            if how[1] == (-1, -1):
                miss += 1
            else:
                R.bad('get_line:miss', f.loc(), 'get_line answers file %s, line %s for a position without an entry' % how[1])
        else:
            R.undecided('get_line', how[1])
    if found and miss:
        R.ok('line lookup', found + miss)
    elif outs and not any('get_line' in str(u) for u in R.und):
        R.bad('get_line:cases', f.loc(), 'get_line never answers %s' % ('with an entry' if not found else 'that there is none'))
    # the thread asks for its program counter
    V = ctx.vm()
    fs = [f for f in P.find('nano::thread_t::get_source_line') if P.in_repo(f)]
    if not fs:
        raise Anchor('thread_t::get_source_line')
    e = V.engine()
    seen = []

    def h(eng, st, fr, x, f, args):
        st.emit('gl', tuple(args[-2:]), eng.site())
        return None
    e.hook('nano::program_t::get_line', h)
    st = V.state(e)
    e.store_raw(st, add(V.th, C(V.o_pc)), 4, V.pc0)
    outs = call_line(P, e, fs[0], st, [V.th])
    R.fn(fs[0])
    vlt = add(V.prog, C(P.field('nano::program_t', 'line_table_')))
    n = 0
    for kind, s, parts in outs:
        if kind != 'ret' or parts is None:
            R.undecided('get_source_line', kind)
            continue
        how = classify(s, vlt, V.pc0, parts)
        if how[0] == 'entry' and how[1] is False:
            R.bad('get_source_line', fs[0].loc(), 'get_source_line reports the line of %s instead of the program counter' % how[2])
        elif how[0] == 'entry' and how[1] is True:
            R.ok('get_source_line is the line of the program counter')
            n += 1
        elif how[0] == 'const':
            if how[1] == (-1, -1):
                R.ok('get_source_line is the line of the program counter')
            else:
                R.bad('get_source_line:const', fs[0].loc(), 'get_source_line reports the fixed position %s' % (how[1],))
        else:
            R.undecided('get_source_line', how)


def call_line(P, e, f, st, args):
    """call a function returning line_t (8 bytes, returned in a register): [(kind, state, [file term, line term] | None)]"""
    f.parse()
    res = []
    outs = e.call_fn(f, args, st)
    for o in outs:
        parts = None
        if o.kind == 'ret' and o.val is not None:
            parts = o.val
        res.append((o.kind, o.st, parts))
    return res


def classify(s, lt, pc, v):
    """-> ('entry', True/False/None, key) | ('const', (file, line)) | ('?', why)"""
    if not is_lin(v):
        return ('?', repr(v)[:80])
    c = s.const(v)
    if c is not None:
        c &= (1 << 64) - 1
        sg = lambda w: w - (1 << 32) if w >> 31 else w
        return ('const', (sg(c & 0xffffffff), sg(c >> 32)))
    keys, how, nodes = set(), set(), set()

    def walk(a):
        for x in a.args:
            if is_lin(x):
                for y, _ in x[1]:
                    see(y)
            elif isinstance(x, Atom):
                see(x)

    def see(y):
        if y.kind in ('call', 'lib') and lt in y.args:
            how.add(y.args[0])
            nodes.add(y)
            for z in y.args:
                for w in ([z] if is_lin(z) else z if isinstance(z, tuple) else []):
                    if is_lin(w) and w != lt:
                        keys.add(w)
            return
        walk(y)
    a = single(v)
    if a is None:
        return ('?', show(v)[:80])
    see(a)
    if len(keys) == 1:
        k = list(keys)[0]
        if how & {'map.lower_bound', 'map.upper_bound'}:
            # only an entry whose key was compared equal to the position is the one asked for
            for form, r in s.facts.d.items():
                ats = [x for x, _ in form] if isinstance(form, tuple) else []
                if any(x is single(pc) for x in ats) and any(nodes & set(atoms_of((0, ((x, 1),)))) for x in ats) and r[0] == r[1]:
                    return ('entry', None, 'entry found by %s' % sorted(how)[0])
            return ('entry', False, 'the position found by %s' % sorted(how)[0])
        if k == pc and how <= {'map.find', 'map.at', 'map[]'} and a.kind == 'ld' and a.args[0][0] in (0, 4):
            return ('entry', True, show(k))
        if insem.differs(s, sub(k, pc)):
            return ('entry', False, show(k))
        return ('entry', None, show(k)[:80])
    return ('?', show(v)[:120])


def faults(ctx, R):
    """every error path leaves the program counter at the instruction that raised the error"""
    P, V = ctx.P, ctx.vm()
    sd = c06.seed(V, P)
    jobs = []
    for op in V.INS:
        n = c06.arity(V, op, P)
        for ks in [('none', 'none', 'none'), ('int', 'int', 'int'), ('array', 'string', 'int'), ('func', 'array', 'int'), ('string', 'none', 'none')]:
            jobs.append((op, ks[:max(n, 1)]))
    jobs = sorted(set(jobs))

    def one(job, R):
        op, ks = job

        def extra(e, st):
            sd(e, st)
            c06.find_total(e, V)
        e, outs, ts = V.case(op, ks, nojoin=True, extra=extra)
        for o in outs:
            if o.kind != 'ret':
                continue
            r = V.summary(o)
            err = opsem.const_of(o.st, r.err) if r.err is not None else None
            if not err:
                continue
            d = sub(r.pc, V.pc0) if r.pc is not None and is_lin(r.pc) else None
            if d == ZERO:
                R.ok('error path: program counter at the failing instruction')
            elif d is not None and insem.differs(o.st, d):
                R.bad('%s:%s:pc' % (op, err), V.entry().loc(), '%s on operands %s: after error %d the program counter is %s, not the failing instruction, so the line reported is another one'
                      % (op, '/'.join(ks), err, show(r.pc)[:60]))
            else:
                R.undecided('%s pc' % op, show(r.pc)[:80] if r.pc is not None else None)
    frame.pmap(one, jobs, R)
    R.floor('opcode/kind combinations', len(jobs), 60)


def reuse(ctx, R):
    """the line table is saved and loaded unchanged; tokens carry the line they are on"""
    from checks import c17, c18
    for mod, keep in ((c17, lambda k, v: 'line_table' in k or 'line_table' in v[1]),
                      (c18, lambda k, v: k == 'start line' or k.endswith((':lines', ':tokenline')))):
        r = frame.Report()
        frame.guard(r, mod.run, ctx, r)
        nm = mod.__name__.split('.')[-1]
        bad = {k: v for k, v in r.viol.items() if keep(k, v)}
        for k, v in bad.items():
            R.bad('%s:%s' % (nm, k), *v)
        for k, v in r.und.items():
            R.undecided('%s:%s' % (nm, k), v)
        R.funcs |= r.funcs
        if not bad:
            R.ok('line table saved and loaded as it is' if mod is c17 else 'paths of the lexer: line count and token lines', max(1, sum(r.oks.values()) if mod is c18 else 1))


def run(ctx, R):
    frame.guard(R, emission, ctx, R)
    frame.guard(R, lookup, ctx, R)
    frame.guard(R, faults, ctx, R)
    reuse(ctx, R)
