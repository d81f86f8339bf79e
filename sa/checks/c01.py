"""C01: emitted bytecode, interpreter and disassembler agree on every instruction."""
import frame, nodespec, skel, insem, stdmodel, eng as E
from terms import *
from opsem import const_of

EXPLAIN = (
    'For every instruction the operand bytes the interpreter reads (offsets and widths of its loads from the code), the '
    'next code position on every non-error path, the bytes every node kind emits (opcode and operand bytes decoded with '
    'the interpreter\'s lengths) and the length, mnemonic and operand values produced by the disassembler are extracted '
    'from the IR and must agree.')

JUMPS = ('INS_JMP', 'INS_TJMP', 'INS_FJMP', 'INS_CALL', 'INS_RET', 'INS_ICALL')
ALIAS = {'INS_NEW_SCALL': ('INS_NEW_SCALL', 'INS_NEW_SYSCALL')}


def run(ctx, R):
    info = skel.Info(ctx)
    frame.guard(R, machine, ctx, R, info)
    n = frame.guard(R, nodespec.decide, ctx, R, 'C01')
    R.floor('code generator constructs', n or 0, 30)
    frame.guard(R, roles, ctx, R, info)
    frame.guard(R, disasm, ctx, R, info)
    frame.guard(R, dump, ctx, R)


def machine(ctx, R, info):
    V = info.V
    for name, no in sorted(V.INS.items(), key=lambda x: x[1]):
        w = V.entry()
        R.fn(w)
        try:
            i = info.get(no)
        except skel.Bad as x:
            R.bad(name, w.loc(), x.args[0])
            continue
        site = insem.handler(insem.eff(ctx), name)
        if i['ops'] % 4:
            R.bad(name + ':width', site, '%s reads %d operand bytes; operands are written as 4-byte units' % (name, i['ops']))
            continue
        reads = sorted(reads_of(ctx, V, name))
        got = sorted({b for off, size in reads for b in range(off, off + size)} - {0})
        ok = got == list(range(1, len(got) + 1))
        if not ok:
            R.bad(name + ':reads', site, '%s reads the code bytes at offsets %s; its operands are the bytes following the opcode' % (name, got))
        elif any(size > 1 and (off - 1) // 4 != (off + size - 2) // 4 for off, size in reads if off):
            R.bad(name + ':reads', site, '%s reads across two operands' % name)
            ok = False
        if ok:
            R.ok('operands are read one after the other')
        for p in i['pcs']:
            if p[0] == 'next':
                if p[1] == i['len']:
                    R.ok('execution continues after the operands')
                elif name not in JUMPS or p[1] != i['len']:
                    R.bad(name + ':next', site, '%s occupies %d bytes but execution continues %d bytes after it' % (name, i['len'], p[1]))
            elif name in JUMPS:
                R.ok('jump')
            else:
                R.bad(name + ':next', site, '%s continues at %s instead of the byte after it' % (name, p[-1])) if p[0] == 'op' else R.undecided(name, 'next position')


def roles(ctx, R, info):
    """the operand the machine uses as call target / argument count is the one the generator writes there"""
    S = insem.eff(ctx)
    use = {}
    t = {p[1] for p in info.get(info.V.INS['INS_CALL'])['pcs'] if p[0] == 'op'}
    if len(t) == 1:
        t = const_op(t.pop())
        if t is not None:
            use['INS_CALL'] = 1 - t
    e, res, ts = S.case('INS_SCALL', ('int', 'int'))
    for r in insem.paths(R, S, 'INS_SCALL', res, ''):
        for h in [x for x in r['st'].trace if x[0] == 'host']:
            a = single(h[2][1]) if len(h[2]) >= 2 and is_lin(h[2][1]) else None
            if a is not None and a.kind == 'op':
                use['INS_SCALL'] = const_op(a.args[0])
    g = skel.Gen(ctx)
    for sp in nodespec.specs(g):
        if sp['label'] not in ('direct call', 'builtin call'):
            continue
        e, res, f = g.decoded(sp['cls'], sp['setup'], sp['kids'], sp['vecs'])
        nargs = A('vsize', g.fvec('ast_exp_call_t', 'args', 'ast_exp_call_t'), (0, 0))
        for o, items, lines, prob in res:
            if o.kind != 'ret' or prob is not None:
                continue
            for x in items:
                if isinstance(x, skel.Ins) and x.op in use and nargs in x.args and len(x.args) == 2:
                    i = x.args.index(nargs)
                    if i == use[x.op]:
                        R.ok('argument count is written where the machine reads it')
                    else:
                        R.bad(x.op + ':order', x.site, '%s writes the argument count as operand %d; the machine uses operand %d as argument count and operand %d as target' %
                              (sp['label'], i, use[x.op], 1 - use[x.op]))


def const_op(i):
    if is_lin(i):
        return i[0] if not i[1] else None
    return i if isinstance(i, int) else None


def reads_of(ctx, V, name):
    S = insem.eff(ctx)
    out = set()
    for kinds in (('int', 'int', 'int'), ('array', 'int', 'int'), ('func', 'int', 'int'), ('string', 'int', 'int'), ('none', 'int', 'int')):
        e, res, ts = S.case(name, kinds)
        out |= set(e.code_reads)
    return out


def pieces(t, out):
    a = single(t) if is_lin(t) else None
    if a is not None and a.kind == 'cat':
        for x in a.args:
            pieces(x, out)
    else:
        out.append(a)
    return out


def disasm(ctx, R, info):
    P = ctx.P
    fs = [f for f in P.find('nano::disassembler_t::disasm') if P.in_repo(f)]
    if not fs:
        R.undecided('disasm', 'not found')
        return
    f = fs[0]
    R.fn(f)
    ins = info.V.INS
    for name, no in sorted(ins.items(), key=lambda x: x[1]):
        i = info.get(no)
        e = E.Engine(P)
        e.join = False
        st = E.St()
        p, out = A('obj', 'CODE'), A('obj', 'OUT')
        e.store_raw(st, p, 1, C(no))
        for o in e.call_fn(f, [A('obj', 'DIS'), p, out], st):
            if o.kind != 'ret':
                R.bad('disasm %s' % name, f.loc(), 'disassembling %s ends with %s' % (name, o.kind)) if o.kind == 'abort' else R.undecided('disasm ' + name, o.kind)
                continue
            insem.same(R, o.st, o.val, C(i['len']), 'disasm %s:length' % name, f.loc(), 'the disassembler consumes %%s bytes for %s, the machine %%s' % name,
                       'disassembled length')
            txt = stdmodel.scontent(e, o.st, out)
            ps = pieces(txt, [])
            if any(a is None for a in ps) or not ps:
                R.undecided('disasm ' + name, 'text %s' % (show(txt)[:60] if is_lin(txt) else ''))
                continue
            if ps[0].kind != 'slit':
                R.undecided('disasm ' + name, 'mnemonic')
                continue
            m = ps[0].args[0].strip()
            if m not in ALIAS.get(name, (name,)):
                R.bad('disasm %s:name' % name, f.loc(), '%s is listed as %s' % (name, m or 'an empty name'))
            else:
                R.ok('mnemonic')
            vals = [a for a in ps[1:] if a.kind != 'slit']
            nops = i['ops'] // 4
            if len(vals) != nops:
                R.bad('disasm %s:operands' % name, f.loc(), '%d operand values of %s are listed, it has %d' % (len(vals), name, nops))
                continue
            for k, a in enumerate(vals):
                if a.kind == 'utostr':
                    R.bad('disasm %s:operand%d' % (name, k), f.loc(), 'operand %d of %s is listed as an unsigned number' % (k, name))
                elif a.kind == 'tostr' and is_lin(a.args[0]):
                    insem.same(R, o.st, a.args[0], A('ld', add(p, C(1 + 4 * k)), 'i4', (0, 0)), 'disasm %s:operand%d' % (name, k), f.loc(),
                               'operand %d of %s is listed as %%s instead of %%s' % (k, name), 'operand value')
                else:
                    R.undecided('disasm ' + name, 'operand text')
    for g in [f for f in P.find('nano::disassembler_t::get_mnemonic') if P.in_repo(f)]:
        R.fn(g)
        for name, no in ins.items():
            e = E.Engine(P)
            e.join = False
            st = E.St()
            for o in e.call_fn(g, [C(no)], st):
                if o.kind != 'ret':
                    R.bad('mnemonic ' + name, g.loc(), 'the name of %s cannot be asked for' % name)
                    continue
                s = e.const_str(o.st, o.val)
                if s is None:
                    R.undecided('mnemonic ' + name, 'text')
                elif s not in ALIAS.get(name, (name,)):
                    R.bad('mnemonic ' + name, g.loc(), '%s is named %s' % (name, s))
                else:
                    R.ok('mnemonic')


def dump(ctx, R):
    """the listing advances by exactly what each instruction consumed"""
    P = ctx.P
    fs = [f for f in P.find('nano::disassembler_t::dump') if P.in_repo(f)]
    if not fs:
        return
    f = fs[0]
    R.fn(f)
    e = E.Engine(P)
    e.join = False
    e.loopinfo = info = {}
    ln = A('len', 'INS')
    ptrs = []

    def h(eng, st, fr, x, fn, args):
        ptrs.append(args[1])
        st.facts.le0(sub(ONE, ln))
        return [(ln, st)]
    e.hook('nano::disassembler_t::disasm', h)
    offs = []

    def hf(eng, st, fr, x, fn, args):
        offs.append(args[-1])
        return [(A('obj', 'FN'), st)]
    e.hook('nano::program_t::function_find', hf)
    e.hook('nano::program_t::get_line', lambda eng, st, fr, x, fn, args: [(offs.append(args[-1]) or A('call', 'line'), st)])
    st = E.St()
    e.call_fn(f, [A('obj', 'DIS'), A('obj', 'PROG'), A('obj', 'FD')], st)
    for what, l in (('position in the code', set(ptrs)), ('code offset', set(x for x in offs if is_lin(x)))):
        for hv in l:
            if hv not in info:
                continue
            iv, ts, K, var = info[hv]
            for v, s in ts:
                insem.same(R, s, sub(v, hv) if is_lin(v) else None, ln, 'dump:' + what, f.loc(), 'the listing advances its ' + what + ' by %s instead of the instruction length %s',
                           'listing advances by the instruction length')
