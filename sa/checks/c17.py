"""C17: a saved program loads back as the same program."""
from terms import *
import eng as E
import frame, stdmodel, re
from ir import Anchor

EXPLAIN = (
    'The stream layout of program_t::serial_save and of program_t::serial_load is extracted from their LLVM IR as a tree '
    'of items (integer, counted bytes, loop over a container) in which every item is labelled with the part of the '
    'program it holds: on the saving side by the origin of the bytes given to fwrite, on the loading side by where the '
    'bytes delivered by fread end up at the end of the iteration.  Both trees must be equal, start with the same '
    'constant header, and contain every part of the program named in the property.  Each fread is split into a full and '
    'a short transfer: no path with a short transfer, a failed open or another header may return success; a saving path '
    'may return success only if the stream error flag (or every transfer) and the close were tested.')

# element classes of the containers
ELEM = {'syscalls_': 'nano::program_t::syscall_entry_t', 'functions_': 'nano::function_t',
        'locals_': 'nano::identifier_t', 'args_': 'nano::identifier_t', 'globals_': 'nano::identifier_t'}
NEED = {('chars', 'syscalls_[*].name_'), ('chars', 'functions_[*].name_'), ('val', 'functions_[*].code_start_'),
        ('val', 'functions_[*].code_end_'), ('chars', 'functions_[*].locals_[*].name_'),
        ('val', 'functions_[*].locals_[*].offset_'), ('chars', 'functions_[*].args_[*].name_'),
        ('val', 'functions_[*].args_[*].offset_'), ('data', 'code_'), ('val', 'line_table_[*].first'),
        ('val', 'line_table_[*].second.file'), ('val', 'line_table_[*].second.line'), ('chars', 'strings_[*]')}


class Path:
    """addresses of parts of the program -> readable paths"""

    def __init__(self, P, e):
        self.P, self.e = P, e
        self.prog = single(A('obj', 'PROG'))
        self.fields = {n: (f[0], f[1]) for n, f in P.cls('nano::program_t').fields.items()}
        self.line = {f[0]: n for n, f in P.cls('nano::line_t').fields.items()}

    def field(self, cls, off):
        c = self.P.cls(cls)
        for n, f in c.fields.items():
            if f[0] == off:
                return n
        return None

    def vec(self, t):
        """container at address t -> path or None"""
        return self.addr(t)

    def addr(self, t):
        if not is_lin(t):
            return None
        c, ats = t[0], dict(t[1])
        if self.prog in ats:
            if len(ats) > 1:
                return None
            for n, (o, s) in self.fields.items():
                if o == c:
                    return n
            return None
        vd = [a for a in ats if a.kind == 'vdata']
        if len(vd) == 1 and ats[vd[0]] == 1:
            b = self.vec(vd[0].args[0])
            if b is None:
                return None
            cls = ELEM.get(b.split('.')[-1].replace('[*]', ''))
            size = self.P.cls(cls).size if cls else 32
            # position in the container, in bytes
            idx = []
            for a, k in ats.items():
                if a is vd[0]:
                    continue
                if k % size:
                    return None
                idx.append((a, k // size))
            off = c % size
            n0 = c // size
            ks = [a for a, k in idx if a.kind == 'K' and k == 1]
            own = [a for a, k in idx if a.kind == 'vsize' and k == 1 and a.args[0] == vd[0].args[0]]
            rest = len(idx) - len(ks) - len(own)
            if rest or len(ks) > 1 or len(own) > 1:
                return None
            if own and '[*]' not in b:
                # appended behind old content of the program
                i = '[old+*]'
            elif n0:
                i = '[*%+d]' % n0
            elif ks or own:
                i = '[*]'
            else:
                i = '[0]'
            if cls is None:
                return b + i if off == 0 else None
            f = self.field(cls, off)
            return None if f is None else b + i + '.' + f
        nd = [a for a in ats if a.kind == 'node']
        if len(nd) == 1 and len(ats) == 1:
            it = nd[0].args[0]
            inf = (self.e.loopinfo or {}).get(it)
            if inf is None:
                return None
            init, backs, K, var = inf
            a = single(init) if is_lin(init) else None
            if a is None or a.kind != 'call' or not str(a.args[0]).endswith('.begin'):
                return None
            b = self.vec(a.args[1])
            if b is None or any(v != A('next', it) for v, s in backs):
                return None
            return self.pair(b, c)
        mp = [a for a in ats if a.kind == 'call' and str(a.args[0]) == 'map[]']
        if len(mp) == 1 and len(ats) == 1:
            b = self.vec(mp[0].args[1])
            return None if b is None else self.pair(b, c + 4)
        return None

    def pair(self, b, off):
        if off == 0:
            return b + '[*].first'
        n = self.line.get(off - 4)
        return None if n is None else b + '[*].second.' + n


def shape(items):
    """item tree without sites"""
    return tuple((i[0], str(i[1])) if i[0] != 'loop' else ('loop', i[1], shape(i[2])) for i in items)


def leaves(items):
    for i in items:
        if i[0] == 'alts':
            yield ('?', 'alternatives', i[2])
        elif i[0] == 'loop':
            yield from leaves(i[2])
        else:
            yield i


class Side:
    def __init__(self, ctx, R, which):
        self.P, self.R, self.which = ctx.P, R, which
        P = self.P
        fs = [f for f in P.find('nano::program_t::' + which) if P.in_repo(f)]
        if not fs:
            raise Anchor('program_t::' + which)
        self.f = fs[0]
        self.e = e = E.Engine(P)
        e.join = False
        e.loopinfo = {}
        e.loopbacks = {}
        e.hook('fwrite', self.fwrite)
        e.hook('fread', self.fread)
        for n in ('fopen', 'fclose', 'ferror'):
            e.hook(n, self.lib(n))
        self.path = Path(P, e)
        self.outs = e.call_fn(self.f, [A('obj', 'PROG'), A('obj', 'PATH')], E.St())
        for g in e.fns_seen:
            if P.in_repo(g):
                R.fn(g)

    def lib(self, n):
        def h(eng, st, fr, x, fn, args):
            st.emit(n, eng.site(), tuple(args))
            if n == 'fopen':
                s2 = st.copy()
                s2.emit('noopen', eng.site())
                return [(A('obj', 'FD'), st), (ZERO, s2)]
            s2 = st.copy()
            s2.emit(n + '!', eng.site())
            return [(ZERO, st), (C(-1), s2)]
        return h

    def fwrite(self, eng, st, fr, x, fn, args):
        p, sz, n, fd = args
        v = None
        a, b = st.const(sz), st.const(n)
        if a is not None and b is not None and is_lin(p):
            v = eng.load_raw(st, p, a * b, 'i')
        st.emit('write', p, sz, n, v, eng.site())
        return [(A('call', 'fwrite', eng.fresh(st, 'fw'), n), st)]

    def fread(self, eng, st, fr, x, fn, args):
        p, sz, n, fd = args
        k = eng.fresh(st, 'fr')
        a, b = st.const(sz), st.const(n)
        s2 = st.copy()
        if a is not None and b is not None and is_lin(p):
            rd = A('rd', k, p)
            w = a * b
            if w == 4:
                for s in (st, s2):
                    s.facts.le0(sub(rd, C((1 << 31) - 1)))
                    s.facts.le0(sub(C(-(1 << 31)), rd))
            eng.store_raw(st, p, w, rd)
            st.emit('read', rd, p, sz, n, eng.site())
        else:
            st.emit('read', None, p, sz, n, eng.site())
        s2.emit('short', eng.site())
        short = A('call', 'short', k)
        out = [(n, st)]
        try:
            s2.facts.le0(sub(add(short, ONE), n))
            s2.facts.le0(scale(short, -1))
            out.append((short, s2))
        except Infeasible:
            pass
        return out

    # ---------------------------------------------------------------- item trees
    def items(self, trace, st):
        out = []
        for t in trace:
            if t[0] == 'write':
                out.append(self.w_item(t, st))
            elif t[0] == 'read':
                out.append(self.r_item(t, st))
            elif t[0] == 'loop':
                out.append(self.loop(t, st))
        # a transfer of no bytes may be left out
        res = []
        for k, i in enumerate(out):
            res.append(i)
            nxt = out[k + 1] if k + 1 < len(out) else None
            if i[0] == 'len' and (nxt is None or nxt[:2] != ('chars', i[1])) and self.none(i[3], st):
                res.append(('chars', i[1], i[2]))
        return [tuple(i[:3]) if i[0] == 'len' else i for i in res]

    def none(self, n, st):
        return n is not None and is_lin(n) and st.facts.rng(n)[1] == 0

    def loop(self, t, st):
        subs = []
        for alt in t[2]:
            s = self.e.loopbacks.get((single(t[1]), alt)) if is_lin(t[1]) and single(t[1]) is not None else None
            if s is None:
                s = next((v for (k, a), v in self.e.loopbacks.items() if a == alt), None)
            if s is None:
                return ('?', 'loop', t[3])
            if any(x[0] == 'short' for x in flat(alt)):
                continue
            subs.append(self.items(alt, s))
        # the alternatives differ only in whether inner loops run
        good = []
        for s in subs:
            if any(i[0] == 'loop' and i[3] is None for i in s):
                continue
            if shape(s) not in [shape(g) for g in good]:
                good.append(s)
        if not good and subs:
            good = subs[:1]
        if len(good) > 1 and not any(i[0] in ('?', 'rd', 'iter') for g in good for i in leaves(g)):
            return ('alts', [shape(g) for g in good], t[3])
        if len(good) != 1:
            return ('?', 'loop with %d different bodies' % len(good), t[3])
        cnt = t[4] if len(t) > 4 else None
        con = None
        cands = [i[1] for i in leaves(good[0]) if i[0] not in ('?', 'rd', 'const', 'iter')]
        if cands:
            con = cands[0][:cands[0].rindex('[')] if '[' in cands[0] else None
            # outermost container of this loop
            for c in cands:
                d = c[:c.rindex('[')] if '[' in c else None
                if d is not None and con is not None and len(d) < len(con):
                    con = d
        if con is None:
            return ('?', 'loop over an unknown container', t[3])
        return ('loop', con, good[0], cnt, t[3], st)

    def w_item(self, t, st):
        _, p, sz, n, v, site = t
        if v is not None:
            c = v[0] if is_lin(v) and not v[1] else None
            if c is not None:
                return ('const', c & 0xffffffff, site)
            a = single(v) if is_lin(v) else None
            if a is not None and a.kind == 'vsize':
                q = self.path.vec(a.args[0])
                if q:
                    return ('count', q, site)
            if a is not None and a.kind == 'usize':
                q = self.path.vec(a.args[1])
                if q:
                    return ('count', q, site)
            if a is not None and a.kind == 'strlen':
                q = self.spath(a.args[0])
                if q:
                    return ('len', q, site, v)
            if a is not None and a.kind == 'ld':
                q = self.path.addr(a.args[0])
                if q:
                    return ('val', q, site)
            if is_lin(v) and v[1] and all(x.kind == 'K' for x, _ in v[1]):
                return ('iter', 'a number that depends only on the iteration', site)
            return ('?', 'written value %s' % show(v), site)
        a = single(p) if is_lin(p) else None
        if a is not None and a.kind == 'sdata':
            q = self.spath(a.args[0])
            if q is not None and self.total(st, sz, n, A('strlen', a.args[0])):
                return ('chars', q, site)
        if a is not None and a.kind == 'vdata':
            q = self.path.vec(a.args[0])
            if q is not None:
                m = self.nsize(st, a.args[0])
                if self.total(st, sz, n, m):
                    return ('data', q, site)
        return ('?', 'written bytes at %s' % show(p), site)

    def nsize(self, st, vec):
        m = st.mem.get((vec[1], vec[0], 'N'))
        return m[1] if m else A('vsize', vec, (0, 0))

    def total(self, st, sz, n, want):
        a, b = st.const(sz), st.const(n)
        t = n if a == 1 else sz if b == 1 else None
        if t is None:
            return False
        if t == want:
            return True
        return is_lin(t) and is_lin(want) and st.const(sub(t, want)) == 0

    def spath(self, c):
        a = single(c) if is_lin(c) else c
        if a is not None and a.kind == 'str':
            return self.path.addr(a.args[0])
        return None

    def r_item(self, t, st):
        _, rd, p, sz, n, site = t
        if rd is not None:
            q = self.path.addr(p)
            if q:
                m = st.mem.get((p[1], p[0], 'M'))
                if m is not None and m[1] != rd:
                    return ('changed', q, site)
                return ('val', q, site)
            found = []
            for (ats, c, kind), (w, v) in st.mem.items():
                if kind == 'M' and v == rd:
                    q = self.path.addr((c, ats))
                    if q:
                        found.append(('val', q))
                elif kind == 'N' and v == rd:
                    q = self.path.vec((c, ats))
                    if q:
                        found.append(('count', q))
                elif kind == 'S' and is_lin(v) and single(v) is not None and single(v).kind == 'sresize' and single(v).args[0] == rd:
                    q = self.path.addr((c, ats))
                    if q:
                        found.append(('len', q))
                if any(a.kind == 'call' and str(a.args[0]) == 'map[]' and a.args[-1] == rd for a, k in ats):
                    a = [a for a, k in ats if a.kind == 'call' and str(a.args[0]) == 'map[]'][0]
                    q = self.path.vec(a.args[1])
                    if q:
                        found.append(('val', q + '[*].first'))
            found = list(dict.fromkeys(found))
            if len(found) == 1:
                return found[0] + ((site,) if found[0][0] != 'len' else (site, rd))
            c = st.const(rd)
            if c is not None:
                return ('const', c & 0xffffffff, site)
            return ('rd', rd, site, st)
        a = single(p) if is_lin(p) else None
        if a is not None and a.kind == 'sdata':
            b = single(a.args[0]) if is_lin(a.args[0]) else a.args[0]
            if b is not None and b.kind == 'sresize' and self.total(st, sz, n, b.args[0]):
                for (ats, c, kind), (w, v) in st.mem.items():
                    if kind == 'S' and (v == a.args[0] or (is_lin(v) and single(v) is b)):
                        q = self.path.addr((c, ats))
                        if q:
                            return ('chars', q, site)
        if a is not None and a.kind == 'vdata':
            q = self.path.vec(a.args[0])
            if q is not None and self.total(st, sz, n, self.nsize(st, a.args[0])):
                return ('data', q, site)
        return ('?', 'bytes read to %s' % show(p), site)


def show(t):
    return str(t)[:120]


def flat(tr):
    for t in tr:
        if t[0] == 'loop':
            for a in t[2]:
                yield from flat(a)
        else:
            yield t


def resolve(items):
    """('rd', atom) used as the bound of a later loop is the count of that loop's container"""
    out = []
    for k, i in enumerate(items):
        if i[0] == 'rd':
            for j in items[k + 1:]:
                if j[0] == 'loop' and j[3] == i[1]:
                    i = ('count', j[1], i[2])
                    break
        if i[0] == 'loop':
            i = ('loop', i[1], resolve(i[2])) + i[3:]
        out.append(i)
    return out


def run(ctx, R):
    frame.guard(R, both, ctx, R)
    frame.guard(R, file_load, ctx, R)


def both(ctx, R):
    S = Side(ctx, R, 'serial_save')
    L = Side(ctx, R, 'serial_load')
    save = load = None
    # ---- saving
    site = S.f.loc()
    for o in S.outs:
        if o.kind != 'ret':
            R.undecided('save', 'path ends in ' + o.kind)
            continue
        v = o.st.const(o.val)
        ev = [t[0] for t in o.st.trace]
        if 'noopen' in ev:
            if v is None or v:
                R.bad('save:noopen', site, 'serial_save reports success when the file cannot be opened')
            else:
                R.ok('failed open is reported')
            continue
        if v is None:
            R.undecided('save', 'result not constant on a path')
            continue
        if v:
            if 'fclose!' in ev:
                R.bad('save:close', site, 'serial_save reports success although closing the file failed')
                continue
            if 'fclose' not in ev:
                R.bad('save:close', site, 'serial_save reports success without closing the file: unwritten data is not noticed')
                continue
            last = max([i for i, t in enumerate(o.st.trace) if t[0] in ('write', 'loop')] or [-1])
            err = [i for i, t in enumerate(o.st.trace) if t[0] == 'ferror']
            if 'ferror!' in ev:
                R.bad('save:error', site, 'serial_save reports success although the stream has an error')
                continue
            if not any(i > last for i in err):
                # the transfers may be tested one by one instead
                tested = any(a.kind == 'call' and a.args[0] == 'fwrite' for f in o.st.facts.d for a, k in f) or \
                    any(a.kind == 'call' and a.args[0] == 'fwrite' for s in S.e.loopbacks.values() for f in s.facts.d for a, k in f)
                if tested or all_checked(o):
                    R.undecided('save:error', 'writes are tested one by one')
                else:
                    R.bad('save:error', site, 'serial_save reports success without testing whether the writes succeeded')
                    continue
            R.ok('success only after the stream was found good and closed')
            it = resolve(S.items(o.st.trace, o.st))
            if save is None or len(shape(it)) > len(shape(save)):
                save = it
        else:
            if 'ferror!' not in ev and 'fclose!' not in ev and not short_write(o):
                R.bad('save:fails', site, 'serial_save reports failure although everything was written')
            else:
                R.ok('failure has a cause')
    modes(R, S, 'w', site)
    # ---- loading
    site = L.f.loc()
    for o in L.outs:
        if o.kind != 'ret':
            R.undecided('load', 'path ends in ' + o.kind)
            continue
        v = o.st.const(o.val)
        ev = list(flat(o.st.trace))
        kinds = [t[0] for t in ev]
        if 'noopen' in kinds:
            if v is None or v:
                R.bad('load:noopen', site, 'serial_load reports success when the file cannot be opened')
            else:
                R.ok('failed open is reported')
            continue
        if 'short' in kinds:
            if v is not None and v:
                s = [t for t in ev if t[0] == 'short'][0]
                R.bad('load:short', s[1], 'serial_load reports success after a short read')
            elif v is None:
                R.undecided('load', 'result after a short read')
            else:
                R.ok('short read is reported')
            continue
        if v is None:
            R.undecided('load', 'result not constant on a path')
        elif v:
            it = resolve(L.items(o.st.trace, o.st))
            if any(i[0] == 'loop' and zero(o.st, i[3]) for i in it):
                continue
            if load is not None and shape(it) != shape(load):
                R.undecided('load', 'different layouts on different paths')
            load = it
            R.ok('success only after complete reads')
        else:
            rejected(R, L, o, site)
    modes(R, L, 'r', site)
    if save is None or load is None:
        R.undecided('layout', 'no successful %s path' % ('save' if save is None else 'load'))
        return
    R.sample({'save': str(shape(save))[:1500], 'load': str(shape(load))[:1500]})
    compare(R, save, load, S.f.loc(), L.f.loc(), '')
    # ---- completeness
    have = {(i[0], i[1]) for i in leaves(save)}
    for k in sorted(NEED):
        if k in have:
            R.ok('part of the program is saved')
        elif any(i[0] in ('?', 'iter') for i in leaves(save)):
            R.undecided('save ' + k[1], 'not seen in the layout')
        else:
            R.bad('save:missing ' + k[1], S.f.loc(), 'serial_save does not save %s' % k[1])
    if save and save[0][0] != 'const':
        R.bad('save:header', S.f.loc(), 'the file does not start with a constant header')
    R.floor('items of the stream layout', len(list(leaves(save))), 20)


def zero(st, t):
    return t is not None and is_lin(t) and st.const(t) is not None


def modes(R, S, want, site):
    for o in S.outs:
        for t in o.st.trace:
            if t[0] == 'fopen':
                m = S.e.const_str(o.st, t[2][1])
                if m is None:
                    R.undecided('mode', 'open mode not constant')
                elif not m.startswith(want) or (want == 'w' and False):
                    R.bad('mode', t[1], '%s opens the file with mode "%s"' % (S.which, m))
                else:
                    R.ok('open mode')
                break


def all_checked(o):
    """every fwrite result on this path equals the number of items written (only without loops)"""
    ws = [t for t in flat(o.st.trace) if t[0] == 'write']
    if any(t[0] == 'loop' for t in o.st.trace):
        return None
    return all(o.st.const(sub(A('call', 'fwrite', k, t[3]), t[3])) == 0 for k, t in enumerate(ws))


def short_write(o):
    """a path condition on an fwrite result explains the failure"""
    return any(a.kind == 'call' and a.args[0] == 'fwrite' for f in o.st.facts.d for a, k in f)


def rejected(R, L, o, site):
    """a path that rejects a file without any short read"""
    hdr = [t for t in o.st.trace if t[0] == 'read' and t[1] is not None]
    if not hdr:
        R.undecided('load', 'rejected before anything was read')
        return
    h = hdr[0][1]
    if o.st.const(h) is None:
        R.ok('other header rejected')
        return
    lo_hi = []
    for t in hdr[1:]:
        lo_hi.append((t, o.st.facts.rng(t[1])[:2]))
    neg = [1 for t, (lo, hi) in lo_hi if hi is not None and hi < 0]
    if neg:
        R.ok('negative size rejected')
        return
    for t, (lo, hi) in lo_hi:
        if (lo is not None and lo > 0) or (hi is not None and hi < (1 << 31) - 1):
            R.bad('load:rejects', t[5], 'serial_load rejects a complete file (a size or value in %s..%s)' % (lo, hi))
            return
    R.undecided('load', 'a complete file is rejected on some path')


def compare(R, a, b, sa, sb, where):
    """same items in the same order"""
    for k in range(max(len(a), len(b))):
        i = a[k] if k < len(a) else None
        j = b[k] if k < len(b) else None
        if i is None or j is None:
            x = i or j
            if x[0] in ('?', 'rd', 'iter'):
                R.undecided('layout', 'unmatched item %s' % str(x[1])[:80])
            else:
                R.bad('layout:extra %s' % x[1], x[-1] if isinstance(x[-1], str) else (sa if i else sb),
                      '%s %s of %s but %s does not' % ('serial_save writes' if i else 'serial_load expects',
                                                      name(x), x[1], 'serial_load' if i else 'serial_save'))
            return
        if i[0] == 'const' and j[0] == 'rd':
            lo, hi = j[3].facts.rng(j[1])[:2]
            if lo == -(1 << 31) and hi == (1 << 31) - 1 and not any(len(f) == 1 and f[0][0] is single(j[1]) and getattr(r, 'ne', None) for f, r in j[3].facts.d.items()):
                R.bad('layout:header', j[2], 'serial_load accepts any value where serial_save writes the constant 0x%x' % i[1])
                continue
        if 'alts' in (i[0], j[0]):
            x = i if i[0] == 'alts' else j
            R.bad('layout:alts', x[2], '%s handles the elements of one container in %d different layouts' % ('serial_save' if x is i else 'serial_load', len(x[1])))
            return
        if i[0] == 'iter' and j[0] == 'val':
            R.bad('layout:%s/%s' % (i[0], j[1]), i[2], 'serial_save writes %s where serial_load reads %s' % (i[1], j[1]))
            continue
        if i[0] in ('?', 'iter') or j[0] in ('?', 'rd'):
            R.undecided('layout', 'item %s / %s' % (str(i[1])[:80], str(j[1])[:80]))
            if i[0] != j[0] and (i[0] == 'loop' or j[0] == 'loop'):
                return
            continue
        if j[0] == 'changed':
            R.bad('layout:changed %s' % j[1], j[2], 'the value loaded for %s is changed afterwards' % j[1])
            continue
        if i[0] != j[0] or i[1] != j[1]:
            site = j[2] if isinstance(j[2], str) else j[4]
            R.bad('layout:%s/%s' % (i[1], j[1]), site,
                  'serial_save writes %s of %s where serial_load reads %s of %s' % (name(i), i[1], name(j), j[1]))
            return
        if i[0] == 'loop':
            bounds(R, i, 'serial_save')
            compare(R, i[2], j[2], i[4], j[4], where + '/' + i[1])
        else:
            R.ok('item written and read as the same part')


def bounds(R, i, which):
    """the loop runs over the whole container"""
    cnt, con = i[3], i[1]
    if cnt is None:
        return
    a = single(cnt) if is_lin(cnt) else None
    if a is not None and a.kind == 'vsize':
        R.ok('loop over the whole container')
    elif a is None and is_lin(cnt) and len(cnt[1]) == 1 and cnt[1][0][0].kind == 'vsize' and cnt[1][0][1] == 1:
        R.bad('loop ' + con, i[4], '%s handles %+d elements of %s' % (which, cnt[0], con))
    else:
        R.undecided('loop ' + con, 'number of iterations')


def name(i):
    return {'val': 'the value', 'len': 'the length', 'chars': 'the characters', 'count': 'the number of elements',
            'data': 'the bytes', 'const': 'the constant', 'loop': 'the elements'}.get(i[0], i[0])


def file_load(ctx, R):
    """file_t::load: whole file or failure"""
    P = ctx.P
    fs = [f for f in P.find('file_t::load') if P.in_repo(f)]
    if not fs:
        return
    f = fs[0]
    e = E.Engine(P)
    e.join = False

    def fread(eng, st, fr, x, fn, args):
        s2 = st.copy()
        st.emit('full', tuple(args), eng.site())
        s2.emit('short', eng.site())
        sh = A('call', 'short', eng.fresh(st, 'fr'))
        try:
            s2.facts.le0(sub(add(sh, ONE), args[2]))
            s2.facts.le0(scale(sh, -1))
        except Infeasible:
            return [(args[2], st)]
        return [(args[2], st), (sh, s2)]
    e.hook('fread', fread)

    def fopen(eng, st, fr, x, fn, args):
        s2 = st.copy()
        s2.emit('noopen', eng.site())
        return [(A('obj', 'FD'), st), (ZERO, s2)]
    e.hook('fopen', fopen)
    outs = e.call_fn(f, [A('obj', 'FILE'), A('obj', 'PATH')], E.St())
    R.fn(f)
    for o in outs:
        if o.kind != 'ret':
            continue
        v = o.st.const(o.val)
        ks = [t[0] for t in o.st.trace]
        if v:
            for k, w in (('short', 'a short read'), ('noopen', 'a failed open')):
                if k in ks:
                    R.bad('file:' + k, f.loc(), 'file_t::load reports success after %s' % w)
                    break
            else:
                R.ok('file_t::load succeeds only with the whole file')
        elif v == 0:
            R.ok('file_t::load failure')
