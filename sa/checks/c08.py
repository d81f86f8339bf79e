"""C08: integer division can never trap the host process."""
import eng as E
import frame
from terms import *

EXPLAIN = (
    'Every integer division and remainder instruction of the repository is enumerated in the compiled IR.  The function '
    'holding it (and, where the guard is in a caller, its callers) is analysed path by path with unknown inputs; at the '
    'instruction the path facts must exclude a zero divisor and, for signed operations, the most negative dividend with '
    'divisor -1.')

DIV = ('sdiv', 'srem', 'udiv', 'urem')
DEPTH = 4
SOFT = {'lv', 'K', 'unk', 'undef', 'phi', 'join', 'sel', 'cast'}


def sites(P):
    out = []
    nf = 0
    for m in P.mods:
        for f in m.fns.values():
            if not P.in_repo(f):
                continue
            if not f.internal and P.fns.get(f.name) is not f:
                continue
            nf += 1
            if not any(d in l for l in f.lines for d in DIV):
                continue
            fr = E.Engine(P).fr(f)
            for b in fr.blocks.values():
                for i in b.ins:
                    if i.op in DIV:
                        out.append((f, i))
    return out, nf


def callers(P):
    c = {}
    for m in P.mods:
        for f in m.fns.values():
            if not P.in_repo(f) or (not f.internal and P.fns.get(f.name) is not f):
                continue
            for l in f.lines:
                if ' call ' in l or ' invoke ' in l:
                    i = l.find('@')
                    while i >= 0:
                        j = i + 1
                        while j < len(l) and (l[j].isalnum() or l[j] in '_.$'):
                            j += 1
                        c.setdefault(l[i + 1:j], set()).add(f)
                        i = l.find('@', j)
    return c


def soft(t):
    return any(a.kind in SOFT for a in atoms_of(t))


def zero(st, t):
    """can t be zero here?  False / True / None (not known)"""
    s = st.facts.copy()
    try:
        s.eq0(t)
    except Infeasible:
        return False
    return None if soft(t) or st.facts.lossy else True


SMALL = {'i1': 8, 'i2': 16, 'i4': 32}


def fits(t, w):
    """is the term a combination of narrow loads that cannot reach the bound of a w-bit integer"""
    n = abs(t[0])
    for a, k in t[1]:
        if a.kind != 'ld' or a.args[1] not in SMALL:
            return False
        n += abs(k) << (SMALL[a.args[1]] - 1)
    return n < 1 << (w - 1)


def overflow(st, a, b, w):
    if w > 32 and fits(a, w):
        return False
    s = st.facts.copy()
    try:
        s.eq0(add(b, ONE))
        s.eq0(add(a, C(1 << (w - 1))))
    except Infeasible:
        return False
    return None if soft(a) or soft(b) or st.facts.lossy else True


def look(P, f, sites_):
    """-> {site id: [(problem, definite)]} found when f is entered with unknown inputs, number of visits"""
    found = {}
    seen = set()
    e = E.Engine(P)
    e.join = False

    def obs(eng, st, kind, fr, ins, kw):
        if kind not in DIV or id(ins) not in sites_:
            return
        seen.add(id(ins))
        a, b = kw['a'], kw['b']
        w = ins.ty[1] if ins.ty[0] == 'i' else 64
        if not is_lin(b):
            found.setdefault(id(ins), []).append(('zero divisor', None))
            return
        z = zero(st, b)
        if z is not False:
            found.setdefault(id(ins), []).append(('a zero divisor', z))
        if kind in ('sdiv', 'srem') and is_lin(a):
            o = overflow(st, a, b, w)
            if o is not False:
                found.setdefault(id(ins), []).append(('the most negative integer divided by -1', o))
    e.obs.append(obs)
    fr = e.fr(f)
    args = [A('arg', f.name, i) for i in range(len(f.params))]
    e.call_fn(f, args, E.St())
    return found, seen


def run(ctx, R):
    P = ctx.P
    S, nf = sites(P)
    R.floor('functions scanned', nf, 200)
    R.floor('integer division sites', len(S), 4)
    cl = callers(P)
    byf = {}
    for f, i in S:
        byf.setdefault(f, []).append(i)

    def one(k, R):
        f = sorted(byf, key=lambda f: f.name)[k]
        ids = {id(i): i for i in byf[f]}
        for i in byf[f]:
            R.sample({'site': P_loc(f, i), 'op': i.op, 'function': f.dem[:100]})
        level(P, R, cl, f, f, ids, 0, set())
    frame.pmap(one, range(len(byf)), R)


def P_loc(f, i):
    return f.mod.loc(i.dbg) or f.loc()


def level(P, R, cl, f, root, ids, depth, done):
    """decide the sites `ids` of f when entered through root; sites that need a caller's guard are passed up"""
    R.fn(root)
    try:
        found, seen = look(P, root, ids)
    except Exception as x:
        if x.__class__.__name__ not in ('Explosion', 'Anchor', 'RecursionError', 'KeyError', 'AssertionError'):
            raise
        for i in ids.values():
            R.undecided('division %s from %s' % (f.dem[:60], root.dem[:60]), x)
        return
    left = {}
    for k, i in ids.items():
        if k not in seen:
            if depth == 0:
                R.ok('division is unreachable')
            continue
        if k not in found:
            R.ok('divisor excludes zero and the overflowing case')
            continue
        left[k] = i
    if not left:
        return
    up = [g for g in cl.get(root.name, ()) if g is not root and g.name not in done]
    if up and depth < DEPTH:
        for g in sorted(up, key=lambda g: g.name):
            level(P, R, cl, f, g, left, depth + 1, done | {root.name})
        return
    for k, i in left.items():
        defs = [w for w, d in found[k] if d]
        if defs:
            R.bad('%s in %s' % (i.op, short(f.dem)), P_loc(f, i), '%s can execute %s with %s%s' %
                  (short(f.dem), 'a division' if 'div' in i.op else 'a remainder', defs[0], '' if root is f else ' (reached from %s)' % short(root.dem)))
        else:
            R.undecided('%s in %s' % (i.op, short(f.dem)), 'divisor not bounded: %s' % found[k][0][0])


def short(d):
    return d.split('(')[0]
