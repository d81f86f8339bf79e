"""Value-numbering terms: interned atoms, linear normal form  c + sum(k_i * atom_i)."""
from math import gcd


class Atom:
    __slots__ = ('id', 'kind', 'args', '_atoms')

    def __repr__(self):
        return show_atom(self)


_tab = {}
_list = []


def atom(kind, *args):
    k = (kind,) + args
    a = _tab.get(k)
    if a is None:
        a = Atom()
        a.id = len(_list)
        a.kind = kind
        a.args = args
        a._atoms = None
        _tab[k] = a
        _list.append(a)
    return a


def reset_terms():
    _tab.clear()
    _list.clear()


def C(n):
    return (n, ())


ZERO = C(0)
ONE = C(1)


def A(kind, *args):
    return (0, ((atom(kind, *args), 1),))


def is_lin(x):
    if type(x) is tuple and len(x) == 2 and type(x[0]) is int and type(x[1]) is tuple:
        y = x[1]
        return not y or (type(y[0]) is tuple and len(y[0]) == 2 and type(y[0][0]) is Atom)
    return False


def add(a, b):
    if not b[1]:
        if not b[0]:
            return a
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    return (a[0] + b[0], _merge(a[1], b[1], 1))


def sub(a, b):
    if not b[1]:
        return (a[0] - b[0], a[1])
    return (a[0] - b[0], _merge(a[1], b[1], -1))


def _merge(x, y, s):
    i = j = 0
    out = []
    while i < len(x) and j < len(y):
        p, q = x[i], y[j]
        if p[0] is q[0]:
            k = p[1] + s * q[1]
            if k:
                out.append((p[0], k))
            i += 1
            j += 1
        elif p[0].id < q[0].id:
            out.append(p)
            i += 1
        else:
            out.append((q[0], s * q[1]))
            j += 1
    out.extend(x[i:])
    if s == 1:
        out.extend(y[j:])
    else:
        out.extend((a, -k) for a, k in y[j:])
    return tuple(out)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return (a[0] * k, tuple((x, c * k) for x, c in a[1]))


def single(t):
    """the atom, if the term is exactly one atom"""
    if t[0] == 0 and len(t[1]) == 1 and t[1][0][1] == 1:
        return t[1][0][0]
    return None


def canon(atoms):
    """(s*g, form) with form canonical"""
    g = 0
    for _, k in atoms:
        g = gcd(g, k)
    if atoms[0][1] < 0:
        g = -g
    if g == 1:
        return 1, atoms
    return g, tuple((a, k // g) for a, k in atoms)


def subst(t, m, memo=None):
    """replace atoms by terms, recursively; m: {atom: Lin}"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if type(t) is Atom:
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            na = tuple(_subst_arg(x, m, memo) for x in t.args)
            r = A(t.kind, *na) if na != t.args else (0, ((t, 1),))
            memo[t] = r
        return r
    if is_lin(t):
        if not t[1]:
            return t
        out = (t[0], ())
        ch = False
        for a, k in t[1]:
            r = _subst(a, m, memo)
            if not (r[0] == 0 and len(r[1]) == 1 and r[1][0][0] is a):
                ch = True
            out = add(out, scale(r, k))
        return out if ch else t
    return _subst_arg(t, m, memo)


def _subst_arg(x, m, memo):
    if type(x) is tuple:
        if is_lin(x):
            return _subst(x, m, memo)
        return tuple(_subst_arg(y, m, memo) for y in x)
    if type(x) is Atom:
        r = _subst(x, m, memo)
        a = single(r)
        return a if a is not None else r
    if type(x) is Agg:
        return Agg(tuple(_subst_arg(y, m, memo) for y in x.v))
    return x


def atoms_of(t, acc=None):
    """all atoms occurring in a term, transitively"""
    if acc is None:
        acc = set()
    if type(t) is Atom:
        if t not in acc:
            acc.add(t)
            for x in t.args:
                atoms_of(x, acc)
    elif type(t) is tuple:
        for x in t:
            atoms_of(x, acc)
    elif type(t) is Agg:
        for x in t.v:
            atoms_of(x, acc)
    return acc


class Agg:
    """first-class aggregate value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return type(o) is Agg and self.v == o.v

    def __hash__(self):
        return hash(('agg', self.v))

    def __repr__(self):
        return '{%s}' % ', '.join(show(x) for x in self.v)


UNDEF = ('undef',)


def show_atom(a, d=0):
    k = a.kind
    if d > 6:
        return '..'
    if k in ('arg', 'sym', 'obj', 'glob'):
        return str(a.args[0])
    if k == 'ld':
        return '*(%s)%s' % (show(a.args[0], d + 1), "'" * (a.args[2][1] + a.args[2][0]) if len(a.args) > 2 and type(a.args[2]) is tuple and len(a.args[2]) == 2 and type(a.args[2][1]) is int and type(a.args[2][0]) is int else '')
    if k == 'al':
        return '&%s' % a.args[1]
    return '%s(%s)' % (k, ', '.join(show(x, d + 1) for x in a.args))


def show(t, d=0):
    if type(t) is Atom:
        return show_atom(t, d)
    if is_lin(t):
        if not t[1]:
            return str(t[0])
        s = ''
        for a, k in t[1]:
            x = show_atom(a, d)
            if k == 1:
                s += ' + ' + x
            elif k == -1:
                s += ' - ' + x
            else:
                s += ' + %d*%s' % (k, x)
        if t[0]:
            s += ' %s %d' % ('+' if t[0] > 0 else '-', abs(t[0]))
        s = s.strip()
        return s[2:] if s.startswith('+ ') else s
    if type(t) is tuple:
        return '(%s)' % ', '.join(show(x, d) for x in t)
    return str(t)


# ------------------------------------------------------------------ facts
INF = None


class Infeasible(Exception):
    pass


def r_and(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    ex = a[2] | b[2]
    return r_norm(lo, hi, ex)


def r_norm(lo, hi, ex):
    if ex:
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        ex = frozenset(x for x in ex if (lo is None or x > lo) and (hi is None or x < hi))
    if lo is not None and hi is not None and lo > hi:
        raise Infeasible()
    return (lo, hi, ex)


TOP = (None, None, frozenset())


def r_or(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    if lo is not None and hi is not None and hi - lo <= 300:
        ex = frozenset(x for x in range(lo, hi + 1) if not r_has(a, x) and not r_has(b, x))
    else:
        ex = frozenset(x for x in (a[2] | b[2]) if not r_has(a, x) and not r_has(b, x))
    return (lo, hi, ex)


def r_has(r, x):
    return (r[0] is None or x >= r[0]) and (r[1] is None or x <= r[1]) and x not in r[2]


NONNEG = {'vsize', 'strlen', 'K', 'cnt', 'z8', 'usize'}
BOOL = {'cmp', 'fcmp', 'bool'}
NONNULL = {'al', 'glob', 'new', 'vdata', 'obj', 'fnp', 'arena', 'slot', 'node'}


def atom_default(a):
    k = a.kind
    if k in BOOL:
        return (0, 1, frozenset())
    if k == 'lv':
        v = a.args[-1]
        if type(v) is tuple and len(v) == 3 and v[2] == 'N':
            return (0, None, frozenset())     # a container size
        return TOP
    if k == 'op':
        return (-(1 << 31), (1 << 31) - 1, frozenset())
    if k == 'z8' or k == 'byte':
        return (0, 255, frozenset())
    if k == 's8':
        return (-128, 127, frozenset())
    if k == 'z16':
        return (0, 65535, frozenset())
    if k == 's16':
        return (-32768, 32767, frozenset())
    if k in NONNEG:
        return (0, None, frozenset())
    if k in NONNULL:
        return (1, None, frozenset())
    if k == 'and' and len(a.args) == 2 and type(a.args[1]) is tuple and not a.args[1][1] and a.args[1][0] >= 0:
        return (0, a.args[1][0], frozenset())
    if k == 'srem' and not a.args[1][1]:
        n = abs(a.args[1][0])
        return (-n + 1, n - 1, frozenset())
    return TOP


class Facts:
    """range facts on canonical linear forms"""
    __slots__ = ('d', 'lossy')

    def __init__(self, d=None, lossy=False):
        self.d = d if d is not None else {}
        self.lossy = lossy      # facts of different paths were joined: correlations are lost

    def copy(self):
        return Facts(dict(self.d), self.lossy)

    def form_rng(self, form, depth=2):
        r = self.d.get(form)
        if len(form) == 1:
            b = atom_default(form[0][0])
            r = r_and(r, b) if r is not None else b
            if depth <= 0 or (r[0] is not None and r[0] == r[1]):
                return r
            me = form[0][0]
            for g, gr in self.d.items():
                if len(g) < 2:
                    continue
                kk = 0
                for a, k in g:
                    if a is me:
                        kk = k
                        break
                if kk != 1 and kk != -1:
                    continue
                # me = kk * (G - rest)
                lo, hi = gr[0], gr[1]
                for a, k in g:
                    if a is me:
                        continue
                    x = self.form_rng(((a, 1),), 0)
                    l, h = (x[0], x[1]) if k > 0 else (x[1], x[0])
                    # G - k*a : subtract
                    lo = None if lo is None or h is None else lo - k * h
                    hi = None if hi is None or l is None else hi - k * l
                if kk < 0:
                    lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                if lo is not None or hi is not None:
                    r = r_and(r, (lo, hi, frozenset()))
            return r
        # interval sum
        lo = hi = 0
        for a, k in form:
            x = self.form_rng(((a, 1),), depth - 1)
            l, h = (x[0], x[1]) if k > 0 else (x[1], x[0])
            lo = None if lo is None or l is None else lo + l * k
            hi = None if hi is None or h is None else hi + h * k
        b = (lo, hi, frozenset())
        r = r_and(r, b) if r is not None else b
        if depth > 0 and (r[0] is None or r[1] is None or r[0] != r[1]):
            aset = {a for a, _ in form}
            for g, gr in list(self.d.items()):
                if len(g) < 2 or g == form:
                    continue
                if not any(a in aset for a, _ in g):
                    continue
                for s in (1, -1):
                    rem = _merge(form, g, -s)
                    if len(rem) >= len(form) and len(rem) > 1 and depth < 2:
                        continue
                    if len(rem) > len(form):
                        continue
                    if rem:
                        gg, f2 = canon(rem)
                        x = self.form_rng(f2, depth - 1)
                        l, h = (x[0], x[1]) if gg > 0 else (x[1], x[0])
                        l = None if l is None else l * gg
                        h = None if h is None else h * gg
                    else:
                        l = h = 0
                    gl, gh = (gr[0], gr[1]) if s > 0 else (None if gr[1] is None else -gr[1], None if gr[0] is None else -gr[0])
                    l = None if l is None or gl is None else l + gl
                    h = None if h is None or gh is None else h + gh
                    if l is not None or h is not None:
                        r = r_and(r, (l, h, frozenset()))
        return r

    def rng(self, t):
        """(lo, hi, ex) of a term"""
        if not t[1]:
            return (t[0], t[0], frozenset())
        g, form = canon(t[1])
        x = self.form_rng(form)
        c = t[0]
        if g > 0:
            lo, hi = x[0], x[1]
        else:
            lo, hi = x[1], x[0]
        return (None if lo is None else c + g * lo, None if hi is None else c + g * hi,
                frozenset(c + g * e for e in x[2]))

    def const(self, t):
        if not t[1]:
            return t[0]
        r = self.rng(t)
        if r[0] is not None and r[0] == r[1]:
            return r[0]
        return None

    def _set(self, form, r):
        self.d[form] = r_and(self.d.get(form) or (atom_default(form[0][0]) if len(form) == 1 else TOP), r)

    # constraints on t relative to 0; raise Infeasible
    def le0(self, t):
        r = self.rng(t)
        if r[0] is not None and r[0] > 0:
            raise Infeasible()
        if r[1] is not None and r[1] <= 0:
            return
        if not t[1]:
            return
        g, form = canon(t[1])
        c = t[0]
        if g > 0:
            self._set(form, (None, (-c) // g, frozenset()))
        else:
            self._set(form, (-((-c) // (-g)), None, frozenset()))

    def ge0(self, t):
        self.le0(scale(t, -1))

    def eq0(self, t):
        r = self.rng(t)
        if not r_has(r, 0):
            raise Infeasible()
        if not t[1]:
            return
        g, form = canon(t[1])
        if (-t[0]) % g:
            raise Infeasible()
        v = (-t[0]) // g
        self._set(form, (v, v, frozenset()))

    def ne0(self, t):
        r = self.rng(t)
        if r[0] == 0 and r[1] == 0:
            raise Infeasible()
        if not t[1] or not r_has(r, 0):
            return
        g, form = canon(t[1])
        if (-t[0]) % g:
            return
        v = (-t[0]) // g
        self._set(form, (None, None, frozenset([v])))

    def join(self, o):
        if self.d == o.d:
            if o.lossy and not self.lossy:
                return o
            return self
        d = {}
        for k, r in self.d.items():
            s = o.d.get(k)
            if s is not None:
                x = r if r == s else r_or(r, s)
                if x != TOP:
                    d[k] = x
        return Facts(d, True)

    def __repr__(self):
        return '; '.join('%s in [%s,%s]%s' % (show((0, k)), r[0], r[1], ('-%s' % sorted(r[2])) if r[2] else '') for k, r in self.d.items())
