"""Models of the C++ library and libc calls the repository makes."""
import re
from terms import *
from ir import base_name, Anchor

VEC = re.compile(r'^(?:.*? )?std::vector<(.*)>::([~\w\[\]=]+(?:<.*>)?)$')
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
UPTR = re.compile(r'^(?:.*? )?std::unique_ptr<(.*)>::(~?[\w\->*=\[\]]+|operator bool|operator->|operator\*)(?:<.*>)?$')
CONT = re.compile(r'^(?:.*? )?std::(?:__cxx11::)?(list|map|set|unordered_map|unordered_set|deque)<.*>::([~\w=]+(?:\[\])?)(?:\[abi:\w+\])?(?:<.*>)?$')


def first_targ(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif ch == ',' and d == 0:
            return s[:i].strip()
    return s.strip()


SIZES = {'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'float': 4, 'double': 8, 'bool': 1,
         'long': 8, 'unsigned long': 8, 'short': 2}


def sizeof(eng, m, t):
    t = t.replace(' const', '').strip()
    if t.endswith('*') or t.startswith('std::unique_ptr<') or t.endswith(')'):
        return 8
    if t in SIZES:
        return SIZES[t]
    if t.startswith('std::__cxx11::basic_string'):
        return 32
    if t.startswith('std::set<') or t.startswith('std::map<'):
        return 48
    if t.startswith('std::vector<'):
        return 24
    if t.startswith('std::pair<'):
        return 16
    for pre in ('struct.', 'class.'):
        for q in ('%%"%s%s"' % (pre, t), '%%%s%s' % (pre, t)):
            try:
                return m.size(('n', q))
            except KeyError:
                pass
    c = eng.prog.classes().get(t)
    raise Anchor('sizeof %s' % t)


INLINE_PREFIX = ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::move', 'std::forward', 'std::pair<', 'std::array<',
                 'std::__array_traits', 'std::initializer_list', 'std::max', 'std::min', 'std::swap', 'std::tuple', 'std::get',
                 'std::begin', 'std::end', 'std::find_if', 'std::any_of', 'std::none_of', 'std::all_of', 'std::__find_if', '__gnu_cxx::__ops',
                 'std::__iterator_category', 'std::find<', 'std::for_each', 'std::distance', 'std::__distance', 'std::next', 'std::prev', 'std::addressof', 'std::__addressof', 'std::abs', 'std::_List', 'std::exchange')


def inlinable(dem, f):
    b = base_name(dem)
    # strip return type of templates
    if any(p in b for p in ('__gnu_cxx::operator', 'std::operator!=<__gnu_cxx', 'std::operator==<__gnu_cxx', 'std::operator-<',
                            '__gnu_cxx::__normal_iterator')):
        return True
    bb = b
    for p in INLINE_PREFIX:
        if bb.startswith(p) or (' ' + p) in bb.split('(')[0]:
            return True
    return False


ITER = re.compile(r'(?:std::_(?:Rb_tree|List)_|std::__detail::_Node_)(?:const_)?iterator(?:<.*>)?::operator(?:->|\*)$')


ITARG = re.compile(r'_Rb_tree_(?:const_)?iterator<|_Node_(?:const_)?iterator|_List_(?:const_)?iterator<')
LITER = re.compile(r'std::_(?:List|Rb_tree)_(?:const_)?iterator<.*>::operator(\+\+|--)$')
ITCMP = re.compile(r'operator(?:==|!=)$')
ITCTOR = re.compile(r'std::_Rb_tree_(?:const_)?iterator<.*>::_Rb_tree_(?:const_)?iterator$')


def noret(bn):
    """name of a function template instance without its return type"""
    depth = 0
    cut = 0
    end = bn.find('operator')
    for i, c in enumerate(bn if end < 0 else bn[:end]):
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0:
            cut = i + 1
    return bn[cut:]


def model(eng, st, fr, x, name, dem, f, args):
    bn = noret(base_name(dem))
    r = libc(eng, st, fr, x, name, args)
    if r is not None:
        return r
    if bn.startswith('std::back_inserter<') and args and is_lin(args[0]):
        return [(args[0], st)]
    if 'insert_iterator<' in bn and re.match(r'std::[a-z_]+<', bn):
        return generic(eng, st, fr, x, dem, bn, args)
    if 'std::vector<' in bn and '::' in bn and '__normal_iterator' not in bn.split('std::vector<')[0]:
        m = VEC.match(bn)
        if m:
            r = vector(eng, st, fr, x, dem, m.group(1), m.group(2), args)
            if r is not None:
                return r
    if ITCMP.search(bn) and ITARG.search(dem) and len(args) == 2:
        a, b = (eng.load_raw(st, p, 8, 'p') if is_lin(p) else None for p in args)
        if is_lin(a) and is_lin(b):
            return [(eng.cmp(st, 'eq' if bn.endswith('==') else 'ne', a, b, ('p',)), st)]
    if re.match(r'std::operator[-!=<>+]+ ?<(__gnu_cxx|std::_|std::reverse)', bn) and inlinable(dem, f) and f is not None:
        return None
    if bn.startswith(STR + '::') or (STR + '::') in bn or 'std::operator' in bn or 'std::__cxx11::to_string' in bn:
        r = string(eng, st, fr, x, dem, bn, args)
        if r is not None:
            return r
    m = UPTR.match(bn)
    if m and '__uniq' not in bn:
        r = uptr(eng, st, fr, x, m.group(1), m.group(2), args)
        if r is not None:
            return r
    if ITCTOR.search(bn) and f is not None:
        return None
    m = LITER.search(bn)
    if m and is_lin(args[0]) and eng.finite:
        v = eng.load_raw(st, args[0], 8, 'p')
        if is_lin(v) and len(v[1]) == 1 and v[1][0][0].kind == 'fit':
            w = add(v, C(1 if m.group(1) == '++' else -1))
            eng.store_raw(st, args[0], 8, w)
            return [(args[0] if len(args) == 1 else v, st)]
    if m and is_lin(args[0]) and len(args) == 1:
        v = eng.load_raw(st, args[0], 8, 'p')
        if is_lin(v):
            eng.observe(st, 'liter', fr, x, it=v)
            eng.store_raw(st, args[0], 8, A('next' if m.group(1) == '++' else 'prev', v))
            return [(args[0], st)]
    m = LITER.search(bn)
    if m and is_lin(args[0]) and len(args) == 2:
        v = eng.load_raw(st, args[0], 8, 'p')
        if is_lin(v):
            eng.observe(st, 'liter', fr, x, it=v)
            eng.store_raw(st, args[0], 8, A('next' if m.group(1) == '++' else 'prev', v))
            return [(v, st)]
    m = ITER.search(bn)
    if m and args and is_lin(args[0]):
        v = eng.load_raw(st, args[0], 8, 'p')
        if is_lin(v) and len(v[1]) == 1 and v[1][0][0].kind == 'fit':
            return [(fitel(v[1][0][0].args[0], v[0]), st)]
        if is_lin(v) and '_List_' in bn:
            eng.observe(st, 'liter', fr, x, it=v)
            return [(A('node', v, 0), st)]
        if is_lin(v):
            return [(A('node', v, st.epoch), st)]
    m = CONT.match(bn)
    if m:
        return container(eng, st, fr, x, dem, m.group(1), m.group(2), args)
    if bn.startswith('std::') or '__gnu_cxx' in bn or ' std::' in bn:
        if inlinable(dem, f) and f is not None:
            return None
        return generic(eng, st, fr, x, dem, bn, args)
    return None


def res_atom(eng, st, fr, x, kind, *key):
    t = fr.fn.mod.resolve(x.ty)
    if t[0] == 'void':
        return ZERO
    if t == ('i', 1):
        return A('bool', kind, *key)
    if t[0] == 's':
        return Agg(A('call', kind, key, i) for i in range(len(t[1])))
    return A('call', kind, *key)


def targs(args):
    return tuple(a if is_lin(a) else repr(a) for a in args)


def generic(eng, st, fr, x, dem, bn, args):
    """unknown library code: pure when const-qualified, else mutates only the objects passed"""
    eng.opaque[bn] = eng.opaque.get(bn, 0) + 1
    eng.observe(st, 'opaque_lib', fr, x, args=args)
    const = dem.endswith(' const')
    vers = tuple(eng.objver(st, a) if is_lin(a) else 0 for a in args[:1])
    short = shorten(bn)
    if const:
        return [(res_atom(eng, st, fr, x, short, targs(args), vers), st)]
    n = eng.fresh(st, ('call', short))
    m = re.search(r'back_insert_iterator<(std::vector<.*)', bn)
    if m and short.split(' ')[-1] in ('std::copy', 'std::move') and len(args) == 3 and all(is_lin(a) for a in args):
        # appending a range
        et = first_targ(m.group(1)[len('std::vector<'):])
        es = sizeof(eng, fr.fn.mod, et)
        w = sub(args[1], args[0])
        if es and not w[1] and 0 <= w[0] <= 4096 and w[0] % es == 0:
            for q in range(w[0] // es):
                append(eng, st, fr, x, args[2], add(args[0], C(q * es)), es)
            return [(args[2], st)]
    if 'insert_iterator<' in bn:
        for a in args:          # the container behind the iterator
            if is_lin(a):
                set_vsize(eng, st, a, A('vsize', a, ('m', eng.fresh(st, 'vm'))))
                eng.bump(st, a)
    for a in args:
        if is_lin(a) and len(a[1]) == 1 and a[1][0][0].kind == 'al':
            eng.havoc_obj(st, a)
    if args and is_lin(args[0]):
        eng.bump(st, args[0])
    return [(res_atom(eng, st, fr, x, short, targs(args), n), st)]


def shorten(bn):
    s = bn
    while True:
        t = re.sub(r'<[^<>]*>', '', s)
        if t == s:
            break
        s = t
    return s.strip()


# ---------------------------------------------------------------- vector
def vsize(eng, st, v):
    return eng.load_raw(st, v, 8, 'N')


def set_vsize(eng, st, v, n):
    eng.store_raw(st, v, 8, n, 'N')


def vdata(eng, st, v):
    return A('vdata', v)


def vector(eng, st, fr, x, dem, targ, meth, args):
    m = fr.fn.mod
    et = first_targ(targ)
    meth = meth.split('<')[0]
    v = args[0]
    if not is_lin(v):
        return None
    if meth in ('size',):
        return [(vsize(eng, st, v), st)]
    if meth == 'empty':
        return [(eng.cmp(st, 'eq', vsize(eng, st, v), ZERO, ('i', 64)), st)]
    if meth in ('capacity', 'max_size'):
        return [(A('call', meth, v), st)]
    es = sizeof(eng, m, et)
    d = vdata(eng, st, v)
    if meth in ('data', 'begin', 'cbegin'):
        return [(d, st)]
    if meth in ('end', 'cend'):
        return [(add(d, scale(vsize(eng, st, v), es)), st)]
    if meth in ('rbegin', 'rend'):
        if len(args) == 2:   # sret
            v = args[1]
            p = add(vdata(eng, st, v), scale(vsize(eng, st, v), es)) if meth == 'rbegin' else vdata(eng, st, v)
            eng.store_raw(st, args[0], 8, p)
            return [(ZERO, st)]
        return [(add(d, scale(vsize(eng, st, v), es)) if meth == 'rbegin' else d, st)]
    if meth in ('back', 'front'):
        sz = vsize(eng, st, v)
        eng.observe(st, 'vec_access', fr, x, vec=v, idx=(sub(sz, ONE) if meth == 'back' else ZERO), size=sz, meth=meth)
        return [(add(d, scale(sub(sz, ONE), es)) if meth == 'back' else d, st)]
    if meth in ('operator[]', 'at'):
        sz = vsize(eng, st, v)
        eng.observe(st, 'vec_access', fr, x, vec=v, idx=args[1], size=sz, meth=meth)
        return [(add(d, scale(args[1], es)), st)]
    if meth == 'pop_back':
        sz = vsize(eng, st, v)
        eng.observe(st, 'vec_access', fr, x, vec=v, idx=sub(sz, ONE), size=sz, meth=meth)
        set_vsize(eng, st, v, sub(sz, ONE))
        return [(ZERO, st)]
    if meth in ('push_back', 'emplace_back'):
        sz = vsize(eng, st, v)
        slot = add(d, scale(sz, es))
        eng.observe(st, 'vec_push', fr, x, vec=v, idx=sz, arg=args[1] if len(args) > 1 else None, es=es, args=tuple(args[1:]))
        if len(args) == 2:
            simple = et.endswith('*') or et in SIZES
            if simple:
                if 'nullptr_t' in dem.split('emplace_back')[-1]:
                    val = ZERO
                else:
                    val = eng.load_raw(st, args[1], es, 'p' if es == 8 else ('f' if et == 'float' else 'i'))
                eng.store_raw(st, slot, es, val)
            else:
                eng.memcpy(st, slot, args[1], C(es))
                if getattr(eng, 'deep', False) and is_lin(args[1]) and es:
                    nested(eng, st, slot, args[1], es)
        else:
            for i, a in enumerate(args[1:]):
                pass
            eng.havoc_obj(st, slot, es)
            if len(args) == 1 and getattr(eng, 'deep', False):
                fresh_object(eng, st, slot, et)
            if et.startswith('std::pair<') and len(args) == 3:
                v1 = eng.load_raw(st, args[1], 8, 'p')
                v2 = eng.load_raw(st, args[2], 4, 'i')
                eng.store_raw(st, slot, 8, v1)
                eng.store_raw(st, add(slot, C(8)), 4, v2)
        set_vsize(eng, st, v, add(sz, ONE))
        return [(slot, st)]
    if meth == 'clear':
        set_vsize(eng, st, v, ZERO)
        return [(ZERO, st)]
    if meth == 'resize':
        eng.observe(st, 'vec_resize', fr, x, vec=v, n=args[1])
        set_vsize(eng, st, v, args[1])
        return [(ZERO, st)]
    if meth in ('reserve', 'shrink_to_fit'):
        return [(ZERO, st)]
    if meth == 'vector':
        if len(args) == 1:
            set_vsize(eng, st, v, ZERO)
        elif re.search(r'vector\(unsigned long, ', dem) and is_lin(args[1]):
            eng.observe(st, 'vec_resize', fr, x, vec=v, n=args[1])
            eng.bump(st, v)
            set_vsize(eng, st, v, args[1])
        elif len(args) == 2:
            src = args[1]
            if is_lin(src):
                set_vsize(eng, st, v, vsize(eng, st, src))
                eng.bump(st, v)
        else:
            eng.havoc_obj(st, v, 24)
        return [(ZERO, st)]
    if meth == '~vector':
        return [(ZERO, st)]
    if meth == 'operator=':
        set_vsize(eng, st, v, vsize(eng, st, args[1]))
        eng.bump(st, v)
        return [(v, st)]
    if meth in ('erase', 'insert'):
        sz = vsize(eng, st, v)
        if meth == 'insert' and len(args) == 4 and es and is_lin(args[1]) and is_lin(args[2]) and is_lin(args[3]) and \
                args[1] == add(d, scale(sz, es)):
            n = sub(args[3], args[2])
            deep = getattr(eng, 'deep', False)
            if not n[1] and 0 <= n[0] <= (4096 if deep else 64) and n[0] % es == 0:
                for q in range(n[0] // es):
                    append(eng, st, fr, x, v, add(args[2], C(q * es)), es)
                return [(args[1], st)]
        eng.observe(st, 'vec_' + meth, fr, x, vec=v, args=args[1:])
        n = st.const(sz) if is_lin(sz) else None
        off = sub(args[1], d) if len(args) > 1 and is_lin(args[1]) else None
        if n is not None and n <= 64 and off is not None and not off[1] and es == 8 and et.endswith('*') and off[0] % 8 == 0:
            k = off[0] // 8
            el = [eng.load_raw(st, add(d, C(8 * i)), 8, 'p') for i in range(n)]
            if meth == 'insert' and len(args) == 3 and 0 <= k <= n and is_lin(args[2]):
                el.insert(k, eng.load_raw(st, args[2], 8, 'p'))
            elif meth == 'erase' and len(args) == 2 and 0 <= k < n:
                del el[k]
            else:
                el = None
            if el is not None:
                for i, q in enumerate(el):
                    eng.store_raw(st, add(d, C(8 * i)), 8, q)
                set_vsize(eng, st, v, C(len(el)))
                return [(args[1], st)]
        # content unknown afterwards
        for k in list(st.mem):
            if any(a.kind == 'vdata' and a.args[0] == v for a, _ in k[0]):
                del st.mem[k]
                st.ver[k] = st.ver[k] + 1 if type(st.ver.get(k, 0)) is int and k in st.ver else ("+", st.ver.get(k, 0))
        eng.bump(st, v)
        if meth == 'erase' and len(args) == 2:
            set_vsize(eng, st, v, sub(sz, ONE))
            return [(args[1], st)]
        set_vsize(eng, st, v, A('vsize', v, ('m', eng.fresh(st, 'vm'))))
        return [(args[1] if len(args) > 1 else ZERO, st)]
    return None


def append(eng, st, fr, x, v, src, es):
    """a copy of the object at src becomes the last element of the vector v"""
    sz = vsize(eng, st, v)
    slot = add(vdata(eng, st, v), scale(sz, es))
    eng.observe(st, 'vec_push', fr, x, vec=v, idx=sz, arg=src, es=es, args=(src,))
    eng.memcpy(st, slot, src, C(es))
    if getattr(eng, 'deep', False):
        nested(eng, st, slot, src, es)
    set_vsize(eng, st, v, add(sz, ONE))


def fresh_object(eng, st, at, et):
    """a default-constructed object: empty strings and vectors (recognised by their size)"""
    c = eng.prog.classes().get(et)
    for k, fl in (c.fields.items() if c else ()):
        if fl[1] == 32:
            set_s(eng, st, add(at, C(fl[0])), A('slit', ''))
        elif fl[1] == 24:
            set_vsize(eng, st, add(at, C(fl[0])), ZERO)


def nested(eng, st, dst, src, n):
    """the elements of vectors inside a copied object"""
    m = {}
    for k in list(st.mem):
        for a, _ in k[0]:
            if a.kind == 'vdata' and is_lin(a.args[0]) and a.args[0][1] == src[1] and src[0] <= a.args[0][0] < src[0] + n:
                m[a] = A('vdata', add(dst, C(a.args[0][0] - src[0])))
    for k, v in list(st.mem.items()):
        for a, q in k[0]:
            if a in m and q == 1:
                b = add((k[1] if k[1] is not None else 0, tuple(x for x in k[0] if x[0] is not a)), m[a])
                if k[1] is not None:
                    eng.store_raw(st, b, v[0], v[1], k[2])


# ---------------------------------------------------------------- string
def scontent(eng, st, s):
    return eng.load_raw(st, s, 32, 'S')


def set_s(eng, st, s, v):
    eng.store_raw(st, s, 32, v, 'S')


def lit(eng, st, p):
    """content term of a C string"""
    c = eng.const_str(st, p)
    if c is not None:
        return A('slit', c)
    a = single(p) if is_lin(p) else None
    if a is not None and a.kind == 'sdata':
        return a.args[0]
    return A('cstr', p if is_lin(p) else repr(p))


def s_eq(eng, st, a, b):
    if a == b:
        return ONE
    x, y = single(a), single(b)
    if x is not None and y is not None and x.kind == 'slit' and y.kind == 'slit':
        return ONE if x is y else ZERO
    if x is not None and y is not None and x.id > y.id:
        a, b = b, a
    r = A('bool', 'seq', b, a)
    if r[1] in st.facts.d:
        return r        # the same comparison, seen in the other order
    return A('bool', 'seq', a, b)


def cview(eng, st, p):
    """the string a char pointer shows: the characters of a std::string or a constant"""
    if not is_lin(p):
        return None
    a = single(p)
    if a is not None and a.kind == 'sdata':
        return a.args[0]
    c = eng.const_str(st, p)
    return A('slit', c.decode('latin1') if isinstance(c, bytes) else c) if c is not None else None


def sconst(c):
    """the text of a constant string"""
    a = single(c) if is_lin(c) else None
    if a is None or a.kind != 'slit':
        return None
    return a.args[0].decode('latin1') if isinstance(a.args[0], bytes) else a.args[0]


def cfold(eng, st, c, meth, dem, args):
    """searching and comparing constant strings at constant positions"""
    t = sconst(c)
    if t is None:
        return None
    sig = dem[dem.rindex('::' + meth) + len(meth) + 2:] if '::' + meth in dem else ''
    ks = [st.const(a) if is_lin(a) else None for a in args]
    if meth == 'compare' and len(args) == 3:
        p, n = ks[0], ks[1]
        u = cview(eng, st, args[2]) if sig.endswith('char const*) const') else scontent(eng, st, args[2])
        u = sconst(u) if u is not None else None
        if p is None or n is None or u is None or p > len(t):
            return None
        x = t[p:] if n < 0 or n >= len(t) else t[p:p + n]
        return C((x > u) - (x < u))
    if meth in ('find', 'rfind') and len(args) == 2:
        if sig.startswith('(char,'):
            u = None if ks[0] is None else chr(ks[0] & 255)
        else:
            u = cview(eng, st, args[0]) if sig.startswith('(char const*') else scontent(eng, st, args[0])
            u = sconst(u) if u is not None else None
        if u is None or ks[1] is None:
            return None
        p = len(t) + 1 if ks[1] < 0 else ks[1]
        i = t.find(u, p) if meth == 'find' else t.rfind(u, 0, p + len(u))
        return C(i if i >= 0 else -1)
    return None


def order(eng, st, a, b):
    """the result of comparing two strings: 0 exactly when they are equal"""
    res = []
    for t, q in eng.fork(st, s_eq(eng, st, a, b)):
        if t:
            res.append((ZERO, q))
        else:
            d = A('call', 'strorder', a, b)
            try:
                q.facts.ne(d, 0) if hasattr(q.facts, 'ne') else eng.assume(q, eng.cmp(q, 'ne', d, ZERO, ('i', 32)), True)
            except Infeasible:
                continue
            res.append((d, q))
    return res


def slen(c):
    a = single(c)
    if a is not None and a.kind == 'slit':
        return C(len(a.args[0]))
    if a is not None and a.kind == 'cat':
        return add(slen(a.args[0]), slen(a.args[1]))
    if a is not None and a.kind == 'srange':
        return sub(a.args[1], a.args[0])
    if a is not None and a.kind == 'chr':
        return ONE
    return A('strlen', c)


def string(eng, st, fr, x, dem, bn, args):
    void = fr.fn.mod.resolve(x.ty)[0] == 'void'
    if 'std::operator' in bn:
        op = bn.split('std::operator', 1)[1].split('<')[0]
        if op.strip() in ('==', '!=') and 'basic_string' in dem:
            l = scontent(eng, st, args[0]) if not dem.split('(', 1)[1].startswith('char const*') else lit(eng, st, args[0])
            r = lit(eng, st, args[1]) if 'char const*)' in dem else scontent(eng, st, args[1])
            e = s_eq(eng, st, l, r)
            return [(e if op.strip() == '==' else sub(ONE, e), st)]
        if op.strip() == '+' and 'basic_string' in dem:
            params = dem[dem.rindex('operator+'):]
            ps = params[params.index('('):]
            lc = ps.startswith('(char const*')
            rc = ps.endswith('char const*)')
            l = lit(eng, st, args[1]) if lc else scontent(eng, st, args[1])
            r = lit(eng, st, args[2]) if rc else (scontent(eng, st, args[2]) if not ps.endswith(', char)') else A('chr', args[2]))
            set_s(eng, st, args[0], A('cat', l, r))
            return [(ZERO, st)]
        return None
    if 'to_string(' in dem and 'std::__cxx11::to_string' in bn:
        set_s(eng, st, args[0], A('utostr' if 'unsigned' in dem else 'tostr', args[1]))
        return [(ZERO, st)]
    if (STR + '::') not in bn:
        return None
    meth = bn.split(STR + '::', 1)[1].split('<')[0]
    s = args[0]
    if not is_lin(s):
        return None
    if meth == 'basic_string':
        if len(args) == 1:
            set_s(eng, st, s, A('slit', ''))
        elif 'char const*, char const*' in dem:
            set_s(eng, st, s, A('srange', args[1], args[2]))
            eng.observe(st, 'str_range', fr, x, a=args[1], b=args[2])
        elif 'char const*, unsigned long' in dem or '(char const*, int' in dem:
            set_s(eng, st, s, A('srange', args[1], add(args[1], args[2])))
            eng.observe(st, 'str_range', fr, x, a=args[1], b=add(args[1], args[2]))
        elif 'char const*' in dem.split('basic_string', 2)[-1]:
            set_s(eng, st, s, lit(eng, st, args[1]))
        elif 'basic_string(std::' in dem and is_lin(args[1]):
            set_s(eng, st, s, scontent(eng, st, args[1]))
        else:
            set_s(eng, st, s, A('str', s, ('n', eng.fresh(st, 'strctor'))))
        return [(ZERO, st)]
    if meth == '~basic_string':
        return [(ZERO, st)]
    if meth in ('operator=', 'assign') and len(args) == 2:
        if dem.endswith('(char const*)'):
            set_s(eng, st, s, lit(eng, st, args[1]))
        elif dem.endswith('(char)'):
            set_s(eng, st, s, A('chr', args[1]))
        else:
            set_s(eng, st, s, scontent(eng, st, args[1]))
        return [(s, st)]
    if meth in ('assign', 'append') and len(args) == 3 and ('char const*, unsigned long' in dem or 'char const*, char const*' in dem):
        end = args[2] if 'char const*, char const*' in dem else add(args[1], args[2])
        n = A('srange', args[1], end)
        eng.observe(st, 'str_range', fr, x, a=args[1], b=end)
        if meth == 'append':
            n = A('cat', scontent(eng, st, s), n)
        set_s(eng, st, s, n)
        return [(s, st)]
    if meth in ('operator+=', 'append', 'push_back') and len(args) == 2:
        c = scontent(eng, st, s)
        if dem.endswith('(char const*)'):
            n = A('cat', c, lit(eng, st, args[1]))
        elif dem.endswith('(char)'):
            n = A('cat', c, A('chr', args[1]))
        else:
            n = A('cat', c, scontent(eng, st, args[1]))
        set_s(eng, st, s, n)
        return [(s, st)]
    if meth == 'compare' and len(args) == 2:
        return order(eng, st, scontent(eng, st, s), lit(eng, st, args[1]) if dem.endswith('(char const*) const') else scontent(eng, st, args[1]))
    if meth == 'compare' and len(args) == 4 and st.const(args[1]) == 0 and (st.const(args[2]) or 0) in (-1, (1 << 64) - 1):
        return order(eng, st, scontent(eng, st, s), lit(eng, st, args[3]) if dem.endswith('char const*) const') else scontent(eng, st, args[3]))
    if meth in ('compare', 'find', 'rfind'):
        r = cfold(eng, st, scontent(eng, st, s), meth, dem, args[1:])
        if r is not None:
            return [(r, st)]
    if meth in ('c_str', 'data'):
        return [(A('sdata', scontent(eng, st, s)), st)]
    if meth in ('size', 'length'):
        return [(slen(scontent(eng, st, s)), st)]
    if meth == 'empty':
        return [(eng.cmp(st, 'eq', slen(scontent(eng, st, s)), ZERO, ('i', 64)), st)]
    if meth in ('reserve', 'shrink_to_fit'):
        return [(ZERO, st)]
    if meth == 'clear':
        set_s(eng, st, s, A('slit', ''))
        return [(ZERO, st)]
    if meth == 'resize':
        n = A('slit', '') if st.const(args[1]) == 0 else A('sresize', args[1], scontent(eng, st, s))
        set_s(eng, st, s, n)
        try:
            st.facts.eq0(sub(A('strlen', n), args[1]))
        except Infeasible:
            return []
        return [(ZERO, st)]
    if meth in ('operator[]', 'at'):
        c = scontent(eng, st, s)
        eng.observe(st, 'str_access', fr, x, idx=args[1], size=slen(c))
        return [(add(A('sdata', c), args[1]), st)]
    if meth in ('back', 'front'):
        c = scontent(eng, st, s)
        i = sub(slen(c), ONE) if meth == 'back' else ZERO
        return [(add(A('sdata', c), i), st)]
    if dem.endswith(' const'):
        c = scontent(eng, st, s)
        if void:
            t = sconst(scontent(eng, st, args[1])) if meth == 'substr' and len(args) == 4 and is_lin(args[1]) else None
            if t is not None and st.const(args[2]) is not None and st.const(args[3]) is not None and 0 <= st.const(args[2]) <= len(t):
                p, n = st.const(args[2]), st.const(args[3])
                set_s(eng, st, s, A('slit', t[p:] if n < 0 or n > len(t) else t[p:p + n]))
                return [(ZERO, st)]
            if meth == 'substr' and len(args) == 4 and is_lin(args[1]) and st.const(args[2]) == 0:
                set_s(eng, st, s, A('sresize', args[3], scontent(eng, st, args[1])))
                return [(ZERO, st)]
            set_s(eng, st, s, A('sfn', meth, targs(args[1:])))
            return [(ZERO, st)]
        ta = targs(args[1:])
        if ta and 'char const*' in dem and is_lin(args[1]):
            ta = (lit(eng, st, args[1]),) + ta[1:]
        return [(res_atom(eng, st, fr, x, 'string::' + meth, c, ta), st)]
    set_s(eng, st, s, A('str', s, ('m', eng.fresh(st, 'strm'))))
    return [(res_atom(eng, st, fr, x, 'string::' + meth, targs(args), eng.fresh(st, 'strr')), st)]


# ---------------------------------------------------------------- unique_ptr
def uptr(eng, st, fr, x, targ, meth, args):
    p = args[0]
    if not is_lin(p):
        return None
    meth = meth.strip()
    if meth in ('get', 'operator->', 'operator*'):
        return [(eng.load_raw(st, p, 8, 'p'), st)]
    if meth == 'operator bool':
        return [(eng.cmp(st, 'ne', eng.load_raw(st, p, 8, 'p'), ZERO, ('p',)), st)]
    if meth == 'operator[]':
        base = eng.load_raw(st, p, 8, 'p')
        es = sizeof(eng, fr.fn.mod, first_targ(targ).replace('[]', '').strip())
        return [(add(base, scale(args[1], es)), st)]
    if meth == 'release':
        v = eng.load_raw(st, p, 8, 'p')
        eng.store_raw(st, p, 8, ZERO)
        return [(v, st)]
    if meth == 'reset':
        old = eng.load_raw(st, p, 8, 'p')
        eng.observe(st, 'uptr_reset', fr, x, ptr=p, old=old)
        eng.store_raw(st, p, 8, args[1] if len(args) > 1 else ZERO)
        return [(ZERO, st)]
    if meth.startswith('unique_ptr'):
        if len(args) == 1:
            eng.store_raw(st, p, 8, ZERO)
        else:
            v = args[1]
            # move constructor takes a reference to another unique_ptr
            if len(args) == 2 and ('unique_ptr(std::unique_ptr' in eng.prog.demangle(x.a[0][1]) or '&&)' in eng.prog.demangle(x.a[0][1])):
                w = eng.load_raw(st, v, 8, 'p')
                eng.store_raw(st, v, 8, ZERO)
                v = w
            eng.store_raw(st, p, 8, v)
        return [(ZERO, st)]
    if meth == '~unique_ptr':
        v = eng.load_raw(st, p, 8, 'p')
        eng.observe(st, 'uptr_del', fr, x, ptr=p, old=v)
        return [(ZERO, st)]
    if meth == 'operator=':
        src = args[1]
        w = eng.load_raw(st, src, 8, 'p')
        eng.store_raw(st, src, 8, ZERO)
        eng.store_raw(st, p, 8, w)
        return [(p, st)]
    return None


# ---------------------------------------------------------------- maps, sets, lists
MUT = {'insert', 'emplace', 'erase', 'clear', 'push_back', 'push_front', 'pop_back', 'pop_front', 'operator=', 'swap', 'emplace_back',
       'emplace_front', 'assign', 'operator[]', 'insert_or_assign', 'try_emplace'}


def keyterm(eng, st, dem, a):
    if 'basic_string' in dem and is_lin(a):
        at, c = a[1], a[0]
        v = st.mem.get((at, c, 'S'))
        if v:
            return v[1]
    return a


def fitel(o, i):
    return A('obj', 'element %d of %s' % (i, show(o)))


def finite(eng, st, dem, kind, meth, o, args):
    """a set whose elements are the objects fitel(o, 0) .. fitel(o, n-1)"""
    n = eng.finite[o]
    it = A('fit', o)
    if meth in ('begin', 'cbegin'):
        return [(it, st)]
    if meth in ('end', 'cend'):
        return [(add(it, C(n)), st)]
    if meth == 'size':
        return [(C(n), st)]
    if meth == 'empty':
        return [(C(int(n == 0)), st)]
    if meth in ('find', 'count', 'contains') and len(args) == 2 and kind == 'set':
        cur, res = [st], []
        for i in range(n):
            nxt = []
            for s in cur:
                el = fitel(o, i)
                if 'basic_string' in dem:
                    c = s_eq(eng, s, scontent(eng, s, el), scontent(eng, s, args[1]))
                else:
                    c = eng.cmp(s, 'eq', eng.load_raw(s, el, 8, 'p'), eng.load_raw(s, args[1], 8, 'p'), ('p',))
                for t, q in eng.fork(s, c):
                    if t:
                        res.append((add(it, C(i)) if meth == 'find' else ONE, q))
                    else:
                        nxt.append(q)
            cur = nxt
        return res + [(add(it, C(n)) if meth == 'find' else ZERO, q) for q in cur]
    return None


def container(eng, st, fr, x, dem, kind, meth, args):
    o = args[0]
    # sret / iterator results come back in registers (one pointer) for these containers
    if not is_lin(o):
        return None
    ver = eng.objver(st, o)
    eng.observe(st, "cont", fr, x, cont=kind, meth=meth, obj=o, args=args[1:])
    if o in eng.finite:
        r = finite(eng, st, dem, kind, meth, o, args)
        if r is not None:
            return r
    if meth in ('size',):
        return [(A('usize', kind, o, ver), st)]
    if meth == 'empty':
        return [(eng.cmp(st, 'eq', A('usize', kind, o, ver), ZERO, ('i', 64)), st)]
    if kind == 'list' and meth in ('end', 'cend'):
        return [(A('call', 'list.end', o, 0), st)]
    if kind == 'list' and meth in ('begin', 'cbegin'):
        return [(A('call', 'list.begin', o, ver), st)]
    if meth in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
        return [(A('call', kind + '.' + meth, o, ver), st)]
    if meth in ('find', 'count', 'lower_bound', 'upper_bound', 'at', 'contains', 'back', 'front'):
        ks = []
        for a in args[1:]:
            if is_lin(a):
                v = st.mem.get((a[1], a[0], 'M'))
                v = v[1] if v else keyterm(eng, st, dem, a)
                if is_lin(a) and len(a[1]) == 1 and a[1][0][0].kind in ('al',) and v == a:
                    v = A('content', a, eng.objver(st, a))
                ks.append(v)
        if meth == 'count':
            return [(A('cnt', kind, o, ver, tuple(ks)), st)]
        return [(res_atom(eng, st, fr, x, kind + '.' + meth, o, ver, tuple(ks)), st)]
    if meth.startswith('~'):
        return [(ZERO, st)]
    if meth == kind:
        eng.bump(st, o)
        if len(args) == 1:
            try:
                st.facts.eq0(A('usize', kind, o, eng.objver(st, o)))
            except Infeasible:
                pass
        return [(ZERO, st)]
    ks = []
    for a in args[1:]:
        if is_lin(a):
            v = st.mem.get((a[1], a[0], 'M'))
            ks.append(v[1] if v else a)
    eng.bump(st, o)
    if kind == 'list' and meth == 'erase' and len(args) == 2 and is_lin(args[1]):
        return [(A('next', args[1]), st)]
    if meth == 'operator[]':
        k = st.mem.get((args[1][1], args[1][0], 'M')) if is_lin(args[1]) else None
        k = k[1] if k else keyterm(eng, st, dem, args[1])
        return [(A('call', kind + '[]', o, ver, k), st)]
    return [(res_atom(eng, st, fr, x, kind + '.' + meth, o, ver, tuple(ks)), st)]


# ---------------------------------------------------------------- libc / runtime
PURE = {'strcmp', 'strncmp', 'tolower', 'toupper', 'isdigit', 'isalpha', 'sinf', 'cosf', 'tanf', 'sqrtf', 'atoi', 'atof', 'strtol',
        'strtof', 'sqrt', 'sin', 'cos', 'tan', 'floor', 'ceil', 'fabsf', 'fabs', 'abs', 'strchr', 'strrchr', 'memcmp', 'isspace', 'isalnum',
        'getenv', 'roundf', 'floorf', 'ceilf', 'powf', 'fmodf', 'memchr', 'isupper', 'islower', 'ispunct', 'isprint', 'iscntrl', 'isblank',
        'isxdigit', 'strspn', 'strcspn', 'strpbrk', 'strstr', 'strtod', 'strtoul', 'strcasecmp', 'strncasecmp', 'copysignf', 'truncf',
        'nearbyintf', 'rintf', 'fminf', 'fmaxf', 'absf', 'lroundf', 'sinh', 'exp', 'pow', 'round', 'trunc'}
IO = {'printf', 'fprintf', 'fputs', 'puts', 'putchar', 'fflush', 'fputc', 'fwrite', 'putc', '_exit', 'vfprintf'}


def libc(eng, st, fr, x, name, args):
    if name == 'strlen':
        p = args[0]
        c = eng.const_str(st, p)
        if c is not None:
            return [(C(len(c)), st)]
        a = single(p) if is_lin(p) else None
        if a is not None and a.kind == 'sdata':
            return [(slen(a.args[0]), st)]
        return [(A('strlen', p if is_lin(p) else repr(p), eng.objver(st, p)), st)]
    if name in ('tolower', 'toupper') and is_lin(args[0]) and not args[0][1]:
        c = args[0][0]
        if name == 'tolower':
            return [(C(c + 32 if 65 <= c <= 90 else c), st)]
        return [(C(c - 32 if 97 <= c <= 122 else c), st)]
    if name in ('strchr', 'strspn', 'strcspn') and eng.const_str(st, args[0] if name == 'strchr' else args[1]) is not None:
        i = 0 if name == 'strchr' else 1
        args = list(args)
        args[i] = ('lit', bytes(eng.const_str(st, args[i])))
        return [(A('call', name, tuple(args)), st)]
    if name == 'strcmp' and len(args) == 2:
        cs = [cview(eng, st, p) for p in args]
        if None not in cs:
            return order(eng, st, *cs)
    if name in ('strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'bcmp'):
        cs = [cview(eng, st, p) for p in args[:2]]
        cs = [sconst(c) if c is not None else None for c in cs]
        n = st.const(args[2]) if len(args) > 2 and is_lin(args[2]) else (None if len(args) > 2 else 1 << 30)
        if None not in cs and n is not None and n >= 0:
            a, b = ((c if name == 'memcmp' or name == 'bcmp' else c.split('\0')[0]) + '\0' for c in cs)
            if name in ('memcmp', 'bcmp') and n > min(len(a), len(b)):
                return [(res_atom(eng, st, fr, x, name, targs(args)), st)]
            a, b = (a[:n], b[:n]) if 'case' not in name else (a[:n].lower(), b[:n].lower())
            return [(C((a > b) - (a < b)), st)]
    if name in PURE:
        return [(res_atom(eng, st, fr, x, name, targs(args)), st)]
    if name in ('_Znwm', '_Znam', 'malloc', 'calloc'):
        k = (fr.fn.name, x.res, len(eng.stack))
        n = eng.fresh(st, ('new', k))
        v = A('new', k[0], k[1], k[2], n)
        eng.observe(st, 'alloc', fr, x, ptr=v, n=args[0])
        return [(v, st)]
    if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', 'free', '_ZdaPvm', '_ZdlPvSt11align_val_t'):
        eng.observe(st, 'free', fr, x, ptr=args[0])
        return [(ZERO, st)]
    if name in ('snprintf', 'sprintf', 'vsnprintf', 'vsprintf', 'strcpy', 'strncpy', 'strcat', 'sscanf', 'fread', 'fgets', 'gets', 'scanf'):
        eng.observe(st, 'libc', fr, x, name=name, args=args)
        dst = args[0]
        if is_lin(dst) and name not in ('scanf',):
            eng.havoc_obj(st, dst)
            eng.bump(st, dst)
        n = eng.fresh(st, ('call', name))
        return [(res_atom(eng, st, fr, x, name, targs(args), n), st)]
    if name in ('memcpy', 'memmove'):
        eng.observe(st, 'memcpy', fr, x, dst=args[0], src=args[1], n=args[2])
        eng.memcpy(st, args[0], args[1], args[2])
        return [(args[0], st)]
    if name == 'memset':
        eng.observe(st, 'memset', fr, x, dst=args[0], n=args[2], val=args[1])
        if is_lin(args[0]):
            eng.havoc_obj(st, args[0], st.const(args[2]))
        return [(args[0], st)]
    if name in IO or name in ('fopen', 'fclose', 'fseek', 'ftell', 'rewind', 'feof', 'ferror', 'exit', 'abort', 'time', 'clock', 'rand', 'srand', 'getc', 'getchar', 'fgetc'):
        eng.observe(st, 'libc', fr, x, name=name, args=args)
        if name in ('exit', 'abort'):
            from eng import Out
            st.emit(name, eng.site())
            return [Out('abort', None, st)]
        n = eng.fresh(st, ('call', name))
        return [(res_atom(eng, st, fr, x, name, targs(args), n), st)]
    if name == '__cxa_allocate_exception':
        n = eng.fresh(st, ('exn',))
        return [(A('exn', n), st)]
    if name in ('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_atexit', '__cxa_guard_abort'):
        return [(ZERO, st)]
    if name == '__cxa_begin_catch':
        return [(args[0], st)]
    if name == '__cxa_guard_acquire':
        return [(ONE, st)]
    if name in ('__clang_call_terminate', '_ZSt9terminatev', '__cxa_pure_virtual'):
        from eng import Out
        st.emit('terminate', eng.site())
        return [Out('abort', None, st)]
    return None
