"""Abstract runs of the semantic passes: one node with its children abstracted, the scope stack followed exactly."""
import re
import eng as E
import opsem, stdmodel, visit
from terms import *
from ir import Anchor, base_name

ERR = re.compile(r'^nano::error_manager_t::(?!error_manager_t|~)')


def O(n):
    return A('obj', n)


def raise_hook(eng, st, fr, x, g, args):
    nm = g.dem.split('(')[0].split('::')[-1] if g is not None else '?'
    st.emit('err', nm, tuple(a if is_lin(a) else ZERO for a in args[1:]), eng.site())
    return [E.Out('throw', None, st)]


def methods(P, cls, want):
    """methods of cls taking one string and returning: 'p' pointer, 'b' bool, 'v' void"""
    res = []
    for f in P.fns.values():
        if not f.dem.startswith(cls + '::') or not P.in_repo(f):
            continue
        m = re.search(r'\(([^()]*)\)(?: const)?$', f.dem)
        if not m or 'basic_string' not in m.group(1) or not m.group(1).endswith('const&') or ',' in re.sub(r'<.*>', '', m.group(1)):
            continue
        f.parse()
        if len(f.params) != 2:
            continue
        t = f.mod.resolve(f.rettype)
        k = 'p' if t[0] == 'p' else 'b' if t == ('i', 1) else 'v' if t[0] == 'void' else '?'
        if k == want:
            res.append(f)
    return res


class Pass:
    def __init__(self, ctx, cls):
        self.ctx, self.P, self.cls = ctx, ctx.P, cls
        self.W = visit.Walk(ctx, cls)
        self.this = self.W.this
        self.scope = None
        c = self.P.classes().get(cls)
        for n, f in (c.fields if c else {}).items():
            t = self.P.type_str(c.mod, f[2])
            m = re.match(r'(?:class )?(?:std::)?vector<(?:std::)?(set|unordered_set|vector|map|unordered_map)<', t.replace('std::__cxx11::', 'std::'))
            if m and f[1] == 24:
                self.scope = add(self.this, C(f[0]))
                self.kind = m.group(1)
                self.ety = t
        self.esize = {'set': 48, 'map': 48, 'unordered_set': 56, 'unordered_map': 56, 'vector': 24}.get(getattr(self, 'kind', None))
        self.look = methods(self.P, cls, 'p')
        self.isdef = methods(self.P, cls, 'b')

    def depth(self, obj, size):
        """position of a scope object counted from the top of the stack (0 = innermost), or ('bottom',) or None"""
        if self.scope is None or not is_lin(obj):
            return None
        d = sub(obj, A('vdata', self.scope))
        if not d[1]:
            return ('bottom', d[0] // self.esize)
        t = sub(scale(size, self.esize), d)
        if not t[1] and t[0] % self.esize == 0:
            return ('top', t[0] // self.esize - 1)
        return None

    def run(self, node, setup=None, found=None, seenull=False, lookups=True, base=1, tune=None):
        """outs of visit(node*) with events push/pop/ins/visit/lookup/isdef/err"""
        me = self

        def obs(eng, st, kind, fr, x, kw):
            if me.scope is None:
                return
            if kind == 'vec_push' and kw['vec'] == me.scope:
                st.emit('push', eng.site())
            elif kind == 'vec_access' and kw['vec'] == me.scope and kw['meth'] == 'pop_back':
                st.emit('pop', eng.site())
            elif kind == 'vec_resize' and kw['vec'] == me.scope:
                st.emit('odd', 'resize', eng.site())
            elif kind == 'cont' and kw['meth'] in stdmodel.MUT:
                o = kw['obj']
                if any(a.kind == 'vdata' and a.args[0] == me.scope for a, k in o[1]):
                    a = kw['args'][0] if kw['args'] else ZERO
                    v = a
                    if kw['meth'] in ('insert', 'emplace'):
                        if me.ety and 'basic_string' in me.ety or 'string' in me.ety:
                            v = stdmodel.scontent(eng, st, a)
                        else:
                            v = eng.load_raw(st, a, 8, 'p')
                        st.emit('ins', me.depth(o, stdmodel.vsize(eng, st, me.scope)), v, eng.site())
                    elif kw['meth'] != 'operator=':
                        st.emit('odd', kw['meth'], eng.site())

        def look(eng, st, fr, x, g, args):
            if args[0] != me.this:
                return None
            st.emit('lookup', stdmodel.scontent(eng, st, args[1]), eng.site())
            return [(found if found is not None else O('FOUND'), st)]

        def isdef(eng, st, fr, x, g, args):
            if args[0] != me.this:
                return None
            r = []
            for v in (0, 1):
                s = st.copy()
                s.emit('isdef', stdmodel.scontent(eng, s, args[1]), v, eng.site())
                r.append((C(v), s))
            return r
        def ind(eng, st, fr, x, fv, args):
            st.emit('vcall', fv, tuple(args), eng.site())
            t = fr.fn.mod.resolve(x.ty)
            return [(ZERO if t[0] == 'void' else A('call', 'virtual', eng.fresh(st, 'virtual')), st)]
        hooks = [(ERR, raise_hook), ('<indirect>', ind)]
        if lookups:
            hooks += [(base_name(f.dem), look) for f in self.look] + [(base_name(f.dem), isdef) for f in self.isdef]

        def su(e, st, n):
            if me.scope is not None:
                st.facts.le0(sub(C(base), A('vsize', me.scope, (0, 0))))
            if setup:
                setup(e, st, n)
        return self.W.run(node, su, obs=obs, hooks=hooks, seenull=seenull, tune=tune)

    def scopes(self, o):
        """replay of a path: [(event, scope stack)], final stack, lowest depth; stack entries are 'outer' or numbers"""
        st, low, n, res = [], 0, 0, []
        for t in o.st.trace:
            if t[0] == 'push':
                n += 1
                st.append(n)
            elif t[0] == 'pop':
                if st:
                    st.pop()
                else:
                    low += 1
            res.append((t, tuple(st), low))
        return res, tuple(st), low


def child_name(t):
    a = single(t)
    return a.args[0] if a is not None and a.kind == 'obj' else None


def find_resolver(ctx):
    """the visitor that stores ast_exp_ident_t::decl"""
    P = ctx.P
    off = P.field('nano::ast_exp_ident_t', 'decl')
    for cls in visit.visitors(P):
        S = Pass(ctx, cls)
        f = S.W.V.visit_fn('nano::ast_exp_ident_t')
        if f is None or cls not in f.dem or not S.look:
            continue

        def su(e, st, n):
            opsem.put(P, e, st, n, 'nano::ast_exp_ident_t', decl=ZERO)
        e, outs, f = S.run('ast_exp_ident_t', su)
        for o in outs or ():
            a = add(O('ast_exp_ident_t'), C(off))
            v = o.st.mem.get((a[1], a[0], 'M'))
            if v and v[1] == O('FOUND'):
                return S
    raise Anchor('pass that resolves identifiers')


def passes(ctx, phase='run_sema'):
    """visitor classes whose visit(program) run_sema (or another phase) calls, in order"""
    P = ctx.P
    fs = [f for f in P.find('nano::' + phase) if P.in_repo(f)]
    if not fs:
        raise Anchor(phase)
    e = E.Engine(P)
    e.join = False
    names = set(visit.visitors(P))

    def h(eng, st, fr, x, g, args):
        if g is None:
            return None
        c = g.dem.split('::visit(')[0]
        st.emit('pass', c, args[1], eng.site())
        return [(ZERO, st)]
    e.hook(re.compile(r'^nano::\w+::visit$'), h)
    outs = e.call_fn(fs[0], [O('NANO')], E.St())
    seqs = {tuple(t[1] for t in o.st.trace if t[0] == 'pass') for o in outs if o.kind == 'ret'}
    if len(seqs) != 1 or not list(seqs)[0]:
        raise Anchor('passes run by %s: %s' % (phase, seqs))
    return list(list(seqs)[0]), fs[0]
