"""Emission skeletons of the code generator.

For every AST node type the generator's visit() is analysed with dispatch() of a child abstracted to
"emits len(child) bytes".  The result is, per path, an ordered list of emitted bytes / patches / children with
linear position terms: what bytecode *shape* the generator produces for every possible tree of that kind.
"""
import re
from terms import *
import eng as E
import stdmodel
from ir import Anchor, base_name

NODES = None


def node_classes(P):
    """node class name -> enumerator (from `static const TYPE`), for all subclasses of ast_node_t"""
    return sorted(P.subclasses('nano::ast_node_t'))


class Visitor:
    """run the visit() methods of one ast_visitor_t subclass"""

    def __init__(self, prog, cls):
        self.P = prog
        self.cls = cls

    def visit_fn(self, node):
        """the function a dispatch of `node` reaches: own override, or the nearest base's"""
        c = self.cls
        while c:
            l = [f for f in self.P.find(c + '::visit') if re.search(r'\(%s\s*\*\)' % re.escape(node), f.dem)]
            if l:
                return l[0]
            k = self.P.classes().get(c)
            c = k.bases[0][0] if k is not None and k.bases else None
        return None


def run_entry(P):
    l = [f for f in P.find('nano::codegen_t::run') if P.in_repo(f)]
    if not l:
        raise Anchor('codegen_t::run')
    return l[0]


class CG:
    def __init__(self, prog):
        self.P = P = prog
        f = lambda c, n: P.field('nano::' + c, n)
        self.prog_o = A('obj', 'PROG')
        self.nano = A('obj', 'NANO')
        self.cgt = A('obj', 'CGT')
        self.astp = A('obj', 'ASTPROGRAM')
        self.codevec = add(self.prog_o, C(f('program_t', 'code_')))
        self.strvec = add(self.prog_o, C(f('program_t', 'strings_')))
        self.sysvec = add(self.prog_o, C(f('program_t', 'syscalls_')))
        self.setup()

    def engine(self):
        e = E.Engine(self.P)
        e.hook('nano::ast_visitor_t::dispatch', self.h_dispatch)
        e.hook('nano::program_builder_t::set_line', self.h_line)
        e.obs.append(self.observe)
        return e

    def h_line(self, eng, st, fr, x, f, args):
        st.emit('line', args[-1], stdmodel.vsize(eng, st, self.codevec), eng.site())
        return [(ZERO, st)]

    def h_dispatch(self, eng, st, fr, x, f, args):
        node = args[1]
        # dispatch of a null child is a no-op
        res = []
        for isnull, s in eng.fork(st, eng.cmp(st, 'eq', node, ZERO, ('p',))):
            if isnull:
                s.emit('child0', node, eng.site())
                res.append((ZERO, s))
                continue
            pos = stdmodel.vsize(eng, s, self.codevec)
            n = eng.fresh(s, 'dispatch')
            ln = A('len', node, n)
            s.facts.ge0(ln)
            s.emit('child', node, pos, ln, eng.site())
            stdmodel.set_vsize(eng, s, self.codevec, add(pos, ln))
            sv = stdmodel.vsize(eng, s, self.strvec)
            stdmodel.set_vsize(eng, s, self.strvec, add(sv, A('strs', node, n)))
            res.append((ZERO, s))
        return res

    def observe(self, eng, st, kind, fr, ins, kw):
        if kind == 'vec_push':
            if kw['vec'] == self.codevec:
                v = eng.load_raw(st, kw['arg'], 1, 'i') if kw['arg'] is not None else None
                st.emit('byte', kw['idx'], v, eng.site())
            elif kw['vec'] == self.strvec:
                st.emit('addstr', kw['idx'], kw['arg'], eng.site())
        elif kind == 'store':
            a = kw['addr']
            base = A('vdata', self.codevec)
            if any(t is base[1][0][0] and k == 1 for t, k in a[1]):
                st.emit('patch', sub(a, base), kw['size'], kw['val'], eng.site())
        elif kind in ('vec_resize', 'vec_erase', 'vec_insert'):
            if kw['vec'] == self.codevec:
                st.emit('oddcode', kind, eng.site())
        elif kind == 'opaque_lib':
            if self.codevec in kw['args']:
                st.emit('oddcode', kind, eng.site())

    def setup(self):
        """construct the generator through its public entry and capture the visitor object"""
        P = self.P
        e = E.Engine(P)
        cap = []

        def h(eng, st, fr, x, f, args):
            cap.append((args[0], st.copy(), f))
            return [(ZERO, st)]
        e.hook(re.compile(r'::visit$'), h)
        st = E.St()
        ctor = [f for f in P.find('nano::codegen_t::codegen_t') if P.in_repo(f)]
        if not ctor:
            raise Anchor('codegen_t constructor')
        outs = e.call_fn(ctor[0], [self.cgt, self.nano, self.prog_o], st)
        st = outs[0].st
        # nano_t::program_ is the program being built
        e.store_raw(st, add(self.nano, C(P.field('nano::nano_t', 'program_'))), 8, self.prog_o)
        e.call_fn(run_entry(P), [self.cgt, self.astp, A('obj', 'ERR')], st)
        if not cap:
            raise Anchor('codegen_t::run does not start a visitor')
        self.this, self.st0, f = cap[0]
        self.cls = base_name(f.dem).rsplit('::', 1)[0]
        if self.cls not in P.classes() or 'nano::ast_visitor_t' not in [b for b in self.allbases(self.cls)]:
            # the entry visited through the base class: find the class from the vtable stored in the object
            raise Anchor('codegen visitor class')
        # give the visitor object a stable identity
        o = A('obj', 'CG')
        m = {single(self.this): o}
        self.st0 = self.restate(self.st0, m)
        self.this = o
        # the containers of the generator are in an arbitrary state when a node is visited
        oa = single(o)
        for k in [k for k in self.st0.mem if k[2] == 'N' and k[0] and k[0][0][0] is oa]:
            del self.st0.mem[k]

    def restate(self, st, m):
        s = st.copy()
        mem = {}
        for (at, c, kd), v in st.mem.items():
            if c is None:
                mem[(at, c, kd)] = v
                continue
            a2 = subst((c, at), m)
            nv = tuple(subst(y, m) if is_lin(y) else y for y in v)
            mem[(a2[1], a2[0], kd)] = nv
        s.mem = mem
        s.trace = ()
        return s

    def allbases(self, c):
        k = self.P.classes().get(c)
        r = []
        while k and k.bases:
            r.append(k.bases[0][0])
            k = self.P.classes().get(k.bases[0][0])
        return r

    def visit(self, node, setup=None):
        """node: class name; -> (engine, node term, outs)"""
        f = Visitor(self.P, self.cls).visit_fn(node)
        if f is None:
            raise Anchor('visit(%s)' % node)
        e = self.engine()
        st = self.st0.copy()
        n = A('obj', node.split('::')[-1])
        if setup:
            setup(e, st, n)
        outs = e.call_fn(f, [self.this, n], st)
        return e, n, outs, f
