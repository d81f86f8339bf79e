"""Abstract runs of the visit() methods of any ast_visitor_t subclass: one node, children abstracted."""
import re
import eng as E
import opsem, stdmodel
from terms import *
from ir import Anchor
from cgsem import Visitor

# child fields of every node kind: single children and child lists, in evaluation order of the base visitor
CHILDREN = {
    'ast_program_t': ((), ('children',)),
    'ast_exp_ident_t': ((), ()),
    'ast_exp_lit_str_t': ((), ()),
    'ast_exp_lit_float_t': ((), ()),
    'ast_exp_lit_var_t': ((), ()),
    'ast_exp_none_t': ((), ()),
    'ast_exp_array_init_t': ((), ('expr',)),
    'ast_exp_member_t': ((), ()),
    'ast_exp_deref_t': (('lhs', 'index'), ()),
    'ast_stmt_call_t': (('expr',), ()),
    'ast_exp_call_t': (('callee',), ('args',)),
    'ast_exp_bin_op_t': (('left', 'right'), ()),
    'ast_exp_unary_op_t': (('child',), ()),
    'ast_stmt_if_t': (('expr', 'then_block', 'else_block'), ()),
    'ast_block_t': ((), ('nodes',)),
    'ast_stmt_while_t': (('expr', 'body'), ()),
    'ast_stmt_for_t': (('start', 'end', 'body'), ()),
    'ast_stmt_return_t': (('expr',), ()),
    'ast_stmt_assign_var_t': (('expr',), ()),
    'ast_stmt_assign_array_t': (('index', 'expr'), ()),
    'ast_stmt_assign_member_t': (('expr',), ()),
    'ast_decl_func_t': (('body',), ('args',)),
    'ast_decl_var_t': (('expr',), ()),
}


class Walk:
    def __init__(self, ctx, cls):
        self.ctx, self.P, self.cls = ctx, ctx.P, cls
        self.V = Visitor(ctx.P, cls)
        self.this = A('obj', 'VIS')

    def nt(self, cls):
        return self.ctx.get(('nt', cls), lambda: opsem.node_type(self.P, 'nano::' + cls))

    def fld(self, cls, name):
        return self.P.field('nano::' + cls, name)

    def vec(self, cls, field, obj=None):
        return add(obj if obj is not None else A('obj', cls), C(self.fld(cls, field)))

    def node(self, e, st, oname, cls, **f):
        o = A("obj", oname)
        opsem.put(self.P, e, st, o, 'nano::ast_node_t', type=C(self.nt(cls)))
        opsem.put(self.P, e, st, o, 'nano::' + cls, **f)
        return o

    def run(self, cls, setup=None, dispatch=None, obs=None, kids=True, hooks=(), null=True, tune=None, real=0, seenull=False):
        """abstract run of visit(cls*); children are objects named by their field"""
        f = self.V.visit_fn('nano::' + cls)
        if f is None:
            return None, None, None
        e = E.Engine(self.P)
        e.join = False
        st = E.St()

        def h(eng, s0, fr, x, fn, args):
            n = args[1]
            res = []
            if seenull:
                s0.emit('visit', n, eng.site())
                return [(ZERO, s0)]
            for isnull, s in eng.fork(s0, eng.cmp(s0, 'eq', n, ZERO, ('p',))):
                if isnull:
                    res.append((ZERO, s))
                    continue
                if dispatch:
                    dispatch(eng, s, n)
                else:
                    s.emit('visit', n, eng.site())
                res.append((ZERO, s))
            return res
        if real:
            e.maxrec = real
        else:
            e.hook('nano::ast_visitor_t::dispatch', h)
        for n, hk in hooks:
            e.hook(n, hk)
        if obs:
            e.obs.append(obs)
        if tune:
            tune(e)
        n = self.node(e, st, cls, cls)
        so = add(self.this, C(self.fld('ast_visitor_t', 'stack')))
        st.facts.le0(sub(ONE, A('vsize', so, (0, 0))))
        if kids:
            for k in CHILDREN.get(cls, ((), ()))[0]:
                opsem.put(self.P, e, st, n, 'nano::' + cls, **{k: A('obj', k)})
        if setup:
            setup(e, st, n)
        outs = e.call_fn(f, [self.this, n], st)
        return e, outs, f


def visitors(P):
    return sorted(P.subclasses('nano::ast_visitor_t'))
