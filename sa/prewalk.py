"""The whole phase before code generation (run_pre_codegen), analysed on one program at a time."""
from terms import *
import eng as E
import opsem, stdmodel
from sema import O
from ir import Anchor


class Pre:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        P = ctx.P
        fs = [f for f in P.find('nano::run_pre_codegen') if P.in_repo(f)]
        if not fs:
            raise Anchor('run_pre_codegen')
        self.f = fs[0]
        self.SC = P.enum('nano::ast_decl_var_t::scope_t')
        self.TOK = P.enum('nano::token_e')

    def nt(self, cls):
        return self.ctx.get(('nt', cls), lambda: opsem.node_type(self.P, 'nano::' + cls))

    def node(self, e, st, oname, cls, **f):
        o = O(oname)
        opsem.put(self.P, e, st, o, 'nano::ast_node_t', type=C(self.nt(cls)))
        opsem.put(self.P, e, st, o, 'nano::' + cls, **f)
        return o

    def vec(self, e, st, v, items):
        stdmodel.set_vsize(e, st, v, C(len(items)))
        for i, o in enumerate(items):
            e.store_raw(st, add(A('vdata', v), C(8 * i)), 8, o)

    def fld(self, cls, name):
        return self.P.field('nano::' + cls, name)

    def string(self, e, st, at, text):
        stdmodel.set_s(e, st, at, A('slit', text))

    def token(self, e, st, oname, text):
        t = O(oname)
        opsem.put(self.P, e, st, t, 'nano::token_t', type_=C(self.TOK['TOK_IDENT']))
        self.string(e, st, add(t, C(self.fld('token_t', 'str_'))), text)
        return t

    def var(self, e, st, name, scope, const=0, expr=None):
        return self.node(e, st, name, 'ast_decl_var_t', is_const=C(const), scope=C(self.SC[scope]), expr=expr if expr is not None else ZERO,
                         offset=A('offset', name), name=self.token(e, st, 't:' + name, name))

    def lit(self, e, st, name):
        return self.node(e, st, name, 'ast_exp_lit_var_t', val=A('input', name))

    def block(self, e, st, name, items):
        b = self.node(e, st, name, 'ast_block_t')
        self.vec(e, st, add(b, C(self.fld('ast_block_t', 'nodes'))), items)
        return b

    def func(self, e, st, name, args=(), body=(), syscall=0):
        f = self.node(e, st, name, 'ast_decl_func_t', is_syscall=C(syscall), is_varargs=ZERO, body=self.block(e, st, 'b:' + name, body) if not syscall else ZERO,
                      token=self.token(e, st, 't:' + name, name), stack_size=A('input', 'ss:' + name))
        self.string(e, st, add(f, C(self.fld('ast_decl_func_t', 'name'))), name)
        self.vec(e, st, add(f, C(self.fld('ast_decl_func_t', 'args'))), args)
        return f

    def run(self, children, tune=None):
        """children(e, st) -> list of nodes"""
        P = self.P
        e = E.Engine(P)
        e.join = False
        e.unroll = 24
        e.maxrec = 12
        e.deep = True
        st = E.St()
        if tune:
            tune(e)
        nano, ast = O('NANO'), O('AST')
        e.store_raw(st, add(nano, C(self.fld('nano_t', 'ast_'))), 8, ast)
        e.store_raw(st, add(nano, C(self.fld('nano_t', 'program_'))), 8, O('PROGRAM'))
        pr = add(ast, C(self.fld('ast_t', 'program')))
        opsem.put(P, e, st, pr, 'nano::ast_node_t', type=C(self.nt('ast_program_t')))
        self.kids = add(pr, C(self.fld('ast_program_t', 'children')))
        self.vec(e, st, self.kids, children(e, st))
        for v in ('functions_', 'syscalls_'):
            stdmodel.set_vsize(e, st, add(O('PROGRAM'), C(self.fld('program_t', v))), ZERO)
        return e, e.call_fn(self.f, [nano], st)

    # ------------------------------------------------------------- reading the result
    def ptr(self, e, st, at):
        return e.load_raw(st, at, 8, 'p')

    def int(self, e, st, at):
        v = e.load_raw(st, at, 4, 'i')
        return st.const(v) if is_lin(v) else None

    def items(self, e, st, v, es=8):
        """addresses of the elements of a vector, None if their number is not known"""
        n = stdmodel.vsize(e, st, v)
        n = st.const(n) if is_lin(n) else None
        return None if n is None else [add(A('vdata', v), C(es * i)) for i in range(n)]

    def text(self, e, st, at):
        c = stdmodel.scontent(e, st, at)
        a = single(c) if is_lin(c) else None
        if a is None or a.kind != 'slit':
            return None
        return a.args[0] if isinstance(a.args[0], str) else bytes(a.args[0]).decode('latin1')

    def type(self, e, st, n):
        return self.int(e, st, add(n, C(self.fld('ast_node_t', 'type'))))


def oname(t):
    """name of the object a term is"""
    a = single(t) if is_lin(t) else None
    return a.args[0] if a is not None and a.kind == 'obj' else None
