"""Slots of locals in nested blocks: the phase before code generation analysed on whole function bodies."""
import os
import frame, prewalk
from sema import O
from terms import *

# a body is a tuple of statements: 'D' (local), 'K' (constant), ('I', then, else or None), ('W', body), ('F', body)


def bodies(n, depth):
    """every body of n statements in total, nested at most depth deep"""
    if n == 0:
        return [()]
    res = []
    for k in range(1, n + 1):
        for s in stmts(k, depth):
            for rest in bodies(n - k, depth):
                res.append((s,) + rest)
    return res


def stmts(n, depth):
    res = ['D'] if n == 1 else []
    if depth == 0 or n < 2:
        return res
    for b in bodies(n - 1, depth - 1):
        res += [('I', b, None), ('W', b), ('F', b)]
    for k in range(1, n - 1):
        for a in bodies(k, depth - 1):
            for b in bodies(n - 1 - k, depth - 1):
                res.append(('I', a, b))
    return res


def more():
    D = ('D',)
    deep = D
    for _ in range(3):
        deep = ('D', ('W', deep), 'D')
    alt = D
    for i in range(3):
        alt = ('D', ('I', alt, ('D', 'D')), 'D') if i % 2 else ('D', ('I', ('D', 'D', 'D'), alt), 'D')
    return [('K', 'D', 'K', 'D', ('W', ('K', 'D')), 'D'), deep, alt, ('D',) * 12, ('D', ('I', ('D',) * 5, ('D',) * 2), 'D', ('W', ('D', 'D')), 'D'),
            tuple(('W', D) for _ in range(5)) + D, ('D', ('I', (), D), 'D', ('I', D, ()), 'D', ('F', ()), 'D'),
            ('D', ('I', (('I', (('I', D, D), 'D'), D), 'D'), D), 'D', 'D')]


def show(b):
    def one(s):
        if isinstance(s, str):
            return 'var' if s == 'D' else 'const'
        if s[0] == 'I':
            return 'if {%s}' % show(s[1]) + (' else {%s}' % show(s[2]) if s[2] is not None else '')
        return ('while' if s[0] == 'W' else 'for') + ' {%s}' % show(s[1])
    return '; '.join(one(s) for s in b)


class Build:
    def __init__(self, p, e, st):
        self.p, self.e, self.st, self.n, self.pairs, self.all, self.fors = p, e, st, 0, set(), [], []

    def name(self, k):
        self.n += 1
        return '%s%d' % (k, self.n)

    def body(self, b, live):
        live = list(live)
        out = []
        p, e, st = self.p, self.e, self.st
        for s in b:
            if s in ('D', 'K'):
                n = self.name('v' if s == 'D' else 'k')
                out.append(p.var(e, st, n, 'e_local', const=int(s == 'K'), expr=p.lit(e, st, 'l:' + n)))
                if s == 'D':
                    self.pairs |= {(x, n) for x in live}
                    live.append(n)
                    self.all.append(n)
                continue
            n = self.name('s')
            blk = lambda q, i: p.block(e, st, 'b%d:%s' % (i, n), self.body(q, live)) if q is not None else ZERO
            c = p.lit(e, st, 'c:' + n)
            if s[0] == 'I':
                out.append(p.node(e, st, n, 'ast_stmt_if_t', expr=c, then_block=blk(s[1], 0), else_block=blk(s[2], 1)))
            elif s[0] == 'W':
                out.append(p.node(e, st, n, 'ast_stmt_while_t', expr=c, body=blk(s[1], 0)))
            else:
                # the loop variable is a local declared before
                v = live[-1] if live else None
                if v is None:
                    v = self.name('v')
                    out.append(p.var(e, st, v, 'e_local'))
                    live.append(v)
                    self.all.append(v)
                out.append(p.node(e, st, n, 'ast_stmt_for_t', decl=O(v), start=c, end=p.lit(e, st, 'd:' + n), body=blk(s[1], 0)))
        return out


def deeper(e):
    e.maxrec, e.MAX_DEPTH = 24, 100


def run(ctx, R):
    p = prewalk.Pre(ctx)
    progs = [b for n in range(1, 5) for b in bodies(n, 3)] + more()
    if os.environ.get('VERIF_TIER') == 'thorough':
        progs += bodies(5, 4)

    def one(b, r):
        r.fn(p.f)
        box = {}

        def mk(e, st):
            box['b'] = q = Build(p, e, st)
            args = [p.var(e, st, 'a%d' % i, 'e_arg') for i in range(2)]
            other = p.func(e, st, 'g', [], [p.var(e, st, 'w%d' % i, 'e_local') for i in range(3)])
            return [other, p.func(e, st, 'f', args, q.body(b, []))]
        e, outs = p.run(mk, deeper)
        q = box['b']
        for o in outs:
            if o.kind != 'ret' or o.st.facts.lossy:
                r.undecided('nested locals', '%s: %s' % (show(b)[:80], o.kind))
                continue
            off = {v: p.int(e, o.st, add(O(v), C(p.fld('ast_decl_var_t', 'offset')))) for v in q.all}
            ss = p.int(e, o.st, add(O('f'), C(p.fld('ast_decl_func_t', 'stack_size'))))
            if ss is None or None in off.values():
                r.undecided('nested locals', '%s: slots' % show(b)[:80])
                continue
            share = sorted(x for x in q.pairs if off[x[0]] == off[x[1]])
            out = sorted(v for v in q.all if not 0 <= off[v] < ss)
            if share:
                r.bad('nested:share', p.f.loc(), 'in a function body "%s" locals number %s and %s are live together and share slot %d' % (
                    show(b), share[0][0][1:], share[0][1][1:], off[share[0][0]]))
            elif out:
                r.bad('nested:outside', p.f.loc(), 'in a function body "%s" a local has slot %d of a frame of %d' % (show(b), off[out[0]], ss))
            else:
                r.ok('locals live together in a nested body have their own slots inside the frame')
    frame.pmap(one, progs, R)
    R.floor('nested bodies', len(progs), 60)
