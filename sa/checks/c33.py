"""C33: the command line tools report what became of the program."""
import itertools, os
import frame, opsem, stdmodel
import eng as E
from sema import O
from terms import *
from thr import flat

EXPLAIN = (
    'The main functions of the driver and of the compiler tool are analysed path by path on LLVM IR for command lines of up to three '
    'arguments, with every phase (loading, building, finding main, initialising, running) succeeding or failing and every kind of '
    'result: the exit status is zero exactly when everything succeeded, nothing is built or run after a failure, sources are loaded in the order '
    'given, the globals are initialised before main, builtins are bound before anything runs, the value returned by main is '
    'the one that is printed, and each option of the compiler tool has its own effect and no other.')


def mains(P):
    out = {}
    for m in P.mods:
        f = m.fns.get('main')
        file = f.src()[0] if f is not None else None
        if file and P.in_repo(f):
            out[os.path.basename(os.path.dirname(file))] = f
    return out


class Run:
    def __init__(self, ctx, f, argv, res=None, extra=None):
        P = self.P = ctx.P
        e = self.e = E.Engine(P)
        e.join = False
        e.unroll = 10
        vt = P.enum('nano::value_type_t')

        def nop(eng, s, fr, x, f, a):
            return [(ZERO, s)]

        def ev(name, arg=None):
            def h(eng, s, fr, x, f, a):
                s.emit('ev', name, a[arg] if arg is not None else None, None)
                return [(ZERO, s)]
            return h

        def phase(name, arg=None, text=False, then=None):
            def h(eng, s, fr, x, f, a):
                v = a[arg] if arg is not None else None
                if name == 'build' and is_lin(a[0]):
                    v = eng.load_raw(s, add(a[0], C(P.field('nano::nano_t', 'optimize'))), 1, 'i')
                if text:
                    v = stdmodel.sconst(stdmodel.scontent(eng, s, v)) if is_lin(v) else None
                out = []
                for r in (1, 0):
                    q = s.copy()
                    q.emit('ev', name, v, r)
                    if r and then:
                        then(eng, q, a)
                    out.append((C(r) if name != 'find' else (O('MAINFN') if r else ZERO), q))
                return out
            return h

        def result(eng, q, a):
            # call_once(this, func, argc, argv, result, error)
            eng.store_raw(q, a[4], 8, ZERO if res == 'null' else O('RES'))

        def count(eng, s, fr, x, f, a):
            return [(C(sum(1 for t in flat(s.trace) if t[0] == 'ev' and t[1] == 'load' and t[3])), s)]
        N = 'nano::'
        e.hook(N + 'source_manager_t::load', phase('load', 1))
        e.hook(N + 'source_manager_t::count', count)
        e.hook(N + 'nano_t::build', phase('build'))
        e.hook(N + 'nano_t::nano_t', self.newnano)
        for n in ('nano_t::~nano_t', 'program_t::program_t', 'program_t::~program_t', 'vm_t::vm_t', 'vm_t::~vm_t', 'source_manager_t::~source_manager_t',
                  'source_manager_t::source_manager_t', 'program_t::serial_save', 'builtins_register', 'nano_t::syscall_register', 'error_t::~error_t'):
            e.hook(N + n, nop)
        e.hook(N + 'builtins_resolve', ev('bind'))
        e.hook(N + 'program_t::syscall_resolve', ev('bind'))
        e.hook(N + 'program_t::function_find', phase('find', 1, True))
        e.hook(N + 'vm_t::call_init', phase('init'))
        e.hook(N + 'vm_t::call_once', phase('run', 1, then=result))
        def fopen(eng, s, fr, x, f, a):
            c = stdmodel.cview(eng, s, a[0]) if is_lin(a[0]) else None
            k = sum(1 for t in flat(s.trace) if t[0] == 'ev' and t[1] == 'open')
            out = []
            for r in (O('FILE:%d' % k), ZERO):
                q = s.copy()
                q.emit('ev', 'open', c, r)
                out.append((r, q))
            return out

        def fwrite(eng, s, fr, x, f, a):
            s.emit('ev', 'write', tuple(a), None)
            eng.observe(s, 'libc', fr, x, name='fwrite', args=a)
            return [(a[2], s)]
        # the parts of a driver that runs its program in slices
        def has_error(eng, s, fr, x, f, a):
            out = []
            for r in (1, 0):
                q = s.copy()
                q.emit('ev', 'run', None, r)
                out.append((C(1 - r), q))
            return out

        def resume(eng, s, fr, x, f, a):
            out = [(ZERO, s)]
            k = sum(1 for t in flat(s.trace) if t[0] == 'ev' and t[1] == 'resume')
            if k < 2:
                q = s.copy()
                q.emit('ev', 'resume', None, None)
                out.append((ONE, q))
            return out

        def sdlinit(eng, s, fr, x, f, a):
            q = s.copy()
            q.emit('ev', 'sdl', None, 0)
            return [(ZERO, s), (ONE, q)]
        e.hook(N + 'vm_t::has_error', has_error)
        e.hook(N + 'vm_t::resume', resume)
        e.hook(N + 'vm_t::new_thread', phase('thread', 1))
        e.hook('SDL_Init', sdlinit)
        e.hook('SDL_GetTicks', lambda eng, s, fr, x, f, a: [(C(1000), s)])
        e.hook('SDL_PollEvent', nop)
        e.hook('SDL_Quit', nop)
        e.hook('fopen', fopen)
        e.hook('fwrite', fwrite)
        e.hook(N + 'program_t::data', lambda eng, s, fr, x, f, a: [(O('CODE'), s)])
        e.hook(N + 'program_t::size', lambda eng, s, fr, x, f, a: [(A('input', 'codesize'), s)])
        e.hook(N + 'disassembler_t::dump', ev('dis', 2))
        e.hook(N + 'ast_t::dump', ev('ast', 1))

        def obs(eng, st, kind, fr, ins, kw):
            if kind == 'libc':
                st.emit('libc', kw['name'], tuple(kw['args']), None)
        e.obs.append(obs)
        st = E.St()
        av = O('ARGV')
        for i, t in enumerate(argv):
            e.store_raw(st, add(av, C(8 * i)), 8, O('ARG:' + t))
            for k, ch in enumerate(t + '\0'):
                e.store_raw(st, add(O('ARG:' + t), C(k)), 1, C(ord(ch)))
        if res not in (None, 'null'):
            ro = O('RES')
            opsem.put(P, e, st, ro, 'nano::value_t', type_=C(vt['val_type_' + res]), v=A('input', 'payload'))
        self.f = f
        if extra:
            extra(e)
        self.outs = e.call_fn(f, [C(len(argv)), av], st)

    def newnano(self, eng, s, fr, x, f, a):
        P = self.P
        if is_lin(a[0]):
            eng.store_raw(s, add(a[0], C(P.field('nano::nano_t', 'optimize'))), 1, ONE)
            eng.store_raw(s, add(a[0], C(P.field('nano::nano_t', 'ast_'))), 8, O('AST'))
        return [(ZERO, s)]

    def paths(self):
        """(events, exit status or None, state, Out)"""
        for o in self.outs:
            tr = list(flat(o.st.trace))
            code = None
            if o.kind == 'ret' and is_lin(o.val):
                code = o.st.const(o.val)
            elif o.kind == 'abort':
                x = [t for t in tr if t[0] == 'libc' and t[1] == 'exit']
                if not x:
                    continue
                code = o.st.const(x[-1][2][0]) if is_lin(x[-1][2][0]) else None
            yield [t for t in tr if t[0] == 'ev'], code, o.st, tr


def text(v):
    a = single(v) if is_lin(v) else None
    return a.args[0][4:] if a is not None and a.kind == 'obj' and str(a.args[0]).startswith('ARG:') else None


STEPS = ('build', 'init', 'run', 'thread', 'resume')


def common(r, f, tool, argv, evs, code, st, need):
    """rules both tools obey"""
    lab = '%s %s' % (tool, ' '.join(argv[1:]))
    if st.facts.lossy:
        r.undecided(tool, lab)
        return False
    fails = [t[1] for t in evs if t[3] == 0]
    done = [t[1] for t in evs if t[3] == 1]
    srcs = [t for t in argv[1:] if not t.startswith('-')]
    ok = not fails and all(n in done for n in need) and srcs
    if code is None:
        r.undecided(tool + ' status', lab)
    elif (code & 255 == 0) == bool(ok):
        r.ok('exit status tells the outcome')
    elif ok:
        r.bad(tool + ':status', f.loc(), '%s ends with status %d although nothing failed' % (lab, code))
    else:
        r.bad(tool + ':status', f.loc(), '%s ends with status %d although %s' % (
            lab, code, 'it could not %s' % fails[0] if fails else 'no source was given' if not srcs else 'it never got to %s' % [n for n in need if n not in done][0]))
    for i, t in enumerate(evs):
        if t[3] == 0 and any(u[1] in STEPS for u in evs[i + 1:]):
            r.bad(tool + ':goeson', f.loc(), '%s goes on to %s after it could not %s' % (lab, [u[1] for u in evs[i + 1:] if u[1] in STEPS][0], t[1]))
            break
    else:
        r.ok('nothing happens after a failure')
    lo = [text(t[2]) for t in evs if t[1] == 'load']
    if None in lo:
        r.undecided(tool + ' sources', lab)
    elif lo == srcs[:len(lo)] and (len(lo) == len(srcs) or fails or 'build' not in done):
        r.ok('sources loaded in order')
    else:
        r.bad(tool + ':sources', f.loc(), '%s loads %s' % (lab, lo))
    return True


def driver(ctx, R):
    ms = mains(ctx.P)
    f = ms.get('driver')
    R.floor('driver main', int(f is not None), 1)
    if f is None:
        return
    vt = [k[len('val_type_'):] for k in ctx.P.enum('nano::value_type_t') if k.startswith('val_type_')]
    jobs = [(a, 'int') for a in (['drv'], ['drv', 'a.nano'], ['drv', 'a.nano', 'b.nano'], ['drv', 'a', 'b', 'c'])]
    jobs += [(['drv', 'a.nano'], k) for k in vt if k not in ('int', 'user')] + [(['drv', 'a.nano'], 'null')]
    VO = {n: ctx.P.field('nano::value_t', n) for n in ('v', 'f')}

    def one(j, r):
        argv, kind = j
        r.fn(f)
        run = Run(ctx, f, argv, kind)
        some = False
        for evs, code, st, tr in run.paths():
            some = True
            if not common(r, f, 'driver', argv, evs, code, st, ('build', 'find', 'init', 'run')):
                continue
            names = [t[1] for t in evs]
            for t in evs:
                if t[1] == 'find' and t[2] is not None and t[2] != 'main':
                    r.bad('driver:entry', f.loc(), 'the driver looks for the function "%s"' % t[2])
            if 'run' in names:
                k = names.index('run')
                if 'init' not in names[:k]:
                    r.bad('driver:init', f.loc(), 'the driver runs main before the globals are initialised')
                elif 'bind' in names[names.index('init'):]:
                    r.bad('driver:bind', f.loc(), 'the driver binds builtins after it has started the program')
                else:
                    r.ok('bound and initialised before it runs')
                if evs[k][2] not in (O('MAINFN'), None):
                    r.undecided('driver entry', 'function')
                if evs[k][3] == 1 and kind in ('int', 'string', 'float'):
                    after = [t for t in tr if t[0] == 'libc' and t[1] in ('printf', 'fprintf')]
                    args = [x for t in after for x in t[2][1:]]
                    vals = {'int': [A('input', 'payload')], 'string': [add(O('RES'), C(ctx.P.cls('nano::value_t').size))], 'float': None}[kind]
                    if vals is None:
                        hit = any(is_lin(x) and any(a.kind in ('input', 'ld') for a in atoms_of(x)) for x in args)
                    else:
                        hit = any(x in vals for x in args)
                    direct = [x for x in args if is_lin(x)]
                    if hit:
                        r.ok('the value returned by main is printed')
                    elif not any(t[0] == 'libc' and t[1] in ('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fwrite') for t in tr):
                        r.bad('driver:result', f.loc(), 'the driver does not print the %s that main returned' % kind)
                    elif len(direct) < len(args) or any(t[0] == 'libc' and t[1] in ('puts', 'fputs', 'fwrite', 'vfprintf') for t in tr):
                        r.undecided('driver result', kind)
                    elif kind == 'int' and any(st.const(x) is None and any(a is A('input', 'payload')[1][0][0] for a in atoms_of(x)) for x in direct):
                        r.bad('driver:result', f.loc(), 'the driver prints another value than main returned')
                    else:
                        r.undecided('driver result', kind)
        if not some:
            r.undecided('driver', ' '.join(argv))
    frame.pmap(one, jobs, R)


EXT = {'-a': 'ast', '-d': 'dis', '-b': 'bin'}
WHAT = {'-a': 'syntax tree', '-d': 'disassembly', '-b': 'binary'}


def ext(c):
    """the extension a file name ends in"""
    a = single(c) if is_lin(c) else None
    while a is not None and a.kind == 'cat':
        a = a.args[-1] if not is_lin(a.args[-1]) else single(a.args[-1])
    t = a.args[0] if a is not None and a.kind == 'slit' else None
    t = t.decode('latin1') if isinstance(t, bytes) else t
    return t.rsplit('.', 1)[1] if t is not None and '.' in t else None


def outputs(r, f, argv, evs, tr):
    """each option writes its own output to its own file"""
    lab = ' '.join(argv)
    other = any(t[0] == 'libc' and t[1] in ('fputc', 'putc', 'fputs', 'fprintf', 'vfprintf') for t in tr) or any(
        t[0] in ('call', 'ext', 'unknown') for t in tr)
    files = {t[3]: ext(t[2]) for t in evs if t[1] == 'open' and t[3] != ZERO}
    failed = any(t[1] == 'open' and t[3] == ZERO for t in evs)
    for x in files.values():
        if x is None:
            r.undecided('comp file', lab)
        elif x not in [EXT[o] for o in EXT if o in argv]:
            r.bad('comp:file', f.loc(), '%s creates a file .%s without being asked' % (lab, x))
        else:
            r.ok('only the files asked for are created')
    sink = {'-a': [t[2] for t in evs if t[1] == 'ast'], '-d': [t[2] for t in evs if t[1] == 'dis'],
            '-b': [t[2][3] for t in evs if t[1] == 'write']}
    for o in EXT:
        if sink[o] and o not in argv:
            r.bad('comp:' + o, f.loc(), '%s emits the %s without being asked' % (lab, WHAT[o]))
            continue
        if o not in argv:
            r.ok('output %s only when asked for' % o)
            continue
        if not sink[o]:
            if failed:
                continue
            if other or None in files.values():
                r.undecided('comp ' + o, lab)
            else:
                r.bad('comp:' + o, f.loc(), '%s does not emit the %s' % (lab, WHAT[o]))
            continue
        for x in sink[o]:
            k = files.get(x)
            if k is None:
                if x == ZERO:
                    r.bad('comp:null' + o, f.loc(), '%s writes the %s to a file that could not be opened' % (lab, WHAT[o]))
                else:
                    r.undecided('comp ' + o, 'file')
            elif k == EXT[o]:
                r.ok('output %s in its own file' % o)
            else:
                r.bad('comp:into' + o, f.loc(), '%s writes the %s to the file .%s' % (lab, WHAT[o], k))
    w = [t[2] for t in evs if t[1] == 'write']
    if len(w) == 1:
        d, n, m = w[0][:3]
        size = A('input', 'codesize')
        got = n if m == ONE else m if n == ONE else None
        if d == O('CODE') and got == size:
            r.ok('the binary is the code of the program')
        elif d == O('CODE') and got is not None and set(atoms_of(got)) <= set(atoms_of(size)):
            r.bad('comp:code', f.loc(), '%s does not write as many bytes as the program has' % lab)
        elif is_lin(d) and set(atoms_of(d)) == set(atoms_of(O('CODE'))) and d != O('CODE'):
            r.bad('comp:code', f.loc(), '%s does not write the code from its start' % lab)
        else:
            r.undecided('comp binary', lab)
    elif w:
        r.undecided('comp binary', lab)


def tool(ctx, R):
    f = mains(ctx.P).get('comp')
    R.floor('compiler main', int(f is not None), 1)
    if f is None:
        return
    P = ctx.P
    opts = ['-n', '-a', '-d', '-b']
    jobs = [['comp'], ['comp', 'a.nano'], ['comp', 'a.nano', 'b.nano']] + [['comp', 'a.nano', o] for o in opts]
    jobs += [['comp', 'a.nano', x, y] for x, y in itertools.permutations(opts, 2)] + [['comp', '-n', 'a.nano']]

    def one(argv, r):
        r.fn(f)
        run = Run(ctx, f, argv)
        e = run.e
        some = False
        for evs, code, st, tr in run.paths():
            some = True
            if not common(r, f, 'comp', argv, evs, code, st, ('build',)):
                continue
            if not any(t[1] == 'build' and t[3] for t in evs):
                continue
            nn = [t[2] for t in evs if t[1] == 'build']
            if len(nn) == 1:
                v = st.const(nn[0]) if is_lin(nn[0]) else None
                if v is None:
                    r.undecided('comp -n', ' '.join(argv))
                elif bool(v) == ('-n' not in argv):
                    r.ok('optimisation as asked for')
                else:
                    r.bad('comp:n', f.loc(), '%s compiles %s optimisation' % (' '.join(argv), 'with' if v else 'without'))
            outputs(r, f, argv, evs, tr)
        if not some:
            r.undecided('comp', ' '.join(argv))
    frame.pmap(one, jobs, R)


def sdl(ctx, R):
    f = mains(ctx.P).get('driver_sdl')
    if f is None:
        return      # not compiled: no headers of SDL here

    def one(argv, r):
        r.fn(f)
        run = Run(ctx, f, argv)
        some = False
        for evs, code, st, tr in run.paths():
            some = True
            if not common(r, f, 'driver_sdl', argv, evs, code, st, ('build', 'find', 'init', 'thread', 'run')):
                continue
            names = [t[1] for t in evs]
            for t in evs:
                if t[1] == 'find' and t[2] is not None and t[2] != 'main':
                    r.bad('driver_sdl:entry', f.loc(), 'the driver looks for the function "%s"' % t[2])
            if 'thread' in names:
                k = names.index('thread')
                if 'init' not in names[:k]:
                    r.bad('driver_sdl:init', f.loc(), 'the driver starts main before the globals are initialised')
                elif 'bind' in names[names.index('init'):]:
                    r.bad('driver_sdl:bind', f.loc(), 'the driver binds builtins after it has started the program')
                else:
                    r.ok('bound and initialised before it runs')
        if not some:
            r.undecided('driver_sdl', ' '.join(argv))
    frame.pmap(one, [['drv'], ['drv', 'a.nano'], ['drv', 'a.nano', 'b.nano'], ['drv', 'a', 'b', 'c']], R)


def run(ctx, R):
    frame.guard(R, sdl, ctx, R)
    frame.guard(R, driver, ctx, R)
    frame.guard(R, tool, ctx, R)
