"""Obligations, reports, evidence and the command-line driver of the checks."""
import importlib, json, multiprocessing, os, shutil, sys, tempfile, time, traceback
import build, ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """what one check established; every entry is plain data so worker processes can return it"""

    def __init__(self):
        self.oks = {}          # rule -> number of obligations discharged
        self.viol = {}         # key -> (site, message)
        self.und = {}          # key -> reason
        self.funcs = set()
        self.samples = []
        self.floors = []

    def ok(self, rule, n=1):
        self.oks[rule] = self.oks.get(rule, 0) + n

    def bad(self, key, site, msg):
        self.viol.setdefault(key, (site, msg))

    def undecided(self, key, why):
        self.und.setdefault(key, str(why))

    def fn(self, f):
        self.funcs.add(f if isinstance(f, str) else f.dem)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, what, got, need):
        """a check that analysed less than `need` instances is not an answer"""
        self.floors.append((what, got, need))

    def merge(self, o):
        for k, v in o.oks.items():
            self.ok(k, v)
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        for k, v in o.und.items():
            self.und.setdefault(k, v)
        self.funcs |= o.funcs
        for s in o.samples:
            self.sample(s)
        self.floors += o.floors


def guard(R, f, *a):
    """run one rule; a shape of code it does not know leaves only this rule open"""
    try:
        return f(*a)
    except Exception:
        import traceback
        R.undecided('internal:%s' % getattr(f, '__name__', f), traceback.format_exc()[-900:])
        return None


class Ctx:
    def __init__(self, prog, tier):
        self.P = prog
        self.tier = tier
        self.memo = {}

    def get(self, key, mk):
        if key not in self.memo:
            self.memo[key] = mk()
        return self.memo[key]

    def vm(self):
        import vmsem
        return self.get('vm', lambda: vmsem.VM(self.P))

    def cg(self):
        import cgsem
        return self.get('cg', lambda: cgsem.CG(self.P))


_job = None


def _work(i):
    f, items = _job
    r = Report()
    try:
        f(items[i], r)
    except ir.Anchor as e:
        r.undecided('anchor:%s' % (items[i],), 'anchor missing: %s' % e)
    except Exception as e:
        if e.__class__.__name__ in ('Explosion', 'RecursionError'):
            r.undecided('budget:%s' % (items[i],), 'analysis budget: %s' % str(e)[:200])
        else:
            r.undecided('internal:%s' % (items[i],), traceback.format_exc()[-600:])
    return r


def pmap(f, items, R):
    """evaluate f(item, report) over items in forked workers; results merged in item order"""
    global _job
    items = list(items)
    if os.environ.get('SA_SERIAL') or len(items) < 2:
        _job = (f, items)
        for i in range(len(items)):
            R.merge(_work(i))
        return
    _job = (f, items)
    ctx = multiprocessing.get_context('fork')
    n = min(8, len(items))
    with ctx.Pool(n) as p:
        for r in p.imap(_work, range(len(items)), chunksize=max(1, len(items) // (n * 8))):
            R.merge(r)


def load_known():
    try:
        return json.load(open(os.path.join(ROOT, 'known_findings.json')))
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def run_check(pid, prog=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + pid.lower())
    tmp = tempfile.mkdtemp(prefix='sa_')
    R = Report()
    status = 0
    note = None
    try:
        try:
            if prog is None:
                prog = ir.Program(sorted(build.build(tmp)), build.REPO)
            try:
                mod.run(Ctx(prog, tier), R)
            except (build.BuildError, KeyboardInterrupt):
                raise
            except Exception as e:
                # a shape of code the analysis does not know: the remaining obligations stay open
                import traceback
                R.undecided('internal', traceback.format_exc()[-900:])
                note = 'analysis incomplete: %s' % (str(e) or type(e).__name__)
                print('UNDECIDED: %s' % note)
        except build.BuildError as e:
            print('ERROR: %s' % e)
            status, note = 2, 'source does not compile'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for what, got, need in R.floors:
        if got < need:
            print('UNDECIDED: only %d %s analysed (expected at least %d)' % (got, what, need))
            note = note or 'fewer instances analysed than expected'
    known = {(k['property'], k['key']): k for k in load_known().get('findings', [])}
    new = []
    for k, (site, msg) in sorted(R.viol.items()):
        kf = known.get((pid, k))
        if kf:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kf['what']))
        else:
            new.append((k, site, msg))
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    if new:
        status = 1
        rp = os.path.join(ev, '%s.violation.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s is violated by the current source tree\n\n' % pid)
            for k, site, msg in new:
                f.write('* %s\n  at %s\n  %s\n\n' % (k, site, msg))
            f.write('re-derive with: SA_VERBOSE=1 python3 %s/sa/check.py %s\n' % (ROOT, pid))
        for k, site, msg in new[:20]:
            print('%s: %s [%s]' % (site, msg, k))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    nd = sum(R.oks.values())
    cov = {
        'explanation': mod.EXPLAIN,
        'obligations': nd + len(R.viol) + len(R.und),
        'discharged': nd,
        'discharged_by_rule': dict(sorted(R.oks.items())),
        'undecided': len(R.und),
        'undecided_items': [{'item': k, 'why': v} for k, v in sorted(R.und.items())][:60],
        'functions_analysed': len(R.funcs),
        'functions': sorted(R.funcs)[:200],
        'instance_floors': [{'what': w, 'measured': g, 'floor': n} for w, g, n in R.floors],
        'samples': R.samples,
    }
    if new:
        cov['violation_details'] = [{'key': k, 'site': s, 'message': m} for k, s, m in new]
    if note:
        cov['error'] = note
    out = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(out, f, indent=1, default=str)
    print('%s: %d obligations discharged, %d violated, %d undecided, %.1f s' %
          (pid, nd, len(new), len(R.und), time.time() - t0))
    if os.environ.get('SA_VERBOSE'):
        groups = {}
        for k, v in sorted(R.und.items()):
            groups.setdefault(v.strip().split('\n')[-1][:160], []).append(k[:70])
        for v, ks in list(groups.items())[:25]:
            print('  undecided x%d %s: %s' % (len(ks), '; '.join(ks[:3]), v))
    return status
