"""Check driver: builds the dump, runs the analysis of a property, reports violations and writes evidence."""
import importlib
import json
import os
import re
import sys
import time
import traceback

from .terms import *
from .world import World
from .interp import Interp, St, ROOTFR, Giveup
from .models import Models
from . import build

HERE = build.HERE


class Run:
    """result of analysing one root"""
    def __init__(self, name, ip, args, rets, giveup, st0):
        self.name, self.ip, self.args, self.rets, self.giveup, self.st0 = name, ip, args, rets, giveup, st0
        self.log = ip.log

    def limits(self):
        """reasons why this analysis may be less precise than the code"""
        out = []
        if self.giveup:
            out.append('gave up: %s' % self.giveup)
        for n in self.ip.unknown_calls:
            if not BENIGN.search(n):
                out.append('no model for ' + n)
        for (w, where) in self.ip.notes:
            out.append('%s in %s' % (w, where))
        return out

    def panics(self):
        return [o for o in self.log if o.kind == 'panic']


BENIGN = re.compile(r'opaque_|see_|std::io::Error as std::fmt|drop_in_place')


def _seq_of(k):
    def p(W, t):
        e = W.seq_elem(t)
        return e is not None and (W.T[e]['k'] == 'float' if k == 'float' else (W.adt(e) or '').endswith(k))
    return p


def _named(n):
    return lambda W, t: (W.adt(t) or '').endswith(n)


FIELD_TYPES = {
    'motion_values': _seq_of('float'), 'joints': _seq_of('JointData'),
    'num_channels': lambda W, t: W.T[t]['k'] == 'uint', 'index': lambda W, t: W.T[t]['k'] == 'uint',
    'frame_time': _named('Duration'), 'bvh': lambda W, t: W.T[t]['k'] == 'ref',
}


class Ctx:
    def __init__(self, dump):
        self.W = World(dump)
        self.M = Models(self.W)
        self.runs = 0
        self.fns = set()
        self.steps = 0
        self._cache = {}
        self.gaveup = []

    def analyse(self, root, setup=None, watch=None, hooks=None, special=None, cfg=None, budget=60000, cache=True):
        ck = (root, setup, special is not None)
        if cache and watch is None and hooks is None and ck in self._cache:
            return self._cache[ck]
        W = self.W
        if root not in W.roots:
            raise KeyError('harness root %s missing' % root)
        key = W.roots[root]
        ip = Interp(W, self.M)
        ip.budget = budget
        if watch:
            ip.watch.update(watch)
        if hooks:
            ip.hooks.update(hooks)
        if special:
            ip.special.update(special)
        if cfg:
            cfg(ip)
        b = W.body(key)
        st = St()
        args = [W.symval(('arg', root, i), b.locals[i + 1]) for i in range(b.argc)]
        if setup:
            args = setup(self, ip, st, args) or args
        st0 = st.copy()
        rets, g = [], None
        try:
            rets = ip.call_fn(st, key, args, ROOTFR, ())
        except Giveup as e:
            g = str(e)
        except (RecursionError, MemoryError) as e:
            g = 'internal limit: %s' % type(e).__name__
        except Exception as e:      # a construct the interpreter does not handle: nothing is concluded from this run
            if os.environ.get('SA_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            g = 'internal: %s %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
        if g:
            self.gaveup.append('%s: %s' % (root, g))
        self.gaveup += ['%s: no model for %s' % (root, n) for n in ip.unknown_calls if not BENIGN.search(n)]
        self.runs += 1
        self.steps += ip.steps
        self.fns |= set(W.F[k]['path'] for k in ip.fnseen if W.F[k]['crate'] == 'bvh_anim')
        r = Run(root, ip, args, rets, g, st0)
        if cache and watch is None and hooks is None:
            self._cache[ck] = r
        return r

    # helpers on values
    def fld(self, st, ip, v, *names):
        """named field projection through structs and references"""
        W = self.W
        for n in names:
            while v.k == 'ref':
                v = ip.deref(st, v)
            if v.k == 'sym':
                v = W.expand(v)
            if v.k != 'agg' or not v.a[2]:
                return TOP
            j = self.field(v.a[0], n) if isinstance(n, str) else n
            if j is None or j >= len(v.a[2][0][1]):
                return TOP
            v = v.a[2][0][1][j]
        return st.f.norm(v) if v is not TOP else v

    def field(self, ty, name):
        """position of a private field; when it was renamed, the only field of the type it has to have"""
        W = self.W
        fs = [n for n, t in W.T[ty]['v'][0]['f']]
        if name in fs:
            return fs.index(name)
        p = FIELD_TYPES.get(name)
        if p is None:
            return None
        c = [i for i, (n, t) in enumerate(W.T[ty]['v'][0]['f']) if p(W, t)]
        return c[0] if len(c) == 1 else None

    def variant(self, st, v):
        """(variant name, fields) of an enum value, or (None, None) when not determined"""
        W = self.W
        if v.k == 'sym':
            v = W.expand(v)
        if v.k != 'agg':
            return None, None
        d = cval(st.f.norm(v.a[1]))
        if d is None:
            return None, None
        vi = W.variant_of(v.a[0], d)
        nm = W.T[v.a[0]]['v'][vi]['n'].split('::')[-1]
        for i, fs in v.a[2]:
            if i == vi:
                return nm, fs
        return nm, ()


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.counts = {}
        self.notes = []
        self.samples = []
        self.level = 'other'
        self.rule = ''
        self.ctx = None

    def ob(self, key, good, detail='', limits=()):
        """one obligation.  good: True (discharged) / False or None (not discharged)"""
        if good is True:
            s = 'ok'
        elif limits:
            s = 'undecided'
            self.notes.append('%s undecided: %s' % (key, '; '.join(list(limits)[:3])))
        else:
            s = 'bad'
        self.obs.append((key, s, detail))
        return s

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, least):
        """vacuity guard: an analysis that met fewer instances than this is not a pass"""
        n = self.counts.get(what, 0)
        self.ob('floor|' + what, n >= least, 'only %d %s analysed, at least %d expected' % (n, what, least),
                self.ctx.gaveup if self.ctx else ())


def nearest(o):
    """the analysed crate's innermost function on the call chain of an obligation"""
    for p in reversed(o.chain + (o.fn,)):
        if 'bvh_anim' in p:
            return p
    return o.fn


def check_panics(rep, run, allow=None):
    """every panic site met must be discharged (its condition entailed on every abstract path)"""
    groups = {}
    for o in run.panics():
        k = (nearest(o), o.what)
        g = groups.setdefault(k, [True, None])
        if o.ok is not True:
            if allow and allow(run, o):
                rep.count('panic paths allowed by the contract')
                continue
            g[0] = False
            g[1] = o
    for (fn, what), (good, o) in sorted(groups.items()):
        rep.count('panic sites')
        rep.ob('%s|%s|%s' % (run.name, fn, what), good,
               '' if good else 'may panic (%s) at %s via %s' % (what, o.line, ' > '.join(o.chain[-4:])), run.limits() if not good else ())
    rep.ob('%s|analysed' % run.name, run.giveup is None, str(run.giveup), [run.giveup] if run.giveup else ())


def parallel(ctx, rep, jobs):
    """runs jobs(ctx, report) in processes of their own and gathers what they report"""
    import pickle
    from multiprocessing import get_context
    from multiprocessing.connection import wait

    def child(job, conn):
        sub = Report(rep.pid)
        sub.ctx = ctx
        ctx.fns, ctx.runs, ctx.steps, ctx.gaveup = set(), 0, 0, []
        try:
            job(ctx, sub)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            sub.ob('complete', None, str(e), ['internal: %s %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)])
        conn.send_bytes(pickle.dumps((sub.obs, sub.counts, sub.notes, ctx.fns, ctx.runs, ctx.steps, ctx.gaveup)))
        conn.close()

    mp = get_context('fork')
    todo = list(enumerate(jobs))[::-1]
    live, out = {}, [None] * len(jobs)
    while todo or live:
        while todo and len(live) < (os.cpu_count() or 4):
            i, job = todo.pop()
            c, d = mp.Pipe(False)
            p = mp.Process(target=child, args=(job, d))
            p.start()
            d.close()
            live[c] = (i, p)
        for c in wait(list(live)):
            i, p = live.pop(c)
            try:
                out[i] = pickle.loads(c.recv_bytes())
            except EOFError:
                pass
            c.close()
            p.join()
    for d in out:
        if d is None:
            rep.ob('complete', None, 'a process ended early', ['internal: a process ended early'])
            continue
        obs, counts, notes, fns, runs, steps, gave = d
        rep.obs += obs
        for k, n in counts.items():
            rep.count(k, n)
        rep.notes += [n for n in notes if n not in rep.notes]
        ctx.fns |= fns
        ctx.runs += runs
        ctx.steps += steps
        ctx.gaveup += gave


def known():
    p = os.path.join(HERE, 'known_findings.txt')
    out = set()
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) key=(.*?)(?: :: .*)?$', l)
                if m:
                    out.add((m.group(1), m.group(2)))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    t0 = time.time()
    props = importlib.import_module('sa.props').PROPS
    fn = props[pid]
    rep = Report(pid)
    path = None
    try:
        path = build.dump()
        ctx = Ctx(path)
        ctx.tier = tier
        rep.ctx = ctx
        try:
            fn(ctx, rep)
        except Exception as e:      # the specification code met a value shape it does not handle
            if os.environ.get('SA_DEBUG'):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.ob('complete', False, str(e), ['internal: %s %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)])
    except build.BuildError as e:
        print(str(e))
        return 2
    finally:
        if path and os.path.exists(path):
            os.remove(path)
    kn = known()
    viol, found = [], []
    seen = set()
    for key, s, detail in rep.obs:
        if s == 'bad' and key not in seen:
            seen.add(key)
            if (pid, key) in kn:
                found.append((key, detail))
            else:
                viol.append((key, detail))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    n = len(rep.obs)
    disc = sum(1 for _, s, _ in rep.obs if s == 'ok')
    cov = {
        'explanation': rep.rule or (fn.__doc__ or '').strip(),
        'obligations': n, 'discharged': disc,
        'undecided': sum(1 for _, s, _ in rep.obs if s == 'undecided'),
        'roots_analysed': ctx.runs, 'abstract_blocks_executed': ctx.steps,
        'functions_analysed': sorted(ctx.fns), 'counts': rep.counts,
        'sample_obligations': [k for k, s, _ in rep.obs[:60]],
        'checker_cmd': 'python3 -m sa %s %s' % (pid, tier),
        'trusted_base': ['rustc front end and MIR construction', 'the MIR extractor in driver/',
                         'the abstract interpreter in sa/', 'the transfer functions for library calls in sa/models.py, sa/iters.py, sa/textio.py'],
    }
    d = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': rep.level,
         'coverage': cov, 'assumptions': rep.notes[:40], 'wall_s': round(time.time() - t0, 2),
         'violations': len(viol)}
    if not d['assumptions']:
        d.pop('assumptions')
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
    for k, dt in found:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, k, dt))
    if viol:
        rp = os.path.join(ev, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, dt in viol:
                f.write('%s :: %s\n' % (k, dt))
        for k, dt in viol[:20]:
            print('  %s :: %s' % (k, dt))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (pid, n, disc, cov['undecided'], time.time() - t0))
    for x in rep.notes[:10]:
        print('  note: ' + x[:300])
    return 0
