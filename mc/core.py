"""The explorer: runs every case of every family, in parallel, and reports.

A family is an ordered, deterministic enumeration of cases together with the
function that runs one case on the real code and compares it with the oracle.
Every case of every family is run, unless a violation ends the run; the first
violation in enumeration order is written to a replay file.
"""
import collections
import hashlib
import io
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import env

def _load_known():
    known = {}
    with open(os.path.join(env.HERE, 'known_findings.txt')) as f:
        for line in f:
            if line.startswith('known: '):
                _, prop, fid, text = line.rstrip('\n').split(' ', 3)
                known[fid.split('=', 1)[1]] = (prop.split('=', 1)[1], text)
    return known

KNOWN = _load_known()

class Violation(Exception):
    pass

class Hang(BaseException):
    pass

def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)

class Choices:
    """Nondeterministic choices of one execution, replayed from a prefix."""
    def __init__(self, prefix):
        self.prefix, self.trace = prefix, []

    def __call__(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n))
        return c

def explore(run, limit=None):
    """Run `run(choices)` for every sequence of choices (depth-first). Yields (choices, result)."""
    prefix = []
    while True:
        ch = Choices(prefix)
        yield ch, run(ch)
        t = ch.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        prefix = [c for c, _ in t]
        prefix[-1] += 1

class Family:
    def __init__(self, name, gen, fn, limit=100):
        self.name, self.gen, self.fn, self.limit = name, gen, fn, limit

class Ctx:
    """What a case may use: tier, counters."""
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == 'thorough'
        self.counters = collections.Counter()
        self.outcomes = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.scope = ''

    def ev(self, key, outcome='ok'):
        """One evaluation: `key` tells distinct cases apart, `outcome` classifies it."""
        self.counters['evaluations'] += 1
        self.outcomes[outcome] += 1
        self.distinct.add(hash((self.scope, key)))

    def many(self, n, outcome='ok'):
        """n evaluations of inputs that are distinct by construction."""
        self.counters['evaluations'] += n
        self.counters['distinct'] += n
        self.outcomes[outcome] += n

    def finding(self, fid, msg, *args):
        """A violation, unless it is a recorded finding."""
        if fid not in KNOWN:
            raise Violation(msg % args if args else msg)
        self.counters['known finding ' + fid] += 1

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

def _alarm(signum, frame):
    raise Hang()

def _run_case(ctx, fam, idx, params):
    ctx.scope = '%s/%d' % (fam.name, idx)
    env.rng.reset('%d|%s|%d' % (ctx.seed, fam.name, idx))
    before = ctx.counters['evaluations']
    signal.alarm(fam.limit)
    try:
        out = fam.fn(ctx, params)
    finally:
        signal.alarm(0)
    ctx.count('cases')
    if ctx.counters['evaluations'] == before:
        ctx.ev('', str(out) if out is not None else 'ok')
    if idx in (0, 1, 7) and len(ctx.samples) < 6:
        ctx.samples.append('%s #%d: %s -> %s' % (fam.name, idx, repr(params)[:200], str(out)[:80]))

def _describe(e):
    if isinstance(e, Violation):
        return str(e)
    if isinstance(e, Hang):
        return 'operation did not end within the time limit'
    if isinstance(e, MemoryError):
        return 'operation exhausted its memory limit'
    return 'unexpected %s: %s' % (type(e).__name__, str(e)[:300])

def _worker(w, nw, families, ctx, fd):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    sys.stdout = io.StringIO()
    viol = None
    n = 0
    try:
        for fam in families:
            if viol:
                break
            for idx, params in enumerate(fam.gen(ctx)):
                mine = n % nw == w
                n += 1
                if not mine:
                    continue
                if n % 512 == w:
                    sys.stdout.seek(0); sys.stdout.truncate()
                try:
                    _run_case(ctx, fam, idx, params)
                except (Exception, Hang) as e:
                    tb = traceback.format_exc()
                    viol = (n, fam.name, idx, repr(params)[:2000], _describe(e), tb[-4000:])
                    break
    except (Exception, Hang) as e:
        viol = (n, 'enumeration', 0, '', _describe(e), traceback.format_exc()[-4000:])
    finally:
        env.drop_scratch()
    extra = ctx.counters.pop('distinct', 0)
    res = dict(counters=dict(ctx.counters), outcomes=dict(ctx.outcomes), distinct=len(ctx.distinct) + extra,
               samples=ctx.samples, viol=viol)
    with os.fdopen(fd, 'wb') as f:
        pickle.dump(res, f)

def run(prop, families, tier, seed, deadline=None):
    nw = int(os.environ.get('KZ_WORKERS', '0')) or min(8, os.cpu_count() or 4)
    kids = []
    sys.stdout.flush()
    env.open_root()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                _worker(w, nw, families, Ctx(tier, seed), wfd)
            except BaseException:
                traceback.print_exc()
                code = 9
            finally:
                os._exit(code)
        os.close(wfd)
        kids.append((pid, r))
    merged = dict(counters=collections.Counter(), outcomes=collections.Counter(), distinct=0, samples=[], viols=[])
    bufs = {r: b'' for _, r in kids}
    live = set(bufs)
    end = time.time() + deadline if deadline else None
    timed_out = False
    while live:
        left = None if end is None else max(0, end - time.time())
        ready, _, _ = select.select(list(live), [], [], left)
        if not ready and end is not None and time.time() >= end:
            timed_out = True
            for pid, r in kids:
                if r in live:
                    os.kill(pid, signal.SIGKILL)
            end = None
            continue
        for r in ready:
            d = os.read(r, 1 << 20)
            if d:
                bufs[r] += d
            else:
                live.discard(r)
    for i, (pid, r) in enumerate(kids):
        os.waitpid(pid, 0)
        os.close(r)
        if not bufs[r]:
            if not timed_out:
                merged['viols'].append((1 << 60, 'worker', i, '', 'the process running the cases died', ''))
            continue
        res = pickle.loads(bufs[r])
        merged['counters'].update(res['counters'])
        merged['outcomes'].update(res['outcomes'])
        merged['distinct'] += res['distinct']
        merged['samples'] += res['samples']
        if res['viol']:
            merged['viols'].append(res['viol'])
    env.close_root()
    merged['viols'].sort(key=lambda v: v[0])
    merged['timed_out'] = timed_out
    return merged

def replay(prop, families, tier, seed, family, index):
    signal.signal(signal.SIGALRM, _alarm)
    ctx = Ctx(tier, seed)
    env.open_root()
    for fam in families:
        if fam.name == family:
            for idx, params in enumerate(fam.gen(ctx)):
                if idx == index:
                    print('replaying %s %s #%d: %s' % (prop, family, idx, repr(params)[:1000]))
                    try:
                        _run_case(ctx, fam, idx, params)
                    except (Exception, Hang) as e:
                        traceback.print_exc()
                        print('FAILS: ' + _describe(e))
                        return 1
                    finally:
                        env.close_root()
                    print('holds')
                    return 0
    print('no such case')
    return 2
