"""C38 a key set that is opened while a command changes it."""
import json
import os
import sys

from .. import env, faults, kzt
from ..core import Family, Violation, explore, require
from ..env import K
from .crypt import RULE
from .registry import prop
from .storage import Scene, scenes

_switch = None

def _hook(event, args):
    global _switch
    if event != 'open' or _switch is None:
        return
    path, mode, flags = args
    if isinstance(path, (str, bytes)) and isinstance(flags, int) and not flags & (os.O_WRONLY | os.O_RDWR):
        fn, _switch = _switch, None
        try:
            fn(os.fsdecode(path))
        finally:
            _switch = fn

_installed = []

def install():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)

def gen_c38(ctx):
    for kind, st, op, enc in scenes(ctx):
        yield kind, st, op, enc

def put(root, dirs, snap):
    """make the tree look like snap"""
    for d in dirs:
        for f in os.listdir(d):
            if os.path.relpath(os.path.join(d, f), root) not in snap:
                os.remove(os.path.join(d, f))
    env.restore(root, snap)

def histories(sc):
    """what is on disk at the points of the command, one after the other; the events; the outcome"""
    out, hit, events = faults.run(sc.root, sc.command, faults.COUNT)
    end = env.snapshot(sc.root)
    sc.reset()
    snaps = [sc.snap]
    for k, (kind, n, path) in enumerate(events):
        for t in [0] + sorted({1, n // 2, n - 1} - {0, n}) if kind == faults.WRITE else [0]:
            r = faults.run(sc.root, sc.command, faults.CRASH, at=k, torn=t)
            require(r[0] == 'crashed', 'the run differs from the counted one')
            snaps.append(env.snapshot(sc.root))
            sc.reset()
    snaps.append(end)
    # points that differ in temporary files only look the same to others
    lasting = set(sc.snap) | set(end)
    points = []
    for s in snaps:
        if not points or {f: d for f, d in s.items() if f in lasting} != {f: d for f, d in points[-1].items() if f in lasting}:
            points.append(s)
    return points, out[0] == 'ok'

def opened(sc, loc, cls):
    rd = K.readers.CreateReader(loc)
    if sc.enc:
        rd = K.readers.EncryptedReader(rd, sc.crypter)
    kz = getattr(K.keyczar, cls)(rd)
    meta = json.loads(str(kz.metadata))
    keys = {v.version_number: env.parse_key(str(kz.GetKey(v))) for v in kz.versions}
    prim = None
    try:
        p = env.parse_key(str(kz.primary_key))
        prim = [n for n in keys if keys[n] == p]
    except K.errors.NoPrimaryKeyError:
        pass
    return {v['versionNumber']: v['status'] for v in meta['versions']}, keys, prim

def expected(stored):
    if stored is None:
        return None
    st = {n: s for n, (s, _) in stored[0]['versions'].items()}
    prim = [n for n in st if st[n] == 'PRIMARY'] or None
    return st, stored[1], prim

def fn_c38(ctx, p):
    global _switch
    install()
    kind, st, op, enc = p
    sc = Scene(kind, st, op, enc)
    label = '%s %s%s on %r' % (kind, op, ' (encrypted)' if enc else '', st)
    points, ok = histories(sc)
    dirs = (sc.loc, sc.dest, sc.cloc)
    loc, classes = sc.loc, ('GenericKeyczar', 'Crypter' if kind in ('aes', 'rsa') else 'Signer')
    before = expected(sc.before)
    if op[0] == 'pubkey':
        loc, classes = sc.dest, ('GenericKeyczar', 'Encrypter' if kind == 'rsa' else 'Verifier')
        before = expected(sc.before_dest)
    put(sc.root, dirs, points[-1])
    after = expected(kzt.stored(loc, sc.crypter))
    require((before != after) == ok, '%s: the command %s', label, 'has no effect' if ok else 'fails and changes the set')
    # which openings may fail: those of a set that is not there yet, and those that meet a key which is removed
    may_fail = ok and (before is None or op[0] == 'revoke')
    if enc and not sc.state:
        may_fail = True            # an empty set, not yet encrypted, is opened with a crypter
    prefix = os.path.realpath(loc) + os.sep
    for cls in classes:
        def run(ch):
            global _switch
            at = [0]
            trail = []
            put(sc.root, dirs, points[0])
            def switch(path):
                if os.path.realpath(path).startswith(prefix):
                    j = at[0] + ch(len(points) - at[0])
                    if j != at[0]:
                        put(sc.root, dirs, points[j])
                        at[0] = j
                    trail.append((os.path.basename(path), j))
            _switch = switch
            try:
                return opened(sc, loc, cls), trail
            except (K.errors.KeyczarError, EnvironmentError) as e:
                return e, trail
            finally:
                _switch = None
        for ch, (got, trail) in explore(run):
            what = '%s, opened as %s meanwhile (%s)' % (label, cls, ', '.join('%s at point %d of %d' % (f, j, len(points) - 1) for f, j in trail))
            if isinstance(got, Exception):
                require(may_fail, '%s: fails with %s %s', what, type(got).__name__, got)
                ctx.ev((cls, tuple(trail)), 'refused')
                continue
            if before is not None and got == before:
                ctx.ev((cls, tuple(trail)), 'before')
            elif after is not None and got == after:
                ctx.ev((cls, tuple(trail)), 'after')
            elif op == ('pubkey', 'reused') and got == (before[0], {**before[1], sc.reused[0]: sc.reused[1]}, before[2]):
                ctx.finding('export-reused-number-open', '%s: the metadata from before with the key %d from after', what, sc.reused[0])
                ctx.ev((cls, tuple(trail)), 'new key with old metadata')
            else:
                raise Violation('%s: neither the set before nor the one after: statuses %r, keys %r, primary %r' % (what, got[0], sorted(got[1]), got[2]))
    sc.drop()

@prop('C38', 'exploration', RULE, 'exhaustive enumeration of the interleavings of the file accesses of an opening with those of a command, on the real code',
      'For 100+ combinations of key type, key-set state and command (encrypted sets included), every state of the files that the command goes through '
      '(before each of its file system calls and inside its writes) is taken from real runs that are stopped there; an opening runs against all '
      'monotone assignments of these states to its own file accesses.',
      ['one command at a time overlaps with the opening; two commands that run at the same time are not covered'], preload=True)
def c38():
    return [Family('openings', gen_c38, fn_c38, 300)]
