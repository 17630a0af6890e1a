"""Running the command-line tool, reading key sets without the package, and the life-cycle model."""
import contextlib
import io
import json
import os
import sys

from . import env
from .env import K

class Pool:
    """RSA and DSA key generation answers with prepared keys first (the library's generator is slow)."""
    def __init__(self, order=0, repeat=0):
        self.order, self.repeat = order, repeat

    def __enter__(self):
        from Crypto.PublicKey import DSA, RSA
        self.mods = [(RSA, RSA.generate), (DSA, DSA.generate)]
        self.rsa = {}
        for k in env.FIX['pool_rsa'] + env.FIX['rsa']:
            if k['size'] != 1024 or k in env.FIX['pool_rsa']:
                self.rsa.setdefault(k['size'], []).append(k)
        self.dsa = list(env.FIX['pool_dsa'])
        for lst in list(self.rsa.values()) + [self.dsa]:
            for _ in range(self.order % len(lst)):
                lst.append(lst.pop(0))
            if self.repeat:
                lst[:] = [k for k in lst for _ in range(self.repeat)]
        def rsa(bits, *a, **kw):
            if self.rsa.get(bits):
                k = self.rsa[bits].pop(0)
                return RSA.construct((k['n'], k['e'], k['d'], k['q'], k['p']))
            return self.mods[0][1](bits, *a, **kw)
        def dsa(bits, *a, **kw):
            if bits == 1024 and self.dsa:
                k = self.dsa.pop(0)
                return DSA.construct((k['y'], k['g'], k['p'], k['q'], k['x']))
            return self.mods[1][1](bits, *a, **kw)
        RSA.generate, DSA.generate = rsa, dsa
        return self

    def __exit__(self, *a):
        for m, f in self.mods:
            m.generate = f

def cli(*argv):
    """Run keyczart. 'ok', 'keyczar' (Keyczar error) or 'error' (any other exception), and the exception."""
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        r = K.keyczart.main(list(argv))
    except K.errors.KeyczarError as e:
        return 'keyczar', e
    except SystemExit as e:
        return ('error', e) if e.code else ('ok', None)
    except Exception as e:
        return 'error', e
    finally:
        sys.stdout = out
    return ('ok', None) if not r else ('error', r)

class Unreadable(Exception):
    pass

def stored(d, crypter=None):
    """The key set stored at d, read without the package's storage code: (meta, {version: key}). None: no set."""
    try:
        text = open(os.path.join(d, 'meta'), 'rb').read()
    except FileNotFoundError:
        return None
    try:
        meta = json.loads(text.decode())
    except ValueError:
        raise Unreadable('metadata of %d bytes is not readable' % len(text))
    keys = {}
    for v in meta['versions']:
        n = v['versionNumber']
        try:
            t = open(os.path.join(d, str(n)), 'rb').read().decode()
        except FileNotFoundError:
            raise Unreadable('key %s of the metadata is missing' % n)
        try:
            if meta['encrypted']:
                if crypter is None:
                    keys[n] = t
                    continue
                t = crypter.Decrypt(t)
            keys[n] = env.parse_key(t)
        except Exception as e:
            raise Unreadable('key %s is not readable: %s' % (n, e))
    meta['versions'] = {v['versionNumber']: (v['status'], v['exportable']) for v in meta['versions']}
    return meta, keys

def statuses(d, crypter=None):
    return {n: s for n, (s, _) in stored(d, crypter)[0]['versions'].items()}

# ---------------------------------------------------------------- the documented life cycle
class Refused(Exception):
    pass

def step(state, op):
    """state: {version: status}. op: ('add', status) | ('promote'|'demote'|'revoke', version)."""
    s = dict(state)
    name, arg = op
    if name == 'add':
        if arg == 'PRIMARY':
            s = {n: 'ACTIVE' if x == 'PRIMARY' else x for n, x in s.items()}
        s[max(s, default=0) + 1] = arg
        return s
    if arg not in s:
        raise Refused()
    st = s[arg]
    if name == 'promote':
        if st == 'PRIMARY':
            raise Refused()
        if st == 'INACTIVE':
            s[arg] = 'ACTIVE'
        else:
            s = {n: 'ACTIVE' if x == 'PRIMARY' else x for n, x in s.items()}
            s[arg] = 'PRIMARY'
    elif name == 'demote':
        if st == 'INACTIVE':
            raise Refused()
        s[arg] = 'ACTIVE' if st == 'PRIMARY' else 'INACTIVE'
    elif name == 'revoke':
        if st != 'INACTIVE':
            raise Refused()
        del s[arg]
    return s

def frozen(state):
    return tuple(sorted(state.items()))

def reachable(top, extra=()):
    """All states with version numbers up to top, with the shortest history of each (breadth first)."""
    start = ()
    seen = {start: ()}
    todo = [start]
    trans = 0
    while todo:
        nxt = []
        for st in todo:
            for op in ops(dict(st), top):
                try:
                    t = frozen(step(dict(st), op))
                except Refused:
                    continue
                if max([n for n, _ in t], default=0) > top:
                    continue
                if t not in seen:
                    seen[t] = seen[st] + (op, )
                    nxt.append(t)
        todo = nxt
    return seen

def ops(state, top, missing=True):
    for s in env.STATUSES:
        yield 'add', s
    for n in range(0 if missing else 1, max(list(state) + [top if missing else 0]) + (2 if missing else 1)):
        for name in ('promote', 'demote', 'revoke'):
            yield name, n

def argv(op, loc, *more):
    name, arg = op
    if name == 'add':
        return ['addkey', '--location=' + loc, '--status=' + arg.lower()] + list(more)
    return [name, '--location=' + loc, '--version=%d' % arg] + list(more)

def api(czar, op, *more):
    name, arg = op
    if name == 'add':
        czar.AddVersion(getattr(K.keyinfo, arg), *more)
    else:
        getattr(czar, name.capitalize())(arg)
