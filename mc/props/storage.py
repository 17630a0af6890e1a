"""C09 storage round trip, C10 crashes, C11 failing file operations, C23 encrypted sets, C32 back ends."""
import errno
import io
import itertools
import json
import os
import stat
import sys

from .. import env, faults, inputs, kzt, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .lifecycle import (DEFAULT, NAMES, PUB, SUPPORTED, TYPES, build, check_export, leaks, more, relations, secrets_of, usable)
from .registry import prop
from .sign import key_id

TYPE_NAME = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV', 'rsa': 'RSA_PRIV', 'rsa-sign': 'RSA_PRIV'}

# ---------------------------------------------------------------- scenarios for C10, C11, C23
class Scene:
    """A tree with a key set (location), a crypter and an export destination, and one command on it."""
    def __init__(self, kind, state, op, enc=False, ctx=None, finding=None):
        self.ctx, self.finding = ctx, finding
        self.kind, self.state, self.op, self.enc = kind, state, op, enc
        self.root = env.fresh_dir()
        self.loc, self.dest, self.cloc = (os.path.join(self.root, n) for n in ('loc', 'dest', 'crypter'))
        for d in (self.loc, self.dest, self.cloc):
            os.mkdir(d)
        build(self.cloc, 'aes', ((1, 'PRIMARY'), ))
        self.crypter = env.crypter(env.FIX['aes'][0]) if enc else None
        purpose, raw, _ = TYPES[kind]
        if state is not None:
            r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(state)], purpose, encrypted=bool(enc and state),
                           encrypt=self.crypter.Encrypt if enc else None)
            r.meta['type'] = TYPE_NAME[kind]
            env.write_keyset(self.loc, r)
        if op[0] == 'pubkey' and op[1] == 'again':
            # an earlier export of the set, when it had one key less and other statuses
            r = env.keyset([(n, 'ACTIVE', raw(i)) for i, (n, s) in enumerate(state[:-1])], PUB[kind][0], public=True)
            r.meta['type'] = PUB[kind][1]
            env.write_keyset(self.dest, r)
        if op[0] == 'pubkey' and op[1] == 'reused':
            # an earlier export, from when the last number belonged to a key that was revoked since
            for last in (len(state) - 1, len(state)):
                r = env.keyset([(n, 'ACTIVE', raw(i if i < len(state) - 1 else last)) for i, (n, s) in enumerate(state)], PUB[kind][0], public=True)
                r.meta['type'] = PUB[kind][1]
                env.write_keyset(self.dest, r)
                if last < len(state):
                    self.reused = state[-1][0], kzt.stored(self.dest)[1][state[-1][0]]
        self.snap = env.snapshot(self.root)
        self.before = kzt.stored(self.loc, self.crypter)
        self.before_dest = kzt.stored(self.dest)

    def reset(self):
        for d in (self.loc, self.dest, self.cloc):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
        env.restore(self.root, self.snap)

    def drop(self):
        env.rmdir(self.root)

    def argv(self):
        op = self.op
        if op[0] == 'create':
            return ['create', '--location=' + self.loc, '--name=Test'] + TYPES[self.kind][2]
        if op[0] == 'pubkey':
            return ['pubkey', '--location=' + self.loc, '--destination=' + self.dest]
        return kzt.argv(op[:2], self.loc, *((more(self.kind) if op[0] == 'add' else []) +
                                            (['--crypter=' + self.cloc] if self.enc else [])))

    def command(self):
        """run it; ('ok',) or the exception is raised"""
        with kzt.Pool(order=3):
            res, e = kzt.cli(*self.argv())
        if res == 'ok':
            return ('ok', )
        return ('raised', type(e).__name__, str(e)[:200])

    def model_after(self, before):
        """statuses after the command on a set with these statuses; None: refused"""
        op = self.op
        if op[0] == 'create':
            return {} if before is None else None
        if before is None:
            return None
        if op[0] == 'pubkey':
            return before
        try:
            return kzt.step(before, op[:2])
        except kzt.Refused:
            return None

    def matches(self, got, want, base):
        """is the stored set the set `base` with statuses `want`? a reason if not"""
        if want is None or got is None:
            return None if (want is None) == (got is None) else 'set %s' % ('missing' if got is None else 'present')
        meta, keys = got
        st = {n: s for n, (s, _) in meta['versions'].items()}
        if st != want:
            return 'statuses %r' % st
        name, purpose, typ, encd = 'Test', TYPES[self.kind][0], TYPE_NAME[self.kind], bool(self.enc and want)
        if (meta['name'], meta['purpose'], meta['type'], meta['encrypted']) != (name, purpose, typ, encd):
            return 'metadata %r' % {k: meta[k] for k in ('name', 'purpose', 'type', 'encrypted')}
        for n in want:
            if base is not None and n in base[1]:
                if keys[n] != base[1][n]:
                    return 'key %d differs' % n
            else:
                relations(self.kind, keys[n], 1024 if self.kind in ('rsa', 'rsa-sign') else DEFAULT[self.kind])
        return None

    def read_back(self):
        got = kzt.stored(self.loc, self.crypter)
        if got is not None:
            rd = K.readers.CreateReader(self.loc)
            if self.enc and got[0]['encrypted']:
                rd = K.readers.EncryptedReader(rd, self.crypter)
            K.keyczar.GenericKeyczar(rd)
        return got

    def judge(self, what):
        """the set at the location is the one from before or the one from after; returns 'before' or 'after'"""
        try:
            got = self.read_back()
        except kzt.Unreadable as e:
            raise Violation('%s: the key set is not usable: %s' % (what, e))
        except K.errors.KeyczarError as e:
            raise Violation('%s: the key set does not open: %s' % (what, e))
        st0 = None if self.before is None else {n: s for n, (s, _) in self.before[0]['versions'].items()}
        # a set that was empty before and is encrypted after its first key
        r0 = self.matches(got, st0, self.before)
        where = None
        if r0 is None:
            where = 'before'
        else:
            st1 = self.model_after(st0)
            r1 = self.matches(got, st1, self.before)
            if r1 is None:
                where = 'after'
            else:
                raise Violation('%s: the key set is neither the one before (%s) nor the one after (%s)' % (what, r0, r1))
        if self.op[0] == 'pubkey':
            where = self.judge_dest(what)
        return where

    def judge_dest(self, what):
        try:
            got = kzt.stored(self.dest)
            if got is not None:
                K.keyczar.GenericKeyczar.Read(self.dest)
        except kzt.Unreadable as e:
            raise Violation('%s: the exported set is not usable: %s' % (what, e))
        if got == self.before_dest:
            return 'before'
        if self.op[1] == 'reused':
            meta, keys = self.before_dest
            n, key = self.reused
            if got == (meta, {**keys, n: key}):
                self.ctx.finding(self.finding, '%s: the exported set is neither the one before nor the one after: old metadata with the new key %d', what, n)
                return 'new key with old metadata'
        raws = {n: k for n, k in self.before[1].items()}
        try:
            check_export(self.kind, self.loc, self.dest, 'Test', tuple(sorted((n, s) for n, (s, _) in self.before[0]['versions'].items())), raws)
        except Violation as e:
            raise Violation('%s: the exported set is neither the one before nor the one after: %s' % (what, e))
        return 'after'

    def again(self, where, what):
        """the command once more, and a further key, on what is there now"""
        st0 = None if self.before is None else {n: s for n, (s, _) in self.before[0]['versions'].items()}
        cur = st0 if where == 'before' or self.op[0] == 'pubkey' else self.model_after(st0)
        base = kzt.stored(self.loc, self.crypter)
        want = self.model_after(cur)
        out = self.command()
        if want is None:
            require(out[0] == 'raised', '%s: the command afterwards succeeds where it must be refused', what)
            want = cur
        else:
            require(out[0] == 'ok', '%s: the command afterwards fails: %r', what, out)
        r = self.matches(kzt.stored(self.loc, self.crypter), want, base)
        require(r is None, '%s: the command afterwards leaves a wrong set: %s', what, r)
        if self.op[0] == 'pubkey':
            self.judge_dest(what)
        with kzt.Pool(order=4 if self.kind != 'dsa' else 3):
            base = kzt.stored(self.loc, self.crypter)
            res, e = kzt.cli(*kzt.argv(('add', 'PRIMARY'), self.loc, *(more(self.kind) + (['--crypter=' + self.cloc] if self.enc else []))))
        require(res == 'ok', '%s: addkey afterwards fails: %r', what, e)
        want = kzt.step(want, ('add', 'PRIMARY'))
        r = self.matches(kzt.stored(self.loc, self.crypter), want, base)
        require(r is None, '%s: addkey afterwards leaves a wrong set: %s', what, r)
        usable(self.kind, self.loc, self.crypter)

def scenes(ctx):
    three = ((1, 'ACTIVE'), (2, 'PRIMARY'), (3, 'INACTIVE'))
    gap = ((2, 'INACTIVE'), (5, 'ACTIVE'), (10, 'PRIMARY'))
    for kind in TYPES:
        yield kind, None, ('create', ), False
        states = [(), ((1, 'PRIMARY'), ), three] + ([gap] if kind in ('hmac', 'dsa') or ctx.thorough else [])
        for st in states:
            for s in env.STATUSES:
                yield kind, st, ('add', s), False
                if s != 'INACTIVE':
                    yield kind, st, ('add', s), True
        for st in states[1:]:
            for n, s in st:
                for cmd in ('promote', 'demote', 'revoke'):
                    yield kind, st, (cmd, n), False
        if kind in PUB:
            for st in states[1:]:
                yield kind, st, ('pubkey', 'fresh'), False
                yield kind, st, ('pubkey', 'again'), False
                yield kind, st, ('pubkey', 'reused'), False
    if ctx.thorough:
        for st in sorted(kzt.reachable(3)):
            for kind in ('hmac', 'aes'):
                for op in kzt.ops(dict(st), 3, False):
                    yield kind, st, op, False
                    if op[0] == 'add':
                        yield kind, st, op, True

# ---------------------------------------------------------------- C10
def fn_c10(ctx, p):
    sc = Scene(*p, ctx=ctx, finding='export-reused-number-crash')
    label = '%s %s%s on %r' % (sc.kind, sc.op, ' (encrypted)' if sc.enc else '', sc.state)
    out = faults.run(sc.root, sc.command, faults.COUNT)
    events = out[2]
    if out[0][0] == 'ok':
        require(sc.judge(label) == 'after' or sc.model_after(None if sc.before is None else {n: s for n, (s, _) in sc.before[0]['versions'].items()})
                is not None, 'command without effect')
    sc.reset()
    ctx.count('calls', len(events))
    for k, (kind, n, path) in enumerate(events):
        torn = [0]
        if kind == faults.WRITE:
            torn += sorted({1, n // 4, n // 2, n - 1} - {0, n})
            if ctx.thorough and n < 700:
                torn = list(range(n))
        for t in torn:
            what = '%s, crash at call %d (%s %s%s)' % (label, k, faults.NAMES[kind], path, ', %d of %d bytes' % (t, n) if t else '')
            r = faults.run(sc.root, sc.command, faults.CRASH, at=k, torn=t)
            require(r[0] == 'crashed', '%s: the run differs from the counted one', what)
            where = sc.judge(what)
            if t in (0, n // 2, n - 1):
                sc.again(where, what)
            sc.reset()
            ctx.ev((k, t), where)
    # the end of the command: nothing left to crash in
    if not events:
        ctx.ev('none', 'no file touched')
    sc.drop()

def gen_c10_double(ctx):
    for kind in ('hmac', 'dsa') if ctx.thorough else ('hmac', ):
        for st in (((1, 'PRIMARY'), (2, 'INACTIVE')), ((1, 'ACTIVE'), (2, 'INACTIVE'), (3, 'PRIMARY'))):
            for op1 in (('add', 'PRIMARY'), ('revoke', 2), ('promote', 2), ('demote', 1)):
                for op2 in (('add', 'PRIMARY'), ('add', 'ACTIVE'), ('revoke', 2), ('promote', 2), ('demote', 1)):
                    yield kind, st, op1, op2

def fn_c10_double(ctx, p):
    """a crash in one command, then a crash in the next one"""
    kind, st, op1, op2 = p
    sc = Scene(kind, st, op1)
    n1 = len(faults.run(sc.root, sc.command, faults.COUNT)[2])
    sc.reset()
    for k in range(n1):
        faults.run(sc.root, sc.command, faults.CRASH, at=k)
        where = sc.judge('first crash')
        snap = env.snapshot(sc.root)
        sc2 = Scene.__new__(Scene)
        sc2.__dict__.update(sc.__dict__)
        sc2.op, sc2.snap = op2, snap
        sc2.before = kzt.stored(sc.loc)
        ev = faults.run(sc.root, sc2.command, faults.COUNT)[2]
        sc2.reset()
        for j in range(len(ev)):
            what = '%s then %s on %r, crashes at calls %d and %d' % (op1, op2, st, k, j)
            r = faults.run(sc.root, sc2.command, faults.CRASH, at=j)
            w2 = sc2.judge(what)
            sc2.again(w2, what)
            sc2.reset()
            ctx.ev((k, j), where + ' ' + w2)
        sc.reset()
    sc.drop()

@prop('C10', 'fault_enumeration', RULE, 'exhaustive enumeration of all crash points and torn writes of every command on the real code (file system shim)',
      'For 100+ combinations of key type, key-set state and command (encrypted sets included) the process is killed before every file system call that '
      'changes something below the tree, and inside every write after a prefix of it (every prefix in the thorough tier); the set must open and be '
      'the one before or after, the command and addkey must work afterwards. Exports go to an empty place, over an older export and over one with a reused number. Two consecutive crashes in two commands likewise.',
      ['a crash is the death of the process: what the system calls did is kept; loss of unsynced data at power failure is not modelled'], preload=True)
def c10():
    return [Family('crashes', scenes, fn_c10, 300), Family('two-crashes', gen_c10_double, fn_c10_double, 300)]

# ---------------------------------------------------------------- C11
ERRNOS = {faults.OPENW: (errno.EACCES, errno.ENOSPC, errno.EROFS, errno.EMFILE), faults.WRITE: (errno.ENOSPC, errno.EIO, errno.EDQUOT),
          faults.RENAME: (errno.EACCES, errno.EIO, errno.ENOSPC), faults.UNLINK: (errno.EACCES, errno.EPERM, errno.EBUSY, errno.EIO),
          faults.OPENR: (errno.EACCES, errno.EIO, errno.EMFILE), faults.READ: (errno.EIO, ), faults.CLOSE: (errno.EIO, errno.ENOSPC)}
ALL = sum(ERRNOS)

def fn_c11(ctx, p):
    sc = Scene(*p, ctx=ctx, finding='export-reused-number-failure')
    label = '%s %s%s on %r' % (sc.kind, sc.op, ' (encrypted)' if sc.enc else '', sc.state)
    out = faults.run(sc.root, sc.command, faults.COUNT, kinds=ALL)
    ok = out[0][0] == 'ok'
    events = out[2]
    sc.reset()
    for k, (kind, n, path) in enumerate(events):
        plans = [(faults.FAIL, e, 0) for e in ERRNOS[kind]]
        if kind == faults.WRITE:
            plans += [(faults.SHORT, errno.ENOSPC, t) for t in sorted({1, n // 2, n - 1} - {0, n})]
        plans += [(faults.FAILALL, ERRNOS[kind][0], 0)]
        for mode, err, torn in plans:
            what = '%s, %s of %s (call %d) fails with %s%s' % (label, faults.NAMES[kind], path, k, errno.errorcode[err],
                                                              ' from there on' if mode == faults.FAILALL else ' after %d bytes' % torn if torn else '')
            r = faults.run(sc.root, sc.command, mode, at=k, err=err, torn=torn, kinds=ALL)
            out, hit, ev = r
            require(hit, '%s: the run differs from the counted one', what)
            require(out[0] == 'raised', '%s, but the command ends as if it had succeeded', what)
            where = sc.judge(what)
            if err == ERRNOS[kind][0]:
                sc.again(where, what)
            sc.reset()
            ctx.ev((k, mode, err, torn), where)
    if not events:
        ctx.ev('none', 'no file touched')
    sc.drop()

def gen_c11_api(ctx):
    for kind in TYPES:
        for enc in (False, True):
            yield kind, enc

def fn_c11_api(ctx, p):
    """the same for the API: opening key sets, writing an object to an empty location and over its old copy"""
    kind, enc = p
    st = ((1, 'ACTIVE'), (2, 'PRIMARY'))
    sc = Scene(kind, st, ('promote', 1), enc)
    def reader():
        rd = K.readers.CreateReader(sc.loc)
        return K.readers.EncryptedReader(rd, sc.crypter) if enc else rd
    def opens(cls):
        def fn():
            getattr(K.keyczar, cls)(reader())
            return ('ok', )
        return fn
    def fresh():
        K.keyczar.GenericKeyczar(reader()).Write(K.writers.CreateWriter(sc.dest), sc.crypter)
        return ('ok', )
    def over():
        o = K.keyczar.GenericKeyczar(reader())
        o.Promote(1)
        o.Write(K.writers.CreateWriter(sc.loc), sc.crypter)
        return ('ok', )
    calls = [('open', opens(c)) for c in (('Crypter', 'Encrypter') if kind in ('aes', 'rsa') else ('Signer', 'Verifier', 'UnversionedVerifier'))]
    calls += [('write', fresh), ('rewrite', over)]
    for name, fn in calls:
        events = faults.run(sc.root, fn, faults.COUNT, kinds=ALL)[2]
        sc.reset()
        for k, (ek, n, path) in enumerate(events):
            for mode, err in [(faults.FAIL, e) for e in ERRNOS[ek]] + [(faults.FAILALL, ERRNOS[ek][0])]:
                what = '%s %s: %s of %s (call %d) fails with %s' % (kind, name, faults.NAMES[ek], path, k, errno.errorcode[err])
                out, hit, _ = faults.run(sc.root, fn, mode, at=k, err=err, kinds=ALL)
                require(out[0] == 'raised', '%s, but the operation ends as if it had succeeded', what)
                where = sc.judge(what)
                if name == 'write':
                    try:
                        got = kzt.stored(sc.dest, sc.crypter)
                    except kzt.Unreadable as e:
                        raise Violation('%s: leaves a set that is not readable: %s' % (what, e))
                    require(got is None or got == sc.before, '%s: leaves another set', what)
                sc.reset()
                ctx.ev((name, k, mode, err), name)
    sc.drop()

@prop('C11', 'fault_enumeration', RULE, 'exhaustive enumeration of every failing file operation of every command on the real code (file system shim)',
      'For the same scenarios as C10, every open, read, write, replace, remove and closing of a written file below the tree fails once, with each of its '
      'typical errors, after a short write, and permanently from there on; the command must end with an exception and the set be the one before or after. '
      'The API (opening, writing to a new and to the old location) likewise.', ['failures of chmod and of status queries are not injected'], preload=True)
def c11():
    return [Family('faults', scenes, fn_c11, 300), Family('api', gen_c11_api, fn_c11_api, 300)]

# ---------------------------------------------------------------- C09
def all_keys():
    for i in range(len(env.FIX['aes'])):
        yield 'aes', env.FIX['aes'][i]
    for i in range(len(env.FIX['hmac'])):
        yield 'hmac', env.FIX['hmac'][i]
    for k in env.FIX['rsa']:
        yield 'rsa', k
        yield 'rsa-sign', k
    for k in env.FIX['dsa']:
        yield 'dsa', k

KEYS = list(all_keys())

def meta_of(kind, vs, name='Test', encrypted=False):
    """vs: [(number, status, exportable, raw)]"""
    return dict(name=name, purpose=TYPES[kind][0], type=TYPE_NAME[kind], encrypted=encrypted,
                versions=[dict(versionNumber=n, status=s, exportable=x) for n, s, x, _ in vs])

def expect(kind, vs, name, encrypted):
    return (dict(name=name, purpose=TYPES[kind][0], type=TYPE_NAME[kind], encrypted=encrypted,
                 versions={n: (s, x) for n, s, x, _ in vs}), {n: r for n, _, _, r in vs})

def describe(czar):
    """what an opened key set says about itself"""
    m = czar.metadata
    return (dict(name=m.name, purpose=str(m.purpose), type=str(m.type), encrypted=m.encrypted,
                 versions={v.version_number: (str(v.status), v.exportable) for v in m.versions}),
            {v.version_number: env.parse_key(str(czar.GetKey(v))) for v in czar.versions})

def opened(d, crypter, cls='GenericKeyczar'):
    rd = K.readers.CreateReader(d)
    if crypter is not None:
        rd = K.readers.EncryptedReader(rd, crypter)
    return getattr(K.keyczar, cls)(rd)

def swap_data(kind, a, b, ca, cb, prim):
    """data of one location works with the other"""
    if prim is None:
        return
    if kind in ('aes', 'rsa'):
        x, y = opened(a, ca, 'Crypter'), opened(b, cb, 'Crypter')
        require(y.Decrypt(x.Encrypt('one')) == 'one' and x.Decrypt(y.Encrypt('two')) == 'two', 'data does not carry over')
    else:
        x, y = opened(a, ca, 'Signer'), opened(b, cb, 'Signer')
        require(y.Verify('one', x.Sign('one')) is True and x.Verify('two', y.Sign('two')) is True, 'signatures do not carry over')

def roundtrip_set(ctx, kind, vs, name, crypter, style, how):
    src, d = env.fresh_dir(), env.fresh_dir()
    m = env.MemReader(meta_of(kind, vs, name), {n: json.dumps(env.key_obj(r, style)) for n, _, _, r in vs})
    env.write_keyset(src, m)
    want = expect(kind, vs, name, crypter is not None)
    obj = K.keyczar.GenericKeyczar(m)
    if how == 'path':
        obj.Write(d, crypter)
    else:
        obj.Write(K.writers.CreateWriter(d), crypter)
    got = kzt.stored(d, crypter)
    require(got == want, 'written %r, stored %r', want, got)
    back = opened(d, crypter)
    got = describe(back)
    require(got == want, 'written %r, read back %r', want, got)
    prim = [r for n, s, x, r in vs if s == 'PRIMARY']
    swap_data(kind, src, d, None, crypter, prim[0] if prim else None)
    snap = env.snapshot(d)
    back.Write(K.writers.CreateWriter(d), crypter)
    if crypter is None:
        now = env.snapshot(d)
        require({f: json.loads(t) for f, t in now.items()} == {f: json.loads(t) for f, t in snap.items()}, 'writing again changes the files')
    require(kzt.stored(d, crypter) == want, 'writing again changes the set')
    require(describe(opened(d, crypter)) == want, 'writing again changes what is read')
    # and to a third location, decrypted or encrypted the other way
    e = env.fresh_dir()
    other = None if crypter is not None else env.crypter(env.AES(192))
    back.Write(K.writers.CreateWriter(e), other)
    require(kzt.stored(e, other) == expect(kind, vs, name, other is not None), 'copied with other encryption: %r', kzt.stored(e, other))
    swap_data(kind, d, e, crypter, other, prim[0] if prim else None)
    for x in (src, d, e):
        env.rmdir(x)

def gen_c09_keys(ctx):
    for i in range(len(KEYS)):
        for style in ('java', 'pad', 'min'):
            for enc in (False, True):
                yield i, style, enc

def fn_c09_keys(ctx, p):
    """every key, every spelling of its integers"""
    i, style, enc = p
    kind, raw = KEYS[i]
    roundtrip_set(ctx, kind, [(1, 'PRIMARY', False, raw)], 'Test', env.crypter(env.AES(256)) if enc else None, style, 'writer')
    return kind

def gen_c09_meta(ctx):
    for name in NAMES + [chr(c) for c in list(range(0, 256)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0x10000, 0x10ffff]] + ['a' * n for n in (4096, 8192, 10000, 65536, 70000, 200000, 1 << 20)]:
        yield 'hmac', ((1, 'PRIMARY', False), ), name, False
        yield 'aes', ((1, 'PRIMARY', True), ), name, True
    nums = (1, 2, 3, 9, 10, 11, 100, 2 ** 31 - 1, 2 ** 31)
    for k in (0, 1, 2, 3):
        for ns in itertools.combinations(nums, k):
            yield 'hmac', tuple((n, env.STATUSES[i % 3], i % 2 == 0) for i, n in enumerate(ns)), 'Test', False
            yield 'aes', tuple((n, env.STATUSES[2 - i % 3], i % 2 == 1) for i, n in reversed(list(enumerate(ns)))), 'Test', k % 2 == 0
    for kind in TYPES:
        for k in range(0, 4 if not ctx.thorough else 5):
            for st in itertools.product(env.STATUSES, repeat=k):
                if st.count('PRIMARY') > 1:
                    continue
                for ex in itertools.product((False, True), repeat=k) if kind in ('hmac', ) else [(False, ) * k, (True, ) * k]:
                    for enc in (False, True) if kind in ('hmac', 'dsa') or k == 2 else (False, ):
                        yield kind, tuple(zip(range(1, k + 1), st, ex)), 'Test', enc

def fn_c09_meta(ctx, p):
    kind, vs, name, enc = p
    raws = TYPES[kind][1]
    roundtrip_set(ctx, kind, [(n, s, x, raws(i)) for i, (n, s, x) in enumerate(vs)], name,
                  env.crypter(env.AES(128), env.AES(256)) if enc else None, 'java', 'path' if len(vs) % 2 else 'writer')
    return kind

def sym(kind, i):
    """the i-th of arbitrarily many symmetric keys"""
    k = dict(hmac=inputs.pattern(32, b'sym-hmac%d' % i), size=256)
    if kind == 'aes':
        k.update(aes=inputs.pattern(16, b'sym-aes%d' % i), size=128)
    return k

def gen_c09_many(ctx):
    for n in (4, 5, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257) + ((512, 1000) if ctx.thorough else ()):
        for kind in ('hmac', 'aes'):
            for prim in (1, n // 2, n):
                yield kind, n, prim, 1
        yield 'hmac', n, n, -1
    yield 'hmac', 1500, 1500, 1
    yield 'hmac', 1500, 1, -1

def fn_c09_many(ctx, p):
    """sets of many versions"""
    kind, n, prim, step = p
    vs = [(i, 'PRIMARY' if i == prim else ('ACTIVE', 'INACTIVE')[i % 2], i % 3 == 0, sym(kind, i)) for i in range(1, n + 1)]
    roundtrip_set(ctx, kind, vs[::step], 'Many', env.crypter(env.AES(128)) if n % 2 else None, 'java', 'writer')
    return kind

LOCATIONS = ['keys', 'keys.', 'keys.bak', '.keys', '..keys', 'a b', ' a', 'a ', 'k=v', 'a:b', 'a;b', '-x', '--location', '~', '~root', '$HOME', '%s', '%25',
             'file:keys', 'meta', '1', 'x' * 200, 'd\u00e9j\u00e0', '\u65e5\u672c', 'a\\b', 'a*b', '[a]', "a'b", 'a"b', 'new\nline', 'sub/dir', 'sub/../keys',
             'KEYS', 'keys/', 'keys//', './keys', 'keys/.', '.', 'None', 'mem', '0', 'x-', 'x--', '=', 'k=', '"q"', "'q'", 'a,b', '1.tmp', 'x.tmp']

def gen_c09_loc(ctx):
    for i in range(len(LOCATIONS)):
        for how in ('absolute', 'relative', 'link'):
            for kind in ('aes', 'dsa'):
                yield i, how, kind

def fn_c09_loc(ctx, p):
    """any name of a location, absolute, relative and through a symbolic link: the set is in that directory and nowhere else"""
    i, how, kind = p
    def run():
        top = env.fresh_dir()
        work = os.path.join(top, 'work')
        os.mkdir(work)
        os.chdir(work)
        os.environ['HOME'] = work
        name = LOCATIONS[i]
        real = os.path.join(work, name)
        loc = name if how == 'relative' else os.path.join(work, name)
        if how == 'link':
            if name.endswith(('/', '.')) or '/' in name:
                return 0
            real = os.path.join(top, 'target')
            os.mkdir(real)
            os.symlink(real, os.path.join(work, name))
        else:
            if '..' in name:
                os.makedirs(os.path.join(work, 'sub'), exist_ok=True)
            os.makedirs(real, exist_ok=True)
        purpose, raw, flags = TYPES[kind]
        before = {x for x in glob_all(top)}
        with kzt.Pool():
            require(kzt.cli('create', '--location=' + loc, *flags)[0] == 'ok', 'create at %r', loc)
            require(kzt.cli('addkey', '--location=' + loc, '--status=primary', *more(kind))[0] == 'ok', 'addkey at %r', loc)
            require(kzt.cli('addkey', '--location=' + loc, *more(kind))[0] == 'ok', 'addkey at %r', loc)
        require(kzt.cli('promote', '--location=' + loc, '--version=2')[0] == 'ok', 'promote at %r', loc)
        meta, keys = kzt.stored(real)
        require({n: s for n, (s, _) in meta['versions'].items()} == {1: 'ACTIVE', 2: 'PRIMARY'}, 'at %r: %r', loc, meta)
        usable(kind, loc)
        new = {x for x in glob_all(top)} - before
        require(new == {os.path.realpath(os.path.join(real, f)) for f in ('meta', '1', '2')}, 'at %r there are %r', loc, sorted(new)[:6])
        o = K.keyczar.GenericKeyczar.Read(loc)
        require(describe(o) == kzt.stored(real), 'read from %r', loc)
        o.Write(K.writers.CreateWriter(loc))
        require(describe(o) == kzt.stored(real), 'written to %r', loc)
        return 1
    if in_child(run):
        ctx.ev(p, how)

def glob_all(top):
    return [os.path.realpath(os.path.join(d, f)) for d, _, fs in os.walk(top) for f in fs]

def gen_c09_pub(ctx):
    for kind in PUB:
        for st in sorted(kzt.reachable(3)):
            yield kind, st

def fn_c09_pub(ctx, p):
    """public key sets are key sets too"""
    kind, st = p
    purpose, typ = PUB[kind]
    raws = TYPES[kind][1]
    m = env.keyset([(n, s, raws(i)) for i, (n, s) in enumerate(st)], purpose, public=True, name='P')
    m.meta['type'] = typ
    obj = K.keyczar.GenericKeyczar(m)
    for c in (None, env.crypter(env.AES(128))):
        d = env.fresh_dir()
        obj.Write(K.writers.CreateWriter(d), c)
        meta, keys = kzt.stored(d, c)
        require((meta['name'], meta['purpose'], meta['type'], meta['encrypted']) == ('P', purpose, typ, c is not None), 'public metadata %r', meta)
        require({n: s for n, (s, _) in meta['versions'].items()} == dict(st), 'public versions')
        for i, (n, s) in enumerate(st):
            r = raws(i)
            require(keys[n] == {k: r[k] for k in (('size', 'n', 'e') if 'n' in r else ('size', 'p', 'q', 'g', 'y'))}, 'public key %d', n)
        got = describe(opened(d, c))
        require(got[1] == keys and got[0] == meta, 'public set read back')
        env.rmdir(d)
    return kind

def gen_c09_static(ctx):
    return range(len(KEYS))

def fn_c09_static(ctx, i):
    """a single key as a key set (imported keys)"""
    kind, raw = KEYS[i]
    key = K.keys.ReadKey(K.keyinfo.GetType(TYPE_NAME[kind]), json.dumps(env.key_obj(raw)))
    rd = K.readers.StaticKeyReader(key, K.keyinfo.GetPurpose(TYPES[kind][0]))
    d = env.fresh_dir()
    obj = K.keyczar.GenericKeyczar(rd)
    obj.Write(K.writers.CreateWriter(d))
    meta, keys = kzt.stored(d)
    require(meta['versions'] == {1: ('PRIMARY', False)} and keys == {1: raw}, 'imported key stored as %r', meta)
    usable(kind, d)
    env.rmdir(d)
    return kind

MODES = [0o600, 0o400, 0o440, 0o640, 0o644, 0o660, 0o664, 0o666, 0o700]

def gen_c09_modes(ctx):
    for mask in (0o022, 0o077, 0o027, 0o000):
        for mode in MODES:
            for how in ('rewrite', 'commands'):
                for uid in (0, 65534):
                    yield mask, mode, how, uid

def fn_c09_modes(ctx, p):
    """the files keep the access rights their owner gave them, also for an ordinary user"""
    mask, mode, how, uid = p
    d = env.fresh_dir()
    raws = [env.AES(128, i) for i in range(3)]
    env.write_keyset(d, env.MemReader(meta_of('aes', [(1, 'PRIMARY', False, raws[0]), (2, 'ACTIVE', False, raws[1]), (3, 'INACTIVE', False, raws[2])]),
                                      {i + 1: json.dumps(env.key_obj(r)) for i, r in enumerate(raws)}))
    files = sorted(os.listdir(d))
    for f in files:
        os.chmod(os.path.join(d, f), mode)
    def run():
        if uid and os.getuid() == 0:
            try:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            except OSError:
                pass           # no such right here: the case repeats the one as root
        os.umask(mask)
        gone = set()
        if how == 'rewrite':
            K.keyczar.GenericKeyczar.Read(d).Write(K.writers.CreateWriter(d))
            want = {1: 'PRIMARY', 2: 'ACTIVE', 3: 'INACTIVE'}
        else:
            for a in (('promote', '--version=2'), ('demote', '--version=1'), ('addkey', '--status=active'), ('promote', '--version=3'), ('revoke', '--version=1')):
                res = kzt.cli(a[0], '--location=' + d, *a[1:])
                require(res[0] == 'ok', '%s of files with mode %o: %r', a, mode, res)
            want = {2: 'PRIMARY', 3: 'ACTIVE', 4: 'ACTIVE'}
            gone = {'1'}
        require({n: s for n, (s, _) in kzt.stored(d)[0]['versions'].items()} == want, 'statuses')
        require(set(os.listdir(d)) == {'meta'} | {str(n) for n in want}, 'files %r', sorted(os.listdir(d)))
        for f in set(files) - gone:
            now = os.stat(os.path.join(d, f)).st_mode & 0o7777
            require(now == mode, '%s of file %s changed from %o to %o', how, f, mode, now)
        return 1
    if os.getuid() == 0 and uid:
        for f in [d] + [os.path.join(d, f) for f in files]:
            os.chown(f, uid, uid)
        os.chmod(d, 0o777)
        reach(d)
    in_child(run)
    env.rmdir(d)
    return how

def reach(d):
    """let an ordinary user enter the scratch directories above"""
    while True:
        d = os.path.dirname(d)
        if 'kzmc' not in d:
            return
        os.chmod(d, 0o711)

@prop('C09', 'exploration', RULE, 'exhaustive enumeration of key sets (keys, integer spellings, names, version numbers, statuses, flags, encryption), each stored, read back and rewritten',
      'All fixture keys of every type and size in three integer spellings; all status and exportable assignments of up to three versions (four in the '
      'thorough tier); names with every byte and special characters; version numbers up to 2^31; plain, encrypted and re-encrypted; public sets and imported keys; sets of '
      'up to 257 (1000) versions; 40 unusual location names, absolute, relative and linked; file modes and umasks. '
      'Access rights of the files for every mode, umask, rewrite and command, as root and as another user.')
def c09():
    return [Family('keys', gen_c09_keys, fn_c09_keys), Family('metadata', gen_c09_meta, fn_c09_meta), Family('public', gen_c09_pub, fn_c09_pub),
            Family('imported', gen_c09_static, fn_c09_static), Family('many-versions', gen_c09_many, fn_c09_many),
            Family('locations', gen_c09_loc, fn_c09_loc), Family('access-rights', gen_c09_modes, fn_c09_modes)]

# ---------------------------------------------------------------- C23
def no_secrets(root, raws, what, skip=()):
    for f, data in env.snapshot(root).items():
        if f.split(os.sep)[0] in skip:
            continue
        bad = leaks(data, raws)
        require(not bad, '%s: file %s holds secret key material in readable form', what, f)

def refused(fn, what):
    try:
        fn()
    except K.errors.KeyczarError:
        return
    except Exception as e:
        raise Violation('%s: %s instead of a Keyczar error' % (what, type(e).__name__))
    raise Violation('%s is not refused' % what)

def check_encrypted(d, kind, crypter, others, raws, what):
    no_secrets(d, raws, what)
    meta = json.load(open(os.path.join(d, 'meta')))
    require(meta['encrypted'] is True, '%s: the metadata does not say that the set is encrypted', what)
    classes = ['GenericKeyczar'] + (['Crypter', 'Encrypter'] if kind in ('aes', 'rsa') else ['Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier'])
    for c in classes:
        refused(lambda: getattr(K.keyczar, c).Read(d), '%s: opening with %s without crypter' % (what, c))
        for o in others:
            refused(lambda: opened(d, o, c), '%s: opening with %s and another crypter' % (what, c))
        opened(d, crypter, c)

def wrong_crypters():
    a = env.FIX['aes'][0]
    return [env.crypter(env.AES(128, 1)), env.crypter(env.AES(256, 1), env.AES(192)),
            env.crypter(dict(size=128, aes=a['aes'], hmac=env.FIX['aes'][1]['hmac'])),
            env.crypter(dict(size=128, aes=env.FIX['aes'][1]['aes'], hmac=a['hmac'])),
            env.crypter(env.RSA(1024))]

def gen_c23_write(ctx):
    for i in range(len(KEYS)):
        for cr in ('aes128', 'aes192', 'aes256', 'multi', 'active'):
            yield i, cr

def fn_c23_write(ctx, p):
    """every key written with every kind of crypter"""
    i, cr = p
    kind, raw = KEYS[i]
    c = {'aes128': lambda: env.crypter(env.FIX['aes'][0]), 'aes192': lambda: env.crypter(env.AES(192)), 'aes256': lambda: env.crypter(env.AES(256)),
         'multi': lambda: env.crypter(env.FIX['aes'][0], env.AES(256)),
         'active': lambda: env.crypter(env.FIX['aes'][0], env.AES(256), statuses=['PRIMARY', 'INACTIVE'])}[cr]()
    d = env.fresh_dir()
    obj = K.keyczar.GenericKeyczar(env.MemReader(meta_of(kind, [(1, 'PRIMARY', False, raw)]), {1: json.dumps(env.key_obj(raw))}))
    obj.Write(K.writers.CreateWriter(d), c)
    others = [o for o in wrong_crypters()[:2] if cr == 'aes128']
    check_encrypted(d, kind, c, others, [raw], 'written with %s' % cr)
    usable(kind, d, c)
    env.rmdir(d)
    return kind

def gen_c23_seq(ctx):
    for kind in TYPES:
        for n in (1, 2, 3):
            for st in itertools.product(env.STATUSES, repeat=n):
                yield kind, st

def fn_c23_seq(ctx, p):
    """keys added with the crypter, one by one, by the tool; all commands without it are refused"""
    kind, sts = p
    root = env.fresh_dir()
    loc, cloc, bad, dest = (os.path.join(root, x) for x in ('loc', 'crypter', 'wrong', 'dest'))
    for x in (loc, cloc, bad, dest):
        os.mkdir(x)
    build(cloc, 'aes', ((1, 'ACTIVE'), (2, 'PRIMARY')))
    env.write_keyset(bad, env.keyset([(1, 'PRIMARY', env.AES(256, 1))], env.CRYPT))
    c = K.keyczar.Crypter.Read(cloc)
    others = [env.crypter(env.AES(256, 1)), env.crypter(env.RSA(1024))] if len(sts) < 3 else [env.crypter(env.AES(256, 1))]
    require(kzt.cli('create', '--location=' + loc, *TYPES[kind][2])[0] == 'ok', 'create')
    with kzt.Pool():
        state, seen = {}, {}
        for s in sts:
            res, e = kzt.cli(*kzt.argv(('add', s), loc, '--crypter=' + cloc, *more(kind)))
            require(res == 'ok', 'addkey with a crypter fails: %r', e)
            state = kzt.step(state, ('add', s))
            meta, keys = kzt.stored(loc, c)
            require({n: x for n, (x, _) in meta['versions'].items()} == state, 'statuses %r', meta['versions'])
            for n, k in seen.items():
                require(keys[n] == k, 'adding a key changes key %d', n)
            seen = keys
            check_encrypted(loc, kind, c, others, list(keys.values()), 'after %d keys' % len(state))
            snap = env.snapshot(loc)
            for args in ([['addkey', '--status=primary'] + more(kind), ['addkey', '--crypter=' + bad] + more(kind), ['pubkey', '--destination=' + dest]] +
                         [[cmd, '--version=%d' % n] for cmd in ('promote', 'demote', 'revoke') for n in state] +
                         [[cmd, '--version=%d' % n, '--crypter=' + bad] for cmd in ('promote', 'revoke') for n in state]):
                res, e = kzt.cli(args[0], '--location=' + loc, *args[1:])
                require(res == 'keyczar', '%s without the crypter gives %s %r', args, res, e)
                require(env.snapshot(loc) == snap and not os.listdir(dest), '%s without the crypter changes the set', args)
                ctx.many(1, 'refused')
            ctx.many(1, 'added')
        prim = [n for n, s in state.items() if s == 'PRIMARY']
        if prim:
            usable(kind, loc, c)
    env.rmdir(root)

def gen_c23_many(ctx):
    return ['aes', 'hmac']

def fn_c23_many(ctx, kind):
    """very many keys added with the crypter, by the tool"""
    root = env.fresh_dir()
    loc, cloc = (os.path.join(root, x) for x in ('loc', 'crypter'))
    os.mkdir(loc); os.mkdir(cloc)
    build(cloc, 'aes', ((1, 'ACTIVE'), (2, 'PRIMARY')))
    c = K.keyczar.Crypter.Read(cloc)
    require(kzt.cli('create', '--location=' + loc, *TYPES[kind][2])[0] == 'ok', 'create')
    state, seen = {}, {}
    for i in range(130):
        op = ('add', ('PRIMARY', 'ACTIVE', 'INACTIVE')[i % 3])
        res, e = kzt.cli(*kzt.argv(op, loc, '--crypter=' + cloc))
        require(res == 'ok', 'addkey number %d with a crypter fails: %r', i + 1, e)
        state = kzt.step(state, op)
        if i < 40 or i % 16 == 1 or i == 129:
            meta, keys = kzt.stored(loc, c)
            require({n: x for n, (x, _) in meta['versions'].items()} == state, 'statuses %r', meta['versions'])
            require(all(keys[n] == k for n, k in seen.items()), 'adding key %d changes another', i + 1)
            seen = keys
            require(meta['encrypted'] is True, 'the metadata does not say that the set is encrypted')
            no_secrets(loc, list(keys.values())[-3:] + list(keys.values())[:2], 'after %d keys' % (i + 1))
        ctx.many(1, 'added')
    check_encrypted(loc, kind, c, [env.crypter(env.AES(256, 1))], list(seen.values()), 'after %d keys' % len(state))
    usable(kind, loc, c)
    env.rmdir(root)

def gen_c23_crash(ctx):
    for kind in TYPES:
        for st in ((), ((1, 'PRIMARY'), ), ((1, 'ACTIVE'), (2, 'PRIMARY'))):
            for s in ('PRIMARY', 'ACTIVE'):
                yield kind, st, ('add', s), True

def fn_c23_crash(ctx, p):
    """no secret is on disk at any point while a key is added: the process is stopped before every file system call"""
    sc = Scene(*p)
    def keep():
        env.rng.reset('same key')
        return sc.command()
    env.rng.reset('same key')
    sc.command()
    raws = list(kzt.stored(sc.loc, sc.crypter)[1].values())
    no_secrets(sc.root, raws, 'after the command', skip=('crypter', ))
    sc.reset()
    ev = faults.run(sc.root, keep, faults.COUNT)[2]
    for k, (ek, n, path) in enumerate(ev):
        for t in ([0, n - 1] if ek == faults.WRITE else [0]):
            sc.reset()
            r = faults.run(sc.root, keep, faults.CRASH, at=k, torn=t)
            no_secrets(sc.root, raws, '%s %s stopped at call %d (%s %s)' % (sc.kind, sc.op, k, faults.NAMES[ek], path), skip=('crypter', ))
            ctx.ev((k, t), 'stopped')
    for k, (ek, n, path) in enumerate(ev):
        if ek in ERRNOS:
            sc.reset()
            faults.run(sc.root, keep, faults.FAIL, at=k, err=ERRNOS[ek][0])
            no_secrets(sc.root, raws, '%s %s with %s of %s failing' % (sc.kind, sc.op, faults.NAMES[ek], path), skip=('crypter', ))
            ctx.ev((k, 'fault'), 'failed')
    sc.drop()

def gen_c23_tamper(ctx):
    for kind in TYPES:
        for what in ('bits', 'swap', 'plain', 'meta'):
            yield kind, what

def fn_c23_tamper(ctx, p):
    """altered key files, exchanged key files, plain keys under encrypted metadata"""
    kind, what = p
    c = env.crypter(env.AES(256))
    raw = TYPES[kind][1]
    d = env.fresh_dir()
    env.write_keyset(d, env.keyset([(1, 'PRIMARY', raw(0)), (2, 'ACTIVE', raw(1))], TYPES[kind][0], encrypted=True, encrypt=c.Encrypt))
    path = os.path.join(d, '1')
    text = open(path).read()
    if what == 'bits':
        n = len(text)
        places = range(n) if n < 300 or ctx.thorough else sorted(set(range(40)) | set(range(0, n, 7)) | set(range(n - 40, n)))
        for i in places:
            ch = 'A' if text[i] != 'A' else 'B'
            open(path, 'w').write(text[:i] + ch + text[i + 1:])
            if env.u64(text) == env.u64(text[:i] + ch + text[i + 1:]):
                continue
            refused(lambda: opened(d, c), 'altered key file (character %d)' % i)
            ctx.many(1, 'refused')
    elif what == 'plain':
        open(path, 'w').write(json.dumps(env.key_obj(raw(0))))
        refused(lambda: opened(d, c), 'plain key file in an encrypted set')
        refused(lambda: K.keyczar.GenericKeyczar.Read(d), 'plain key file in an encrypted set without crypter')
        ctx.many(2, 'refused')
    elif what == 'meta':
        for t in ('', 'AAAA', text[:5], text[:-1], text[1:], text + text):
            open(path, 'w').write(t)
            refused(lambda: opened(d, c), 'cut key file')
            ctx.many(1, 'refused')
    else:
        for o in wrong_crypters():
            refused(lambda: opened(d, o), 'another crypter')
            ctx.many(1, 'refused')
    env.rmdir(d)

@prop('C23', 'fault_enumeration', RULE, 'exhaustive enumeration of encrypted key sets, addkey sequences, commands without the crypter, and stopping points during addkey (file system shim)',
      'Every fixture key written with five crypters; all status sequences of up to three keys added by the tool, with every command without (or with a '
      'wrong) crypter refused after each; every file on disk searched for every secret value (raw, base64 at any alignment, hex, decimal) also when the '
      'process stops before, or fails at, any file system call of addkey; altered, exchanged and plain key files.', preload=True)
def c23():
    return [Family('keys', gen_c23_write, fn_c23_write), Family('sequences', gen_c23_seq, fn_c23_seq), Family('many-keys', gen_c23_many, fn_c23_many), Family('stopped', gen_c23_crash, fn_c23_crash),
            Family('altered', gen_c23_tamper, fn_c23_tamper)]

# ---------------------------------------------------------------- C32
PLUGIN = '''
from keyczar import errors, readers, writers
STORE = {}
OPEN = []       # readers and writers that are not closed
BUFFERED = []   # not empty: writers store nothing before they are closed
FAIL = []       # [k, exception]: the k-th call fails
PREFIXES = %r
def call():
  if FAIL:
    FAIL[0] -= 1
    if FAIL[0] == 0:
      raise FAIL[1]
class R%s(readers.Reader):
  def __init__(self, location):
    self.location = location
    OPEN.append(self)
  def _get(self, name):
    call()
    try:
      return STORE[self.location][name]
    except KeyError:
      raise errors.KeyczarError('nothing at %%s' %% self.location)
  def GetMetadata(self):
    return self._get('meta')
  def GetKey(self, version_number):
    return self._get(str(version_number))
  def Close(self):
    if self in OPEN:
      OPEN.remove(self)
  @classmethod
  def CreateReader(cls, location):
    if any(location.startswith(p) for p in PREFIXES):
      return cls(location)
class W%s(writers.Writer):
  def __init__(self, location):
    self.location = location
    self.todo = []
    OPEN.append(self)
  def _do(self, fn):
    call()
    if BUFFERED:
      self.todo.append(fn)
    else:
      fn(STORE.setdefault(self.location, {}))
  def WriteMetadata(self, metadata, overwrite=True):
    text = str(metadata)
    if not overwrite and 'meta' in STORE.get(self.location, {}):
      raise errors.KeyczarError('exists')
    self._do(lambda d: d.update(meta=text))
  def WriteKey(self, key, version_number, encrypter=None):
    key = str(key)
    if encrypter:
      key = encrypter.Encrypt(key)
    self._do(lambda d: d.update({str(version_number): key}))
  def Remove(self, version_number):
    self._do(lambda d: d.pop(str(version_number)))
  def Close(self):
    if self in OPEN:
      OPEN.remove(self)
    for fn in self.todo:
      fn(STORE.setdefault(self.location, {}))
    self.todo = []
  @classmethod
  def CreateWriter(cls, location):
    if any(location.startswith(p) for p in PREFIXES):
      return cls(location)
'''
_audit = None

def _hook(event, args):
    log = _audit
    if log is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, (str, bytes)) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            log.append((event, str(path)))
    elif event in ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.link', 'os.symlink', 'os.truncate'):
        log.append((event, str(args[0])))

def in_child(fn):
    """fn in a child process: back ends stay registered for good"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        out = b'?'
        try:
            import pickle
            try:
                out = pickle.dumps(('ok', fn()))
            except Violation as e:
                out = pickle.dumps(('violation', str(e)))
            except BaseException as e:
                import traceback
                out = pickle.dumps(('violation', 'unexpected %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-600:])))
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    import pickle
    res, val = pickle.loads(buf)
    if res == 'violation':
        raise Violation(val)
    return val

class Backends:
    """plug-in directories: [(name, prefixes)] each with one back end"""
    def __init__(self, plugins, env_value=None, start=True):
        self.root = env.fresh_dir()
        self.work = os.path.join(self.root, 'work')
        os.mkdir(self.work)
        paths = []
        for name, prefixes in plugins:
            d = os.path.join(self.root, 'plug-' + name)
            os.mkdir(d)
            open(os.path.join(d, 'backend_%s.py' % name), 'w').write(PLUGIN % (tuple(prefixes), name, name))
            open(os.path.join(d, 'notes.txt'), 'w').write('not python')
            paths.append(d)
        self.paths = paths
        os.environ[K.util.BACKEND_PATHS_ENV_VAR] = env_value(paths) if env_value else os.pathsep.join(paths)
        os.chdir(self.work)

    def module(self, name):
        return sys.modules['backend_' + name]

PREFIX_SETS = [(), ('a:', ), ('b:', ), ('a:', 'b:'), ('a', ), ('', )]

def gen_c32_select(ctx):
    n = 3 if ctx.thorough else 2
    for k in range(0, n + 1):
        for sets in itertools.product(PREFIX_SETS, repeat=k):
            yield sets
    if not ctx.thorough:
        for sets in itertools.product(PREFIX_SETS[1:4], repeat=3):
            yield sets

def fn_c32_select(ctx, sets):
    def run():
        b = Backends([('p%d' % i, s) for i, s in enumerate(sets)])
        n = 0
        there = os.path.join(b.root, 'here')
        os.mkdir(there)
        os.mkdir(os.path.join(b.work, 'a:x'))          # a directory whose name looks like a plug-in location
        for loc in ('a:1', 'b:1', 'c:1', 'a', 'b', 'a:x', there, there + '/none', 'A:1', '/a:1'):
            want = None
            if os.path.exists(loc):
                want = 'File'
            else:
                for i, s in enumerate(sets):
                    if any(loc.startswith(p) for p in s):
                        want = 'p%d' % i
                        break
            for make, letter in ((K.readers.CreateReader, 'R'), (K.writers.CreateWriter, 'W')):
                for _ in range(2):
                    try:
                        got = type(make(loc)).__name__
                    except K.errors.KeyczarError:
                        got = None
                    name = None if want is None else ('File' + ('Reader' if letter == 'R' else 'Writer') if want == 'File' else letter + want)
                    require(got == name, 'location %r with back ends %r: %s instead of %s', loc, sets, got, name)
                    n += 1
            if want is None:
                for c in ('Crypter', 'Encrypter', 'Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier', 'GenericKeyczar'):
                    refused(lambda: getattr(K.keyczar, c).Read(loc), '%s.Read(%r)' % (c, loc))
        require(os.listdir(b.work) == ['a:x'], 'files appeared: %r', os.listdir(b.work))
        return n
    ctx.many(in_child(run), 'selected')

def gen_c32_env(ctx):
    return range(8)

ENVS = [lambda p: p[0], lambda p: os.pathsep.join(p), lambda p: os.pathsep.join(reversed(p)), lambda p: p[0] + os.pathsep,
        lambda p: os.pathsep + p[0], lambda p: '/nonexistent/x' + os.pathsep + p[0], lambda p: p[0] + os.pathsep + '/nonexistent/x' + os.pathsep + p[1],
        lambda p: '']

def fn_c32_env(ctx, i):
    def run():
        b = Backends([('q0', ('a:', )), ('q1', ('a:', 'b:'))], ENVS[i])
        want = {0: ('q0', None), 1: ('q0', 'q1'), 2: ('q1', 'q1'), 3: ('q0', None), 4: ('q0', None), 5: ('q0', None), 6: ('q0', 'q1'), 7: (None, None)}[i]
        for loc, w in zip(('a:1', 'b:1'), want):
            for _ in range(3):
                try:
                    got = type(K.readers.CreateReader(loc)).__name__[1:]
                except K.errors.KeyczarError:
                    got = None
                require(got == w, 'reader of %s with paths %r: %s', loc, os.environ[K.util.BACKEND_PATHS_ENV_VAR], got)
                try:
                    got = type(K.writers.CreateWriter(loc)).__name__[1:]
                except K.errors.KeyczarError:
                    got = None
                require(got == w, 'writer of %s: %s', loc, got)
        # added later
        os.environ[K.util.BACKEND_PATHS_ENV_VAR] = os.pathsep.join(b.paths)
        require(type(K.writers.CreateWriter('b:9')).__name__ == 'Wq1', 'a path added later is not used')
        return True
    in_child(run)
    ctx.ev(i)

def gen_c32_more(ctx):
    return [3, 5, 9, 12, 33]

def fn_c32_more(ctx, k):
    """many back ends, each in a directory of its own"""
    def run():
        b = Backends([('m%d' % i, ('m%d:' % i, 'all%d!' % (i // 3))) for i in range(k)])
        for i in range(k):
            for loc, w in (('m%d:x' % i, 'm%d' % i), ('all%d!' % (i // 3), 'm%d' % (i // 3 * 3))):
                for make in (K.readers.CreateReader, K.writers.CreateWriter):
                    got = type(make(loc)).__name__[1:]
                    require(got == w, 'location %s with %d back ends: %s instead of %s', loc, k, got, w)
        return 4 * k
    ctx.many(in_child(run), 'selected')

def mem_stored(store, crypter=None):
    """as kzt.stored, of a plug-in's dictionary"""
    if 'meta' not in store:
        return None
    meta = json.loads(store['meta'])
    keys = {}
    for v in meta['versions']:
        t = store[str(v['versionNumber'])]
        keys[v['versionNumber']] = env.parse_key(crypter.Decrypt(t) if meta['encrypted'] and crypter else t) if crypter or not meta['encrypted'] else t
    meta['versions'] = {v['versionNumber']: (v['status'], v['exportable']) for v in meta['versions']}
    return meta, keys

def gen_c32_cmds(ctx):
    for kind in TYPES:
        for st in sorted(kzt.reachable(3 if kind in ('hmac', 'aes', 'dsa') or ctx.thorough else 2)):
            yield kind, st

def fn_c32_cmds(ctx, p):
    """every command in every state on a plug-in location"""
    kind, st = p
    def run():
        global _audit
        b = Backends([('m', ('mem:', ))])
        K.readers.CreateReader('mem:')
        mod = b.module('m')
        raw = TYPES[kind][1]
        r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(st)], TYPES[kind][0])
        r.meta['type'] = TYPE_NAME[kind]
        start = dict({str(n): t for n, t in r.keys.items()}, meta=r.GetMetadata())
        other = env.keyset([(1, 'PRIMARY', env.HMAC(3))], env.SIGN)
        bystander = dict({'1': other.keys[1]}, meta=other.GetMetadata())
        sys.addaudithook(_hook)
        n = 0
        loc = 'mem:set/one'
        for op, buffered in itertools.product(list(kzt.ops(dict(st), 3)) + [('create', ''), ('pubkey', '')], (0, 1)):
            mod.STORE.clear()
            mod.STORE[loc] = dict(start)
            mod.BUFFERED[:] = [1] * buffered
            mod.OPEN.clear()
            mod.STORE['mem:other'] = dict(bystander)
            _audit = []
            with kzt.Pool(order=1):
                if op[0] == 'create':
                    res, e = kzt.cli('create', '--location=' + loc, '--purpose=sign')
                elif op[0] == 'pubkey':
                    res, e = kzt.cli('pubkey', '--location=' + loc, '--destination=mem:dest')
                else:
                    res, e = kzt.cli(*kzt.argv(op, loc, *(more(kind) if op[0] == 'add' else [])))
            log, _audit = _audit, None
            what = '%s on a plug-in location in state %r' % (op, st)
            require(not log, '%s touches files: %r', what, log[:3])
            require(not mod.OPEN, '%s (%s) does not close %r', what, res, [type(x).__name__ for x in mod.OPEN])
            require(mod.STORE['mem:other'] == bystander, '%s touches another location', what)
            got = mem_stored(mod.STORE[loc])
            if op[0] == 'create':
                require(res == 'keyczar' and mod.STORE[loc] == start, '%s overwrites the set (%s)', what, res)
            elif op[0] == 'pubkey':
                if kind not in PUB:
                    require(res == 'keyczar' and 'mem:dest' not in mod.STORE, '%s: %s', what, res)
                else:
                    require(res == 'ok', '%s fails: %r', what, e)
                    m, ks = mem_stored(mod.STORE['mem:dest'])
                    require((m['purpose'], m['type']) == PUB[kind] and {v: s for v, (s, _) in m['versions'].items()} == dict(st), '%s: %r', what, m)
                    for i, (v, s) in enumerate(st):
                        require(ks[v] == {k: x for k, x in raw(i).items() if k in (('size', 'n', 'e') if 'n' in raw(i) else ('size', 'p', 'q', 'g', 'y'))},
                                '%s: exported key %d', what, v)
                    if st:
                        K.keyczar.Verifier.Read('mem:dest') if kind != 'rsa' else K.keyczar.Encrypter.Read('mem:dest')
                require(mod.STORE[loc] == start, '%s changes the source', what)
            else:
                try:
                    want = kzt.step(dict(st), op)
                except kzt.Refused:
                    want = None
                if want is None:
                    require(res == 'keyczar' and mod.STORE[loc] == start, '%s: %s', what, res)
                else:
                    require(res == 'ok', '%s fails: %r', what, e)
                    require({v: s for v, (s, _) in got[0]['versions'].items()} == want, '%s: %r', what, got[0]['versions'])
                    for i, (v, s) in enumerate(st):
                        if v in want:
                            require(got[1][v] == raw(i), '%s changes key %d', what, v)
                    if op[0] == 'revoke':
                        require(str(op[1]) not in mod.STORE[loc], '%s keeps the key', what)
                    if 'PRIMARY' in want.values():
                        use_mem(kind, loc)
            n += 1
        # creation at an empty plug-in location, then everything from there
        mod.STORE.clear()
        mod.BUFFERED[:] = [1]
        _audit = []
        require(kzt.cli('create', '--location=mem:new', '--name=N', *TYPES[kind][2])[0] == 'ok', 'create on a plug-in location')
        with kzt.Pool():
            require(kzt.cli('addkey', '--location=mem:new', '--status=primary', *more(kind))[0] == 'ok', 'addkey on a plug-in location')
        use_mem(kind, 'mem:new')
        require(set(mod.STORE) == {'mem:new'} and set(mod.STORE['mem:new']) == {'meta', '1'}, 'stored %r', mod.STORE.keys())
        require(not _audit, 'files touched: %r', _audit[:3])
        require(not os.listdir(b.work), 'files appeared')
        return n
    ctx.many(in_child(run), kind)

def gen_c32_faults(ctx):
    for kind in TYPES:
        for st in sorted(kzt.reachable(3 if kind in ('hmac', 'aes') or ctx.thorough else 2)):
            for crypter in (0, 1):
                if not crypter or st:
                    yield kind, st, crypter

def fn_c32_faults(ctx, p):
    """every call of a plug-in back end fails, once: the command reports it, closes what it opened, and keeps the set"""
    kind, st, encrypted = p
    def run():
        b = Backends([('m', ('mem:', ))])
        K.readers.CreateReader('mem:')
        mod = b.module('m')
        raw = TYPES[kind][1]
        loc, cloc = 'mem:set', 'mem:crypter'
        cset = env.keyset([(1, 'PRIMARY', env.AES(128))], env.CRYPT)
        cr = K.keyczar.Crypter(cset)
        r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(st)], TYPES[kind][0])
        r.meta['type'] = TYPE_NAME[kind]
        start = {str(n): t for n, t in r.keys.items()}
        if encrypted:
            r.meta['encrypted'] = True
            start = {n: cr.Encrypt(t) for n, t in start.items()}
        start['meta'] = r.GetMetadata()
        n = 0
        cmds = [('add', 'PRIMARY'), ('add', 'ACTIVE')] if encrypted else list(kzt.ops(dict(st), 2)) + [('pubkey', '')] * (kind in PUB)
        def go(op, k, exc):
            mod.FAIL[:] = []
            mod.STORE.clear()
            mod.STORE[loc] = dict(start)
            mod.STORE[cloc] = dict({'1': cset.keys[1]}, meta=cset.GetMetadata())
            mod.OPEN.clear()
            mod.BUFFERED[:] = []
            mod.FAIL[:] = [k, exc]
            with kzt.Pool(order=1):
                if op[0] == 'pubkey':
                    res, e = kzt.cli('pubkey', '--location=' + loc, '--destination=mem:dest')
                else:
                    res, e = kzt.cli(*kzt.argv(op, loc, *((more(kind) if op[0] == 'add' else []) + (['--crypter=' + cloc] if encrypted else []))))
            hit = mod.FAIL[0] <= 0
            mod.FAIL[:] = []
            return res, e, hit
        def sets():
            out = []
            for l in (loc, 'mem:dest'):
                m = mem_stored(mod.STORE.get(l, {}), cr if encrypted else None)
                out.append(m)
            return out
        for op in cmds:
            res, e, _ = go(op, 1 << 30, None)
            after = sets()
            want_ok = res == 'ok'
            go(op, 1, errors_of()[0])
            before = sets()
            for exc in errors_of():
                k = 0
                while True:
                    k += 1
                    res, e, hit = go(op, k, exc)
                    what = '%s in state %r when call %d of the back end fails' % (op, st, k)
                    left = [x for x in mod.OPEN if x.location != cloc]
                    require(not left, '%s: %r not closed', what, [type(x).__name__ for x in left])
                    if not hit:
                        require((res == 'ok') == want_ok, '%s: %s', what, res)
                        break
                    require(res != 'ok', '%s: the command ends as if it had succeeded', what)
                    try:
                        got = sets()
                    except KeyError as x:
                        raise Violation('%s: the metadata names a key that is not there: %s' % (what, x))
                    new = [g for g in (before, after)]
                    def same(g, w):
                        if g is None or w is None:
                            return g is w
                        if g[0] != w[0] or set(g[1]) != set(w[1]):
                            return False
                        return all(g[1][v] == w[1][v] for v in g[1] if v in dict(st))
                    require(any(all(same(g, w) for g, w in zip(got, ws)) for ws in new), '%s: the set is neither the old nor the new one', what)
                    n += 1
        return n
    ctx.many(in_child(run), 'failed')

def errors_of():
    return K.errors.KeyczarError('back end'), OSError(5, 'back end')

def gen_c32_api(ctx):
    return TYPES

def fn_c32_api(ctx, kind):
    """writing through the API: by location or by writer, encrypted or not, to a back end that stores on Close"""
    def run():
        b = Backends([('m', ('mem:', ))])
        K.readers.CreateReader('mem:')
        mod = b.module('m')
        cr = K.keyczar.Crypter(env.keyset([(1, 'PRIMARY', env.AES(128))], env.CRYPT))
        raw = TYPES[kind][1]
        n = 0
        for st in sorted(kzt.reachable(2)):
            r = env.keyset([(v, s, raw(i)) for i, (v, s) in enumerate(st)], TYPES[kind][0])
            r.meta['type'] = TYPE_NAME[kind]
            for by, c, buffered in itertools.product(('location', 'writer'), (None, cr), (0, 1)):
                mod.STORE.clear()
                mod.BUFFERED[:] = [1] * buffered
                mod.OPEN.clear()
                z = K.keyczar.GenericKeyczar(r)
                if by == 'location':
                    z.Write('mem:x', c)
                else:
                    w = K.writers.CreateWriter('mem:x')
                    z.Write(w, c)
                    w.Close()
                require(not mod.OPEN, 'Write leaves %r open', mod.OPEN)
                m, ks = mem_stored(mod.STORE.get('mem:x', {}), c) or (None, None)
                require(m is not None, 'nothing is stored by Write to a %s', by)
                require({v: s for v, (s, _) in m['versions'].items()} == dict(st) and m['encrypted'] == (c is not None), 'Write stores %r', m)
                require(ks == {v: raw(i) for i, (v, _) in enumerate(st)}, 'Write stores other keys')
                inner = K.readers.CreateReader('mem:x')
                reader = K.readers.EncryptedReader(inner, c) if c else inner
                g = K.keyczar.GenericKeyczar(reader)
                reader.Close()
                require(not mod.OPEN, 'closing the reader leaves %r open', mod.OPEN)
                require({v.version_number: str(v.status) for v in g.versions} == dict(st), 'read back')
                n += 1
        return n
    ctx.many(in_child(run), kind)

def use_mem(kind, loc):
    if kind in ('aes', 'rsa'):
        c = K.keyczar.Crypter.Read(loc)
        require(c.Decrypt(K.keyczar.Encrypter.Read(loc).Encrypt('x')) == 'x', 'crypting with a plug-in location')
    else:
        require(K.keyczar.Verifier.Read(loc).Verify('x', K.keyczar.Signer.Read(loc).Sign('x')), 'signing with a plug-in location')
        require(K.keyczar.UnversionedVerifier.Read(loc).Verify('x', K.keyczar.UnversionedSigner.Read(loc).Sign('x')), 'unversioned signing with a plug-in location')

def gen_c32_mixed(ctx):
    for kind in TYPES:
        for a in ('file', 'mem', 'zip'):
            for c in ('file', 'mem', 'zip'):
                yield kind, a, c

def fn_c32_mixed(ctx, p):
    """set, crypter and export destination on different back ends"""
    kind, a, c = p
    def run():
        b = Backends([('m', ('mem:', )), ('z', ('zip:', ))])
        K.readers.CreateReader('mem:')
        def place(back, name):
            if back == 'file':
                d = os.path.join(b.root, name)
                os.makedirs(d, exist_ok=True)
                return d
            return '%s:%s' % (back, name)
        loc, cloc, dest = place(a, 'set'), place(c, 'crypter'), place(c, 'dest')
        def ok(*args):
            with kzt.Pool():
                res, e = kzt.cli(*args)
            require(res == 'ok', '%r fails: %r', args, e)
        ok('create', '--location=' + cloc, '--purpose=crypt')
        ok('addkey', '--location=' + cloc, '--status=primary')
        ok('create', '--location=' + loc, *TYPES[kind][2])
        ok('addkey', '--location=' + loc, '--status=primary', '--crypter=' + cloc, *more(kind))
        cr = K.keyczar.Crypter.Read(cloc)
        o = K.keyczar.GenericKeyczar(K.readers.EncryptedReader(K.readers.CreateReader(loc), cr))
        require(o.metadata.encrypted and len(o.versions) == 1, 'encrypted set on a back end')
        refused(lambda: K.keyczar.GenericKeyczar.Read(loc), 'opening without crypter')
        loc2 = place(a, 'plain')
        ok('create', '--location=' + loc2, *TYPES[kind][2])
        ok('addkey', '--location=' + loc2, '--status=primary', *more(kind))
        if kind in PUB:
            if c == 'file':
                os.makedirs(dest, exist_ok=True)
            ok('pubkey', '--location=' + loc2, '--destination=' + dest)
            if kind == 'rsa':
                require(K.keyczar.Crypter.Read(loc2).Decrypt(K.keyczar.Encrypter.Read(dest).Encrypt('x')) == 'x', 'export')
            else:
                require(K.keyczar.Verifier.Read(dest).Verify('x', K.keyczar.Signer.Read(loc2).Sign('x')), 'export')
        for back, mod in (('mem', b.module('m')), ('zip', b.module('z'))):
            require(all(l.startswith(back + ':') for l in mod.STORE), 'stored on the wrong back end: %r', list(mod.STORE))
            want = {'%s:%s' % (back, n) for n, w in (('set', a), ('plain', a), ('crypter', c)) if w == back}
            if kind in PUB and c == back:
                want.add(back + ':dest')
            require(set(mod.STORE) == want, '%s holds %r', back, sorted(mod.STORE))
        require(not os.listdir(b.work), 'files appeared in the working directory')
        return True
    in_child(run)
    ctx.ev(p, kind)

@prop('C32', 'exploration', RULE, 'exhaustive enumeration of back-end registrations, locations, and of all commands in all life-cycle states on a plug-in back end',
      'All assignments of accepted prefixes to up to two (three) plug-in back ends against ten locations; eight forms of the path variable; every '
      'command in every life-cycle state of up to three versions on an in-memory back end, with all file modifications recorded, storing at once or on Close; every '
      'single failing call of the back end in each of them; sets, crypters and export destinations on mixed back ends. '
      'Several back ends registered together, many directories in the search path, failing back ends in every operation.', ['two plug-in files of the same name in different directories are not covered'])
def c32():
    return [Family('selection', gen_c32_select, fn_c32_select), Family('paths', gen_c32_env, fn_c32_env), Family('many-back-ends', gen_c32_more, fn_c32_more), Family('commands', gen_c32_cmds, fn_c32_cmds),
            Family('mixed', gen_c32_mixed, fn_c32_mixed), Family('faults', gen_c32_faults, fn_c32_faults), Family('writing', gen_c32_api, fn_c32_api)]
