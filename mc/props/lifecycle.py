"""C07 life cycle, C08 data over the life cycle, C24 public export, C25 command line, C31 key sizes."""
import io
import itertools
import json
import os

from .. import env, inputs, kzt, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop
from .sign import key_id

TYPES = {'aes': (env.CRYPT, lambda i: env.FIX['aes'][i], ['--purpose=crypt']),
         'hmac': (env.SIGN, env.HMAC, ['--purpose=sign']),
         'rsa': (env.CRYPT, lambda i: env.RSA(1024, i), ['--purpose=crypt', '--asymmetric=rsa']),
         'rsa-sign': (env.SIGN, lambda i: env.RSA(1024, i), ['--purpose=sign', '--asymmetric=rsa']),
         'dsa': (env.SIGN, env.DSA, ['--purpose=sign', '--asymmetric=dsa'])}

def more(kind):
    return ['--size=1024'] if kind.startswith('rsa') else []

def build(d, kind, state, name='Test', order=None):
    """Key set files of a state, written without the package."""
    purpose, raw, _ = TYPES[kind]
    items = list(state)
    if order:
        items = [items[i] for i in order]
    r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(items)], purpose, name=name)
    r.meta['type'] = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV'}.get(kind, 'RSA_PRIV')
    env.write_keyset(d, r)

def check_state(d, want, what, before=None, new=()):
    got = kzt.stored(d)
    require(got is not None, 'no key set after %s', what)
    st = {n: s for n, (s, _) in got[0]['versions'].items()}
    require(st == want, 'after %s the stored statuses are %r, not %r', what, st, want)
    for n in new:
        require(got[0]['versions'][n][1] is False, 'after %s the new key is exportable', what)
    if before:
        for f in ('name', 'purpose', 'type', 'encrypted'):
            require(got[0][f] == before[0][f], '%s changed the %s', what, f)
        for n, k in before[1].items():
            if n in want and n not in new:
                require(got[1][n] == k, '%s changed key %d', what, n)
                require(got[0]['versions'][n][1] == before[0]['versions'][n][1], '%s changed the exportable flag', what)
    return got

# ---------------------------------------------------------------- C07
def gen_c07_cli(ctx):
    top = 5 if ctx.thorough else 4
    for kind in TYPES:
        t = top if kind == 'hmac' else (top - 1 if kind in ('aes', 'dsa') else 2)
        for st in sorted(kzt.reachable(t)):
            yield kind, st, t

def fn_c07_cli(ctx, p):
    """every operation in every state, on the stored key set, through the tool"""
    kind, st, top = p
    state = dict(st)
    ctx.count('states')
    d = env.fresh_dir()
    with kzt.Pool(order=3):
        build(d, kind, st)
        snap = env.snapshot(d)
        before = kzt.stored(d)
        for op in kzt.ops(state, top):
            ctx.count('transitions'); ctx.count('traces')
            res, e = kzt.cli(*kzt.argv(op, d, *(more(kind) if op[0] == 'add' else [])))
            try:
                want = kzt.step(state, op)
            except kzt.Refused:
                require(res == 'keyczar', '%s in state %r: %s %r instead of a Keyczar error', op, state, res, e)
                require(kzt.stored(d) == before, 'the refused %s changed the key set %r', op, state)
                ctx.ev(op, 'refused')
            else:
                require(res == 'ok', '%s in state %r failed: %r', op, state, e)
                new = set(want) - set(state)
                got = check_state(d, want, '%s in %r' % (op, state), before, new)
                for n in new:
                    ids = [key_id(k) for k in got[1].values()]
                    require(len(set(ids)) == len(ids), 'two keys with the same identifier')
                if op[0] == 'revoke':
                    require(not os.path.exists(os.path.join(d, str(op[1]))), 'the revoked key is still stored')
                ctx.ev(op, op[0])
            env.rmdir(d)
            os.mkdir(d)
            env.restore(d, snap)
    env.rmdir(d)

def gen_c07_trace(ctx):
    for st, hist in sorted(kzt.reachable(5 if ctx.thorough else 4).items()):
        yield st, hist

def fn_c07_trace(ctx, p):
    """every state reached from an empty location by the tool alone, and by the API alone"""
    st, hist = p
    d = env.fresh_dir()
    require(kzt.cli('create', '--location=' + d, '--purpose=sign', '--name=N') [0] == 'ok', 'create failed')
    state = {}
    obj = K.keyczar.GenericKeyczar(env.MemReader(dict(name='N', purpose=env.SIGN, type='HMAC_SHA1', encrypted=False,
                                                      versions=[]), {}))
    for op in hist:
        before = kzt.stored(d)
        state = kzt.step(state, op)
        require(kzt.cli(*kzt.argv(op, d))[0] == 'ok', '%s failed', op)
        check_state(d, state, 'history %r' % (hist, ), before, set(state) - set(before[1]))
        kzt.api(obj, op)
        check_obj(obj, state)
        ctx.count('traces')
    require(kzt.frozen(state) == st, 'model')
    env.rmdir(d)
    d = env.fresh_dir()
    obj.Write(K.writers.CreateWriter(d))
    check_state(d, state, 'writing the object of history %r' % (hist, ))
    env.rmdir(d)

def check_obj(obj, state):
    got = {v.version_number: str(v.status) for v in obj.versions}
    require(got == state, 'the object has the statuses %r, not %r', got, state)
    got = {v.version_number: str(v.status) for v in obj.metadata.versions}
    require(got == state, 'the metadata of the object has %r, not %r', got, state)
    prim = [n for n, s in state.items() if s == 'PRIMARY']
    pv = obj.primary_version
    require((pv.version_number if pv is not None else None) == (prim[0] if prim else None), 'primary of the object')

SEQ_OPS = [('add', 'PRIMARY'), ('add', 'ACTIVE'), ('add', 'INACTIVE')] + [
    (n, v) for v in (1, 2, 3) for n in ('promote', 'demote', 'revoke')]

def gen_c07_seq(ctx):
    """prefixes of operation sequences on one object; the case runs all continuations"""
    return itertools.product(SEQ_OPS, repeat=2)

def fn_c07_seq(ctx, p):
    """every sequence of operations on one object (refused ones included), all prefixes checked"""
    depth = 5 if ctx.thorough else 4
    for tail in itertools.product(SEQ_OPS, repeat=depth - 2):
        obj = K.keyczar.GenericKeyczar(env.keyset([(1, 'PRIMARY', env.HMAC(0)), (2, 'INACTIVE', env.HMAC(1))], env.SIGN))
        state = {1: 'PRIMARY', 2: 'INACTIVE'}
        for i, op in enumerate(p + tail):
            try:
                want = kzt.step(state, op)
            except kzt.Refused:
                try:
                    kzt.api(obj, op)
                except K.errors.KeyczarError:
                    pass
                else:
                    raise Violation('%s in state %r is not refused (history %r)' % (op, state, p + tail))
            else:
                kzt.api(obj, op)
                state = want
            if i >= 2 or not any(SEQ_OPS.index(o) for o in tail):
                check_obj(obj, state)
            ctx.count('transitions')
        ctx.count('traces')
        ctx.many(1, 'sequence')

def gen_c07_many(ctx):
    for n in (5, 6, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 100, 128, 129) + ((256, 257, 500) if ctx.thorough else ()):
        yield n

def sym_hmac(i):
    return dict(hmac=inputs.pattern(32, b'sym-hmac%d' % i), size=256)

def fn_c07_many(ctx, n):
    """many versions: each kind of operation on the first, some middle and the last ones"""
    st = [(i, 'PRIMARY' if i == max(n // 2, 1) else ('ACTIVE', 'INACTIVE')[i % 2]) for i in range(1, n + 1)]
    d = env.fresh_dir()
    env.write_keyset(d, env.keyset([(i, s, sym_hmac(i)) for i, s in st], env.SIGN))
    before = kzt.stored(d)
    snap = env.snapshot(d)
    for op in [('add', s) for s in env.STATUSES] + [(o, v) for v in sorted({1, 2, 9, 10, 11, n // 2, n // 2 + 1, n - 1, n, n + 1})
                                                   for o in ('promote', 'demote', 'revoke')]:
        try:
            want = kzt.step(dict(st), op)
        except kzt.Refused:
            want = None
        res, e = kzt.cli(*kzt.argv(op, d))
        if want is None:
            require(res == 'keyczar' and kzt.stored(d) == before, '%s on %d versions: %s', op, n, res)
        else:
            require(res == 'ok', '%s on %d versions failed: %r', op, n, e)
            check_state(d, want, '%s on %d versions' % (op, n), before, set(want) - set(dict(st)))
        ctx.ev(op); ctx.count('transitions'); ctx.count('traces')
        env.rmdir(d); os.mkdir(d); env.restore(d, snap)
    env.rmdir(d)
    # one after the other from nothing, each becoming the primary
    d = env.fresh_dir()
    require(kzt.cli('create', '--location=' + d, '--purpose=sign')[0] == 'ok', 'create')
    state = {}
    for i in range(min(n, 70)):
        op = ('add', ('PRIMARY', 'ACTIVE', 'PRIMARY')[i % 3])
        state = kzt.step(state, op)
        require(kzt.cli(*kzt.argv(op, d))[0] == 'ok', '%s number %d', op, i)
        require(kzt.statuses(d) == state, 'after adding %d keys: %r', i + 1, kzt.statuses(d))
    env.rmdir(d)
    ctx.count('states')

def gen_c07_gaps(ctx):
    """every set of 4 to 8 numbers up to 9"""
    for n in range(4, 9):
        for c in itertools.combinations(range(1, 10), n):
            if ctx.thorough or n in (4, 8) or c[0] < 3:
                yield c

def fn_c07_gaps(ctx, c):
    """revoked numbers between others: two keys are added one after the other, by the tool and by the API"""
    st = {n: 'PRIMARY' if i == len(c) // 2 else ('ACTIVE', 'INACTIVE')[i % 2] for i, n in enumerate(c)}
    d = env.fresh_dir()
    env.write_keyset(d, env.keyset([(n, s, sym_hmac(n)) for n, s in st.items()], env.SIGN))
    snap = env.snapshot(d)
    for ops in ([('add', 'ACTIVE'), ('add', 'PRIMARY')], [('add', 'PRIMARY'), ('revoke', min(n for n in st if st[n] == 'INACTIVE')), ('add', 'ACTIVE')]):
        for how in ('tool', 'api'):
            state = dict(st)
            z = K.keyczar.GenericKeyczar.Read(d) if how == 'api' else None
            for op in ops:
                before = kzt.stored(d)
                new = kzt.step(state, op)
                if z is None:
                    res, e = kzt.cli(*kzt.argv(op, d))
                    require(res == 'ok', '%s on %r failed: %r', op, state, e)
                    check_state(d, new, '%s on %r' % (op, state), before, set(new) - set(state))
                else:
                    z.AddVersion(getattr(K.keyinfo, op[1])) if op[0] == 'add' else z.Revoke(op[1])
                    require({v.version_number: str(v.status) for v in z.versions} == new, '%s on %r: the object', op, state)
                state = new
                ctx.ev(op); ctx.count('transitions'); ctx.count('traces')
            if z is not None:
                w = K.writers.CreateWriter(d)
                z.Write(w)
                w.Close()
                require(kzt.statuses(d) == state, 'written by the API: %r', kzt.statuses(d))
            env.rmdir(d); os.mkdir(d); env.restore(d, snap)
    env.rmdir(d)
    ctx.count('states')

def gen_c07_order(ctx):
    for n in range(2, 14):
        for how in ('down', 'rotated', 'halves'):
            yield n, how

def fn_c07_order(ctx, p):
    """the metadata lists the versions in another order"""
    n, how = p
    nums = list(range(1, n + 1))
    nums = {'down': nums[::-1], 'rotated': nums[n // 2:] + nums[:n // 2], 'halves': nums[1::2] + nums[::2]}[how]
    st = {v: 'PRIMARY' if v == nums[n // 3] else ('ACTIVE', 'INACTIVE')[v % 2] for v in nums}
    d = env.fresh_dir()
    env.write_keyset(d, env.keyset([(v, s, sym_hmac(v)) for v, s in st.items()], env.SIGN))
    state = dict(st)
    for op in [('add', 'ACTIVE'), ('add', 'PRIMARY'), ('add', 'INACTIVE')] + [('promote', v) for v in (nums[0], nums[-1], 1, n)] + [('demote', n + 2), ('demote', 1)]:
        before = kzt.stored(d)
        res, e = kzt.cli(*kzt.argv(op, d))
        try:
            new = kzt.step(state, op)
            require(res == 'ok', '%s on %r failed: %r', op, state, e)
        except kzt.Refused:
            new = state
            require(res != 'ok', '%s on %r is not refused', op, state)
        check_state(d, new, '%s on %r listed in the order %r' % (op, state, nums), before, set(new) - set(state))
        state = new
        ctx.ev(op); ctx.count('transitions'); ctx.count('traces')
    env.rmdir(d)
    ctx.count('states')

def gen_c07_numbers(ctx):
    nums = (1, 2, 3, 8, 9, 10, 11, 19, 99, 100, 101, 1000)
    for k in (1, 2, 3):
        for c in itertools.permutations(nums, k):
            if k < 3 or ctx.thorough or c[0] in (2, 9, 10, 100):
                yield c
    for v in (127, 128, 256, 257, 512, 999, 1024, 4096, 9999, 32768, 65536, 10 ** 6, 2 ** 31 - 1, 2 ** 31 + 1, 2 ** 32):
        yield from itertools.permutations((v - 1, v, v + 1))

def fn_c07_numbers(ctx, c):
    """version numbers of several digits, in any order of the metadata; the next number and each operation"""
    d = env.fresh_dir()
    st = [(n, env.STATUSES[i]) for i, n in enumerate(c)]
    for name in ('Test', ):
        build(d, 'hmac', st)
        before = kzt.stored(d)
        snap = env.snapshot(d)
        for op in [('add', 'PRIMARY'), ('add', 'ACTIVE')] + [(o, n) for n in c for o in ('promote', 'demote', 'revoke')]:
            try:
                want = kzt.step(dict(st), op)
            except kzt.Refused:
                want = None
            res, e = kzt.cli(*kzt.argv(op, d))
            if want is None:
                require(res == 'keyczar' and kzt.stored(d) == before, '%s on %r: %s', op, st, res)
            else:
                require(res == 'ok', '%s on %r failed: %r', op, st, e)
                check_state(d, want, '%s on %r' % (op, st), before, set(want) - set(c))
            ctx.ev(op); ctx.count('transitions'); ctx.count('traces')
            env.rmdir(d); os.mkdir(d); env.restore(d, snap)
    env.rmdir(d)
    ctx.count('states')

@prop('C07', 'model_checking', RULE, 'explicit-state enumeration of the documented life-cycle model, with every transition replayed on the tool and the API',
      'All states of the life-cycle model with version numbers up to 4 (5 in the thorough tier) and all operations in each, replayed on '
      'stored key sets of every key type through keyczart.main; every state also reached by its own history of tool and of API calls; all '
      'API sequences of length 4 (5) on one object, refused operations included; multi-digit version numbers in any order. '
      'Sets of many versions, gaps between the version numbers, histories in which versions are stored in any order; the exportable flag of new keys.')
def c07():
    return [Family('tool', gen_c07_cli, fn_c07_cli), Family('histories', gen_c07_trace, fn_c07_trace),
            Family('sequences', gen_c07_seq, fn_c07_seq), Family('numbers', gen_c07_numbers, fn_c07_numbers),
            Family('many-versions', gen_c07_many, fn_c07_many),
            Family('gaps', gen_c07_gaps, fn_c07_gaps), Family('order', gen_c07_order, fn_c07_order)]

# ---------------------------------------------------------------- C08
class Uses:
    """Everything that was produced along a history, with the key it was produced with."""
    def __init__(self, kind):
        self.kind, self.items = kind, []

    def produce(self, open_, alive, primary, tag):
        """alive: {version: key id}; with the current primary, or refused"""
        for how in self.hows():
            msg = 'data %s %s' % (tag, how)
            try:
                out = self.make(open_, how, msg)
            except K.errors.NoPrimaryKeyError:
                require(primary is None, '%s refused although version %s is primary', how, primary)
                continue
            require(primary is not None, '%s succeeds without a primary key', how)
            if how not in ('unversioned', ):
                raw = B(out) if how != 'stream' else B(out)
                if how != 'attached':
                    require(raw[1:5] == alive[primary], '%s does not use the primary key', how)
            self.items.append((how, msg, out, alive[primary]))

    def hows(self):
        if self.kind == 'aes':
            return ('plain', 'stream')
        if self.kind == 'rsa':
            return ('plain', )
        return ('plain', 'attached', 'unversioned')

    def make(self, open_, how, msg):
        if self.kind in ('aes', 'rsa'):
            c = open_('Crypter')
            if how == 'stream':
                out = io.StringIO()
                w = c.CreateEncryptingStreamWriter(out, encoder=None)
                w.write(msg)
                w.flush()
                return out.getvalue()
            ct = open_('Encrypter').Encrypt(msg, None) if self.kind == 'aes' else c.Encrypt(msg, None)
            return ct
        if how == 'plain':
            return open_('Signer').Sign(msg, None)
        if how == 'attached':
            return open_('Signer').AttachedSign(msg, 'n', None)
        return open_('UnversionedSigner').Sign(msg, None)

    def check(self, open_, alive):
        """alive: set of key ids not revoked"""
        objs = {}
        def get(c):
            if c not in objs:
                objs[c] = open_(c)
            return objs[c]
        for how, msg, out, kid in self.items:
            live = kid in alive
            try:
                if how == 'stream':
                    r = get('Crypter').CreateDecryptingStreamReader(io.StringIO(out), decoder=None)
                    got = ''
                    while True:
                        x = r.read(64)
                        if not x:
                            break
                        got += x
                    ok = got == msg
                    require(ok, 'stream decrypts to something else')
                elif self.kind in ('aes', 'rsa'):
                    ok = get('Crypter').Decrypt(out, None) == msg
                    require(ok, 'decrypts to something else')
                elif how == 'plain':
                    ok = get('Verifier').Verify(msg, out, None)
                    require(get('Signer').Verify(msg, out, None) is ok or True, '')
                elif how == 'attached':
                    ok = get('Verifier').AttachedVerify(out, 'n', None) == msg
                else:
                    ok = get('UnversionedVerifier').Verify(msg, out, None)
            except K.errors.KeyNotFoundError:
                require(not live, '%s of a key that is not revoked: key not found', how)
                continue
            except K.errors.KeyczarError as e:
                if live:
                    raise Violation('%s of a key that is not revoked: %s %s' % (how, type(e).__name__, e))
                raise Violation('%s of a revoked key: %s instead of key not found' % (how, type(e).__name__))
            if how == 'unversioned':
                require(ok == live, 'unversioned signature of a %s key: %r', 'live' if live else 'revoked', ok)
            else:
                require(live, '%s of a revoked key is accepted', how)
                require(ok, '%s of a live key does not verify', how)

C08_OPS = [('add', 'PRIMARY'), ('add', 'ACTIVE')] + [(n, v) for v in (1, 2, 3) for n in ('promote', 'demote', 'revoke')]

def histories(start, length):
    """all permitted histories of exactly that length"""
    def go(state, hist):
        if len(hist) == length:
            yield hist
            return
        for op in C08_OPS:
            try:
                t = kzt.step(state, op)
            except kzt.Refused:
                continue
            if max(t, default=0) > 3:
                continue
            yield from go(t, hist + (op, ))
    return go(start, ())

def gen_c08(ctx):
    for kind in TYPES:
        n = 3 if kind in ('aes', 'hmac') else 2
        for h in histories({}, n):
            yield kind, h

def fn_c08(ctx, p):
    """all histories: the tool changes the stored set, which is opened again after every step"""
    kind, hist = p
    extra = 4 if kind in ('aes', 'hmac') else 3
    if ctx.thorough:
        extra += 1
    purpose, raw, flags = TYPES[kind]
    d = env.fresh_dir()
    counter = [0]

    def op_(cls):
        return getattr(K.keyczar, cls).Read(d)

    def run(state, ids, uses, todo, left):
        """carry on from the state on disk"""
        for op in (todo[:1] or C08_OPS):
            try:
                t = kzt.step(state, op)
            except kzt.Refused:
                continue
            if max(t, default=0) > 3:
                continue
            snap = env.snapshot(d)
            n_items = len(uses.items)
            res, e = kzt.cli(*kzt.argv(op, d, *(more(kind) if op[0] == 'add' else [])))
            require(res == 'ok', '%s failed: %r', op, e)
            keys = kzt.stored(d)[1]
            ids2 = {n: key_id(k) for n, k in keys.items()}
            require(set(ids2) == set(t), 'versions')
            prim = [n for n, s in t.items() if s == 'PRIMARY']
            if len(todo) <= 1:        # prefixes are checked by the case that owns them
                counter[0] += 1
                uses.check(op_, set(ids2.values()))
                ctx.count('states'); ctx.count('transitions'); ctx.count('traces')
                ctx.many(1, 'step')
            uses.produce(op_, ids2, prim[0] if prim else None, counter[0])
            if todo[1:] or left > 0:
                run(t, ids2, uses, todo[1:], left if todo[1:] else left - 1)
            del uses.items[n_items:]
            env.rmdir(d); os.mkdir(d); env.restore(d, snap)
    with kzt.Pool():
        require(kzt.cli('create', '--location=' + d, *flags)[0] == 'ok', 'create')
        run({}, {}, Uses(kind), hist, extra - 1)
    env.rmdir(d)

def gen_c08_live(ctx):
    for kind in ('aes', 'hmac'):
        for h in histories({}, 3):
            yield kind, h

def fn_c08_live(ctx, p):
    """the same within one process: one object that manages and uses the keys, without storing them"""
    kind, hist = p
    extra = 5 if ctx.thorough else 4
    purpose, raw, _ = TYPES[kind]
    kc = K.keyczar
    if kind == 'aes':
        class Live(kc.Crypter, kc.GenericKeyczar):
            pass
    else:
        class Live(kc.Signer, kc.GenericKeyczar):
            pass
    tails = [()]
    st = {}
    for op in hist:
        st = kzt.step(st, op)
    for tail in histories(st, extra):
        obj = Live(env.MemReader(dict(name='N', purpose=purpose, type='AES' if kind == 'aes' else 'HMAC_SHA1',
                                      encrypted=False, versions=[]), {}))
        made = []
        state = {}
        keys = {}
        for i, op in enumerate(hist + tail):
            new = kzt.step(state, op)
            kzt.api(obj, op)
            for n in set(new) - set(state):
                keys[n] = object()
            for n in set(state) - set(new):
                keys.pop(n)
            state = new
            for msg, out, k in made:
                live = any(k is x for x in keys.values())
                try:
                    ok = obj.Decrypt(out, None) == msg if kind == 'aes' else obj.Verify(msg, out, None)
                except K.errors.KeyNotFoundError:
                    require(not live, 'key not found for a live key after %r', (hist + tail)[:i + 1])
                else:
                    require(live, 'data of a revoked key accepted after %r', (hist + tail)[:i + 1])
                    require(ok, 'wrong result after %r', (hist + tail)[:i + 1])
            prim = [n for n, s in state.items() if s == 'PRIMARY']
            msg = 'm%d' % i
            try:
                out = obj.Encrypt(msg, None) if kind == 'aes' else obj.Sign(msg, None)
            except K.errors.NoPrimaryKeyError:
                require(not prim, 'no primary key error although there is one after %r', (hist + tail)[:i + 1])
            else:
                require(prim, 'works without a primary key after %r', (hist + tail)[:i + 1])
                made.append((msg, out, keys[prim[0]]))
        ctx.count('traces'); ctx.count('transitions', len(hist) + extra)
        ctx.many(1, 'live history')

def gen_c08_collide(ctx):
    for kind in TYPES:
        for n in (2, 3):
            for order in itertools.product(('PRIMARY', 'ACTIVE'), repeat=n):
                yield kind, order

def fn_c08_collide(ctx, p):
    """the random source repeats, so that the generator offers keys that the set already has"""
    kind, order = p
    purpose, raw, flags = TYPES[kind]
    d = env.fresh_dir()
    require(kzt.cli('create', '--location=' + d, *flags)[0] == 'ok', 'create')
    uses = Uses(kind)
    op_ = lambda c: getattr(K.keyczar, c).Read(d)
    state = {}
    for i, s in enumerate(order):
        env.rng.reset('repeats')
        with kzt.Pool():
            require(kzt.cli(*kzt.argv(('add', s), d, *more(kind)))[0] == 'ok', 'addkey')
        state = kzt.step(state, ('add', s))
        keys = kzt.stored(d)[1]
        ids = {n: key_id(k) for n, k in keys.items()}
        require(len(set(ids.values())) == i + 1, 'two versions share a key identifier')
        prim = [n for n, x in state.items() if x == 'PRIMARY']
        env.rng.reset('data%d' % i)
        uses.produce(op_, ids, prim[0] if prim else None, i)
        uses.check(op_, set(ids.values()))
        ctx.count('traces'); ctx.count('transitions')
    # an object that adds several keys before it is written
    obj = K.keyczar.GenericKeyczar.Read(d)
    for i in range(2):
        env.rng.reset('repeats')
        with kzt.Pool():
            obj.AddVersion(K.keyinfo.ACTIVE, *([1024] if kind.startswith('rsa') else []))
    ids = [key_id(env.parse_key(str(obj.GetKey(v)))) for v in obj.versions]
    require(len(set(ids)) == len(ids) == len(order) + 2, 'two versions of the object share a key identifier')
    env.rmdir(d)

def gen_c08_many(ctx):
    return [(kind, n) for n in (5, 9, 10, 11, 17, 33, 65, 129) for kind in ('aes', 'hmac')]

def fn_c08_many(ctx, p):
    """data of each of many versions; then every second one is revoked"""
    kind, n = p
    d = env.fresh_dir()
    def raw(i):
        k = sym_hmac(i)
        return dict(k, aes=inputs.pattern(16, b'a%d' % i), size=128) if kind == 'aes' else k
    data = {}
    for i in range(1, n + 1):
        m = S(inputs.pattern(i, b'd'))
        one = env.keyset([(1, 'PRIMARY', raw(i))], TYPES[kind][0])
        data[i] = m, K.keyczar.Crypter(one).Encrypt(m) if kind == 'aes' else K.keyczar.Signer(one).Sign(m)
    st = {i: 'PRIMARY' if i == n // 2 + 1 else ('INACTIVE', 'ACTIVE')[i % 2] for i in range(1, n + 1)}
    env.write_keyset(d, env.keyset([(i, s, raw(i)) for i, s in st.items()], TYPES[kind][0]))
    def check(gone):
        z = K.keyczar.Crypter.Read(d) if kind == 'aes' else K.keyczar.Verifier.Read(d)
        for i, (m, x) in data.items():
            try:
                got = z.Decrypt(x) == m if kind == 'aes' else z.Verify(m, x) is True
            except K.errors.KeyNotFoundError:
                got = 'gone'
            require(got == ('gone' if i in gone else True), 'data of version %d of %d: %r', i, n, got)
            ctx.ev((i, len(gone)))
        w = K.keyczar.Encrypter.Read(d).Encrypt('x', None) if kind == 'aes' else K.keyczar.Signer.Read(d).Sign('x', None)
        require(B(w)[1:5] == key_id(raw(n // 2 + 1)), 'new data does not use the primary')
    check(set())
    gone = set()
    for i in [i for i, s in st.items() if s == 'INACTIVE'][:6]:
        require(kzt.cli('revoke', '--location=' + d, '--version=%d' % i)[0] == 'ok', 'revoke %d', i)
        gone.add(i)
        check(gone)
        ctx.count('transitions'); ctx.count('traces')
        if len(gone) % 2 == 0:
            require(kzt.cli('addkey', '--location=' + d, '--status=active')[0] == 'ok', 'add after %d revoked', len(gone))
            check(gone)
    env.rmdir(d)

def gen_c08_noprim(ctx):
    for kind in TYPES:
        for n in range(0, 4):
            for st in itertools.product(('ACTIVE', 'INACTIVE'), repeat=n):
                yield kind, st

def fn_c08_noprim(ctx, p):
    """no primary: every producing operation is refused with the no-primary-key error; data still usable"""
    kind, st = p
    purpose, raw, _ = TYPES[kind]
    vs = [(i + 1, s, raw(i)) for i, s in enumerate(st)]
    d = env.fresh_dir()
    build(d, kind, [(n, s) for n, s, _ in vs])
    op_ = lambda c: getattr(K.keyczar, c).Read(d)
    calls = {env.CRYPT: [lambda: op_('Crypter').Encrypt('x'), lambda: op_('Encrypter').Encrypt('x', None)],
             env.SIGN: [lambda: op_('Signer').Sign('x'), lambda: op_('Signer').Sign('x', None),
                        lambda: op_('Signer').AttachedSign('x', 'n'), lambda: op_('UnversionedSigner').Sign('x')]}[purpose]
    if purpose == env.CRYPT:
        calls += [lambda: op_('Crypter').CreateEncryptingStreamWriter(io.StringIO())]
    if kind == 'rsa':
        calls += [lambda: K.keyczar.SessionEncrypter(op_('Encrypter')), lambda: K.keyczar.SessionEncrypter(op_('Crypter'))]
    for i, c in enumerate(calls):
        try:
            c()
        except K.errors.NoPrimaryKeyError:
            ctx.ev(i, 'refused')
        else:
            raise Violation('call %d works without a primary key' % i)
    uses = Uses(kind)
    for i, (n, s, r) in enumerate(vs):
        one = env.keyset([(1, 'PRIMARY', r)], purpose)
        uses.produce(lambda c: getattr(K.keyczar, c)(one), {1: key_id(r)}, 1, i)
    uses.check(op_, {key_id(r) for _, _, r in vs})
    ctx.count('states')
    env.rmdir(d)

@prop('C08', 'model_checking', RULE, 'exhaustive exploration of all life-cycle histories up to a depth on the real tool, with all data produced along each',
      'All histories of permitted operations on up to three versions, of length 7 (AES, HMAC) and 5 (RSA crypt, RSA sign, DSA), one more in '
      'the thorough tier: after every step the stored set is reopened, everything produced earlier (plain, stream, attached, unversioned) is '
      'used and new data is produced. The same on one live object (length 7/8), with a repeating random source, and all sets without primary.',
      ['key generation for RSA and DSA answers with prepared keys'])
def c08():
    return [Family('histories', gen_c08, fn_c08, 400), Family('live', gen_c08_live, fn_c08_live), Family('collisions', gen_c08_collide, fn_c08_collide),
            Family('no-primary', gen_c08_noprim, fn_c08_noprim), Family('many-versions', gen_c08_many, fn_c08_many)]

# ---------------------------------------------------------------- C24
PUB = {'rsa': (env.ENC, 'RSA_PUB'), 'rsa-sign': (env.VER, 'RSA_PUB'), 'dsa': (env.VER, 'DSA_PUB')}
NAMES = ['Test', '', 'a name', 'd\u00e9j\u00e0 \u20ac \U0001f511', 'quote"back\\slash', 'tab\tnew\nline', '{"name": 1}', 'x' * 300, "it's", 'null',
         'a=b', '--name', '\u2028']

def secrets_of(raw):
    """the secret values of a key as byte strings"""
    if 'aes' in raw:
        return [raw['aes'], raw['hmac']]
    if 'hmac' in raw:
        return [raw['hmac']]
    return [ref.i2b(raw[c]) for c in ('d', 'p', 'q', 'dp', 'dq', 'invq', 'x') if c in raw and ('n' in raw or c == 'x')]

def leaks(data, raws):
    """does the file content hold a secret of one of the keys, as text or as bytes"""
    import re
    found = []
    words = set(re.findall(rb'[A-Za-z0-9_+/-]{8,}', data))
    nums = set()
    for w in words:
        try:
            nums.add(env.u64(w.decode().replace('+', '-').replace('/', '_')).lstrip(b'\0'))
        except Exception:
            pass
    for raw in raws:
        for s in secrets_of(raw):
            t = s.lstrip(b'\0')
            if len(t) < 8:
                continue          # too short to tell from chance
            if t in nums or s in data or s.hex().encode() in data.lower() or str(int.from_bytes(s, 'big')).encode() in data:
                found.append(s)
            for k in range(3):      # anywhere inside longer base64 text
                import base64
                e = base64.urlsafe_b64encode(b'\0' * k + s)[(0, 2, 3)[k]:-4]
                if len(e) >= 8 and (e in data or e.replace(b'-', b'+').replace(b'_', b'/') in data):
                    found.append(s)
    return found

def public_half(raw):
    keep = ('size', 'n', 'e') if 'n' in raw else ('size', 'p', 'q', 'g', 'y')
    return {k: v for k, v in raw.items() if k in keep}

def check_export(kind, src, dest, name, state, raws):
    """raws: {version: key}"""
    meta, keys = kzt.stored(dest)
    purpose, typ = PUB[kind]
    require(meta['name'] == name, 'the exported set is named %r, not %r', meta['name'], name)
    require((meta['purpose'], meta['type'], meta['encrypted']) == (purpose, typ, False), 'exported as %s %s', meta['purpose'], meta['type'])
    require({n: s for n, (s, _) in meta['versions'].items()} == dict(state), 'exported statuses %r', meta['versions'])
    for n in dict(state):
        require(keys[n] == public_half(raws[n]), 'version %d is not the public half of the key', n)
    for f, data in env.snapshot(dest).items():
        bad = leaks(data, raws.values())
        require(not bad, 'file %s of the exported set holds a private value', f)

def use_export(kind, src, dest, state):
    prim = [n for n, s in state if s == 'PRIMARY']
    msg = 'exported'
    if kind == 'rsa':
        priv, pub = K.keyczar.Crypter.Read(src), K.keyczar.Encrypter.Read(dest)
        if prim:
            require(priv.Decrypt(pub.Encrypt(msg)) == msg, 'data encrypted with the exported set does not decrypt')
        else:
            try:
                pub.Encrypt(msg)
                raise Violation('encrypts without a primary')
            except K.errors.NoPrimaryKeyError:
                pass
        return
    pub = K.keyczar.Verifier.Read(dest)
    upub = K.keyczar.UnversionedVerifier.Read(dest)
    if prim:
        priv = K.keyczar.Signer.Read(src)
        require(pub.Verify(msg, priv.Sign(msg)) is True, 'exported set does not verify')
        require(pub.AttachedVerify(priv.AttachedSign(msg, 'n'), 'n') == msg, 'exported set does not verify attached')
        require(pub.Verify(msg + '.', priv.Sign(msg)) is not True, 'exported set verifies other data')
        require(upub.Verify(msg, K.keyczar.UnversionedSigner.Read(src).Sign(msg)) is True, 'exported set does not verify unversioned')
    for i, (n, s) in enumerate(state):
        one = K.keyczar.Signer(env.keyset([(1, 'PRIMARY', kzt.stored(src)[1][n])], env.SIGN))
        require(pub.Verify(msg, one.Sign(msg)) is True, 'exported version %d does not verify', n)

def gen_c24(ctx):
    for kind in PUB:
        for st in sorted(kzt.reachable(4 if ctx.thorough or kind == 'dsa' else 3)):
            yield kind, st, 'Test', 'cli'
        for name in NAMES:
            yield kind, ((1, 'ACTIVE'), (2, 'PRIMARY')), name, 'cli'
        for st in (((1, 'PRIMARY'), ), ((7, 'ACTIVE'), (12, 'PRIMARY'), (100, 'INACTIVE')), ((12, 'PRIMARY'), (3, 'ACTIVE')), ()):
            yield kind, st, 'Test', 'cli'
            yield kind, st, 'Test', 'api'

def fn_c24(ctx, p):
    kind, st, name, how = p
    src, dest = env.fresh_dir(), env.fresh_dir()
    build(src, kind, st, name)
    snap = env.snapshot(src)
    raws = {n: TYPES[kind][1](i) for i, (n, _) in enumerate(st)}
    if how == 'cli':
        res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + dest)
        require(res == 'ok', 'export failed: %r', e)
    else:
        K.keyczar.GenericKeyczar.Read(src).PublicKeyExport(dest)
    require(env.snapshot(src) == snap, 'exporting changed the private set')
    check_export(kind, src, dest, name, st, raws)
    use_export(kind, src, dest, st)
    ctx.ev(p, kind)
    env.rmdir(src); env.rmdir(dest)

def gen_c24_hist(ctx):
    for kind in PUB:
        for h in histories({1: 'PRIMARY', 2: 'INACTIVE'}, 2):
            yield kind, h

def fn_c24_hist(ctx, p):
    """exports after every step of every history, into a fresh and into the same destination, by tool and by API"""
    kind, hist = p
    extra = 1 if not ctx.thorough else 3
    st0 = {1: 'PRIMARY', 2: 'INACTIVE'}
    st = st0
    for op in hist:
        st = kzt.step(st, op)
    for tail in histories(st, extra):
        src, same = env.fresh_dir(), env.fresh_dir()
        with kzt.Pool(order=2):
            build(src, kind, kzt.frozen(st0))
            obj = K.keyczar.GenericKeyczar.Read(src)
            state = st0
            kzt.cli('pubkey', '--location=' + src, '--destination=' + same)
            for op in hist + tail:
                state = kzt.step(state, op)
                require(kzt.cli(*kzt.argv(op, src, *(more(kind) if op[0] == 'add' else [])))[0] == 'ok', '%s failed', op)
                raws = kzt.stored(src)[1]
                dest = env.fresh_dir()
                for d in (dest, same):
                    res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + d)
                    require(res == 'ok', 'export failed: %r', e)
                    check_export(kind, src, d, 'Test', kzt.frozen(state), raws)
                use_export(kind, src, dest, kzt.frozen(state))
                require({f for f in env.snapshot(dest)} == {'meta'} | {str(n) for n in state}, 'the export wrote other files')
                env.rmdir(dest)
                ctx.ev((tail, op), 'export')
        with kzt.Pool(order=2):      # one object, exported without being stored
            state = st0
            for op in hist + tail:
                state = kzt.step(state, op)
                kzt.api(obj, op, *([1024] if op[0] == 'add' and kind.startswith('rsa') else []))
                dest = env.fresh_dir()
                obj.PublicKeyExport(dest)
                raws = {v.version_number: env.parse_key(str(obj.GetKey(v))) for v in obj.versions}
                check_export(kind, src, dest, 'Test', kzt.frozen(state), raws)
                env.rmdir(dest)
        env.rmdir(src); env.rmdir(same)

def gen_c24_no(ctx):
    for kind in ('aes', 'hmac'):
        for st in sorted(kzt.reachable(3)):
            for occupied in (False, True):
                yield kind, st, occupied

def fn_c24_no(ctx, p):
    """symmetric and encrypted sets, missing destination: refused, nothing written"""
    kind, st, occupied = p
    src, dest = env.fresh_dir(), env.fresh_dir()
    build(src, kind, st)
    if occupied:
        build(dest, 'dsa', ((1, 'PRIMARY'), ))
    a, b = env.snapshot(src), env.snapshot(dest)
    for how in ('cli', 'api', 'nodest', 'baddest'):
        if how == 'cli':
            res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + dest)
        elif how == 'nodest':
            res, e = kzt.cli('pubkey', '--location=' + src)
        elif how == 'baddest':
            res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + dest + '/not/there')
        else:
            try:
                K.keyczar.GenericKeyczar.Read(src).PublicKeyExport(dest)
                res = 'ok'
            except K.errors.KeyczarError:
                res = 'keyczar'
        require(res == 'keyczar', '%s: exporting a symmetric set gives %s', how, res)
        require(env.snapshot(src) == a and env.snapshot(dest) == b, '%s: the refused export wrote something', how)
        ctx.ev(how, 'refused')
    env.rmdir(src); env.rmdir(dest)

def fn_c24_enc(ctx, p):
    """encrypted private set: not exported without its crypter; with it (API) the public halves in the clear"""
    kind, st = p
    src, dest = env.fresh_dir(), env.fresh_dir()
    purpose, raw, _ = TYPES[kind]
    c = env.crypter(env.AES(256))
    r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(st)], purpose, encrypted=True, encrypt=c.Encrypt)
    r.meta['type'] = 'DSA_PRIV' if kind == 'dsa' else 'RSA_PRIV'
    env.write_keyset(src, r)
    if st:
        res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + dest)
        require(res == 'keyczar' and not env.snapshot(dest), 'export of an encrypted set: %s', res)
    K.keyczar.GenericKeyczar(K.readers.EncryptedReader(K.readers.CreateReader(src), c)).PublicKeyExport(dest)
    check_export(kind, src, dest, 'Test', st, {n: raw(i) for i, (n, _) in enumerate(st)})
    ctx.ev(p, 'encrypted')
    env.rmdir(src); env.rmdir(dest)

def gen_c24_enc(ctx):
    for kind in PUB:
        for st in sorted(kzt.reachable(3)):
            yield kind, st

def gen_c24_sizes(ctx):
    for bits in (512, 768, 1024, 2048, 4096):
        for i in range(len([k for k in env.FIX['rsa'] if k['size'] == bits])):
            for purpose in (env.CRYPT, env.SIGN):
                for style in ('java', 'pad', 'min'):
                    yield bits, i, purpose, style

def fn_c24_sizes(ctx, p):
    bits, i, purpose, style = p
    src, dest = env.fresh_dir(), env.fresh_dir()
    raw = env.RSA(bits, i)
    env.write_keyset(src, env.keyset([(1, 'PRIMARY', raw)], purpose, style=style))
    res, e = kzt.cli('pubkey', '--location=' + src, '--destination=' + dest)
    require(res == 'ok', 'export failed: %r', e)
    kind = 'rsa' if purpose == env.CRYPT else 'rsa-sign'
    check_export(kind, src, dest, 'Test', ((1, 'PRIMARY'), ), {1: raw})
    use_export(kind, src, dest, ((1, 'PRIMARY'), ))
    ctx.ev(p)
    env.rmdir(src); env.rmdir(dest)

@prop('C24', 'exploration', RULE, 'exhaustive enumeration of life-cycle states and histories with an export after each step, against the reference key values',
      'Every life-cycle state with up to three versions (DSA: four) of each asymmetric kind, names, RSA sizes and integer spellings exported by tool and '
      'API; after every step of every history of length 3 (5) into fresh and reused destinations; symmetric, encrypted and destination-less exports.')
def c24():
    return [Family('states', gen_c24, fn_c24), Family('histories', gen_c24_hist, fn_c24_hist, 300), Family('refused', gen_c24_no, fn_c24_no),
            Family('encrypted', gen_c24_enc, fn_c24_enc), Family('sizes', gen_c24_sizes, fn_c24_sizes)]

# ---------------------------------------------------------------- C25
class Place:
    """A directory tree with several key sets; a command may change one of them."""
    STATE = ((1, 'ACTIVE'), (2, 'PRIMARY'), (3, 'INACTIVE'))

    def __init__(self, kind):
        self.kind = kind
        self.root = env.fresh_dir()
        self.dirs = {n: os.path.join(self.root, n) for n in
                     ('empty', 'full', 'enc', 'fresh', 'crypter1', 'crypter2', 'signer', 'dest', 'other', 'bystander')}
        for d in self.dirs.values():
            os.mkdir(d)
        self.dirs['missing'] = os.path.join(self.root, 'missing')
        self.dirs['equals'] = os.path.join(self.root, 'a=b')
        os.mkdir(self.dirs['equals'])
        build(self.dirs['full'], kind, self.STATE)
        build(self.dirs['other'], 'aes' if kind != 'aes' else 'hmac', self.STATE, 'Other')
        build(self.dirs['fresh'], kind, (), 'Fresh')
        build(self.dirs['crypter1'], 'aes', ((1, 'PRIMARY'), (2, 'ACTIVE')))
        env.write_keyset(self.dirs['crypter2'], env.keyset([(1, 'PRIMARY', env.AES(256, 1))], env.CRYPT))
        build(self.dirs['signer'], 'hmac', ((1, 'PRIMARY'), ))
        with open(os.path.join(self.dirs['bystander'], 'meta'), 'w') as f:
            f.write('not a key set')
        self.crypter = K.keyczar.Crypter.Read(self.dirs['crypter1'])
        purpose, raw, _ = TYPES[kind]
        r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(self.STATE)], purpose, encrypted=True, encrypt=self.crypter.Encrypt)
        env.write_keyset(self.dirs['enc'], r)
        self.snap = env.snapshot(self.root)

    def changed(self):
        """names of the directories with a changed, new or removed file"""
        now = env.snapshot(self.root)
        diff = {f for f in set(now) | set(self.snap) if now.get(f) != self.snap.get(f)}
        return {f.split(os.sep)[0] for f in diff}

    def reset(self):
        now = env.snapshot(self.root)
        for f in now:
            if f not in self.snap:
                os.remove(os.path.join(self.root, f))
        env.restore(self.root, {f: d for f, d in self.snap.items() if now.get(f) != d})

    def drop(self):
        env.rmdir(self.root)

    def loc(self, name):
        return self.dirs[name]

def flagged(pl, opts):
    out = []
    for k, v in opts:
        if v is None:
            continue
        if k in ('location', 'destination', 'crypter') and v in pl.dirs:
            v = pl.dirs[v]
        out.append('--%s=%s' % (k, v))
    return out

def orders(args, full):
    if full:
        return itertools.permutations(args)
    return [tuple(args), tuple(reversed(args))] if len(args) > 1 else [tuple(args)]

NOISE = [None, ('size', '1024'), ('version', '1'), ('status', 'primary'), ('destination', 'dest'), ('crypter', 'crypter1'), ('name', 'Noise'),
         ('purpose', 'crypt'), ('asymmetric', 'rsa')]

def gen_c25_create(ctx):
    for loc in ('empty', 'full', 'enc', 'fresh', 'missing', 'equals', 'bystander', None):
        for purpose in ('crypt', 'sign', None, '', 'verify', 'encrypt', 'SIGN', 'test', 'signcrypt', 'DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY'):
            yield loc, purpose

def fn_c25_create(ctx, p):
    loc, purpose = p
    pl = Place('hmac')
    for asym in (None, 'rsa', 'dsa', 'RSA', 'DSA'):
        for name in (None, 'N', 'a=b', '', 'd\u00e9j\u00e0', 'two words', '--x', 'x-', 'x--', '=', '==a', 'a=', '"q"', "'q'", 'a,b', 'N\0', '%n', '$N',
                     ' n ', 'x\n', '\t', '\\', '/a/', 'null', '0'):
            for noise in NOISE[:6] if name in (None, 'N') else [None]:
                args = flagged(pl, [('location', loc), ('purpose', purpose), ('asymmetric', asym), ('name', name)] + ([noise] if noise else []))
                for perm in orders(args, ctx.thorough or (loc == 'empty' and name == 'N')):
                    res, e = kzt.cli('create', *perm)
                    ch = pl.changed()
                    ok = loc in ('empty', 'equals') and purpose in ('crypt', 'sign')
                    what = 'create %s' % ' '.join(perm)
                    if not ok:
                        require(res != 'ok', '%s succeeds', what)
                        require(not ch, '%s fails but changes %s', what, sorted(ch))
                        ctx.many(1, 'refused')
                        continue
                    if purpose == 'crypt' and asym in ('dsa', 'DSA'):
                        require(ch <= {os.path.basename(pl.dirs[loc])}, '%s changes %s', what, sorted(ch))
                        pl.reset()
                        continue
                    require(res == 'ok', '%s fails: %r', what, e)
                    require(ch == {os.path.basename(pl.dirs[loc])}, '%s changes %s', what, sorted(ch))
                    meta, keys = kzt.stored(pl.dirs[loc])
                    typ = {('sign', None): 'HMAC_SHA1', ('sign', 'rsa'): 'RSA_PRIV', ('sign', 'dsa'): 'DSA_PRIV',
                           ('crypt', None): 'AES', ('crypt', 'rsa'): 'RSA_PRIV'}[purpose, asym and asym.lower()]
                    want = dict(purpose=env.CRYPT if purpose == 'crypt' else env.SIGN, type=typ, encrypted=False, versions={})
                    for k, v in want.items():
                        require(meta[k] == v, '%s: %s is %r', what, k, meta[k])
                    if name is not None:
                        require(meta['name'] == name, '%s: the name is %r', what, meta['name'])
                    require(os.listdir(pl.dirs[loc]) == ['meta'], '%s wrote %r', what, os.listdir(pl.dirs[loc]))
                    pl.reset()
                    ctx.many(1, 'created')
    pl.drop()

HOLDS = ('plain', 'no keys', 'meta is a link', 'location is a link', 'link to a link', 'trailing slash', 'double slash', 'dot', 'dot dot', 'keys only in meta',
         'read-only', 'with other files', 'public', 'encrypted')

def gen_c25_holds(ctx):
    for how in HOLDS:
        for flags in TYPES:
            yield how, flags

def fn_c25_holds(ctx, p):
    """a location that holds a key set, in whatever way"""
    how, flags = p
    root = env.fresh_dir()
    for kind in TYPES:
        d = os.path.join(root, kind)
        os.mkdir(d)
        if how == 'public':
            if kind not in PUB:
                continue
            purpose, typ = PUB[kind]
            m = env.keyset([(1, 'PRIMARY', TYPES[kind][1](0))], purpose, public=True, name='P')
            m.meta['type'] = typ
            env.write_keyset(d, m)
        elif how == 'encrypted':
            env.write_keyset(d, env.keyset([(1, 'PRIMARY', TYPES[kind][1](0))], TYPES[kind][0], encrypted=True, encrypt=env.crypter(env.AES(128)).Encrypt))
        else:
            build(d, kind, () if how == 'no keys' else ((1, 'PRIMARY'), (2, 'ACTIVE')))
        loc = d
        meta = os.path.join(d, 'meta')
        if how == 'meta is a link':
            os.rename(meta, os.path.join(root, kind + '.meta'))
            os.symlink(os.path.join('..', kind + '.meta'), meta)
        elif how in ('location is a link', 'link to a link'):
            loc = os.path.join(root, kind + '.link')
            os.symlink(kind, loc)
            if how == 'link to a link':
                os.symlink(kind + '.link', loc + '2')
                loc += '2'
        elif how == 'trailing slash':
            loc = d + '/'
        elif how == 'double slash':
            loc = root + '//' + kind
        elif how == 'dot':
            loc = os.path.join(d, '.')
        elif how == 'dot dot':
            os.mkdir(os.path.join(d, 'sub'))
            loc = os.path.join(d, 'sub', '..')
        elif how == 'keys only in meta':
            os.remove(os.path.join(d, '1'))
        elif how == 'read-only':
            os.chmod(meta, 0o400)
        elif how == 'with other files':
            for f in ('meta.tmp', 'meta~', '0', '3', 'README'):
                with open(os.path.join(d, f), 'w') as h:
                    h.write('x')
        snap = env.snapshot(root)
        for name in ([], ['--name=Test'], ['--name=Other']):
            res, e = kzt.cli('create', '--location=' + loc, *(TYPES[flags][2] + name))
            require(res == 'keyczar', 'create where there is a key set (%s): %s %r', how, res, e)
            require(env.snapshot(root) == snap, 'the refused create changes the key set (%s)', how)
            ctx.ev((kind, len(name)), 'refused')
    env.rmdir(root)

SIZES = {'aes': ('128', '192', '256'), 'hmac': ('256', ), 'dsa': ('1024', ), 'rsa': ('1024', '2048'), 'rsa-sign': ('1024', '2048')}

def gen_c25_add(ctx):
    for kind in TYPES:
        for loc in ('full', 'fresh', 'enc', 'empty', 'missing', 'bystander', None):
            for crypter in (None, 'crypter1', 'crypter2', 'signer', 'missing', 'empty', ''):
                yield kind, loc, crypter

def fn_c25_add(ctx, p):
    kind, loc, crypter = p
    pl = Place(kind)
    default = {'aes': 128, 'hmac': 256, 'dsa': 1024}.get(kind, 2048)
    for status in (None, 'primary', 'active', 'inactive', 'PRIMARY', 'Active', 'bogus', '', 'revoked', 'primary ', ' active', 'prim', 'primary,active'):
        for size in (None, ) + SIZES[kind] + ('0', '1', '127', '512000', '-7', 'x', '', '12.8'):
            for noise in (NOISE if status == 'primary' and size == SIZES[kind][0] else [None]):
                if noise and noise[0] in ('size', 'status', 'crypter'):
                    continue
                args = flagged(pl, [('location', loc), ('status', status), ('size', size), ('crypter', crypter)] + ([noise] if noise else []))
                for perm in orders(args, ctx.thorough or status == 'primary' and noise is None and kind in ('aes', 'dsa')):
                    what = 'addkey %s (%s)' % (' '.join(perm), kind)
                    with kzt.Pool(order=3):
                        res, e = kzt.cli('addkey', *perm)
                    ch = pl.changed()
                    ok = ((loc == 'full' and crypter is None or loc == 'fresh' and crypter in (None, 'crypter1', 'crypter2')
                           or loc == 'enc' and crypter == 'crypter1') and (status or 'x' if status is not None else 'active').lower() in ('primary', 'active', 'inactive')
                          and size in (None, ) + SIZES[kind])
                    if not ok:
                        require(res != 'ok', '%s succeeds', what)
                        require(not ch, '%s fails but changes %s', what, sorted(ch))
                        ctx.many(1, 'refused')
                        continue
                    require(res == 'ok', '%s fails: %r', what, e)
                    require(ch == {loc}, '%s changes %s', what, sorted(ch))
                    c = None if crypter is None else K.keyczar.Crypter.Read(pl.dirs[crypter])
                    meta, keys = kzt.stored(pl.dirs[loc], c)
                    before = dict(pl.STATE) if loc != 'fresh' else {}
                    want = kzt.step(before, ('add', (status or 'active').upper()))
                    require({n: s for n, (s, _) in meta['versions'].items()} == want, '%s: versions %r', what, meta['versions'])
                    require(meta['encrypted'] == (c is not None), '%s: encrypted %r', what, meta['encrypted'])
                    new = max(want)
                    bits = int(size) if size else default
                    k = keys[new]
                    require(k['size'] == bits, '%s: the new key has size %r', what, k['size'])
                    if 'aes' in k:
                        require(len(k['aes']) * 8 == bits, '%s: %d bits of key', what, len(k['aes']) * 8)
                    if 'n' in k:
                        require(k['n'].bit_length() == bits, '%s: modulus of %d bits', what, k['n'].bit_length())
                    for i, (n, s) in enumerate(pl.STATE if loc != 'fresh' else ()):
                        require(keys[n] == TYPES[kind][1](i), '%s changes key %d', what, n)
                    pl.reset()
                    ctx.many(1, 'added')
    pl.drop()

def gen_c25_ver(ctx):
    for cmd in ('promote', 'demote', 'revoke'):
        for kind in TYPES:
            for loc in ('full', 'fresh', 'enc', 'empty', 'missing', 'bystander', None):
                yield cmd, kind, loc

def fn_c25_ver(ctx, p):
    cmd, kind, loc = p
    pl = Place(kind)
    for ver in (None, '1', '2', '3', '4', '0', '-1', '-2', 'x', '', '1.0', '99'):
        for noise in NOISE:
            if noise and noise[0] == 'version':
                continue
            args = flagged(pl, [('location', loc), ('version', ver)] + ([noise] if noise else []))
            for perm in orders(args, True):
                what = '%s %s (%s)' % (cmd, ' '.join(perm), kind)
                res, e = kzt.cli(cmd, *perm)
                ch = pl.changed()
                want = None
                if loc == 'full' and ver in ('1', '2', '3'):
                    try:
                        want = kzt.step(dict(pl.STATE), (cmd, int(ver)))
                    except kzt.Refused:
                        pass
                if want is None:
                    require(res != 'ok', '%s succeeds', what)
                    require(not ch, '%s fails but changes %s', what, sorted(ch))
                    ctx.many(1, 'refused')
                    continue
                require(res == 'ok', '%s fails: %r', what, e)
                require(ch == {loc}, '%s changes %s', what, sorted(ch))
                meta, keys = kzt.stored(pl.dirs[loc])
                require({n: s for n, (s, _) in meta['versions'].items()} == want, '%s: %r', what, meta['versions'])
                pl.reset()
                ctx.many(1, cmd)
    pl.drop()

def gen_c25_pub(ctx):
    for kind in TYPES:
        for loc in ('full', 'fresh', 'enc', 'empty', 'missing', 'bystander', None):
            yield kind, loc

def fn_c25_pub(ctx, p):
    kind, loc = p
    pl = Place(kind)
    for dest in ('dest', 'missing', 'equals', None):
        for noise in NOISE:
            if noise and noise[0] == 'destination':
                continue
            args = flagged(pl, [('location', loc), ('destination', dest)] + ([noise] if noise else []))
            for perm in orders(args, True):
                what = 'pubkey %s (%s)' % (' '.join(perm), kind)
                res, e = kzt.cli('pubkey', *perm)
                ch = pl.changed()
                ok = loc in ('full', 'fresh') and kind in PUB and dest in ('dest', 'equals')
                if not ok:
                    require(res != 'ok', '%s succeeds', what)
                    require(not ch, '%s fails but changes %s', what, sorted(ch))
                    ctx.many(1, 'refused')
                    continue
                require(res == 'ok', '%s fails: %r', what, e)
                require(ch == {os.path.basename(pl.dirs[dest])}, '%s changes %s', what, sorted(ch))
                st = pl.STATE if loc == 'full' else ()
                check_export(kind, pl.dirs[loc], pl.dirs[dest], 'Test' if loc == 'full' else 'Fresh', st,
                             {n: TYPES[kind][1](i) for i, (n, _) in enumerate(st)})
                pl.reset()
                ctx.many(1, 'exported')
    pl.drop()

def gen_c25_onto(ctx):
    for kind in PUB:
        for loc in ('full', 'fresh'):
            yield kind, loc

def fn_c25_onto(ctx, p):
    """public keys are never written over private ones, wherever the destination is and however it is spelled"""
    kind, loc = p
    pl = Place(kind)
    for other in sorted(TYPES):
        pl.dirs['private ' + other] = d = os.path.join(pl.root, 'private-' + other)
        os.mkdir(d)
        build(d, other, pl.STATE, 'Private')
    pl.snap = env.snapshot(pl.root)
    for dest in [n for n in pl.dirs if n in ('full', 'fresh', 'enc', 'other', 'crypter1', 'signer') or n.startswith('private ')]:
        d = pl.dirs[dest]
        ways = [d, d + '/', os.path.join(d, '.'), os.path.join(pl.root, 'empty', '..', os.path.basename(d)), os.path.relpath(d)]
        link = os.path.join(os.path.dirname(pl.root), 'link-%d' % os.getpid())
        os.symlink(d, link)
        try:
            for way in ways + [link]:
                for args in (['--location=' + pl.dirs[loc], '--destination=' + way], ['--destination=' + way, '--location=' + pl.dirs[loc]]):
                    res, e = kzt.cli('pubkey', *args)
                    require(res == 'keyczar', 'pubkey of a %s set onto a private set (%s) gives %s %r', kind, dest, res, e)
                    require(not pl.changed(), 'pubkey of a %s set onto a private set (%s) changes %s', kind, dest, sorted(pl.changed()))
                    ctx.many(1, 'refused')
                try:
                    K.keyczar.GenericKeyczar.Read(pl.dirs[loc]).PublicKeyExport(way)
                    require(False, 'PublicKeyExport of a %s set onto a private set (%s) succeeds', kind, dest)
                except K.errors.KeyczarError:
                    pass
                require(not pl.changed(), 'PublicKeyExport of a %s set onto a private set (%s) changes %s', kind, dest, sorted(pl.changed()))
                ctx.many(1, 'refused')
        finally:
            os.remove(link)
    # over a public set it is allowed
    for again in range(2):
        res, e = kzt.cli('pubkey', '--location=' + pl.dirs[loc], '--destination=' + pl.dirs['dest'])
        require(res == 'ok', 'pubkey to a location that holds a public set: %s %r', res, e)
        ctx.many(1, 'exported')
    pl.drop()

BADCMDS = ['', 'Create', 'CREATE', 'add', 'addKey', 'list', 'delete', 'remove', 'usage', 'help', '--help', 'create ', 'promot', 'demotes', 'genkeys',
           'revok', 'pub', 'create=1', '--create', 'None']
GOODARGS = {'create': [('location', 'empty'), ('purpose', 'crypt'), ('name', 'N')],
            'addkey': [('location', 'full'), ('status', 'primary')],
            'promote': [('location', 'full'), ('version', '1')], 'demote': [('location', 'full'), ('version', '1')],
            'revoke': [('location', 'full'), ('version', '3')], 'pubkey': [('location', 'full'), ('destination', 'dest')]}
BADFLAGS = ['--foo=1', '--Location=x', '--locations=x', '--loc=x', '--sizes=1', '--=x', '--force=1', '--delete=1', '--stat=primary', '--crypt=x',
            '--LOCATION=x', '-- =1', '--version =2', '--purposes=crypt']
# flags without a value (also with the value as a separate argument) and with values that are not numbers
MALFORMED = [['--' + f] for f in ('size', 'status', 'crypter', 'version', 'name', 'asymmetric', 'purpose', 'destination', 'location', 'foo', '')] + [
    ['--status', 'primary'], ['--size', '1024'], ['--crypter', '/nowhere'], ['--version', '2'], ['--asymmetric', 'rsa'],
    ['--size=x'], ['--size='], ['--size=1.5'], ['--version=one'], ['--version='], ['--version=1.0']]

def gen_c25_bad(ctx):
    for cmd in GOODARGS:
        for f in BADFLAGS:
            yield cmd, f
        for f in MALFORMED:
            if not (f[0].startswith('--version=') and cmd in ('promote', 'demote', 'revoke')):   # the last one counts
                yield cmd, f
    for cmd in BADCMDS:
        yield cmd, None

def fn_c25_bad(ctx, p):
    """unknown command; unknown or malformed flag at every position"""
    cmd, bad = p
    pl = Place('dsa')
    for good, opts in GOODARGS.items():
        if bad is not None and good != cmd:
            continue
        args = flagged(pl, opts)
        lists = []
        if bad is None:
            lists = [[cmd] + args, [cmd] + args[::-1], [args[0], good] + args[1:], args + [good]]
        else:
            for i in range(len(args) + 1):
                lists.append([cmd] + args[:i] + (bad if isinstance(bad, list) else [bad]) + args[i:])
        for a in lists:
            res, e = kzt.cli(*a)
            require(res == 'keyczar' or isinstance(bad, list), '%r gives %s %r', a, res, e)
            ch = pl.changed()
            require(not ch, '%r changes %s', a, sorted(ch))
            ctx.many(1, 'refused')
    kzt.cli()
    require(not pl.changed(), 'the tool without arguments changes files')
    pl.drop()

def gen_c25_seq(ctx):
    cmds = [('create', l) for l in ('one', 'two')] + [('addkey', l) for l in ('one', 'two')] + [('demote', l) for l in ('one', 'two')] + [
        ('revoke', l) for l in ('one', 'two')] + [('pubkey', 'one')]
    for s in itertools.product(cmds, repeat=4 if ctx.thorough else 3):
        yield s

def fn_c25_seq(ctx, seq):
    """sequences of commands on two locations: each acts on its own location; a set is never overwritten"""
    for flags, kind in ((['--purpose=sign', '--asymmetric=dsa'], 'dsa'), (['--purpose=crypt'], 'aes')):
        root = env.fresh_dir()
        model = {}
        for d in ('one', 'two', 'dest'):
            os.mkdir(os.path.join(root, d))
        with kzt.Pool():
            for i, (cmd, l) in enumerate((('create', 'one'), ('addkey', 'one')) + seq):
                loc = os.path.join(root, l)
                old = {d: env.snapshot(os.path.join(root, d)) for d in ('one', 'two', 'dest')}
                want = None
                target = l
                if cmd == 'create':
                    res, _ = kzt.cli('create', '--location=' + loc, '--name=%d' % i, *flags)
                    if l not in model:
                        want = {}
                elif cmd == 'addkey':
                    res, _ = kzt.cli('addkey', '--location=' + loc, '--status=primary')
                    if l in model:
                        want = kzt.step(model[l], ('add', 'PRIMARY'))
                elif cmd in ('demote', 'revoke'):
                    res, _ = kzt.cli(cmd, '--location=' + loc, '--version=1')
                    try:
                        want = kzt.step(model[l], (cmd, 1)) if l in model else None
                    except kzt.Refused:
                        pass
                else:
                    res, _ = kzt.cli('pubkey', '--location=' + loc, '--destination=' + os.path.join(root, 'dest'))
                    target = 'dest'
                    if kind == 'dsa' and l in model:
                        want = model[l]
                require((res == 'ok') == (want is not None), '%s %s in %r gives %s', cmd, l, seq[:i], res)
                for d in old:
                    same = env.snapshot(os.path.join(root, d)) == old[d]
                    if want is None or d != target:
                        require(same, '%s %s changed %s', cmd, l, d)
                if want is not None:
                    require(kzt.statuses(os.path.join(root, target)) == want, '%s %s: %r', cmd, l, want)
                    if target != 'dest':
                        model[l] = want
        env.rmdir(root)
        ctx.many(1, 'sequence')

def gen_c25_genkey(ctx):
    return ['genkey', 'twice', 'leftovers', 'partial']

def fn_c25_genkey(ctx, p):
    """the genkey command: the data it leaves belongs to the sets that it leaves"""
    first = {}
    root = env.fresh_dir()
    for n in ('aes', 'aes-crypted', 'hmac', 'rsa', 'rsa-sign', 'dsa', 'dsa.public', 'rsa-sign.public'):
        os.mkdir(os.path.join(root, n))
    with kzt.Pool():
        from Crypto.PublicKey import RSA
        pooled = RSA.generate
        if p in ('twice', 'partial'):
            res, e = kzt.cli('genkey', '--location=' + root)
            require(res == 'ok', 'genkey fails: %r', e)
            first = env.snapshot(root)
            if p == 'partial':
                for n in ('aes', 'dsa', 'rsa-sign.public'):
                    for f in os.listdir(os.path.join(root, n)):
                        if f != '2':
                            os.remove(os.path.join(root, n, f))
        elif p == 'leftovers':
            for n in ('aes', 'rsa', 'dsa'):
                for f in ('3', 'note', '3.out', '.hidden'):
                    with open(os.path.join(root, n, f), 'w') as fh:
                        fh.write('left over')
                os.mkdir(os.path.join(root, n, 'sub'))
                with open(os.path.join(root, n, 'sub', '1'), 'w') as fh:
                    fh.write('other')
        res, e = kzt.cli('genkey', '--location=' + root)
    require(res == 'ok', 'genkey fails: %r', e)
    msg = 'This is some test data'
    for n in ('aes', 'rsa', 'aes-crypted', 'hmac', 'rsa-sign', 'dsa'):
        d = os.path.join(root, n)
        c = K.keyczar.Crypter.Read(os.path.join(root, 'aes')) if n == 'aes-crypted' else None
        rd = K.readers.CreateReader(d)
        if c:
            rd = K.readers.EncryptedReader(rd, c)
        require(kzt.statuses(d, c) == {1: 'ACTIVE', 2: 'PRIMARY'}, 'statuses of %s', n)
        for i in ('1.out', '2.out'):
            out = open(os.path.join(d, i)).read()
            if n in ('aes', 'rsa', 'aes-crypted'):
                require(K.keyczar.Crypter(rd).Decrypt(out) == msg, '%s of %s', i, n)
            else:
                require(K.keyczar.Verifier(rd).Verify(msg, out), '%s of %s', i, n)
                if n != 'hmac':
                    require(K.keyczar.Verifier.Read(d + '.public').Verify(msg, out), '%s of public %s', i, n)
        left = set(os.listdir(d)) - {'sub'}
        require(left == {'meta', '1', '2', '1.out', '2.out'}, 'genkey leaves %s in %s', sorted(left), n)
        if p == 'leftovers' and n in ('aes', 'rsa', 'dsa'):
            require(open(os.path.join(d, 'sub', '1')).read() == 'other', 'genkey changes a subdirectory of %s', n)
    if p == 'twice':
        new = env.snapshot(root)
        require(not [f for f in new if os.path.basename(f) in ('1', '2') and new[f] == first.get(f) and 'aes' in f],
                'genkey leaves keys of the sets from before')
    env.rmdir(root)
    ctx.ev((), 'genkey ' + p)

@prop('C25', 'exploration', RULE, 'exhaustive enumeration of commands, flag values and flag orders on a tree of key sets, against a model of the commands',
      'Every command with the cross product of its flag values (valid, invalid, missing), irrelevant flags and flag orders, on a tree of eleven '
      'locations where only the addressed one may change; unknown commands and flags at every position; all command sequences of length 3 (4) on '
      'two locations; the genkey command; public export onto every kind of private or symmetric set in six spellings. '
      'Locations that already hold a set in every spelling of the location, status and purpose values in unusual spelling.', ['RSA and DSA key generation answers with prepared keys'])
def c25():
    return [Family('create', gen_c25_create, fn_c25_create), Family('holds-a-set', gen_c25_holds, fn_c25_holds), Family('addkey', gen_c25_add, fn_c25_add, 300), Family('versions', gen_c25_ver, fn_c25_ver),
            Family('pubkey', gen_c25_pub, fn_c25_pub), Family('onto-private', gen_c25_onto, fn_c25_onto), Family('unknown', gen_c25_bad, fn_c25_bad), Family('sequences', gen_c25_seq, fn_c25_seq),
            Family('genkey', gen_c25_genkey, fn_c25_genkey)]

# ---------------------------------------------------------------- C31
SUPPORTED = {'aes': (128, 192, 256), 'hmac': (256, ), 'dsa': (1024, ), 'rsa': (512, 768, 1024, 2048, 4096), 'rsa-sign': (512, 768, 1024, 2048, 4096)}
DEFAULT = {'aes': 128, 'hmac': 256, 'dsa': 1024, 'rsa': 2048, 'rsa-sign': 2048}

def relations(kind, k, bits):
    """the stored key has exactly that size and consistent parameters"""
    require(k['size'] == bits, 'the key is recorded with size %r, not %d', k['size'], bits)
    if kind == 'aes':
        require(len(k['aes']) * 8 == bits and len(k['hmac']) == 32, '%d bits of AES key, %d of HMAC key', len(k['aes']) * 8, len(k['hmac']) * 8)
    elif kind == 'hmac':
        require(len(k['hmac']) * 8 == bits, '%d bits of HMAC key', len(k['hmac']) * 8)
    elif kind == 'dsa':
        p, q, g, x, y = (k[c] for c in 'pqgxy')
        require(p.bit_length() == bits and q.bit_length() == 160, 'p of %d and q of %d bits', p.bit_length(), q.bit_length())
        require((p - 1) % q == 0 and 1 < g < p and pow(g, q, p) == 1 and 0 < x < q and y == pow(g, x, p), 'DSA parameters')
        require(ref.is_prime(p) and ref.is_prime(q), 'DSA primes')
    else:
        n, e, d, p, q = (k[c] for c in ('n', 'e', 'd', 'p', 'q'))
        require(n.bit_length() == bits, 'modulus of %d bits', n.bit_length())
        require(n == p * q and p != q and ref.is_prime(p) and ref.is_prime(q), 'RSA primes')
        require(abs(p.bit_length() - q.bit_length()) <= 1, 'unbalanced RSA primes')
        import math
        l = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
        require(e > 2 and e % 2 == 1 and e * d % l == 1, 'RSA exponents')
        require(k['dp'] == d % (p - 1) and k['dq'] == d % (q - 1) and k['invq'] * q % p == 1 and k['invq'] < p, 'RSA CRT values')

INTS = ('modulus', 'publicExponent', 'privateExponent', 'primeP', 'primeQ', 'primeExponentP', 'primeExponentQ', 'crtCoefficient', 'p', 'q', 'g', 'x', 'y')

def positive(text):
    """other implementations read the stored integers as signed ones: none may come out negative"""
    n = 0
    def walk(o):
        nonlocal n
        for k, v in o.items():
            if isinstance(v, dict):
                walk(v)
            elif k in INTS:
                b = ref.b64dec(v)
                require(b and b[0] < 0x80, 'the stored %s is a negative number', k)
                n += 1
    walk(json.loads(text))
    return n

def usable(kind, d, c=None):
    rd = K.readers.CreateReader(d)
    if c:
        rd = K.readers.EncryptedReader(rd, c)
    if kind in ('aes', 'rsa'):
        o = K.keyczar.Crypter(rd)
        require(o.Decrypt(o.Encrypt('use')) == 'use', 'the new key does not work')
    else:
        o = K.keyczar.Signer(rd)
        require(o.Verify('use', o.Sign('use')) is True and o.Verify('used', o.Sign('use')) is not True, 'the new key does not work')

def gen_c31_real(ctx):
    """real key generation"""
    reps = {'aes': 40, 'hmac': 40, 'dsa': 12, 'rsa': 10, 'rsa-sign': 6}
    for i in range(40 * (4 if ctx.thorough else 1)):
        for kind in TYPES:
            for bits in SUPPORTED[kind] + (None, ):
                n = reps[kind] * (4 if ctx.thorough else 1)
                if bits in (None, 2048) and kind.startswith('rsa'):
                    n = 2 if not ctx.thorough else 8
                if bits == 4096:
                    n = 0 if not ctx.thorough else 1
                if i < n:
                    yield kind, bits, i

def fn_c31_real(ctx, p):
    kind, bits, i = p
    purpose, raw, flags = TYPES[kind]
    d = env.fresh_dir()
    require(kzt.cli('create', '--location=' + d, *flags)[0] == 'ok', 'create')
    res, e = kzt.cli('addkey', '--location=' + d, '--status=primary', *(['--size=%d' % bits] if bits else []))
    if bits in (512, 768):
        # sizes the format allows; the installed generator may refuse them
        if res != 'ok':
            require(kzt.statuses(d) == {}, 'refused size changed the set')
            ctx.ev(p, 'not generated')
            env.rmdir(d)
            return
    require(res == 'ok', 'adding a key of %s bits fails: %r', bits, e)
    relations(kind, kzt.stored(d)[1][1], bits or DEFAULT[kind])
    usable(kind, d)
    n = positive(open(os.path.join(d, '1')).read())
    require(n == {'dsa': 5, 'rsa': 8, 'rsa-sign': 8}.get(kind, 0), 'the key file holds %d integers', n)
    if n:
        dest = env.fresh_dir()
        require(kzt.cli('pubkey', '--location=' + d, '--destination=' + dest)[0] == 'ok', 'pubkey')
        require(positive(open(os.path.join(dest, '1')).read()) == (4 if kind == 'dsa' else 2), 'integers of the public key file')
        env.rmdir(dest)
    ctx.ev(p, kind)
    env.rmdir(d)

def gen_c31_pool(ctx):
    for kind in TYPES:
        for bits in SUPPORTED[kind] + (None, ):
            if bits in (512, 768):
                continue
            for how in ('cli', 'api', 'genkey', 'crypter'):
                for st in (None, 'PRIMARY', 'ACTIVE'):
                    yield kind, bits, how, st

def fn_c31_pool(ctx, p):
    """all supported sizes by every way to ask for them (prepared RSA and DSA keys)"""
    kind, bits, how, st = p
    purpose, raw, flags = TYPES[kind]
    want = bits or DEFAULT[kind]
    d = env.fresh_dir()
    state = ((3, st), ) if st else ()
    c = env.crypter(env.AES(256)) if how == 'crypter' else None
    with kzt.Pool(order=1 if want < 4096 else 0):
        if how == 'genkey':
            k = K.keys.GenKey(getattr(K.keyinfo, {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV'}.get(kind, 'RSA_PRIV')), *([bits] if bits else []))
            require(k.size == want, 'key object of size %r', k.size)
            relations(kind, env.parse_key(str(k)), want)
            positive(str(k))
            ctx.ev(p, how)
            env.rmdir(d)
            return
        build(d, kind, state)
        if how == 'crypter':
            env.rmdir(d); os.mkdir(d)
            r = env.keyset([(n, s, raw(i)) for i, (n, s) in enumerate(state)], purpose, encrypted=bool(state), encrypt=c.Encrypt)
            r.meta['type'] = {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV'}.get(kind, 'RSA_PRIV')
            env.write_keyset(d, r)
            K.keyczart.AddKey(d, K.keyinfo.PRIMARY, c, bits)
        elif how == 'cli':
            res, e = kzt.cli('addkey', '--location=' + d, '--status=primary', *(['--size=%d' % bits] if bits else []))
            require(res == 'ok', 'addkey fails: %r', e)
        else:
            o = K.keyczar.GenericKeyczar.Read(d)
            if bits:
                o.AddVersion(K.keyinfo.PRIMARY, bits)
            else:
                o.AddVersion(K.keyinfo.PRIMARY)
            o.Write(K.writers.CreateWriter(d))
    keys = kzt.stored(d, c)[1]
    relations(kind, keys[max(keys)], want)
    usable(kind, d, c)
    ctx.ev(p, how)
    env.rmdir(d)

def gen_c31_bad(ctx):
    for kind in TYPES:
        for lo in range(0, 8400, 200):
            yield kind, lo

def fn_c31_bad(ctx, p):
    """every other size from 0 to 8399 is refused, by the tool and by one object, and nothing changes"""
    kind, lo = p
    purpose, raw, _ = TYPES[kind]
    st = ((1, 'ACTIVE'), (2, 'PRIMARY'))
    d = env.fresh_dir()
    build(d, kind, st)
    snap = env.snapshot(d)
    obj = K.keyczar.GenericKeyczar.Read(d)
    sizes = list(range(lo, lo + 200))
    if lo == 0:
        sizes += [-2, -8, -128, -256, -1024, 1 << 16, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 128, (1 << 64) + 256]
    for n in sizes:
        if n in SUPPORTED[kind] and n not in (512, 768):
            continue
        for status in ('PRIMARY', 'ACTIVE') if n % 8 == 0 else ('PRIMARY', ):
            try:
                obj.AddVersion(getattr(K.keyinfo, status), n)
            except Exception as e:
                if n not in SUPPORTED[kind]:
                    require(isinstance(e, K.errors.KeyczarError), 'size %d: %r', n, e)
            else:
                if n in SUPPORTED[kind]:
                    obj = K.keyczar.GenericKeyczar.Read(d)
                    continue
                raise Violation('a %s key of %d bits is added' % (kind, n))
            check_obj(obj, dict(st))
            require(obj.primary_version in obj.versions, 'the primary of the object has no key')
            obj.GetKey(obj.primary_version)
            ctx.many(1, 'refused')
        if n not in SUPPORTED[kind] and (n % 8 == 0 or ctx.thorough):
            res, e = kzt.cli('addkey', '--location=' + d, '--status=primary', '--size=%d' % n)
            require(res == 'keyczar', 'addkey --size=%d gives %s %r', n, res, e)
            require(env.snapshot(d) == snap, 'addkey --size=%d changes the set', n)
            ctx.many(1, 'refused by the tool')
            try:
                K.keys.GenKey(getattr(K.keyinfo, {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV'}.get(kind, 'RSA_PRIV')), n)
                raise Violation('GenKey makes a key of %d bits' % n)
            except K.errors.KeyczarError:
                pass
    obj.Write(K.writers.CreateWriter(d))
    check_state(d, dict(st), 'refused sizes')
    usable(kind, d)
    env.rmdir(d)

def gen_c31_fail(ctx):
    for kind in TYPES:
        for st in sorted(kzt.reachable(3)):
            yield kind, st

def fn_c31_fail(ctx, p):
    """key generation fails (the random source fails): the object keeps its primary and can still be used and stored"""
    kind, st = p
    d = env.fresh_dir()
    build(d, kind, st)
    obj = K.keyczar.GenericKeyczar.Read(d)
    from Crypto.PublicKey import DSA, RSA
    saved = RSA.generate, DSA.generate, os.urandom
    def fail(*a, **kw):
        raise OSError('no randomness')
    for status in env.STATUSES:
        RSA.generate = DSA.generate = os.urandom = fail
        try:
            obj.AddVersion(getattr(K.keyinfo, status), *([1024] if kind.startswith('rsa') else []))
            ok = True
        except Exception:
            ok = False
        finally:
            RSA.generate, DSA.generate, os.urandom = saved
        if ok:
            obj = K.keyczar.GenericKeyczar.Read(d)       # it found randomness elsewhere
            continue
        check_obj(obj, dict(st))
        ctx.ev(status, 'failed')
    obj.Write(K.writers.CreateWriter(d))
    check_state(d, dict(st), 'failed generation')
    env.rmdir(d)

@prop('C31', 'exploration', RULE, 'exhaustive enumeration of key sizes, ways to request them and key-set states; generated keys checked against the mathematical relations',
      'Every size from 0 to 8399 (and negative and huge ones) for every key type: the supported ones give keys of exactly that size by tool, API and '
      'crypter, all others are refused with nothing changed, in memory and on disk. Real generation is run a fixed number of times per size (RSA-4096 only in '
      'the thorough tier); failing generation in every life-cycle state.',
      ['the installed PyCrypto cannot generate RSA keys of 512 and 768 bits; those may be refused'])
def c31():
    return [Family('generated', gen_c31_real, fn_c31_real, 300), Family('requests', gen_c31_pool, fn_c31_pool), Family('sizes', gen_c31_bad, fn_c31_bad),
            Family('failing', gen_c31_fail, fn_c31_fail)]
