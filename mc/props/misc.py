"""C12 purposes, C26 randomness, C27 malformed input."""
import io
import itertools
import json
import os
import random
import time

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop
from .sign import key_id, raw_of, ref_sign
from .sessions import open_material, unpack2, packed

# ---------------------------------------------------------------- C12
CLASSES = {'Encrypter': ('ENCRYPT', 'DECRYPT_AND_ENCRYPT'), 'Crypter': ('DECRYPT_AND_ENCRYPT', ),
           'Verifier': ('VERIFY', 'SIGN_AND_VERIFY'), 'UnversionedVerifier': ('VERIFY', 'SIGN_AND_VERIFY'),
           'Signer': ('SIGN_AND_VERIFY', ), 'UnversionedSigner': ('SIGN_AND_VERIFY', )}
PURPOSES = ('DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY', 'TEST')
KINDS = {'AES': lambda i: (env.FIX['aes'][i], False), 'HMAC': lambda i: (env.FIX['hmac'][i], False),
         'RSA_PRIV': lambda i: (env.RSA(1024, i), False), 'RSA_PUB': lambda i: (env.RSA(1024, i), True),
         'DSA_PRIV': lambda i: (env.DSA(i), False), 'DSA_PUB': lambda i: (env.DSA(i), True)}
SENSE = {'AES': ('DECRYPT_AND_ENCRYPT', ), 'HMAC': ('SIGN_AND_VERIFY', ), 'RSA_PRIV': ('DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY'),
         'RSA_PUB': ('ENCRYPT', 'VERIFY'), 'DSA_PRIV': ('SIGN_AND_VERIFY', ), 'DSA_PUB': ('VERIFY', )}

def gen_c12(ctx):
    for n in range(0, 4):
        for st in itertools.product(env.STATUSES, repeat=n):
            for kind in KINDS:
                yield st, kind

def c12_reader(kind, purpose, st, nums=None):
    vs = []
    for i, s in enumerate(st):
        raw, public = KINDS[kind](i)
        vs.append((nums[i] if nums else i + 1, s, raw))
    public = KINDS[kind](0)[1]
    r = env.keyset(vs, purpose, public=public)
    if not vs:
        r.meta['type'] = {'HMAC': 'HMAC_SHA1'}.get(kind, kind)
    return r

def opened(fn, *a):
    try:
        return fn(*a)
    except K.errors.KeyczarError:
        return None

def works(name, obj, st):
    """the operations of the class are there"""
    prim = 'PRIMARY' in st
    if not prim:
        return
    if name == 'Crypter':
        require(obj.Decrypt(obj.Encrypt('x')) == 'x', 'crypter does not work')
    elif name == 'Encrypter':
        require(obj.Encrypt('x'), 'encrypter does not work')
    elif name in ('Signer', 'UnversionedSigner'):
        require(obj.Verify('x', obj.Sign('x')), 'signer does not work')

def fn_c12(ctx, p):
    st, kind = p
    two = st.count('PRIMARY') > 1
    for purpose in PURPOSES:
        for name, ok in CLASSES.items():
            cls = getattr(K.keyczar, name)
            r = c12_reader(kind, purpose, st)
            want = purpose in ok and not two
            if want and purpose not in SENSE[kind]:
                continue          # a combination that no tool creates
            obj = opened(cls, r)
            require((obj is not None) == want, '%s %s a %s set of purpose %s with %r', name,
                    'refuses' if want else 'opens', kind, purpose, st)
            if obj is not None:
                works(name, obj, st)
            d = env.fresh_dir()
            env.write_keyset(d, r)
            obj = opened(cls.Read, d)
            require((obj is not None) == want, '%s.Read %s a %s set of purpose %s with %r', name,
                    'refuses' if want else 'opens', kind, purpose, st)
            env.rmdir(d)
            ctx.ev((purpose, name), 'opened' if want else 'refused')
        if two:
            require(opened(K.keyczar.GenericKeyczar, c12_reader(kind, purpose, st)) is None, 'two primaries are accepted')

def gen_c12_four(ctx):
    """two primaries at every place among four or five versions, any version numbers"""
    for n in (4, 5):
        for i, j in itertools.combinations(range(n), 2):
            for rest in ('ACTIVE', 'INACTIVE'):
                for nums in (range(1, n + 1), range(n, 0, -1), (7, 3, 12, 5, 100)[:n]):
                    yield n, i, j, rest, tuple(nums)

def fn_c12_four(ctx, p):
    n, i, j, rest, nums = p
    for kind, purpose, name in (('AES', 'DECRYPT_AND_ENCRYPT', 'Crypter'), ('AES', 'DECRYPT_AND_ENCRYPT', 'Encrypter'),
                                ('HMAC', 'SIGN_AND_VERIFY', 'Signer'), ('HMAC', 'SIGN_AND_VERIFY', 'Verifier'),
                                ('HMAC', 'SIGN_AND_VERIFY', 'UnversionedVerifier')):
        st = ['PRIMARY' if k in (i, j) else rest for k in range(n)]
        require(opened(getattr(K.keyczar, name), c12_reader(kind, purpose, st, nums)) is None, 'two primaries accepted')
        st[j] = rest
        obj = opened(getattr(K.keyczar, name), c12_reader(kind, purpose, st, nums))
        require(obj is not None, 'one primary refused')
        works(name, obj, st)
        ctx.ev((kind, name))

def gen_c12_enc(ctx):
    for kind in ('AES', 'HMAC', 'RSA_PRIV', 'DSA_PRIV'):
        for purpose in PURPOSES:
            yield kind, purpose

def fn_c12_enc(ctx, p):
    """the same through an encrypted reader, and with metadata that names no known purpose"""
    kind, purpose = p
    c = env.crypter(env.AES(256))
    r = c12_reader(kind, purpose, ('PRIMARY', ))
    r.keys = {n: c.Encrypt(t) for n, t in r.keys.items()}
    r.meta['encrypted'] = True
    for name, ok in CLASSES.items():
        want = purpose in ok
        if want and purpose not in SENSE[kind]:
            continue
        obj = opened(getattr(K.keyczar, name), K.readers.EncryptedReader(r, c))
        require((obj is not None) == want, '%s with an encrypted %s set of purpose %s', name, kind, purpose)
        require(opened(getattr(K.keyczar, name), r) is None, 'an encrypted set is opened without its crypter')
        ctx.ev(name)
    for bad in ('', 'encrypt', 'CRYPT', 'DECRYPT', 'SIGN', 'ENCRYPT ', 'VERIFY_AND_SIGN', 'None', 'decrypt_and_encrypt'):
        r2 = c12_reader(kind, purpose, ('PRIMARY', ))
        r2.meta['purpose'] = bad
        for name in CLASSES:
            require(opened(getattr(K.keyczar, name), r2) is None, '%s opens a set of purpose %r', name, bad)
            ctx.ev((name, bad))

@prop('C12', 'exploration', RULE, 'exhaustive enumeration of all classes, purposes, key types and status assignments',
      'All 6 classes x 5 purposes x 6 key types x all status assignments of up to three versions, through objects and '
      'through files, two primaries at every pair of places among four and five versions, encrypted sets, unknown purposes.')
def c12():
    return [Family('combinations', gen_c12, fn_c12), Family('two-primaries', gen_c12_four, fn_c12_four),
            Family('encrypted', gen_c12_enc, fn_c12_enc)]

# ---------------------------------------------------------------- C26
class Frozen:
    """All other sources of variation repeat."""
    NAMES = [(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns',
                                 'process_time', 'process_time_ns')] + [(os, 'getpid')]

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in self.NAMES]
        for m, n in self.NAMES:
            setattr(m, n, (lambda v: lambda *a: v)(1234567))
        self.reset()
        return self

    def reset(self):
        random.seed(7)

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)

OPS = {}

def op(name):
    def deco(fn):
        OPS[name] = fn
        return fn
    return deco

class World:
    """two crypters, two RSA sets, two signers, opened from the same keys"""
    def __init__(self):
        self.aes = [env.AES(128), env.AES(256)]
        self.open()

    def open(self):
        self.c = [env.crypter(k) for k in self.aes]
        self.c.append(env.crypter(self.aes[0]))     # a second object with the same key
        self.rsa = env.RSA(1024)
        self.r = [env.crypter(self.rsa),
                  K.keyczar.Encrypter(env.keyset([(1, 'PRIMARY', self.rsa)], env.ENC, public=True))]
        self.dsa = env.DSA(0)
        self.s = [env.signer(self.dsa), env.signer(self.dsa, cls=K.keyczar.UnversionedSigner)]
        self.h = env.signer(env.HMAC(0))
        self.sess = None

def _mk_enc(i):
    def fn(w):
        return [('iv', B(w.c[i].Encrypt('same text', None))[5:21], 16)]
    return fn

for _i in range(3):
    OPS['encrypt%d' % _i] = _mk_enc(_i)

@op('stream')
def _(w):
    out = io.StringIO()
    x = w.c[0].CreateEncryptingStreamWriter(out, encoder=None)
    x.write('same text')
    x.flush()
    return [('iv', B(out.getvalue())[5:21], 16)]

@op('stream64')
def _(w):
    from .codec import Sink
    out = Sink()
    x = w.c[2].CreateEncryptingStreamWriter(out)
    x.write('same text')
    x.flush()
    return [('iv', ref.b64dec(out.text)[5:21], 16)]

def _seed(w, ct):
    k = ref.rsa_k(w.rsa['n'])
    r = ref.oaep_decode(k, ref.rsa_private(w.rsa, ref.b2i(ct[5:])).to_bytes(k, 'big'))
    require(r is not None, 'not an OAEP ciphertext')
    return [('seed', r[1], 20)]

@op('rsa0')
def _(w):
    return _seed(w, B(w.r[0].Encrypt('same text', None)))

@op('rsa1')
def _(w):
    return _seed(w, B(w.r[1].Encrypt('same text', None)))

def _k(w, msg, sig):
    d = w.dsa
    r, s = ref.der_parse_sig(sig)
    k = ref.dsa_recover_k(d['p'], d['q'], d['g'], d['x'], msg, r, s)
    require(pow(d['g'], k, d['p']) % d['q'] == r, 'not a DSA signature')
    return [('k', k.to_bytes(20, 'big'), 20)]

@op('dsa')
def _(w):
    return _k(w, b'same text\0', B(w.s[0].Sign('same text', None))[5:])

@op('dsa-unversioned')
def _(w):
    return _k(w, b'same text', B(w.s[1].Sign('same text', None)))

@op('dsa-attached')
def _(w):
    b = B(w.s[0].AttachedSign('same text', 'n', None))
    return _k(w, b'same text' + ref.pack(b'n') + b'\0', b[9 + 9:])

@op('session')
def _(w):
    x = K.keyczar.SessionEncrypter(w.c[0])
    m = ref.b64dec(x.session_material)
    a, h = unpack2(open_material(w.aes[0], m))
    w.sess = x
    return [('iv', m[5:21], 16), ('aes', a, 16), ('mac', h, 32)]

@op('session-message')
def _(w):
    if w.sess is None:
        w.sess = K.keyczar.SessionEncrypter(w.c[0])
        if env.rng.log is not None:
            env.rng.log.clear()
    return [('iv', B(w.sess.Encrypt('same text', None))[5:21], 16)]

@op('signed-session')
def _(w):
    x = K.keyczar.SignedSessionEncrypter(w.c[0], w.h)
    m = ref.b64dec(x.session_material)
    j = json.loads(open_material(w.aes[0], m).decode())
    k = env.parse_key(json.dumps(j['key']))
    n1 = len(env.rng.log) if env.rng.log is not None else 0
    b = ref.b64dec(x.Encrypt('same text'))
    return [('iv', m[5:21], 16), ('aes', k['aes'], 16), ('mac', k['hmac'], 32), ('nonce', ref.b64dec(j['nonce']), 16),
            ('iv', b[14:30], 16)]

def _gen(kind, size):
    def fn(w):
        text = str(K.keys.GenKey(getattr(K.keyinfo, kind), size))
        k = env.parse_key(text)
        if kind == 'AES':
            return [('aes', k['aes'], size // 8), ('mac', k['hmac'], 32)]
        return [('mac', k['hmac'], size // 8)]
    return fn

for _s in (128, 192, 256):
    OPS['gen-aes%d' % _s] = _gen('AES', _s)
OPS['gen-hmac'] = _gen('HMAC_SHA1', 256)

@op('reopen')
def _(w):
    w.open()
    return []

def perform(w, name, seen=None, windows=None):
    """one operation with the random source under watch; checks length, novelty, amount drawn"""
    env.rng.log = []
    vals = OPS[name](w)
    drawn = sum(len(x) for x in env.rng.log)
    log = b''.join(env.rng.log)
    env.rng.log = None
    need = sum(n for _, _, n in vals)
    require(drawn >= need, '%s drew %d random bytes from the system, but uses %d', name, drawn, need)
    for what, v, n in vals:
        require(len(v) == n, '%s: %s has %d bytes instead of %d', name, what, len(v), n)
        if seen is not None:
            require(v not in seen, '%s: %s is used a second time', name, what)
            seen.add(v)
        if windows is not None:
            for i in range(0, len(v) - 7):
                t = v[i:i + 8]
                require(t not in windows, '%s: part of %s is used a second time', name, what)
            windows.update(v[i:i + 8] for i in range(len(v) - 7))
    return vals

def gen_c26_seq(ctx):
    names = sorted(OPS)
    for a in names:
        for b in names:
            yield a, b

def fn_c26_seq(ctx, p):
    """all sequences of three operations; everything but the system's random source repeats"""
    for third in sorted(OPS):
        with Frozen() as f:
            w = World()
            seen, windows = set(), set()
            for name in p + (third, ):
                f.reset()
                perform(w, name, seen, windows)
        ctx.ev(third)

def gen_c26_depend(ctx):
    names = sorted(n for n in OPS if n != 'reopen')
    for a in names:
        for b in names:
            yield a, b

def fn_c26_depend(ctx, p):
    """the same history with another random stream from some point on: every value after it differs"""
    first, second = p
    res = []
    for label in ('A', 'B', 'C'):
        with Frozen() as f:
            env.rng.reset('common')
            w = World()
            perform(w, first)
            env.rng.reset('then' + label)
            f.reset()
            res.append(perform(w, second))
    for x, y in itertools.combinations(res, 2):
        for (what, u, _), (_, v, _) in zip(x, y):
            require(u != v, '%s: %s does not depend on the random source', second, what)
            require(not any(u[i:i + 8] == v[i:i + 8] for i in range(len(u) - 7)),
                    '%s: part of %s does not depend on the random source', second, what)

def gen_c26_many(ctx):
    for name in sorted(OPS):
        if name != 'reopen':
            yield name

def fn_c26_many(ctx, name):
    """many repetitions: all different, every byte takes many values, integers reach full length"""
    n = 400 if not name.startswith('dsa') else 300
    cols = {}
    with Frozen() as f:
        w = World()
        seen, windows = set(), set()
        for i in range(n):
            f.reset()
            vals = perform(w, name, seen, windows)
            for j, (what, v, _) in enumerate(vals):
                for pos, byte in enumerate(v):
                    cols.setdefault((j, what, pos), set()).add(byte)
    for (j, what, pos), got in cols.items():
        require(len(got) >= 100, '%s: byte %d of %s takes only %d values in %d uses', name, pos, what, len(got), n)
    ctx.ev(name)

def gen_c26_asym(ctx):
    return itertools.product(('DSA', 'RSA'), range(3))

def fn_c26_asym(ctx, p):
    kind, i = p
    vals = []
    for j in range(3):
        env.rng.reset('asym%d.%d' % (i, j))
        with Frozen():
            env.rng.log = []
            k = env.parse_key(str(K.keys.GenKey(getattr(K.keyinfo, kind + '_PRIV'), 1024)))
            drawn = sum(len(x) for x in env.rng.log)
            env.rng.log = None
        if kind == 'DSA':
            require(drawn >= 20 + 128 // 2, 'DSA key generation drew only %d bytes', drawn)
            require(k['x'].bit_length() > 140, 'DSA private value has %d bits', k['x'].bit_length())
            vals.append((k['x'], k['p'], k['q'], k['y']))
        else:
            require(drawn >= 128, 'RSA key generation drew only %d bytes', drawn)
            require(abs(k['p'] - k['q']) >> 400, 'primes are close to each other')
            vals.append((k['p'], k['q'], k['n']))
    for col in zip(*vals):
        require(len(set(col)) == 3, 'generated %s keys share a value', kind)
    ctx.ev(p)

def gen_c26_tool(ctx):
    for t in (('crypt', ''), ('sign', '')):
        for order in itertools.product((128, 192, 256), repeat=2):
            yield t, order

def fn_c26_tool(ctx, p):
    """keys added by the tool, in different orders and sets, never share material"""
    (purpose, asym), order = p
    seen, windows = set(), set()
    with Frozen() as f:
        for sets in range(2):
            d = env.fresh_dir()
            K.keyczart.main(['create', '--location=' + d, '--purpose=' + purpose])
            for size in order if purpose == 'crypt' else (None, None):
                f.reset()
                args = ['addkey', '--location=' + d] + (['--size=%d' % size] if size else [])
                env.rng.log = []
                K.keyczart.main(args)
                drawn = sum(len(x) for x in env.rng.log)
                env.rng.log = None
            for n in (1, 2):
                k = env.parse_key(open(os.path.join(d, str(n))).read())
                for c in ('aes', 'hmac'):
                    if c in k:
                        for i in range(len(k[c]) - 7):
                            require(k[c][i:i + 8] not in windows, 'key material is used twice')
                            windows.add(k[c][i:i + 8])
            require(drawn >= 32, 'key generation drew only %d bytes', drawn)
            env.rmdir(d)
    ctx.ev(p)

@prop('C26', 'exploration', RULE,
      'systematic exploration of all sequences of three randomised operations with the system random source controlled and '
      'every other source frozen',
      'All sequences of three of 19 operations on shared and re-opened objects; the IVs, seeds, per-signature values, nonces '
      'and keys are recovered by an independent implementation and must be of full length, pairwise different in every '
      '8-byte window, drawn in sufficient amount from the system source in that operation, and depend on it; 300-400 '
      'repetitions of each operation.',
      ['the operating system source is reached through os.urandom'])
def c26():
    return [Family('sequences', gen_c26_seq, fn_c26_seq), Family('dependence', gen_c26_depend, fn_c26_depend),
            Family('repetition', gen_c26_many, fn_c26_many), Family('asymmetric', gen_c26_asym, fn_c26_asym),
            Family('tool', gen_c26_tool, fn_c26_tool)]

# ---------------------------------------------------------------- C27
_t = {}

def targets():
    """name -> (operation on a raw byte string, header, what too short means)"""
    if _t:
        return _t
    E = K.errors
    aes, rsa, dsa, mac = env.AES(128), env.RSA(512), env.DSA(0), env.HMAC(0)
    ca, cr = env.crypter(aes), env.crypter(rsa)
    vd, vr, vh = env.verifier(dsa), env.verifier(rsa), env.signer(mac)
    multi = env.crypter(env.AES(256), aes)
    ha = b'\0' + ref.aes_id(aes['aes'], aes['hmac'])
    def add(name, fn, header, short, versioned=True):
        _t[name] = (fn, header, short, versioned)
    add('aes', lambda b: ca.Decrypt(S(b), None), ha, E.ShortCiphertextError)
    add('aes-multi', lambda b: multi.Decrypt(S(b), None), ha, E.ShortCiphertextError)
    add('rsa', lambda b: cr.Decrypt(S(b), None), b'\0' + key_id(rsa), E.ShortCiphertextError)
    for n, v, r in (('hmac', vh, mac), ('dsa', vd, dsa), ('rsa-sign', vr, rsa)):
        add('verify-' + n, (lambda v: lambda b: v.Verify('data', S(b), None))(v), b'\0' + key_id(r), E.ShortSignatureError)
        add('attached-' + n, (lambda v: lambda b: v.AttachedVerify(S(b), 'nonce', None))(v), b'\0' + key_id(r), None)
    for n, v in (('hmac', env.signer(mac, cls=K.keyczar.UnversionedVerifier)),
                 ('dsa', env.verifier(dsa, cls=K.keyczar.UnversionedVerifier)),
                 ('rsa', env.verifier(rsa, cls=K.keyczar.UnversionedVerifier))):
        add('unversioned-' + n, (lambda v: lambda b: v.Verify('data', S(b), None))(v), b'', None, False)
    def stream(enc, size):
        def fn(b):
            r = ca.CreateDecryptingStreamReader(io.StringIO(S(b), newline=''), decoder=None) if enc == 'raw' else \
                ca.CreateDecryptingStreamReader(io.StringIO(ref.b64enc(b)))
            got = ''
            for _ in range(10000):
                x = r.read(size)
                if x == '':
                    return got
                got += x or ''
            raise Violation('the stream does not end')
        return fn
    add('stream-raw', stream('raw', -1), ha, E.ShortCiphertextError)
    add('stream-b64', stream('b64', 7), ha, E.ShortCiphertextError)
    add('session', lambda b: K.keyczar.SessionDecrypter(ca, ref.b64enc(b)) and 'session', ha, E.ShortCiphertextError)
    add('signed-session', lambda b: K.keyczar.SignedSessionDecrypter(ca, vh, ref.b64enc(b)) and 'session', ha,
        E.ShortCiphertextError)
    sd = K.keyczar.SessionDecrypter(ca, K.keyczar.SessionEncrypter(ca).session_material)
    add('session-data', lambda b: sd.Decrypt(S(b), None), None, E.ShortCiphertextError)
    sx = K.keyczar.SignedSessionEncrypter(ca, vh)
    ssd = K.keyczar.SignedSessionDecrypter(ca, vh, sx.session_material)
    add('signed-session-data', lambda b: ssd.Decrypt(ref.b64enc(b)), b'\0' + key_id(mac), None)
    return _t

def attempt(name, b, expect_fail=True):
    """class name of the outcome; anything undocumented propagates"""
    fn, header, short, versioned = targets()[name]
    try:
        r = fn(b)
    except K.errors.KeyczarError as e:
        if versioned and not name.startswith(('attached', 'signed-session-data')):
            if len(b) < 5:
                require(isinstance(e, short), '%s: %d bytes are reported as %s', name, len(b), type(e).__name__)
            elif b[0] != 0:
                require(isinstance(e, K.errors.BadVersionError), '%s: version %d is reported as %s', name, b[0],
                        type(e).__name__)
            elif header is not None and b[:5] != header and name != 'aes-multi':
                require(isinstance(e, K.errors.KeyNotFoundError), '%s: unknown key is reported as %s', name,
                        type(e).__name__)
            elif b[:5] == header and name in ('aes', 'session', 'signed-session', 'stream-raw', 'stream-b64') and \
                    len(b) < 41:
                require(isinstance(e, short), '%s: %d bytes are reported as %s', name, len(b), type(e).__name__)
        return type(e).__name__
    if expect_fail:
        require(r is None or r is False or r == 0 and not isinstance(r, str), '%s accepts %s: %r', name, b[:60].hex(), r)
    return 'negative'

def gen_c27_short(ctx):
    for name in sorted(targets()):
        for hi in range(0, 256, 1 if not name.startswith(('stream', 'session', 'signed')) else 5):
            yield name, hi

def fn_c27_short(ctx, p):
    name, hi = p
    if hi == 0:
        ctx.ev('', attempt(name, b''))
    ctx.ev(hi, attempt(name, bytes([hi])))
    step = 1 if name in ('aes', 'verify-hmac', 'attached-hmac', 'verify-dsa') or ctx.thorough else 17
    for lo in range(0, 256, step):
        ctx.ev((hi, lo), attempt(name, bytes([hi, lo])))

def gen_c27_alpha(ctx):
    for name in sorted(targets()):
        for head in itertools.product((0, 1, 0x30, 0x80, 0xff), repeat=2):
            yield name, head

def fn_c27_alpha(ctx, p):
    """all strings of length 3..6 over the decisive bytes, alone and after the genuine header"""
    name, head = p
    al = (0, 1, 0x30, 0x80, 0xff)
    header = targets()[name][1] or b'\0abcd'
    top = 4 if not name.startswith(('stream', 'session', 'signed')) or ctx.thorough else 3
    for n in range(0, top + 1):
        for tail in itertools.product(al, repeat=n):
            t = bytes(head + tail)
            ctx.ev(t, attempt(name, t))
            ctx.ev((header, t), attempt(name, header + t))

def gen_c27_len(ctx):
    for name in sorted(targets()):
        for part in range(4):
            yield name, part

def fn_c27_len(ctx, p):
    """every length to 200, header genuine, unknown or of a wrong version, several fillings"""
    name, part = p
    header = targets()[name][1] or b'\0abcd'
    for n in range(part, 200, 4):
        for fill in (b'\0' * n, b'\xff' * n, inputs.pattern(n), b'\x30' * n, b'\x02' * n, b'\x80' * n):
            for h in (header, b'\0' + bytes(x ^ 1 for x in header[1:]), b'\1' + header[1:], b'\xff' * 5, b''):
                ctx.ev((n, fill[:1], h), attempt(name, h + fill))
    for v in range(part, 256, 4):
        if v:
            ctx.ev(('version', v), attempt(name, bytes([v]) + header[1:] + inputs.pattern(80)))
    for pos in range(1, 5):
        if targets()[name][1] and targets()[name][3]:
            for bit in range(8):
                h = bytearray(header)
                h[pos] ^= 1 << bit
                out = attempt(name, bytes(h) + inputs.pattern(80))
                ctx.ev(('id', pos, bit), out)

def der_cases():
    I = ref.der_int
    yield ref.tlv(0x30, b'')
    for n in range(0, 5):
        yield ref.der_seq(*[I(5)] * n)
    for t in range(256):
        yield bytes([t, 0])
        yield bytes([t, 1, 0])
        yield ref.der_seq(bytes([t, 1, 1]), I(1))
        yield ref.der_seq(I(1), bytes([t, 1, 1]))
        yield ref.der_seq(bytes([t, 0]), bytes([t, 0]))
        yield ref.tlv(t, I(1) + I(1))
        yield b'\x30' + bytes([t]) + I(1) + I(1)
        yield b'\x30\x06\x02' + bytes([t]) + b'\1\2\1\1'
    for k in range(1, 10):
        yield b'\x30' + bytes([0x80 | k]) + b'\xff' * k
        yield b'\x30' + bytes([0x80 | k]) + b'\0' * (k - 1) + b'\6' + I(1) + I(1)
        yield b'\x30\x10\x02' + bytes([0x80 | k]) + b'\xff' * k
    for x in (0, -1, 1, 1 << 160, 1 << 4000, -(1 << 200)):
        for y in (0, -1, 1, 1 << 160, 1 << 4000, -(1 << 200)):
            try:
                yield ref.der_seq(I(x), I(y))
            except Exception:
                pass
    for depth in (1, 2, 3, 10, 100, 500, 1000, 3000, 20000):
        d = ref.der_seq(I(1), I(1))
        for _ in range(min(depth, 3000)):
            d = ref.tlv(0x30, d)
        yield d
        yield ref.der_seq(d, d)
        yield b'\x30\x80' * depth
        yield b'\x30\x80' * depth + b'\0\0' * depth
        yield b'\x24\x80' * depth
        yield b'\xa0\x80' * depth
    # tags in long form, reals, oids, times, bit strings
    for body in (b'\x1f' * 8, b'\x1f\x81\x01\x00', b'\x09\x03\x80\x00\x01', b'\x09\x02\x31\x20', b'\x09\x01\x42',
                 b'\x06\x01\x80', b'\x06\x09' + b'\xff' * 9, b'\x17\x01a', b'\x18\x02zz', b'\x03\x01\x09', b'\x03\x00',
                 b'\x09\x09\xc0' + b'\x7f' * 8, b'\x09\x05\x83\x04\x7f\xff\xff', b'\x01\x00', b'\x0a\x00', b'\x02\x00'):
        yield body
        yield ref.der_seq(body, body)
        yield ref.der_seq(body, I(1))
        yield ref.der_seq(I(1), body)

def gen_c27_der(ctx):
    for name in ('verify-dsa', 'unversioned-dsa', 'attached-dsa'):
        for part in range(16):
            yield name, part

def fn_c27_der(ctx, p):
    name, part = p
    header = targets()[name][1]
    for i, body in enumerate(der_cases()):
        if i % 16 != part:
            continue
        b = header + (ref.pack(b'data') if name.startswith('attached') else b'') + body
        ctx.ev(i, attempt(name, b))

def gen_c27_cut(ctx):
    for name in sorted(targets()):
        yield name

def genuine27(name):
    aes, rsa, dsa, mac = env.AES(128), env.RSA(512), env.DSA(0), env.HMAC(0)
    if name in ('aes', 'aes-multi', 'stream-raw', 'stream-b64'):
        return ref.aes_encrypt(aes['aes'], aes['hmac'], bytes(16), b'some plaintext')
    if name == 'rsa':
        return ref.rsa_encrypt(rsa['n'], rsa['e'], b'text', bytes(20))
    raws = {'hmac': mac, 'dsa': dsa, 'rsa-sign': rsa, 'rsa': rsa}
    kind, _, n = name.partition('-')
    if kind == 'verify':
        return b'\0' + key_id(raws[n]) + ref_sign(raws[n], b'data\0')
    if kind == 'unversioned':
        return ref_sign(raws[n], b'data')
    if kind == 'attached':
        return b'\0' + key_id(raws[n]) + ref.pack(b'data') + ref_sign(raws[n], b'data' + ref.pack(b'nonce') + b'\0')
    if name == 'session':
        return ref.aes_encrypt(aes['aes'], aes['hmac'], bytes(16), packed([b'k' * 16, b'h' * 32]))
    if name == 'signed-session':
        t = json.dumps(dict(key=env.key_obj(aes), nonce='AAAA'))
        return ref.aes_encrypt(aes['aes'], aes['hmac'], bytes(16), t.encode())
    return None

def fn_c27_cut(ctx, name):
    """truncations and single-byte changes of a genuine value (acceptance is judged elsewhere)"""
    g = genuine27(name)
    if g is None:
        return 'ok'
    attempt(name, g, expect_fail=False)
    fn = targets()[name][0]
    r = fn(g)
    require(r or r == '', '%s refuses a genuine value', name)
    full = len(g) < 80 and not name.startswith('stream')
    for what, m in inputs.mutants(g, full_values=full, ranges=len(g) < 100):
        ctx.ev(what, attempt(name, m, expect_fail=False))

def gen_c27_mac(ctx):
    for name in ('aes', 'aes-multi', 'stream-raw', 'stream-b64', 'session', 'signed-session', 'session-data'):
        yield name

def fn_c27_mac(ctx, name):
    """well-authenticated but malformed ciphertexts (a session's data can be made by anyone)"""
    aes = env.AES(128)
    for n in list(range(0, 50)) + [63, 64, 65]:
        for iv in range(0, 17):
            b = b'\0' + ref.aes_id(aes['aes'], aes['hmac']) + bytes(iv) + inputs.pattern(n)
            ctx.ev((n, iv), attempt(name, b + ref.hmac_sha1(aes['hmac'], b), expect_fail=(iv == 16 and n % 16 != 0)))
    for pad in itertools.product((0, 1, 2, 3, 15, 16, 17, 32, 255), repeat=2):
        for k in (1, 2):
            body = ref.cbc_enc(aes['aes'], bytes(16), b'p' * (16 * k - 2) + bytes(pad))
            b = b'\0' + ref.aes_id(aes['aes'], aes['hmac']) + bytes(16) + body
            ok = pad[1] == 1 or pad == (2, 2)
            ctx.ev((pad, k), attempt(name, b + ref.hmac_sha1(aes['hmac'], b), expect_fail=not ok))

def gen_c27_crafted(ctx):
    yield 0

def fn_c27_crafted(ctx, _):
    """sessions whose key and data are both made by the sender"""
    aes = env.AES(128)
    c = env.crypter(aes)
    for n in range(0, 70):
        for body in (0, 1, 15, 16, 17, 32):
            key, mac = b'k' * n, b'm' * (n % 40)
            m = ref.aes_encrypt(aes['aes'], aes['hmac'], bytes(16), packed([key, mac]))
            b = b'\0' + ref.aes_id(key, mac) + bytes(16) + inputs.pattern(body)
            b += ref.hmac_sha1(mac, b)
            try:
                K.keyczar.SessionDecrypter(c, ref.b64enc(m)).Decrypt(S(b), None)
                out = 'decrypted'
            except K.errors.KeyczarError as e:
                out = type(e).__name__
            ctx.ev((n, body), out)

TEXTS = 'A-_=+/ \n\r\t!.\0\x7f\x80\xff\x85'

def gen_c27_text(ctx):
    for name in ('crypter', 'verifier', 'attached', 'unversioned', 'session', 'stream'):
        for ch in TEXTS:
            yield name, ch

def fn_c27_text(ctx, p):
    """all short texts over the decisive characters given to the encoded interfaces"""
    name, first = p
    aes, mac = env.AES(128), env.HMAC(0)
    ca, vh, vd = env.crypter(aes), env.signer(mac), env.verifier(env.DSA(0))
    uv = env.verifier(env.DSA(0), cls=K.keyczar.UnversionedVerifier)
    def stream(t):
        r = ca.CreateDecryptingStreamReader(io.StringIO(t, newline=''))
        for _ in range(1000):
            if r.read() == '':
                raise Violation('the end of %r is reported' % t)
    fn = {'crypter': ca.Decrypt, 'verifier': lambda t: vd.Verify('data', t), 'attached': lambda t: vh.AttachedVerify(t, 'n'),
          'unversioned': lambda t: uv.Verify('data', t), 'session': lambda t: K.keyczar.SessionDecrypter(ca, t),
          'stream': stream}[name]
    good = ref.b64enc(genuine27('aes') if name in ('crypter', 'stream', 'session') else genuine27('verify-dsa'))
    for n in range(0, 4):
        for tail in itertools.product(TEXTS, repeat=n):
            t = first + ''.join(tail)
            for text in (t, good[:7] + t) if n < 3 else (t, ):
                try:
                    r = fn(text)
                    require(not r, '%s accepts %r', name, text)
                    out = 'negative'
                except K.errors.KeyczarError as e:
                    out = type(e).__name__
                ctx.ev(text, out)
    # genuine text with foreign characters put in everywhere: only documented outcomes
    for i in range(0, len(good) + 1):
        for text in (good[:i] + first + good[i:], good[:i] + first * 5 + good[i + 1:]):
            try:
                fn(text)
                out = 'accepted'
            except K.errors.KeyczarError as e:
                out = type(e).__name__
            except Violation:
                out = 'read'
            ctx.ev((i, text), out)

@prop('C27', 'exploration', RULE, 'exhaustive bounded enumeration of malformed inputs on the real code',
      'All strings of up to two bytes, all strings of up to six bytes over the decisive values with and without the genuine '
      'header, every length to 200 with several fillings, about 3000 malformed DER values, every truncation and change of '
      'genuine values, authenticated malformed ciphertexts and sessions, all short base64 texts over 17 characters, for 19 '
      'operations; each must end with a documented outcome, and the error class is compared where it is documented.')
def c27():
    return [Family('short', gen_c27_short, fn_c27_short), Family('strings', gen_c27_alpha, fn_c27_alpha),
            Family('lengths', gen_c27_len, fn_c27_len), Family('der', gen_c27_der, fn_c27_der, limit=60),
            Family('altered', gen_c27_cut, fn_c27_cut), Family('authenticated', gen_c27_mac, fn_c27_mac),
            Family('crafted-sessions', gen_c27_crafted, fn_c27_crafted), Family('texts', gen_c27_text, fn_c27_text)]
