"""C37 operations do not influence each other."""
import io
import itertools
import json
import os
import pickle

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop

# An operation is a function of the things of one history (objects that are
# opened at their first use and stay open). It draws the same random values
# in every history, so that its outcome has to be the same in every history.
T1, T2 = 'the first of two messages', 'second message, somewhat longer than the first one is'

class Things:
    """What the operations of one history share."""
    def __init__(self):
        self.d = {}

    def get(self, name, make):
        if name not in self.d:
            self.d[name] = make()
        return self.d[name]

def ks(*raws):
    return [(i + 1, 'PRIMARY' if i == 0 else 'ACTIVE', r) for i, r in enumerate(raws)]

SETS = {
    # a1 and a2 have a key in common; a3 has none of theirs
    'a1': lambda: K.keyczar.Crypter(env.keyset(ks(env.AES(128), env.AES(256)), env.CRYPT)),
    'a2': lambda: K.keyczar.Crypter(env.keyset(ks(env.AES(192), env.AES(128)), env.CRYPT)),
    'e1': lambda: K.keyczar.Encrypter(env.keyset(ks(env.AES(128), env.AES(256)), env.CRYPT)),
    'h1': lambda: K.keyczar.Signer(env.keyset(ks(env.HMAC(0), env.HMAC(1)), env.SIGN)),
    'h2': lambda: K.keyczar.Signer(env.keyset(ks(env.HMAC(2), env.HMAC(0)), env.SIGN)),
    'v1': lambda: K.keyczar.Verifier(env.keyset(ks(env.HMAC(0), env.HMAC(1)), env.SIGN)),
    'u1': lambda: K.keyczar.UnversionedSigner(env.keyset(ks(env.HMAC(0), env.HMAC(1)), env.SIGN)),
    'r1': lambda: K.keyczar.Crypter(env.keyset(ks(env.RSA(1024, 0)), env.CRYPT)),
    'r2': lambda: K.keyczar.Crypter(env.keyset(ks(env.RSA(1024, 1)), env.CRYPT)),
    's1': lambda: K.keyczar.Signer(env.keyset(ks(env.RSA(1024, 0)), env.SIGN)),
    's2': lambda: K.keyczar.Verifier(env.keyset(ks(env.RSA(1024, 1)), env.VER, public=True)),
    'd1': lambda: K.keyczar.Signer(env.keyset(ks(env.DSA(0)), env.SIGN)),
    'd2': lambda: K.keyczar.Verifier(env.keyset(ks(env.DSA(0)), env.VER, public=True))}

def obj(t, name):
    return t.get(name, SETS[name])

OPS = []       # (name, fast, function, what a correct outcome is)

def op(name, fast=True, good=None):
    def deco(fn):
        OPS.append((name, fast, fn, good))
        return fn
    return deco

def is_(v):
    return lambda o: o == ('result', v)

def refused(*names):
    return lambda o: o[0] == 'error' and (not names or o[1] in names)

def any_result(o):
    return o[0] == 'result'

def ct(i, text, iv=b'\x31' * 16):
    """genuine AES ciphertexts, made without the package"""
    raw = (env.AES(128), env.AES(256), env.AES(192))[i]
    return S(ref.aes_encrypt(raw['aes'], raw['hmac'], iv, text.encode()))

def sg(i, text):
    raw = env.HMAC(i)
    return S(ref.hmac_sign(raw['hmac'], text.encode()))

def flip(v, i):
    return v[:i] + chr(ord(v[i]) ^ 1) + v[i + 1:]

_cache = {}

def once(name, make):
    if name not in _cache:
        _cache[name] = make()
    return _cache[name]

def stream_read(c, data, n=-1):
    r = c.CreateDecryptingStreamReader(io.StringIO(data, newline=''), None)
    out = ''
    while True:
        x = r.read(n)
        if x == '':
            break
        out += x or ''
    r.close()
    return out

def stream_write(c, *parts):
    out = io.StringIO(newline='')
    w = c.CreateEncryptingStreamWriter(out, None)
    for x in parts:
        w.write(x)
    w.flush()
    w.close()
    return out.getvalue()

def plain(c, v):
    """what the reference finds in a ciphertext made with keys of the fixture"""
    b = B(v)
    for raw in (env.AES(128), env.AES(256), env.AES(192)):
        if b[1:5] == ref.aes_id(raw['aes'], raw['hmac']):
            p = ref.aes_decrypt(raw['aes'], raw['hmac'], b)
            return None if p is None else S(p)
    return None

def encrypts(text):
    return lambda o: o[0] == 'result' and plain(None, o[1]) == text

def define():
    for n in ('a1', 'a2', 'e1'):
        for k, text in enumerate((T1, T2)):
            if (n, k) not in (('a2', 1), ('e1', 0)):
                op('%s.Encrypt%d' % (n, k), good=encrypts(text))(lambda t, n=n, text=text: obj(t, n).Encrypt(text, None))
    op('a1.Decrypt-primary', good=is_(T1))(lambda t: obj(t, 'a1').Decrypt(once('ct0', lambda: ct(0, T1)), None))
    op('a1.Decrypt-active', good=is_(T2))(lambda t: obj(t, 'a1').Decrypt(once('ct1', lambda: ct(1, T2)), None))
    op('a2.Decrypt-shared', good=is_(T1))(lambda t: obj(t, 'a2').Decrypt(once('ct0', lambda: ct(0, T1)), None))
    op('a1.Decrypt-text', good=is_(T1))(lambda t: obj(t, 'a1').Decrypt(env.w64(B(once('ct0', lambda: ct(0, T1))))))
    op('a1.Decrypt-foreign', good=refused('KeyNotFoundError'))(lambda t: obj(t, 'a1').Decrypt(once('ct2', lambda: ct(2, T1)), None))
    op('a1.Decrypt-tag', good=refused('InvalidSignatureError'))(lambda t: obj(t, 'a1').Decrypt(flip(once('ct0', lambda: ct(0, T1)), -1 + len(once('ct0', lambda: ct(0, T1)))), None))
    op('a2.Decrypt-body', good=refused('InvalidSignatureError'))(lambda t: obj(t, 'a2').Decrypt(flip(once('ct0', lambda: ct(0, T1)), 30), None))
    op('a1.Decrypt-version', good=refused('BadVersionError'))(lambda t: obj(t, 'a1').Decrypt('\1' + once('ct0', lambda: ct(0, T1))[1:], None))
    op('a1.Decrypt-short', good=refused('ShortCiphertextError'))(lambda t: obj(t, 'a1').Decrypt('\0abc', None))
    op('a1.Decrypt-nottext', good=refused())(lambda t: obj(t, 'a1').Decrypt('a$b'))
    op('a1.stream-read', good=is_(T2))(lambda t: stream_read(obj(t, 'a1'), once('ct1', lambda: ct(1, T2)), 9))
    op('a1.stream-bad', good=refused('InvalidSignatureError'))(lambda t: stream_read(obj(t, 'a1'), flip(once('ct1', lambda: ct(1, T2)), 40)))
    op('a1.stream-foreign', good=refused('KeyNotFoundError'))(lambda t: stream_read(obj(t, 'a1'), once('ct2', lambda: ct(2, T1)), 3))
    op('a1.stream-cut', good=refused())(lambda t: stream_read(obj(t, 'a1'), once('ct1', lambda: ct(1, T2))[:-3]))
    op('a1.stream-write', good=encrypts(T1 + T2))(lambda t: stream_write(obj(t, 'a1'), T1, T2))
    op('a2.stream-write', good=encrypts(T2))(lambda t: stream_write(obj(t, 'a2'), T2[:3], T2[3:]))
    def abandoned(t):
        w = obj(t, 'a1').CreateEncryptingStreamWriter(io.StringIO(newline=''), None)
        w.write(T1)
        r = obj(t, 'a1').CreateDecryptingStreamReader(io.StringIO(once('ct1', lambda: ct(1, T2)), newline=''), None)
        r.read(3)
        t.d.setdefault('left open', []).append((w, r))
        return 'left'
    op('a1.streams-left-open', good=is_('left'))(abandoned)
    # signatures
    op('h1.Sign1', good=is_(sg(0, T1)))(lambda t: obj(t, 'h1').Sign(T1, None))
    op('h1.Sign2', good=is_(sg(0, T2)))(lambda t: obj(t, 'h1').Sign(T2, None))
    op('h2.Sign', good=is_(sg(2, T1)))(lambda t: obj(t, 'h2').Sign(T1, None))
    op('h1.Verify', good=is_(True))(lambda t: obj(t, 'h1').Verify(T1, sg(0, T1), None))
    op('h1.Verify-active', good=is_(True))(lambda t: obj(t, 'h1').Verify(T2, sg(1, T2), None))
    op('h1.Verify-data', good=is_(False))(lambda t: obj(t, 'h1').Verify(T2, sg(0, T1), None))
    op('v1.Verify-tag', good=is_(False))(lambda t: obj(t, 'v1').Verify(T1, flip(sg(0, T1), 20), None))
    op('v1.Verify', good=is_(True))(lambda t: obj(t, 'v1').Verify(T1, sg(0, T1), None))
    op('h2.Verify-shared', good=is_(True))(lambda t: obj(t, 'h2').Verify(T1, sg(0, T1), None))
    op('h1.Verify-foreign', good=refused('KeyNotFoundError'))(lambda t: obj(t, 'h1').Verify(T1, sg(2, T1), None))
    op('h1.Verify-short', good=refused('ShortSignatureError'))(lambda t: obj(t, 'h1').Verify(T1, 'x', None))
    op('u1.Sign', good=is_(S(ref.hmac_sha1(env.HMAC(0)['hmac'], T1.encode()))))(lambda t: obj(t, 'u1').Sign(T1, None))
    op('u1.Verify-active', good=is_(True))(lambda t: obj(t, 'u1').Verify(T1, S(ref.hmac_sha1(env.HMAC(1)['hmac'], T1.encode())), None))
    op('u1.Verify-foreign', good=is_(False))(lambda t: obj(t, 'u1').Verify(T1, S(ref.hmac_sha1(env.HMAC(2)['hmac'], T1.encode())), None))
    def blob(i, d, nonce):
        return S(b'\0' + ref.hmac_id(env.HMAC(i)['hmac']) + ref.pack(d.encode()) +
                 ref.hmac_sha1(env.HMAC(i)['hmac'], d.encode() + ref.pack(nonce.encode()) + b'\0'))
    op('h1.AttachedSign', good=is_(blob(0, T1, 'n1')))(lambda t: obj(t, 'h1').AttachedSign(T1, 'n1', None))
    op('h1.AttachedVerify', good=is_(T1))(lambda t: obj(t, 'h1').AttachedVerify(blob(0, T1, 'n1'), 'n1', None))
    op('v1.AttachedVerify2', good=is_(T2))(lambda t: obj(t, 'v1').AttachedVerify(blob(1, T2, 'n2'), 'n2', None))
    op('h1.AttachedVerify-nonce', good=is_(None))(lambda t: obj(t, 'h1').AttachedVerify(blob(0, T1, 'n1'), 'n2', None))
    op('h2.AttachedVerify-foreign', good=refused('KeyNotFoundError'))(lambda t: obj(t, 'h2').AttachedVerify(blob(1, T1, 'n1'), 'n1', None))
    # sessions: the material is made by the reference
    def packed():
        return S(ref.aes_encrypt(env.AES(128)['aes'], env.AES(128)['hmac'], b'\x44' * 16,
                                 b'\0\0\0\2' + ref.pack(env.AES(256)['aes']) + ref.pack(env.AES(256)['hmac'])))
    def session(t):
        return t.get('sd', lambda: K.keyczar.SessionDecrypter(obj(t, 'a1'), env.w64(B(packed()))))
    op('sd.Decrypt', good=is_(T2))(lambda t: session(t).Decrypt(once('ct1', lambda: ct(1, T2)), None))
    op('sd.Decrypt-other', good=refused('KeyNotFoundError'))(lambda t: session(t).Decrypt(once('ct0', lambda: ct(0, T1)), None))
    op('sd.Decrypt-bad', good=refused('InvalidSignatureError'))(lambda t: session(t).Decrypt(flip(once('ct1', lambda: ct(1, T2)), 33), None))
    op('session-bad', good=refused())(lambda t: K.keyczar.SessionDecrypter(obj(t, 'a1'), env.w64(B(once('ct0', lambda: ct(0, T1))))))
    def new_session(t):
        e = K.keyczar.SessionEncrypter(obj(t, 'a1'))
        return K.keyczar.SessionDecrypter(obj(t, 'a1'), e.session_material).Decrypt(e.Encrypt(T1))
    op('new-session', good=is_(T1))(new_session)
    def signed(t):
        return t.get('sse', lambda: K.keyczar.SignedSessionEncrypter(obj(t, 'a1'), obj(t, 'h1')))
    def new_signed(t):
        e = K.keyczar.SignedSessionEncrypter(obj(t, 'a1'), obj(t, 'h1'))
        return K.keyczar.SignedSessionDecrypter(obj(t, 'a1'), obj(t, 'v1'), e.session_material).Decrypt(e.Encrypt(T2))
    op('new-signed-session', good=is_(T2))(new_signed)
    def foreign_signed(t):
        env.rng.reset('the one session')
        e = signed(t)
        env.rng.reset('the other session')
        f = K.keyczar.SignedSessionEncrypter(obj(t, 'a1'), obj(t, 'h1'))
        return K.keyczar.SignedSessionDecrypter(obj(t, 'a1'), obj(t, 'v1'), e.session_material).Decrypt(f.Encrypt(T2))
    op('signed-session-foreign', good=lambda o: refused()(o) or is_(None)(o))(foreign_signed)
    # opening sets
    def damaged(t):
        r = env.keyset(ks(env.AES(128)), env.CRYPT)
        r.keys[1] = r.keys[1][:40]
        return K.keyczar.Crypter(r)
    op('open-damaged', good=refused())(damaged)
    op('open-purpose', good=refused('KeyczarError'))(lambda t: K.keyczar.Signer(env.keyset(ks(env.AES(128)), env.CRYPT)))
    def two(t):
        return K.keyczar.Crypter(env.keyset([(1, 'PRIMARY', env.AES(128)), (2, 'PRIMARY', env.AES(256))], env.CRYPT))
    op('open-two-primaries', good=refused('KeyczarError'))(two)
    def generic(t):
        g = K.keyczar.GenericKeyczar(env.keyset(ks(env.AES(128), env.AES(256)), env.CRYPT))
        g.Promote(2)
        g.Demote(1)
        g.Revoke(1)
        return json.loads(str(g.metadata))
    op('generic', good=is_(dict(name='Test', purpose=env.CRYPT, type='AES', encrypted=False,
                                versions=[dict(versionNumber=2, status='PRIMARY', exportable=False)])))(generic)
    def added(t):
        g = K.keyczar.GenericKeyczar(env.keyset(ks(env.HMAC(0)), env.SIGN))
        g.AddVersion(K.keyinfo.PRIMARY)
        return [(v.version_number, str(v.status)) for v in sorted(g.versions, key=lambda v: v.version_number)]
    op('generic-add', good=is_([(1, 'ACTIVE'), (2, 'PRIMARY')]))(added)
    def wrong(t):
        g = K.keyczar.GenericKeyczar(env.keyset(ks(env.HMAC(0)), env.SIGN))
        try:
            g.AddVersion(K.keyinfo.PRIMARY, 17)
        except K.errors.KeyczarError:
            pass
        g.Revoke(1)
    op('generic-bad', good=refused('KeyczarError'))(wrong)
    # tools
    op('base64', good=is_((ref.b64enc(b'\xfb\xff\0a'), '\xfb\xff\0a')))(lambda t: (K.util.Base64WSEncode('\xfb\xff\0a'), K.util.Base64WSDecode('-_8AYQ')))
    op('base64-bad', good=refused('Base64DecodingError'))(lambda t: K.util.Base64WSDecode('abcde'))
    op('pack', good=is_((S(b'\0\0\0\2' + ref.pack(b'a') + ref.pack(b'')), ['b', 'cd'])))(
        lambda t: (K.util.PackMultipleByteArrays('a', ''), list(K.util.UnpackMultipleByteArrays(S(b'\0\0\0\2' + ref.pack(b'b') + ref.pack(b'cd'))))))
    op('unpack-bad', good=refused('KeyczarError'))(lambda t: K.util.UnpackMultipleByteArrays('\0\0\0\2\0\0\0\5a'))
    op('no-location', good=refused('KeyczarError'))(lambda t: K.readers.CreateReader('/nowhere/at/all'))
    # RSA and DSA
    def rct(i, text):
        raw = env.RSA(1024, i)
        return once('rct%d%s' % (i, text), lambda: S(ref.rsa_encrypt(raw['n'], raw['e'], text.encode(), b'\x55' * 20)))
    op('r1.Decrypt', False, is_(T1))(lambda t: obj(t, 'r1').Decrypt(rct(0, T1), None))
    op('r2.Decrypt', False, is_(T2))(lambda t: obj(t, 'r2').Decrypt(rct(1, T2), None))
    op('r1.Decrypt-foreign', False, refused('KeyNotFoundError'))(lambda t: obj(t, 'r1').Decrypt(rct(1, T2), None))
    op('r1.Decrypt-altered', False, refused())(lambda t: obj(t, 'r1').Decrypt(flip(rct(0, T1), 60), None))
    op('r1.Encrypt', False, any_result)(lambda t: obj(t, 'r1').Decrypt(obj(t, 'r1').Encrypt(T2)) == T2 or None)
    op('r1.Encrypt-long', False, refused('KeyczarError'))(lambda t: obj(t, 'r1').Encrypt('x' * 200))
    def rs(i, text):
        raw = env.RSA(1024, i)
        return once('rs%d%s' % (i, text), lambda: S(b'\0' + ref.rsa_id(raw['n'], raw['e']) + ref.rsa_sign_raw(raw['n'], raw['d'], text.encode() + b'\0')))
    op('s1.Sign', False, lambda o: o == ('result', rs(0, T1)))(lambda t: obj(t, 's1').Sign(T1, None))
    op('s1.Verify', False, is_(True))(lambda t: obj(t, 's1').Verify(T1, rs(0, T1), None))
    op('s1.Verify-data', False, is_(False))(lambda t: obj(t, 's1').Verify(T2, rs(0, T1), None))
    op('s2.Verify', False, is_(True))(lambda t: obj(t, 's2').Verify(T2, rs(1, T2), None))
    op('s2.Verify-foreign', False, refused('KeyNotFoundError'))(lambda t: obj(t, 's2').Verify(T2, rs(0, T2), None))
    def ds(text):
        raw = env.DSA(0)
        def make():
            r, s = ref.dsa_sign(raw['p'], raw['q'], raw['g'], raw['x'], 12345678901234567890, text.encode() + b'\0')
            return S(b'\0' + ref.dsa_id(raw['p'], raw['q'], raw['g'], raw['y']) + ref.der_sig(r, s))
        return once('ds' + text, make)
    op('d1.Sign', False, lambda o: o == ('result', True))(lambda t: obj(t, 'd2').Verify(T1, obj(t, 'd1').Sign(T1, None), None))
    op('d2.Verify', False, is_(True))(lambda t: obj(t, 'd2').Verify(T1, ds(T1), None))
    op('d2.Verify-data', False, is_(False))(lambda t: obj(t, 'd2').Verify(T2, ds(T1), None))
    op('d1.Verify-cut', False, is_(False))(lambda t: obj(t, 'd1').Verify(T1, ds(T1)[:-2], None))

def perform(t, i):
    name, fast, fn, good = OPS[i]
    env.rng.reset('history|' + name)
    try:
        o = 'result', fn(t)
    except Exception as e:
        o = 'error', type(e).__name__, str(e)
    return o

_alone = {}

def alone(i):
    """the outcome in a process that has done nothing else"""
    if i not in _alone:
        rd, wr = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.write(wr, pickle.dumps(perform(Things(), i)))
            finally:
                os._exit(0)
        os.close(wr)
        data = b''
        while True:
            x = os.read(rd, 65536)
            if not x:
                break
            data += x
        os.close(rd)
        os.waitpid(pid, 0)
        _alone[i] = pickle.loads(data)
    return _alone[i]

def baseline():
    if not OPS:
        define()
    for i in range(len(OPS)):
        a = alone(i)
        require(OPS[i][3](a), '%s alone: %r', OPS[i][0], a)

def gen(ctx):
    if not OPS:
        define()
    fast = [i for i, o in enumerate(OPS) if o[1]]
    for i in range(len(OPS)):
        yield 'pairs', i
        if OPS[i][1] or ctx.thorough:
            for part in range(2):
                yield 'triples', i, part
    # every operation many times, and all of them in all rotations
    for i in fast:
        yield 'again', i
    for i in range(len(OPS)):
        yield 'round', i

def same(seq, k, o):
    i = seq[k]
    a = alone(i)
    if o == a:
        return
    if o[0] == a[0] == 'result' and OPS[i][3](o):
        return               # as good: other random values were used
    raise Violation('%s: %s after %s instead of %s' % (OPS[i][0], shorten(o), ', '.join(OPS[j][0] for j in seq[:k][-6:]), shorten(a)))

def shorten(o):
    return repr(o)[:120]

def run(ctx, seq):
    t = Things()
    for k in range(len(seq)):
        same(seq, k, perform(t, seq[k]))
    ctx.count('operations', len(seq))

def fn(ctx, p):
    baseline()
    kind, i = p[:2]
    fast = [j for j, o in enumerate(OPS) if o[1]]
    every = range(len(OPS))
    n = 0
    if kind == 'pairs':
        for j in every:
            run(ctx, (i, j))
            n += 1
    elif kind == 'triples':
        pool = every if ctx.thorough else fast
        for j in list(pool)[p[2]::2]:
            for k in pool:
                run(ctx, (i, j, k))
                n += 1
    elif kind == 'again':
        for j in fast:
            run(ctx, (i, ) * 20 + (j, ) * 3 + (i, j))
            n += 1
    else:
        order = list(every[i:]) + list(every[:i])
        run(ctx, order)
        run(ctx, order[::-1])
        n += 2
    ctx.many(n, 'as alone')
    return 'ok'

@prop('C37', 'exploration', RULE, 'exhaustive enumeration of operation histories on shared objects, each operation compared with its outcome in a process that has done nothing else',
      'About 75 operations (encrypting, decrypting, signing, verifying, attached and unversioned signatures, streams, sessions, opening and changing sets, codecs; successful ones and ones that are '
      'refused) on sets that have keys in common: all ordered pairs, all triples of those without public-key operations (thorough: of all), repetitions, all rotations of all of them.',
      ['histories within one thread; threads are the matter of C28'])
def c37():
    return [Family('histories', gen, fn, limit=600)]
