"""C28: one opened key set used by several threads, under a controlled scheduler."""
import io

from .. import env, ref, sched
from ..core import Family, Violation, require
from ..env import B, K, S
from .registry import prop
from .sign import ref_sign, key_id, sig_valid

RULE = ('every schedule of the declared set is run on the real code with the threads stopped at source lines (or bytecodes) '
        'of the package; two schedules are distinct if their operations or their switch points differ')

# ------------------------------------------------------------ operations on shared objects
# A group has build() -> shared objects (fresh for every schedule) and operations (objects, thread number) -> result
# with a check(result, thread number) that knows the answer from the reference implementation.
MSG = [b'first thread: some data', b'the second thread has longer data, of more than two blocks', b'third']
NONCE = [b'n0', b'nonce one', b'']

AES0, AES1 = env.AES(128), env.AES(256)
MAC0, MAC1 = env.HMAC(0), env.HMAC(1)

def iv_of(i):
    return bytes(range(i, 16 + i))

def dec_any(ct):
    for k in (AES0, AES1):
        p = ref.aes_decrypt(k['aes'], k['hmac'], ct)
        if p is not None:
            return p, ct[1:5] + ct[5:21]
    raise Violation('the ciphertext is not one of the key set: %s' % ct.hex())

class Enc:
    """encrypting; returns the IV to be compared"""
    def __init__(self, obj, raw=False):
        self.obj, self.raw = obj, raw
    def run(self, o, t):
        return o[self.obj].Encrypt(S(MSG[t]), None) if self.raw else o[self.obj].Encrypt(S(MSG[t]))
    def check(self, r, t):
        p, iv = dec_any(B(r) if self.raw else ref.b64dec(r))
        require(p == MSG[t], 'thread %d: the ciphertext holds %r', t, p)
        return [iv]

class Dec:
    def __init__(self, obj, key, alter=False):
        self.obj, self.key, self.alter = obj, key, alter
        self.ct = []
        for i, m in enumerate(MSG):
            c = bytearray(ref.aes_encrypt(key['aes'], key['hmac'], iv_of(i), m))
            if alter:
                c[30] ^= 1
            self.ct.append(ref.b64enc(bytes(c)))
    def run(self, o, t):
        try:
            return o[self.obj].Decrypt(self.ct[t])
        except K.errors.InvalidSignatureError:
            return None
    def check(self, r, t):
        require(r == (None if self.alter else S(MSG[t])), 'thread %d: decryption gives %r', t, r)

class StreamEnc:
    def __init__(self, obj):
        self.obj = obj
    def run(self, o, t):
        out = io.StringIO(newline='')
        out.close_ = out.close
        w = o[self.obj].CreateEncryptingStreamWriter(Keep(out))
        m = S(MSG[t])
        w.write(m[:5]); w.write(m[5:])
        w.flush()
        w.close()
        return out.kept if hasattr(out, 'kept') else out.getvalue()
    def check(self, r, t):
        p, iv = dec_any(ref.b64dec(r))
        require(p == MSG[t], 'thread %d: the stream holds %r', t, p)
        return [iv]

class Keep:
    """an output stream whose contents survive close()"""
    def __init__(self, s):
        self.s = s
    def write(self, d):
        return self.s.write(d)
    def flush(self):
        pass
    def close(self):
        pass

class StreamDec(Dec):
    def run(self, o, t):
        r = o[self.obj].CreateDecryptingStreamReader(io.StringIO(self.ct[t], newline=''))
        out = ''
        for _ in range(100):
            d = r.read(7)
            if d == '':
                return out
            out += d or ''
        return 'endless'

class Sign:
    def __init__(self, key, kind='Sign', obj='s'):
        self.key, self.kind, self.obj = key, kind, obj
    def run(self, o, t):
        if self.kind == 'Attached':
            return o[self.obj].AttachedSign(S(MSG[t]), S(NONCE[t]))
        return o[self.obj].Sign(S(MSG[t]))
    def check(self, r, t):
        sig = ref.b64dec(r)
        hdr, msg = b'\0' + key_id(self.key), MSG[t] + b'\0'
        if self.kind == 'Unversioned':
            hdr, msg = b'', MSG[t]
        elif self.kind == 'Attached':
            hdr += ref.pack(MSG[t])
            msg = MSG[t] + ref.pack(NONCE[t]) + b'\0'
        require(sig.startswith(hdr) and sig_valid(self.key, msg, sig[len(hdr):]), 'thread %d: wrong signature %s', t, sig.hex())

class Verify:
    def __init__(self, key, good, kind='Sign', obj='s'):
        self.key, self.good, self.kind, self.obj = key, good, kind, obj
        self.sigs = []
        for i, m in enumerate(MSG):
            hdr, msg = b'\0' + key_id(key), m + b'\0'
            if kind == 'Unversioned':
                hdr, msg = b'', m
            elif kind == 'Attached':
                hdr, msg = hdr + ref.pack(m), m + ref.pack(NONCE[i]) + b'\0'
            self.sigs.append(ref.b64enc(hdr + ref_sign(key, msg if good else MSG[1 - i % 2] + msg)))
    def run(self, o, t):
        v = o[self.obj]
        if self.kind == 'Attached':
            return bool(v.AttachedVerify(self.sigs[t], S(NONCE[t])))
        return bool(v.Verify(S(MSG[t]), self.sigs[t]))
    def check(self, r, t):
        require(r == self.good, 'thread %d: verification of a %s signature gives %r', t, 'good' if self.good else 'bad', r)

class RsaEnc:
    def __init__(self, key):
        self.key = key
    def run(self, o, t):
        return o['c'].Encrypt(S(MSG[t]))
    def check(self, r, t):
        ct = ref.b64dec(r)
        k = ref.rsa_k(self.key['n'])
        require(ct[:5] == b'\0' + ref.rsa_id(self.key['n'], self.key['e']), 'header')
        d = ref.oaep_decode(k, ref.rsa_private(self.key, ref.b2i(ct[5:])).to_bytes(k, 'big'))
        require(d and d[0] == MSG[t], 'thread %d: the ciphertext does not hold the data', t)
        return [ct]

class RsaDec:
    def __init__(self, key):
        self.ct = [ref.b64enc(ref.rsa_encrypt(key['n'], key['e'], m, bytes(range(20)))) for m in MSG]
    def run(self, o, t):
        return o['c'].Decrypt(self.ct[t])
    def check(self, r, t):
        require(r == S(MSG[t]), 'thread %d: decryption gives %r', t, r)

class SessEnc:
    """a session encrypter shared by the threads; checked with the real decrypter afterwards"""
    def __init__(self, obj, signed=False):
        self.obj, self.signed = obj, signed
    def run(self, o, t):
        return o, o[self.obj].Encrypt(S(MSG[t]))
    def check(self, r, t):
        o, ct = r
        if self.signed:
            d = K.keyczar.SignedSessionDecrypter(o['c'], o['sg'], o[self.obj].session_material)
        else:
            d = K.keyczar.SessionDecrypter(o['c'], o[self.obj].session_material)
        p = d.Decrypt(ct)
        require(p == S(MSG[t]), 'thread %d: the session ciphertext holds %r', t, p)
        if not self.signed:
            return [B(ref.b64dec(ct))[5:21]]

class SessDec:
    def __init__(self, obj, key):
        self.obj, self.key = obj, key
    def run(self, o, t):
        return o[self.obj].Decrypt(o[self.key][t])
    def check(self, r, t):
        require(r == S(MSG[t]), 'thread %d: the session decrypter gives %r', t, r)

class NewSess:
    """making a new session encrypter with a shared crypter"""
    def run(self, o, t):
        s = K.keyczar.SessionEncrypter(o['c'])
        return s.session_material, s.Encrypt(S(MSG[t])), o['c']
    def check(self, r, t):
        m, ct, c = r
        require(K.keyczar.SessionDecrypter(c, m).Decrypt(ct) == S(MSG[t]), 'thread %d: wrong session', t)
        return [ref.b64dec(m)[5:21]]

def build_aes():
    return dict(c=env.crypter(AES1, AES0), d=env.crypter(AES1))

def build_hmac():
    return dict(s=env.signer(MAC1, MAC0))

def build_uhmac():
    return dict(s=env.signer(MAC0, cls=K.keyczar.UnversionedSigner))

def build_sess():
    c = env.crypter(AES0)
    sg = env.signer(MAC0)
    o = dict(c=c, sg=sg, se=K.keyczar.SessionEncrypter(c), sse=K.keyczar.SignedSessionEncrypter(c, sg))
    e2, e3 = K.keyczar.SessionEncrypter(c), K.keyczar.SignedSessionEncrypter(c, sg)
    o['ct'] = [e2.Encrypt(S(m)) for m in MSG]
    o['sct'] = [e3.Encrypt(S(m)) for m in MSG]
    o['sd'] = K.keyczar.SessionDecrypter(c, e2.session_material)
    o['ssd'] = K.keyczar.SignedSessionDecrypter(c, sg, e3.session_material)
    return o

RSA, DSAK = env.RSA(1024), env.DSA(0)

GROUPS = dict(
    aes=(build_aes, dict(enc=Enc('c'), raw=Enc('c', True), dec=Dec('c', AES0), old=Dec('c', AES1), bad=Dec('c', AES0, True),
                         other=Enc('d'), sw=StreamEnc('c'), sr=StreamDec('c', AES0))),
    hmac=(build_hmac, dict(sign=Sign(MAC0), ver=Verify(MAC0, True), old=Verify(MAC1, True), bad=Verify(MAC0, False),
                           asign=Sign(MAC0, 'Attached'), aver=Verify(MAC0, True, 'Attached'), abad=Verify(MAC0, False, 'Attached'))),
    unversioned=(build_uhmac, dict(sign=Sign(MAC0, 'Unversioned'), ver=Verify(MAC0, True, 'Unversioned'),
                                   bad=Verify(MAC0, False, 'Unversioned'))),
    rsa=(lambda: dict(s=env.signer(RSA)), dict(sign=Sign(RSA), ver=Verify(RSA, True), bad=Verify(RSA, False))),
    dsa=(lambda: dict(s=env.signer(DSAK)), dict(sign=Sign(DSAK), ver=Verify(DSAK, True), bad=Verify(DSAK, False))),
    rsac=(lambda: dict(c=env.crypter(RSA)), dict(enc=RsaEnc(RSA), dec=RsaDec(RSA))),
    session=(build_sess, dict(enc=SessEnc('se'), senc=SessEnc('sse', True), dec=SessDec('sd', 'ct'), sdec=SessDec('ssd', 'sct'),
                              new=NewSess())),
)

def one(ctx, group, ops, plan, opcodes=False):
    """Runs the operations under one schedule; steps taken by each thread."""
    build, table = GROUPS[group]
    objs = build()
    ops = [table[o] for o in ops]
    fns = [lambda op=op, t=t: op.run(objs, t) for t, op in enumerate(ops)]
    try:
        res, steps = sched.run(fns, plan, opcodes)
    except sched.Stuck:
        raise Violation('the threads block each other under schedule %s' % (plan,))
    ivs = []
    for t, ((r, e), op) in enumerate(zip(res, ops)):
        if e is not None:
            raise Violation('thread %d fails under schedule %s: %s: %s' % (t, plan, type(e).__name__, e))
        try:
            ivs += op.check(r, t) or []
        except Violation as v:
            raise Violation('under schedule %s: %s' % (plan, v))
    require(len(set(ivs)) == len(ivs), 'under schedule %s two encryptions share their randomness', plan)
    # the shared object is still usable
    ops[0].check(ops[0].run(objs, 0), 0)
    ctx.count('schedules')
    ctx.count('steps', sum(steps))
    return steps

def points(group, op, opcodes=False, repeats=2):
    build, table = GROUPS[group]
    objs = build()
    return sched.points(lambda: table[op].run(objs, 0), opcodes, repeats)

def pairs(group):
    names = list(GROUPS[group][1])
    return [(a, b) for a in names for b in names]

EVERY = [(g, a, b) for g in GROUPS for a, b in pairs(g)]

# ------------------------------------------------------------ one switch away and back
FINE = [('aes', 'enc', 'enc'), ('aes', 'dec', 'dec'), ('hmac', 'sign', 'sign'), ('hmac', 'ver', 'ver'), ('hmac', 'ver', 'bad'),
        ('session', 'enc', 'enc'), ('session', 'dec', 'dec')]

def gen_one(ctx):
    for g, a, b in EVERY:
        for part in range(2):
            yield g, a, b, False, part
    for g, a, b in EVERY if ctx.thorough else FINE:
        for part in range(2):
            yield g, a, b, True, part

def fn_one(ctx, p):
    """thread A is stopped at a point, B runs to its end, A goes on: every point"""
    g, a, b, opcodes, part = p
    for k in points(g, a, opcodes, None if ctx.thorough and not opcodes else 2)[part::2]:
        one(ctx, g, (a, b), [(0, k), (1, None)], opcodes)
        ctx.ev(k, 'schedule')

# ------------------------------------------------------------ two switches
TWO = [('aes', 'enc', 'enc'), ('aes', 'enc', 'dec'), ('aes', 'dec', 'dec'), ('hmac', 'sign', 'sign'), ('hmac', 'sign', 'ver'),
       ('hmac', 'ver', 'bad'), ('hmac', 'ver', 'old'), ('hmac', 'asign', 'asign'), ('hmac', 'aver', 'abad'),
       ('unversioned', 'sign', 'ver'), ('unversioned', 'ver', 'bad'), ('rsa', 'ver', 'bad')]

def gen_two(ctx):
    for g, a, b in EVERY if ctx.thorough else TWO:
        for k in points(g, a, False, 1)[1:-1]:
            yield g, a, b, k

def fn_two(ctx, p):
    """A is stopped at point k, B at point j, A ends, B ends: every j"""
    g, a, b, k = p
    for j in points(g, b, False, 1)[1:-1]:
        one(ctx, g, (a, b), [(0, k), (1, j), (0, None)])
        ctx.ev(j, 'schedule')

# ------------------------------------------------------------ three threads
THREE = [('unversioned', 'sign', 'ver', 'bad'), ('hmac', 'sign', 'ver', 'bad'), ('hmac', 'sign', 'sign', 'sign'),
         ('aes', 'enc', 'enc', 'dec'), ('aes', 'dec', 'old', 'enc'), ('session', 'enc', 'enc', 'enc')]

def gen_three(ctx):
    for t in THREE if ctx.thorough else THREE[:1]:
        for k in points(t[0], t[1], False, 1)[1:-1]:
            yield t, k

def fn_three(ctx, p):
    """A is stopped at point k, B at point j, C runs to its end, then B or A first"""
    (g, a, b, c), k = p
    for j in points(g, b, False, 1)[1:-1]:
        for last in ((1, 0), (0, 1)):
            one(ctx, g, (a, b, c), [(0, k), (1, j), (2, None)] + [(i, None) for i in last])
            ctx.ev((j, last), 'schedule')

@prop('C28', 'exploration', RULE, 'systematic exploration of thread schedules on the real code under a controlled scheduler',
      'Two threads with one operation each on shared objects that are new in every schedule: for every ordered pair of '
      'operations of seven kinds of objects, every schedule with one preemption at source-line granularity (bytecode '
      'granularity for the main pairs; thorough: for all pairs), and every schedule with two preemptions for 12 pairs '
      '(thorough: all pairs); three threads with two preemptions for one triple (thorough: six). In loops a thread is stopped '
      'at the first (one preemption: first two) and the last pass. Threads are only stopped in code of the package, not inside '
      'the libraries it calls.',
      assumptions=['the libraries (PyCrypto, M2Crypto, Python) are themselves safe to call from several threads'])
def c28():
    return [Family('one-preemption', gen_one, fn_one, limit=600), Family('two-preemptions', gen_two, fn_two, limit=600),
            Family('three-threads', gen_three, fn_three, limit=600)]
