"""C13, C14: sessions and signed sessions."""
import itertools
import json

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE, keyczar_error
from .formats import GOLDEN, TEXT, golden_open
from .registry import prop
from .sign import crafted, ref_sign, key_id, sig_valid

_cache = {}

def outer(name):
    """(encrypter, crypter, raw key) that protect the session material"""
    if name not in _cache:
        if name == 'aes':
            raw = env.AES(128)
            c = env.crypter(raw)
            _cache[name] = c, c, raw
        else:
            raw = env.RSA(int(name[3:]))
            _cache[name] = (K.keyczar.Encrypter(env.keyset([(1, 'PRIMARY', raw)], env.ENC, public=True)),
                            env.crypter(raw), raw)
    return _cache[name]

def open_material(raw, material):
    """Reference: what the material holds, or None"""
    if 'aes' in raw:
        return ref.aes_decrypt(raw['aes'], raw['hmac'], material)
    k = ref.rsa_k(raw['n'])
    if material[:5] != b'\0' + ref.rsa_id(raw['n'], raw['e']):
        return None
    v = ref.b2i(material[5:])
    if v >= raw['n']:
        return None
    dec = ref.oaep_decode(k, ref.rsa_private(raw, v).to_bytes(k, 'big'))
    return dec and dec[0]

def packed(items):
    return ref.i4(len(items)) + b''.join(ref.pack(x) for x in items)

def unpack2(b):
    n = ref.b2i(b[4:8])
    a, rest = b[8:8 + n], b[8 + n:]
    return a, rest[4:]

# ---------------------------------------------------------------- C13
def gen_c13_data(ctx):
    for name in ('aes', 'rsa1024', 'rsa2048'):
        for part in range(8):
            yield name, part

def fn_c13_data(ctx, p):
    name, part = p
    e, c, raw = outer(name)
    s = K.keyczar.SessionEncrypter(e)
    m = open_material(raw, ref.b64dec(s.session_material))
    require(m is not None and len(m) == 60 and m[:8] == b'\0\0\0\2\0\0\0\x10' and m[24:28] == b'\0\0\0\x20',
            'session material is not the packed session key')
    aes, mac = unpack2(m)
    d1 = K.keyczar.SessionDecrypter(c, s.session_material)
    for j, d in enumerate(inputs.plain(130, boundary=name == 'aes')):
        if j % 8 != part or (name != 'aes' and j % 5):
            continue
        ct = s.Encrypt(S(d))
        require(ref.aes_decrypt(aes, mac, ref.b64dec(ct)) == d, 'not a ciphertext under the session key') \
            if len(d) < 200 else None
        require(d1.Decrypt(ct) == S(d), 'session round trip of %d bytes', len(d))
        rawct = s.Encrypt(S(d), None)
        require(d1.Decrypt(rawct, None) == S(d), 'raw session round trip of %d bytes', len(d))
        require(K.keyczar.SessionDecrypter(c, s.session_material).Decrypt(ct) == S(d), 'a second decrypter')
        ctx.ev(d)

def gen_c13_hist(ctx):
    """all sequences of operations: 2 sessions, then 3"""
    depth = 5 if not ctx.thorough else 6
    ops = ['new', 'enc0', 'enc1', 'dec0', 'dec1', 'open0', 'open1']
    for head in itertools.product(ops, repeat=2):
        yield ops, head, depth

def fn_c13_hist(ctx, p):
    ops, head, depth = p
    e, c, raw = outer('aes')
    tr = 0
    for tail in itertools.product(ops, repeat=depth - 2):
        sess, decs, msgs = [], [], []
        for t, op in enumerate(head + tail):
            i = int(op[-1]) if op[-1].isdigit() else 0
            if op == 'new':
                sess.append(K.keyczar.SessionEncrypter(e))
                decs.append(K.keyczar.SessionDecrypter(c, sess[-1].session_material))
            elif i >= len(sess):
                continue
            elif op.startswith('enc'):
                msgs.append((i, 'm%d' % t, sess[i].Encrypt('m%d' % t)))
            elif op.startswith('open'):
                decs[i] = K.keyczar.SessionDecrypter(c, sess[i].session_material)
            else:
                for k, text, ct in msgs:
                    judge13(decs, i, k, text, ct)
            tr += 1
        for i in range(len(sess)):
            for k, text, ct in msgs:
                judge13(decs, i, k, text, ct)
        require(len({x.session_material for x in sess}) == len(sess), 'two sessions have the same material')
        ctx.ev(tail)
    ctx.count('operations', tr)

def judge13(decs, i, k, text, ct):
    if i == k:
        require(decs[i].Decrypt(ct) == text, 'message of the session')
    else:
        keyczar_error(decs[i].Decrypt, ct)

def gen_c13_many(ctx):
    return range(8)

def fn_c13_many(ctx, part):
    """many sessions alive: each decrypter only decrypts its own"""
    n = 24
    e, c, raw = outer('aes')
    ss = [K.keyczar.SessionEncrypter(e) for _ in range(n)]
    cts = [s.Encrypt('text %d' % i) for i, s in enumerate(ss)]
    ds = [K.keyczar.SessionDecrypter(c, s.session_material) for s in ss]
    for i in range(n):
        for j in range(n):
            judge13(ds, i, j, 'text %d' % j, cts[j])
            ctx.ev((i, j))

def gen_c13_material(ctx):
    for name in ('aes', 'rsa1024'):
        for part in range(16):
            yield name, part

def fn_c13_material(ctx, p):
    name, part = p
    e, c, raw = outer(name)
    s = K.keyczar.SessionEncrypter(e)
    ct = s.Encrypt('secret')
    good = ref.b64dec(s.session_material)
    use_good = lambda: K.keyczar.SessionDecrypter(c, s.session_material).Decrypt(ct)
    if part % 2:           # the genuine material was opened before, or not
        require(use_good() == 'secret', 'session round trip')
    for j, (what, m) in enumerate(inputs.mutants(good, full_values=name == 'aes', ranges=False)):
        if j // 2 % 8 != part // 2:
            continue
        ctx.ev(what, try_material(name, m, ct))
    require(use_good() == 'secret', 'session round trip after altered material')
    text = s.session_material
    for i in range(part, len(text), 16):
        for ch in 'AQgw7-_z':
            t = text[:i] + ch + text[i + 1:]
            if ref.b64dec(t) != good:
                ctx.ev((i, ch), try_material(name, ref.b64dec(t), ct, t))

def try_material(name, m, ct, text=None):
    e, c, raw = outer(name)
    held = open_material(raw, m)
    try:
        d = K.keyczar.SessionDecrypter(c, text if text is not None else ref.b64enc(m))
    except K.errors.KeyczarError:
        return 'refused'
    require(held is not None, 'altered session material is accepted')
    # the same value in another form of the RSA ciphertext
    require('n' in raw, 'altered session material is accepted')
    require(d.Decrypt(ct) == 'secret', 'material decrypts to another key')
    return 'same value'

def gen_c13_crafted(ctx):
    for name in ('aes', 'rsa1024'):
        yield name

def fn_c13_crafted(ctx, name):
    """well-encrypted material that does not hold a session key (anyone can make it for a public key)"""
    e, c, raw = outer(name)
    s = K.keyczar.SessionEncrypter(e)
    ct = s.Encrypt('secret')
    aes, mac = unpack2(open_material(raw, ref.b64dec(s.session_material)))
    other = inputs.pattern(16, b'other')
    for lst in ([], [aes], [mac], [aes, mac, b''], [aes, mac, aes], [mac, aes], [b'', b''], [aes, b''], [b'', mac],
                [aes[:15], mac], [aes + b'\0', mac], [other, mac], [aes, mac[:31]], [aes, mac + b'x'], [aes * 2, mac],
                [aes[:8] * 3, mac], [aes, bytes(32)], [bytes(16), bytes(32)]):
        use(ctx, e, c, packed(lst), ct, ('list', lst))
    good = packed([aes, mac])
    for n in range(len(good)):
        use(ctx, e, c, good[:n], ct, ('cut', n))
    for n in range(4, 8):
        for v in (0, 1, 3, 0x7f, 0x80, 0xff):
            if good[n] == v:
                continue
            use(ctx, e, c, good[:n] + bytes([v]) + good[n + 1:], ct, ('len', n, v))
    for n in range(24, 28):
        for v in (0, 1, 3, 0x1f, 0x21, 0x7f, 0x80, 0xff):
            if good[n] != v:
                use(ctx, e, c, good[:n] + bytes([v]) + good[n + 1:], ct, ('len', n, v))
    use(ctx, e, c, b'', ct, 'empty')
    use(ctx, e, c, b'{"key": 1}', ct, 'json')

def use(ctx, e, c, content, ct, what):
    try:
        d = K.keyczar.SessionDecrypter(c, e.Encrypt(S(content)))
        x = d.Decrypt(ct)
    except K.errors.KeyczarError as err:
        ctx.ev(repr(what), type(err).__name__)
        return
    raise Violation('material %r decrypts data of another session to %r' % (what, x))

def gen_c13_altered(ctx):
    for n in (0, 5, 16):
        for part in range(8):
            yield n, part

def fn_c13_altered(ctx, p):
    n, part = p
    e, c, raw = outer('aes')
    s = K.keyczar.SessionEncrypter(e)
    d = K.keyczar.SessionDecrypter(c, s.session_material)
    good = B(s.Encrypt(S(inputs.pattern(n)), None))
    for j, (what, m) in enumerate(inputs.mutants(good)):
        if j % 8 == part:
            keyczar_error(d.Decrypt, S(m), None)
            if j % 5 == 0:
                keyczar_error(d.Decrypt, ref.b64enc(m))
            ctx.ev(what, 'refused')

def gen_c13_golden(ctx):
    yield 'java'

def fn_c13_golden(ctx, p):
    f = GOLDEN['java/code/testdata/rsa']
    c = golden_open('java/code/testdata/rsa')[0]
    d = K.keyczar.SessionDecrypter(c, f['session.material.out'].strip())
    require(d.Decrypt(f['session.ciphertext.out'].strip()) == TEXT, 'session of the Java implementation')
    # and the reverse: the reference makes a session
    for name in ('aes', 'rsa1024', 'rsa2048'):
        e, c, raw = outer(name)
        for bits in (128, 192, 256):
            k = env.AES(bits)
            material = e.Encrypt(S(packed([k['aes'], k['hmac']])))
            d = K.keyczar.SessionDecrypter(c, material)
            for n in range(40):
                ct = ref.aes_encrypt(k['aes'], k['hmac'], inputs.pattern(16), inputs.pattern(n))
                require(d.Decrypt(ref.b64enc(ct)) == S(inputs.pattern(n)), 'session of the other implementation')
                require(d.Decrypt(S(ct), None) == S(inputs.pattern(n)), 'session of the other implementation (raw)')
                ctx.ev((name, bits, n))

def gen_c13_run(ctx):
    return range(4)

def fn_c13_run(ctx, part):
    """very many messages of one session, another one beside it"""
    e, c, raw = outer(('aes', 'rsa2048')[part % 2])
    ss = [K.keyczar.SessionEncrypter(e) for _ in range(2)]
    ds = [K.keyczar.SessionDecrypter(c, s.session_material) for s in ss]
    n = 1100
    for i in range(n):
        text = S(inputs.pattern(i % 40, b'run%d' % i))
        ct = ss[0].Encrypt(text)
        if part < 2:
            require(ds[0].Decrypt(ct) == text, 'message number %d of the session', i)
        else:
            judge13(ds, 0, 0, text, ct)
            judge13(ds, 1, 0, text, ct)
    judge13(ds, 1, 1, 'other', ss[1].Encrypt('other'))
    ctx.many(n, 'messages in one run')

@prop('C13', 'exploration', RULE,
      'systematic exploration of all operation sequences of two sessions up to depth 5 on the real code, exhaustive '
      'alterations of material and data',
      'All sequences of 5 operations (new, encrypt, decrypt, reopen) over two sessions with the full cross-decryption '
      'matrix after each, 24 sessions pairwise, every byte value of AES material and data, every bit of RSA material, '
      'crafted material; the material and data are also opened by an independent implementation. '
      'Altered material with the genuine material opened before on the same object; outputs kept from earlier releases; long runs.')
def c13():
    return [Family('data', gen_c13_data, fn_c13_data), Family('histories', gen_c13_hist, fn_c13_hist),
            Family('many', gen_c13_many, fn_c13_many), Family('material', gen_c13_material, fn_c13_material),
            Family('crafted', gen_c13_crafted, fn_c13_crafted), Family('altered', gen_c13_altered, fn_c13_altered),
            Family('golden', gen_c13_golden, fn_c13_golden), Family('long-run', gen_c13_run, fn_c13_run)]

# ---------------------------------------------------------------- C14
SIGNERS = {'hmac': lambda: env.HMAC(0), 'hmac1': lambda: env.HMAC(1), 'dsa': lambda: env.DSA(0), 'dsa1': lambda: env.DSA(1),
           'rsa': lambda: env.RSA(1024), 'rsa1': lambda: env.RSA(1024, 1)}

def sv(name):
    if ('sv', name) not in _cache:
        raw = SIGNERS[name]()
        s = env.signer(raw)
        _cache['sv', name] = s, (s if 'hmac' in raw else env.verifier(raw)), raw
    return _cache['sv', name]

def session14(name='hmac', out='aes'):
    e, c, raw = outer(out)
    s, v, sraw = sv(name)
    x = K.keyczar.SignedSessionEncrypter(e, s)
    return x, K.keyczar.SignedSessionDecrypter(c, v, x.session_material)

def no_plain(d, blob, what=''):
    """never a plaintext"""
    try:
        r = d.Decrypt(blob)
    except K.errors.KeyczarError as err:
        return type(err).__name__
    require(r is None, 'data that must be refused decrypts to %r %s', r, what)
    return 'None'

def gen_c14_data(ctx):
    for name in SIGNERS:
        for part in range(8):
            yield name, part

def fn_c14_data(ctx, p):
    name, part = p
    out = 'rsa2048' if part % 2 else 'aes'
    e, c, raw = outer(out)
    x, d = session14(name, out)
    j14 = json.loads(open_material(raw, ref.b64dec(x.session_material)).decode())
    nonce = ref.b64dec(j14['nonce'])
    require(len(nonce) == 16, 'nonce of %d bytes', len(nonce))
    key = env.parse_key(json.dumps(j14['key']))
    sraw = sv(name)[2]
    for j, pt in enumerate(inputs.plain(100, boundary=name == 'hmac')):
        if j % 8 != part or (name != 'hmac' and j % 4):
            continue
        blob = x.Encrypt(S(pt))
        require(d.Decrypt(blob) == S(pt), 'signed session round trip of %d bytes', len(pt))
        b = ref.b64dec(blob)
        n = ref.b2i(b[5:9])
        body, sig = b[9:9 + n], b[9 + n:]
        require(b[:5] == b'\0' + key_id(sraw), 'header')
        require(sig_valid(sraw, body + ref.pack(nonce) + b'\0', sig), 'signature is not over data and nonce')
        if len(pt) < 200:
            require(ref.aes_decrypt(key['aes'], key['hmac'], body) == pt, 'body is not under the session key')
        mine = b'\0' + key_id(sraw) + ref.pack(body) + ref_sign(sraw, body + ref.pack(nonce) + b'\0')
        require(d.Decrypt(ref.b64enc(mine)) == S(pt), 'message of the other implementation')
        ctx.ev(pt)

def gen_c14_cross(ctx):
    return itertools.product(SIGNERS, SIGNERS)

def fn_c14_cross(ctx, p):
    """sessions x signers: only the own session and signer give a plaintext"""
    a, b = p
    xs = [session14(a), session14(a), session14(b), session14(b, 'rsa2048')]
    blobs = [[x.Encrypt(t) for t in ('', 'hello')] for x, _ in xs]
    for i, (_, d) in enumerate(xs):
        for j in range(len(xs)):
            for t, blob in zip(('', 'hello'), blobs[j]):
                if i == j:
                    require(d.Decrypt(blob) == t, 'own message')
                else:
                    ctx.ev((i, j, t), no_plain(d, blob))
    # right session, but a verifier for another signer
    e, c, raw = outer('aes')
    if a != b:
        s = K.keyczar.SignedSessionEncrypter(e, sv(a)[0])
        d = K.keyczar.SignedSessionDecrypter(c, sv(b)[1], s.session_material)
        for t in ('', 'hello', S(inputs.pattern(40))):
            ctx.ev(('signer', t), no_plain(d, s.Encrypt(t)))
        # impersonation: other signer, header of the right one
        d = K.keyczar.SignedSessionDecrypter(c, sv(b)[1], s.session_material)
        forged = b'\0' + key_id(sv(b)[2]) + ref.b64dec(s.Encrypt('hello'))[5:]
        ctx.ev('forged', no_plain(d, ref.b64enc(forged)))

def gen_c14_nonce(ctx):
    return itertools.product(('hmac', 'dsa', 'rsa'), range(4))

def fn_c14_nonce(ctx, p):
    """same session key and signer but another nonce in the material: the data must be refused"""
    name, part = p
    e, c, raw = outer('aes')
    s, v, sraw = sv(name)
    x = K.keyczar.SignedSessionEncrypter(e, s)
    j14 = json.loads(open_material(raw, ref.b64dec(x.session_material)).decode())
    nonce = ref.b64dec(j14['nonce'])
    blobs = [x.Encrypt(t) for t in ('', 'hello')]
    others = [b'', b'\0' * 16, nonce[:-1], nonce + b'\0', nonce[::-1], nonce[:8], nonce * 2] + \
        [nonce[:i] + bytes([nonce[i] ^ (1 << k)]) + nonce[i + 1:] for i in range(16) for k in range(8)]
    for i, other in enumerate(others):
        if i % 4 != part:
            continue
        m = e.Encrypt(json.dumps(dict(j14, nonce=ref.b64enc(other))))
        d = K.keyczar.SignedSessionDecrypter(c, v, m)
        for blob in blobs:
            ctx.ev((i, blob[-5:]), no_plain(d, blob, 'with nonce %s' % other.hex()))
    # blobs that carry a genuine signature without the nonce, or with the empty one
    d = K.keyczar.SignedSessionDecrypter(c, v, x.session_material)
    b = ref.b64dec(blobs[1])
    n = ref.b2i(b[5:9])
    body = b[9:9 + n]
    for msg in (body + b'\0', body, body + ref.pack(b'') + b'\0', body + nonce + b'\0', body + ref.pack(nonce)):
        forged = b[:5] + ref.pack(body) + ref_sign(sraw, msg)
        ctx.ev(('msg', msg), no_plain(d, ref.b64enc(forged), 'signed something else'))

def gen_c14_altered(ctx):
    for name in ('hmac', 'dsa', 'rsa'):
        for part in range(16):
            yield name, part

def fn_c14_altered(ctx, p):
    name, part = p
    x, d = session14(name)
    sraw = sv(name)[2]
    good = ref.b64dec(x.Encrypt('hello'))
    n = ref.b2i(good[5:9])
    nonce = ref.b64dec(json.loads(open_material(outer('aes')[2], ref.b64dec(x.session_material)).decode())['nonce'])
    made = ((w, good[:9 + n] + t) for w, t in crafted(sraw, good[9:9 + n], good[9:9 + n] + ref.pack(nonce) + b'\0', good[9 + n:]))
    for j, (what, m) in enumerate(itertools.chain(inputs.mutants(good, full_values=name == 'hmac', ranges=name == 'hmac'), made)):
        if j % 16 != part:
            continue
        if name != 'hmac' and m[:9 + n] == good[:9 + n]:
            # another form of the same signature value is the same signature
            try:
                same = (K.util.ParseDsaSig(S(m[9 + n:])) == ref.der_parse_sig(good[9 + n:]) if name == 'dsa' else
                        ref.b2i(m[9 + n:]) == ref.b2i(good[9 + n:]))
            except Exception:
                same = False
            if same:
                continue
        ctx.ev(what, no_plain(d, ref.b64enc(m), 'altered: %r' % (what, )))

def gen_c14_material(ctx):
    return range(16)

def fn_c14_material(ctx, part):
    e, c, raw = outer('aes')
    s, v, _ = sv('hmac')
    x = K.keyczar.SignedSessionEncrypter(e, s)
    blob = x.Encrypt('hello')
    good = ref.b64dec(x.session_material)
    use_good = lambda: K.keyczar.SignedSessionDecrypter(c, v, x.session_material).Decrypt(blob)
    if part % 2:           # the genuine material was opened before, or not
        require(use_good() == 'hello', 'session round trip')
    for j, (what, m) in enumerate(inputs.mutants(good, full_values=False, ranges=False)):
        if j // 2 % 8 == part // 2:
            keyczar_error(K.keyczar.SignedSessionDecrypter, c, v, ref.b64enc(m))
            ctx.ev(what, 'refused')
    require(use_good() == 'hello', 'session round trip after altered material')

BAD_JSON = ['', '{}', '[]', 'null', '1', '"x"', 'true', '{', '{"key": {}}', '{"nonce": "AA"}', '{"key": null, "nonce": "AA"}',
            '{"key": [], "nonce": "AA"}', '{"key": 1, "nonce": "AA"}', '{"key": {}, "nonce": "AA"}', '\xff\xfe', '\0\0\0\2',
            '[1,2]', '{"key": "x", "nonce": 1}']

def gen_c14_json(ctx):
    return ['aes', 'rsa2048']

def fn_c14_json(ctx, out):
    """well-encrypted material that is not a session"""
    e, c, raw = outer(out)
    s, v, _ = sv('hmac')
    x = K.keyczar.SignedSessionEncrypter(e, s)
    blob = x.Encrypt('hello')
    text = open_material(raw, ref.b64dec(x.session_material)).decode()
    j14 = json.loads(text)
    bad = list(BAD_JSON)
    for k in list(j14):
        bad.append({a: b for a, b in j14.items() if a != k})
        for val in (None, 1, [], {}, True, 'A', 'AAAAA', '!!!!!', 1.5):
            bad.append(dict(j14, **{k: val}))
    for k in list(j14['key']):
        bad.append(dict(j14, key={a: b for a, b in j14['key'].items() if a != k}))
        for val in (None, 0, -1, 1, [], {}, 'A', '', 'AAAA', 'XYZ', 129, 1.5):
            if k == 'size' and val != 'A':
                continue       # the size is informative only
            bad.append(dict(j14, key=dict(j14['key'], **{k: val})))
    for k in list(j14['key']['hmacKey']):
        h = j14['key']['hmacKey']
        bad.append(dict(j14, key=dict(j14['key'], hmacKey={a: b for a, b in h.items() if a != k})))
        for val in (None, [], 'A', '', 'AAAA'):
            if k != 'size':
                bad.append(dict(j14, key=dict(j14['key'], hmacKey=dict(h, **{k: val}))))
    for n in range(0, len(text), 3):
        bad.append(text[:n])
    for b in bad:
        t = b if isinstance(b, str) else json.dumps(b)
        if len(t) > 200 and out != 'aes':
            continue
        try:
            d = K.keyczar.SignedSessionDecrypter(c, v, e.Encrypt(t))
            r = d.Decrypt(blob)
        except K.errors.KeyczarError as err:
            ctx.ev(t, type(err).__name__)
            continue
        j = json.loads(t)
        require(isinstance(j, dict) and isinstance(j.get('nonce'), str) and isinstance(j.get('key'), dict), 'material without a key or nonce is accepted: %r', t[:200])
        if r is not None:
            # only if the session is in effect the same one
            d14 = json.loads(t)
            same = d14.get('nonce') == j14['nonce'] and isinstance(d14.get('key'), dict) and \
                d14['key'].get('aesKeyString') == j14['key']['aesKeyString'] and \
                isinstance(d14['key'].get('hmacKey'), dict) and \
                d14['key']['hmacKey'].get('hmacKeyString') == j14['key']['hmacKey']['hmacKeyString']
            require(same and r == 'hello', 'material %r gives the plaintext %r', t[:200], r)
        ctx.ev(t, 'None' if r is None else 'same')

def gen_c14_hist(ctx):
    ops = ['new', 'enc0', 'enc1', 'dec0', 'dec1']
    depth = 6 if not ctx.thorough else 7
    for head in itertools.product(ops, repeat=3):
        yield ops, head, depth

def fn_c14_hist(ctx, p):
    ops, head, depth = p
    for tail in itertools.product(ops, repeat=depth - 3):
        ss, msgs = [], []
        for t, op in enumerate(head + tail):
            i = int(op[-1]) if op[-1].isdigit() else 0
            if op == 'new':
                ss.append(session14())
            elif i >= len(ss):
                continue
            elif op.startswith('enc'):
                text = 'm%d' % t if t % 2 else ''
                msgs.append((i, text, ss[i][0].Encrypt(text)))
            else:
                for k, text, blob in msgs:
                    if k == i:
                        require(ss[i][1].Decrypt(blob) == text, 'own message')
                    else:
                        no_plain(ss[i][1], blob)
        ctx.ev(tail)

def gen_c14_golden(ctx):
    yield 'java'

def fn_c14_golden(ctx, p):
    f = GOLDEN['java/code/testdata/signedsession']
    c = golden_open('java/code/testdata/rsa')[0]
    for vn in ('java/code/testdata/dsa', 'java/code/testdata/dsa.public'):
        v = golden_open(vn)[0]
        d = K.keyczar.SignedSessionDecrypter(c, v, f['signed.session.out'].strip())
        require(d.Decrypt(f['signed.ciphertext.out'].strip()) == TEXT, 'signed session of the Java implementation')

def gen_c14_run(ctx):
    return [('hmac', 0), ('hmac', 1), ('dsa', 0), ('rsa', 0)]

def fn_c14_run(ctx, p):
    """very many messages of one session: each is bound to its session and to no other"""
    name, part = p
    e, c, raw = outer('aes')
    x, d = session14(name)
    x2, d2 = session14(name)
    j14 = json.loads(open_material(raw, ref.b64dec(x.session_material)).decode())
    nonce, sraw = ref.b64dec(j14['nonce']), sv(name)[2]
    n = 1100 if name == 'hmac' else 270
    for i in range(n):
        text = S(inputs.pattern(i % 40, b'run%d' % i))
        blob = x.Encrypt(text)
        require(d.Decrypt(blob) == text, 'message number %d of the session', i)
        b = ref.b64dec(blob)
        k = ref.b2i(b[5:9])
        if name == 'hmac':
            require(sig_valid(sraw, b[9:9 + k] + ref.pack(nonce) + b'\0', b[9 + k:]), 'message number %d is not bound to the session', i)
        if part:
            no_plain(d2, blob)
            require(d2.Decrypt(x2.Encrypt(text)) == text, 'message number %d of the other session', i)
    no_plain(d2, blob)
    ctx.many(n, 'messages in one run')

@prop('C14', 'exploration', RULE,
      'systematic exploration of session, signer and message combinations and histories on the real code, exhaustive '
      'alterations',
      'All pairs of six signers x four sessions, every bit of the nonce, every byte value of HMAC-signed messages (every '
      'bit of DSA and RSA ones), every bit of the material, malformed material, all sequences of 6 operations over two '
      'sessions; signatures and bodies are opened by an independent implementation. '
      'Material without nonce or key, crafted signatures as in C04, swapped material of two sessions; long runs.')
def c14():
    return [Family('data', gen_c14_data, fn_c14_data), Family('cross', gen_c14_cross, fn_c14_cross),
            Family('nonce', gen_c14_nonce, fn_c14_nonce), Family('altered', gen_c14_altered, fn_c14_altered),
            Family('material', gen_c14_material, fn_c14_material), Family('json', gen_c14_json, fn_c14_json),
            Family('histories', gen_c14_hist, fn_c14_hist), Family('golden', gen_c14_golden, fn_c14_golden),
            Family('long-run', gen_c14_run, fn_c14_run)]
