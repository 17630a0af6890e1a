"""C20, C21: the published formats, both directions, and outputs of earlier releases."""
import hashlib
import io
import itertools
import json
import os

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .codec import Sink
from .crypt import RULE, fn_c01_rare, gen_c01_rare, rsa_max
from .registry import prop
from .sign import fn_rare, gen_rare, key_id, ref_sign, raw_of

GOLDEN = json.load(open(os.path.join(env.HERE, 'fixtures', 'golden.json')))
TEXT = 'This is some test data'
TEXT2 = 'This is not a test, this is a real string'

def golden_reader(name):
    files = GOLDEN[name]
    return env.MemReader(json.loads(files['meta']), {int(f): t for f, t in files.items() if f.isdigit()})

def golden_open(name):
    r = golden_reader(name)
    meta = r.meta
    if meta['encrypted']:
        r = K.readers.EncryptedReader(r, K.keyczar.Crypter(golden_reader(name.replace('-crypted', ''))))
    cls = {'DECRYPT_AND_ENCRYPT': K.keyczar.Crypter, 'ENCRYPT': K.keyczar.Encrypter,
           'SIGN_AND_VERIFY': K.keyczar.Signer, 'VERIFY': K.keyczar.Verifier}[meta['purpose']]
    return cls(r), meta

SYM = ('aes', 'aes-crypted', 'hmac')

def gen_golden(symmetric):
    def gen(ctx):
        for name in sorted(GOLDEN):
            if 'meta' in GOLDEN[name] and (name.rsplit('/', 1)[1] in SYM) == symmetric:
                yield name
    return gen

def fn_golden(ctx, name):
    k, meta = golden_open(name)
    files = GOLDEN[name]
    cross = 'crosscomp' in name
    priv = name.replace('.public', '')
    for f, text in sorted(GOLDEN.get(priv, {}).items()):
        if not f.endswith('.out') or not f[0].isdigit():
            continue
        text = text.strip()
        if meta['purpose'] == 'DECRYPT_AND_ENCRYPT':
            got = k.Decrypt(text)
            want = TEXT if not cross else 'Some text to encrypt' if (name.endswith('/aes') and f == '1.out') else TEXT2
            require(got == want, '%s: decrypts to %r', f, got)
            require(k.Decrypt(S(ref.b64dec(text)), None) == want, '%s raw', f)
            ctx.ev(f, 'decrypts')
        elif meta['purpose'] in ('SIGN_AND_VERIFY', 'VERIFY'):
            data = TEXT if not cross else TEXT2
            require(k.Verify(data, text) is True or k.Verify(data, text) == 1, '%s: does not verify', f)
            require(k.Verify(S(inputs.pattern(9)), text) is False or not k.Verify('x', text), '%s verifies anything', f)
            ctx.ev(f, 'verifies')
    # fresh output of the old key set, read back with another instance
    if meta['purpose'] == 'DECRYPT_AND_ENCRYPT':
        require(golden_open(name)[0].Decrypt(k.Encrypt('new')) == 'new', 'fresh ciphertext of an old key set')
    elif meta['purpose'] == 'SIGN_AND_VERIFY':
        require(golden_open(name)[0].Verify('new', k.Sign('new')), 'fresh signature of an old key set')
    # identifiers of all old keys are the published ones
    if not meta['encrypted']:
        for v, t in golden_reader(name).keys.items():
            raw = env.parse_key(t)
            want = key_id(raw) if 'aes' not in raw else ref.aes_id(raw['aes'], raw['hmac'])
            ids = [kk for kk in k.versions if kk.version_number == v]
            got = k.GetKey(ids[0])
            require(B(K.util.Base64WSDecode(got.hash_id)) == want, 'identifier of version %d', v)
            require(got.Header() == S(b'\0' + want), 'header of version %d', v)

# ---------------------------------------------------------------- C20
def gen_c20_aes(ctx):
    for k in range(len(env.FIX['aes'])):
        for i in range(24):
            yield k, i

_crypters = {}

def fn_c20_aes(ctx, p):
    k, part = p
    key = env.FIX['aes'][k]
    if k not in _crypters:
        _crypters[k] = env.crypter(key)
    c = _crypters[k]
    full = k < 3 or ctx.thorough
    data = list(inputs.plain(80 if full else 33, boundary=False)) + [inputs.pattern(n) for n in (255, 256, 257)]
    for j, d in enumerate(data):
        if j % 24 != part or (not full and j % 5):
            continue
        ct = B(c.Encrypt(S(d), None))
        require(ct[:5] == b'\0' + ref.aes_id(key['aes'], key['hmac']), 'header of the ciphertext is %s', ct[:5].hex())
        require(ref.aes_decrypt(key['aes'], key['hmac'], ct) == d, 'ciphertext of %d bytes is not of the format', len(d))
        require(len(ct) == 41 + (len(d) // 16 + 1) * 16, 'length of the ciphertext')
        enc = c.Encrypt(S(d))
        require(ref.aes_decrypt(key['aes'], key['hmac'], ref.b64dec(enc)) == d, 'encoded ciphertext')
        for iv in (b'\0' * 16, b'\xff' * 16, inputs.pattern(16, b'iv%d' % j)):
            theirs = ref.aes_encrypt(key['aes'], key['hmac'], iv, d)
            require(c.Decrypt(S(theirs), None) == S(d), 'ciphertext of the other implementation (raw)')
            require(c.Decrypt(ref.b64enc(theirs)) == S(d), 'ciphertext of the other implementation')
        ctx.ev(d)

def gen_c20_hmac(ctx):
    for k in range(len(env.FIX['hmac'])):
        for i in range(8):
            yield k, i

def fn_c20_hmac(ctx, p):
    k, part = p
    key = env.FIX['hmac'][k]
    s = env.signer(key)
    for j, d in enumerate(inputs.plain(300 if k == 0 else 70, boundary=k == 0)):
        if j % 8 != part:
            continue
        want = ref.hmac_sign(key['hmac'], d)
        require(B(s.Sign(S(d), None)) == want, 'signature of %d bytes', len(d))
        require(s.Sign(S(d)) == ref.b64enc(want), 'encoded signature of %d bytes', len(d))
        require(s.Verify(S(d), S(want), None) and s.Verify(S(d), ref.b64enc(want)), 'signature of the other implementation')
        for nonce in (b'', b'n', b'\0' * 16, inputs.pattern(16)):
            want = b'\0' + ref.hmac_id(key['hmac']) + ref.pack(d) + \
                ref.hmac_sha1(key['hmac'], d + ref.pack(nonce) + b'\0')
            require(B(s.AttachedSign(S(d), S(nonce), None)) == want, 'attached signature of %d bytes', len(d))
            require(B(s.AttachedVerify(ref.b64enc(want), S(nonce))) == d, 'attached signature of the other implementation')
        ctx.ev(d)

def gen_c20_keys(ctx):
    """keys whose identifiers and parts have unusual bytes"""
    for bits in (128, 192, 256):
        for i in range(64):
            yield bits, i

def fn_c20_keys(ctx, p):
    bits, i = p
    for j in range(4):
        label = b'k%d.%d.%d' % (bits, i, j)
        aes = inputs.pattern(bits // 8, label)
        mac = inputs.pattern(32, b'm' + label)
        if j == 1:
            aes = bytes(bits // 8)[:-1] + bytes([i])
        if j == 2:
            mac = bytes([i]) + bytes(31)
        if j == 3:   # search for an identifier with a zero byte at each place
            n = 0
            while ref.aes_id(aes, mac)[i % 4] not in (0, 0x80, 0x0a, 0xff):
                n += 1
                mac = inputs.pattern(32, b'm%d' % n + label)
        key = dict(size=bits, aes=aes, hmac=mac)
        c = env.crypter(key)
        ct = B(c.Encrypt('data', None))
        require(ref.aes_decrypt(aes, mac, ct) == b'data', 'ciphertext of key %s', aes.hex())
        theirs = ref.aes_encrypt(aes, mac, inputs.pattern(16, label), b'theirs')
        require(c.Decrypt(S(theirs), None) == 'theirs', 'ciphertext of the other implementation')
        hk = dict(size=256, hmac=mac)
        s = env.signer(hk)
        require(B(s.Sign('data', None)) == ref.hmac_sign(mac, b'data'), 'signature of key %s', mac.hex())
        ctx.ev((i, j))

def gen_c20_ends(ctx):
    return range(256)

def fn_c20_ends(ctx, b):
    """keys that begin or end with, or consist of, any byte: one-shot and as streams"""
    for j, (aes, mac) in enumerate(inputs.odd_keys(b)):
        c = env.crypter(dict(size=len(aes) * 8, aes=aes, hmac=mac))
        require(ref.aes_decrypt(aes, mac, B(c.Encrypt('data', None))) == b'data', 'ciphertext of key %s %s', aes.hex(), mac.hex())
        out = Sink()
        w = c.CreateEncryptingStreamWriter(out, encoder=None)
        w.write('data')
        w.flush()
        require(ref.aes_decrypt(aes, mac, B(out.text)) == b'data', 'stream output of key %s %s', aes.hex(), mac.hex())
        theirs = ref.aes_encrypt(aes, mac, inputs.pattern(16, b'%d' % b), b'theirs')
        require(c.Decrypt(S(theirs), None) == 'theirs', 'ciphertext of the other implementation')
        require(c.CreateDecryptingStreamReader(io.StringIO(S(theirs)), decoder=None).read() == 'theirs', 'stream of the other implementation')
        s = env.signer(dict(size=256, hmac=mac))
        require(B(s.Sign('data', None)) == ref.hmac_sign(mac, b'data'), 'signature of key %s', mac.hex())
        require(s.Verify('theirs', S(ref.hmac_sign(mac, b'theirs')), None), 'signature of the other implementation')
        ctx.ev((b, j))

def gen_c20_multi(ctx):
    return itertools.product(range(3), repeat=2)

def fn_c20_multi(ctx, p):
    """with several versions: each old ciphertext / signature accepted, new ones carry the primary's identifier"""
    prim, other = p
    raws = [env.AES(128), env.AES(192), env.AES(256)]
    macs = [env.HMAC(0), env.HMAC(1), env.HMAC(2)]
    st = ['PRIMARY' if i == prim else ('ACTIVE', 'INACTIVE')[(i + other) % 2] for i in range(3)]
    c = env.crypter(*raws, statuses=st)
    s = env.signer(*macs, statuses=st)
    for n in range(40):
        d = inputs.pattern(n)
        require(c.Decrypt(S(ref.aes_encrypt(raws[other]['aes'], raws[other]['hmac'], inputs.pattern(16), d)), None) == S(d),
                'ciphertext of version %d', other)
        require(ref.aes_decrypt(raws[prim]['aes'], raws[prim]['hmac'], B(c.Encrypt(S(d), None))) == d, 'primary')
        require(s.Verify(S(d), S(ref.hmac_sign(macs[other]['hmac'], d)), None), 'signature of version %d', other)
        require(B(s.Sign(S(d), None)) == ref.hmac_sign(macs[prim]['hmac'], d), 'primary signature')
        ctx.ev(n)

@prop('C20', 'exploration', RULE, 'exhaustive bounded enumeration against an independent implementation of the format',
      'All lengths 0..80 and all special contents for every fixture key, in both directions (independent AES-CBC, HMAC and '
      'identifier code), 768 derived keys including ones with zero bytes in identifier and key, and all symmetric outputs '
      'kept from earlier Java, C++ and Python releases. '
      'Keys whose bytes and identifiers begin or end with every special value, all version numbers.')
def c20():
    return [Family('golden', gen_golden(True), fn_golden), Family('aes', gen_c20_aes, fn_c20_aes),
            Family('hmac', gen_c20_hmac, fn_c20_hmac), Family('keys', gen_c20_keys, fn_c20_keys),
            Family('key-bytes', gen_c20_ends, fn_c20_ends),
            Family('versions', gen_c20_multi, fn_c20_multi)]

# ---------------------------------------------------------------- C21
RSAS = [('rsa%d.%d' % (k['size'], [x for x in env.FIX['rsa'] if x['size'] == k['size']].index(k))) for k in env.FIX['rsa']]
DSAS = ['dsa.%d' % i for i in range(len(env.FIX['dsa']))]

def gen_c21_crypt(ctx):
    for name in RSAS:
        for part in range(8):
            yield name, part

def fn_c21_crypt(ctx, p):
    name, part = p
    raw = raw_of(name)
    m = rsa_max(raw)
    slow = raw['size'] > 1024
    c = env.crypter(raw)
    pub = K.keyczar.Encrypter(env.keyset([(1, 'PRIMARY', raw)], env.ENC, public=True))
    k = ref.rsa_k(raw['n'])
    data = [inputs.pattern(n) for n in range(0, m + 1, 1 if not slow or ctx.thorough else 61)] + [b'\0', b'\1', b'\0\1', b'\0' * m]
    if not slow:
        data += inputs.special(m)[::3]
    for j, d in enumerate(data):
        if j % 8 != part:
            continue
        for e in (c, pub):
            ct = B(e.Encrypt(S(d), None))
            require(len(ct) == 5 + k, 'ciphertext has %d bytes, modulus %d', len(ct) - 5, k)
            require(ct[:5] == b'\0' + ref.rsa_id(raw['n'], raw['e']), 'header %s', ct[:5].hex())
            v = ref.b2i(ct[5:])
            require(v < raw['n'], 'value not below the modulus')
            dec = ref.oaep_decode(k, ref.rsa_private(raw, v).to_bytes(k, 'big'))
            require(dec is not None and dec[0] == d, 'not an OAEP ciphertext of the data (%d bytes)', len(d))
        seed = inputs.pattern(20, b's%d' % j) if j % 3 else bytes(20)
        theirs = ref.rsa_encrypt(raw['n'], raw['e'], d, seed)
        require(c.Decrypt(S(theirs), None) == S(d), 'ciphertext of the other implementation')
        require(c.Decrypt(ref.b64enc(theirs)) == S(d), 'encoded ciphertext of the other implementation')
        ctx.ev(d)

def gen_c21_zero(ctx):
    return range(16)

def fn_c21_zero(ctx, part):
    """ciphertexts and signatures with leading zero bytes, both ways"""
    raw = raw_of('rsa512.0')
    c, s = env.crypter(raw), env.signer(raw)
    v = env.verifier(raw)
    k = 64
    hits = 0
    for i in range(400 if not ctx.thorough else 4000):
        d = inputs.pattern(8, b'z%d.%d' % (part, i))
        theirs = ref.rsa_encrypt(raw['n'], raw['e'], d, inputs.pattern(20, b'%d' % i))
        if theirs[5] == 0:
            hits += 1
            require(c.Decrypt(S(theirs), None) == S(d), 'ciphertext with a leading zero byte')
        sig = ref_sign(raw, d + b'\0')
        if sig[0] == 0:
            hits += 1
            for x in (s, v):
                require(x.Verify(S(d), S(b'\0' + key_id(raw) + sig), None), 'signature with a leading zero byte')
            require(B(s.Sign(S(d), None)) == b'\0' + key_id(raw) + sig, 'own signature with a leading zero byte')
    ctx.count('leading_zero_values', hits)
    ctx.ev(part)

def gen_c21_sign(ctx):
    for name in RSAS + DSAS:
        for part in range(8):
            yield name, part

def fn_c21_sign(ctx, p):
    name, part = p
    raw = raw_of(name)
    s, v = env.signer(raw), env.verifier(raw)
    slow = raw['size'] > 1024 and 'n' in raw
    data = [inputs.pattern(n) for n in range(0, 130, 1 if not slow else 16)] + inputs.special()[::5 if not slow else 60] + \
        [inputs.pattern(n) for n in (1000, 5000, 65537)]
    hdr = b'\0' + key_id(raw)
    for j, d in enumerate(data):
        if j % 8 != part:
            continue
        mine = B(s.Sign(S(d), None))
        att = B(s.AttachedSign(S(d), 'nonce', None))
        require(mine[:5] == hdr and att[:5] == hdr, 'header of the signature')
        require(att[5:9 + len(d)] == ref.pack(d), 'data in the attached signature')
        amsg = d + ref.pack(b'nonce') + b'\0'
        if 'n' in raw:
            require(mine[5:] == ref_sign(raw, d + b'\0'), 'not the PKCS#1 signature')
            require(att[9 + len(d):] == ref_sign(raw, amsg), 'not the PKCS#1 signature of the attached data')
            theirs = [ref_sign(raw, d + b'\0')]
            tatt = [ref_sign(raw, amsg)]
        else:
            for msg, sig in ((d + b'\0', mine[5:]), (amsg, att[9 + len(d):])):
                r, t = ref.der_parse_sig(sig)
                require(ref.der_sig(r, t) == sig, 'not the DER sequence of two integers')
                require(ref.dsa_valid(raw['p'], raw['q'], raw['g'], raw['y'], msg, r, t), 'not a DSA signature')
            ks = (2, 12345, raw['q'] - 1, ref.b2i(inputs.pattern(19, b'%d' % j)) + 1)
            theirs = [ref_sign(raw, d + b'\0', k) for k in ks]
            tatt = [ref_sign(raw, amsg, k) for k in ks]
        for x in (s, v):
            for t in theirs:
                require(x.Verify(S(d), S(hdr + t), None), 'signature of the other implementation')
                require(x.Verify(S(d), ref.b64enc(hdr + t)), 'encoded signature of the other implementation')
            for t in tatt:
                require(B(x.AttachedVerify(S(hdr + ref.pack(d) + t), 'nonce', None)) == d, 'their attached signature')
        ctx.ev(d)

def gen_c21_ids(ctx):
    for name in RSAS + DSAS:
        for style in ('java', 'pad', 'min'):
            yield name, style

def fn_c21_ids(ctx, p):
    """identifiers do not depend on how integers are stored, and are the same for both halves"""
    name, style = p
    raw = raw_of(name)
    want = S(b'\0' + key_id(raw))
    a = K.keyczar.Signer(env.keyset([(1, 'PRIMARY', raw)], env.SIGN, style=style))
    b = K.keyczar.Verifier(env.keyset([(1, 'PRIMARY', raw)], env.VER, public=True, style=style))
    require(a.primary_key.Header() == want and b.primary_key.Header() == want, 'identifier')
    require(b.Verify('x', a.Sign('x')), 'signature')
    if 'n' in raw:
        c = K.keyczar.Crypter(env.keyset([(1, 'PRIMARY', raw)], env.CRYPT, style=style))
        e = K.keyczar.Encrypter(env.keyset([(1, 'PRIMARY', raw)], env.ENC, public=True, style=style))
        require(c.Decrypt(e.Encrypt('x')) == 'x' and c.primary_key.Header() == want, 'ciphertext')

def gen_c21_split(ctx):
    return range(1, 40)

def fn_c21_split(ctx, n):
    """the identifier for all ways to cut the same bytes into the parameters of a public key"""
    data = inputs.pattern(40, b'split').replace(b'\0', b'\1')
    seen = {}
    def obj(**kw):
        return json.dumps(dict({k: ref.b64enc(v) for k, v in kw.items()}, size=1024))
    def check(key, parts):
        got = B(key.Header())
        want = b'\0' + ref.prefix_id(*[ref.b2i(x) for x in parts])
        require(got == want, 'identifier of the key with parameters %r is %s, not %s', parts, got.hex(), want.hex())
        require(got not in seen, 'keys with parameters %r and %r have the same identifier', parts, seen.get(got))
        seen[got] = parts
        ctx.ev(parts)
    check(K.keys.RsaPublicKey.Read(obj(modulus=data[:n], publicExponent=data[n:])), (data[:n], data[n:]))
    for i in range(n + 1, 39):
        for j in range(i + 1, 40, 7):
            parts = data[:n], data[n:i], data[i:j], data[j:]
            check(K.keys.DsaPublicKey.Read(obj(**dict(zip('pqgy', parts)))), parts)

@prop('C21', 'exploration', RULE, 'exhaustive bounded enumeration against an independent implementation of the format',
      'All message lengths up to capacity, data of every length to 129 and special contents for every fixture RSA and DSA '
      'key (512 to 4096 bits, moduli close to powers of two), both directions, values with leading zero bytes, three '
      'integer storage styles, and all asymmetric outputs kept from earlier Java, C++ and Python releases.')
def c21():
    return [Family('golden', gen_golden(False), fn_golden), Family('rsa-crypt', gen_c21_crypt, fn_c21_crypt),
            Family('leading-zeros', gen_c21_zero, fn_c21_zero), Family('signatures', gen_c21_sign, fn_c21_sign),
            Family('identifiers', gen_c21_ids, fn_c21_ids), Family('parameter-lengths', gen_c21_split, fn_c21_split),
            Family('more-leading-zeros', gen_rare('sig', 'dsa'), fn_rare),
            Family('more-leading-zeros-crypt', gen_c01_rare, fn_c01_rare)]
