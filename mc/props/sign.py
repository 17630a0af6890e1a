"""C04 signatures, C05 attached signatures, C06 unversioned signatures."""
import itertools

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop

NAMES = ['hmac.0', 'hmac.1', 'hmac.4', 'rsa512.0', 'rsa768.0', 'rsa1024.0', 'rsa1024.1', 'rsa1024.2', 'rsa1024.3',
         'rsa1024.4', 'rsa2048.0', 'rsa4096.0', 'dsa.0', 'dsa.1', 'dsa.2', 'dsa.3']

def raw_of(name):
    t, i = name.split('.')
    if t == 'hmac':
        return env.HMAC(int(i))
    if t == 'dsa':
        return env.DSA(int(i))
    return env.RSA(int(t[3:]), int(i))

_cache = {}

def tools(*names):
    """(signer, [objects that verify for it]) for a key set of these keys; the last is primary."""
    if names not in _cache:
        raws = [raw_of(n) for n in names]
        s = env.signer(*raws)
        vs = [s, env.signer(*raws, cls=K.keyczar.Verifier)]
        if not names[0].startswith('hmac'):
            vs.append(env.verifier(*raws))
        _cache[names] = s, vs
    return _cache[names]

def key_id(raw):
    if 'aes' in raw:
        return ref.aes_id(raw['aes'], raw['hmac'])
    if 'hmac' in raw:
        return ref.hmac_id(raw['hmac'])
    if 'n' in raw:
        return ref.rsa_id(raw['n'], raw['e'])
    return ref.dsa_id(raw['p'], raw['q'], raw['g'], raw['y'])

def sig_valid(raw, msg, sig):
    """Reference: is sig (raw bytes, no header) a signature value for msg? None: not decodable strictly."""
    if 'hmac' in raw:
        return sig == ref.hmac_sha1(raw['hmac'], msg)
    if 'n' in raw:
        return ref.rsa_valid(raw['n'], raw['e'], msg, ref.b2i(sig))
    try:
        r, s = ref.der_parse_sig(sig)
    except ref.DerError:
        return None
    return ref.dsa_valid(raw['p'], raw['q'], raw['g'], raw['y'], msg, r, s)

def ref_sign(raw, msg, k=12345678901234567890123456789):
    if 'hmac' in raw:
        return ref.hmac_sha1(raw['hmac'], msg)
    if 'n' in raw:
        return ref.rsa_private(raw, ref.b2i(ref.emsa(ref.rsa_k(raw['n']), msg))).to_bytes(ref.rsa_k(raw['n']), 'big')
    return ref.der_sig(*ref.dsa_sign(raw['p'], raw['q'], raw['g'], raw['x'], k, msg))

def verify(v, data, sig, decoder='raw'):
    """True / False / 'error'; anything else is a violation."""
    try:
        r = v.Verify(S(data), S(sig), None) if decoder == 'raw' else v.Verify(S(data), sig)
    except K.errors.KeyczarError:
        return 'error'
    return bool(r)

# ---------------------------------------------------------------- C04
def gen_c04_ok(ctx):
    for name in NAMES:
        slow = name.startswith(('rsa2048', 'rsa4096'))
        if name.startswith('hmac'):
            for d in inputs.plain(300 if name == 'hmac.0' else 70):
                yield (name, ), d
        else:
            full = name in ('rsa512.0', 'rsa1024.0', 'dsa.0') or ctx.thorough
            for n in list(range(0, 140 if full else 70, 1 if not slow else 17)) + ([b for b in inputs.BOUNDARY if b > 140] if full else [255, 256, 4096, 65536]):
                yield (name, ), inputs.pattern(n)
            if full:
                for d in inputs.special():
                    yield (name, ), d
            else:
                for d in (b'\0', b'\0\0', b'\xff', b'\r\n', b' ', b'\x80'):
                    yield (name, ), d
    for names in (('hmac.0', 'hmac.1', 'hmac.2'), ('rsa1024.0', 'rsa512.0', 'rsa2048.0'), ('dsa.0', 'dsa.1', 'dsa.2')):
        for n in range(0, 40):
            yield names, inputs.pattern(n)
    yield ('hmac.0', ), inputs.pattern(1 << 20)

def fn_c04_ok(ctx, p):
    names, d = p
    s, vs = tools(*names)
    raw = raw_of(names[-1])
    enc, rawsig = s.Sign(S(d)), s.Sign(S(d), None)
    require(type(enc) is str and type(rawsig) is str, 'signature is not a string')
    for v in vs:
        for form, sig, dec in (('encoded', enc, K.util.Base64WSDecode), ('raw', rawsig, None)):
            require(v.Verify(S(d), sig, dec) == True, '%s signature of %d bytes does not verify (%s)', form, len(d),
                    type(v).__name__)
        require(v.Verify(S(d), enc), 'default decoding')
        require(v.Verify(S(d), K.util.Base64WSEncode(rawsig)), 'encoding a raw signature')
    return 'ok'

def gen_c04_pairs(ctx):
    return range(256)

def fn_c04_pairs(ctx, hi):
    """all two-byte messages: each signature verifies, and not for the neighbours"""
    s, vs = tools('hmac.0')
    prev = None
    for lo in range(256):
        d = bytes([hi, lo])
        sig = B(s.Sign(S(d), None))
        require(verify(s, d, sig) is True, '%r', d)
        for o in (d[:1], d[1:], d[::-1], d + b'\0', b'\0' + d, b'', bytes([hi ^ 1, lo]), bytes([hi, lo ^ 0x80])):
            if o != d:
                require(verify(s, o, sig) is False, 'signature of %r verifies for %r', d, o)
        ctx.ev(lo)

def gen_c04_data(ctx):
    for name in ('hmac.0', 'rsa512.0', 'rsa1024.0', 'rsa2048.0', 'dsa.0', 'dsa.3'):
        for n in ((0, 1, 5, 16, 40) if name in ('hmac.0', 'rsa512.0') or ctx.thorough else (0, 1, 7)):
            yield name, n, 'p'
        yield name, 3, '\0'

def fn_c04_data(ctx, p):
    """the signature does not verify for any other data"""
    name, n, kind = p
    d = inputs.pattern(n) if kind == 'p' else b'a\0\0'
    s, vs = tools(name)
    sig = B(s.Sign(S(d), None))
    for v in vs:
        require(verify(v, d, sig) is True, 'genuine signature')
    others = [m for _, m in inputs.mutants(d, full_values=n <= 5, ranges=n <= 16)] + \
        [b'', b'\0', d + b'\0', d + b'\0\0\0\0', d + b'\0\0\0\0\0', d * 2, d.upper(), d.lower(), d.strip(), b' ' + d,
         d + b'\n', d + b' ', d.rstrip(b'\0'), d[::-1], bytes(b & 127 for b in d), ref.sha1(d), d + d[-1:],
         inputs.pattern(n + 1), inputs.pattern(1000), d + b'\0' * 100]
    if name.startswith('dsa') or name == 'rsa2048.0':
        vs = vs[-1:]
    for m in set(others):
        if m != d:
            for v in vs:
                require(verify(v, m, sig) is not True, 'signature of %r verifies for %r', d[:50], m[:50])
            ctx.ev(m, 'refused')

def gen_c04_long(ctx):
    for n in (65, 119, 200, 1000, 4096, 65536):
        yield n

def fn_c04_long(ctx, n):
    """every byte of long data is covered"""
    d = inputs.pattern(n)
    s, vs = tools('hmac.0')
    sig = B(s.Sign(S(d), None))
    require(verify(s, d, sig) is True, 'genuine signature')
    step = 1 if n <= 4096 else 61
    for i in list(range(0, n, step)) + [n - 1]:
        m = d[:i] + bytes([d[i] ^ (1 << i % 8)]) + d[i + 1:]
        require(verify(s, m, sig) is False, 'changing byte %d of %d is not noticed', i, n)
        ctx.ev(i, 'refused')
        if n <= 1000 or i % 64 == 0:
            require(verify(s, d[:i], sig) is False, 'cutting the data at %d is not noticed', i)

def gen_c04_sigs(ctx):
    for name in ('hmac.0', 'hmac.4', 'rsa512.0', 'rsa1024.0', 'rsa1024.1', 'rsa2048.0', 'dsa.0', 'dsa.3'):
        for chunk in range(8):
            yield name, chunk

def check_sig(ctx, name, v, data, blob, what):
    """Verify header+sig; success only if the reference agrees."""
    raw = raw_of(name)
    got = verify(v, data, blob)
    if got is not True:
        ctx.ev(what, 'refused')
        return
    ok = sig_valid(raw, data + b'\0', blob[5:])
    require(blob[:5] == b'\0' + key_id(raw), 'signature with header %s verifies', blob[:5].hex())
    if ok is None:   # not strict DER: the values must still be the valid ones
        try:
            r, s = K.util.ParseDsaSig(S(blob[5:]))
            ok = ref.dsa_valid(raw['p'], raw['q'], raw['g'], raw['y'], data + b'\0', r, s)
        except Exception:
            ok = False
    require(ok, 'invalid signature accepted (%s): %s', what, blob.hex()[:400])
    ctx.ev(what, 'same value')

def crafted(raw, d, signed, good):
    """signatures with other values, paddings and encodings, made with the private key where need be"""
    if 'n' in raw:
        n, k = raw['n'], ref.rsa_k(raw['n'])
        sv = ref.b2i(good)
        for t in (0, 1, 2, n - 1, n, n + 1, n - sv, sv + n, sv + 2 * n, sv + 255 * n, (1 << 8 * k) - 1):
            size = max(k, (t.bit_length() + 7) // 8)
            yield ('value', t), t.to_bytes(size, 'big')
        h = ref.sha1(signed)
        # signatures over other encodings of the digest
        for em in (b'\0\1' + b'\xff' * (k - 23) + b'\0' + h,
                   b'\0\1' + b'\xff' * (k - 39) + b'\0' + ref._SHA1_DI + h + b'\0',
                   b'\0\2' + b'\xff' * (k - 38) + b'\0' + ref._SHA1_DI + h,
                   b'\0\1' + b'\xff' * 8 + b'\0' + ref._SHA1_DI + h + b'\0' * (k - 46),
                   b'\0\1' + b'\xff' * 8 + b'\0' + ref._SHA1_DI + h + b'\xff' * (k - 46),
                   b'\0' * (k - 35) + ref._SHA1_DI + h, b'\0' * (k - 20) + h,
                   b'\0\1' + b'\0' * (k - 38) + b'\0' + ref._SHA1_DI + h,
                   ref.emsa(k, d + b'\0' if signed == d else d), ref.emsa(k, d + b'\0\0'), ref.emsa(k, b'')):
            if len(em) == k:
                yield ('em', em), ref.rsa_private(raw, ref.b2i(em)).to_bytes(k, 'big')
        for pos in range(2, k):   # one byte of the padding or digest info different
            em = bytearray(ref.emsa(k, signed))
            em[pos] ^= 1
            yield ('em-bit', pos), ref.rsa_private(raw, ref.b2i(em)).to_bytes(k, 'big')
    if 'x' in raw:
        q = raw['q']
        r, sv = ref.der_parse_sig(good)
        vals = [0, 1, -1, 2, q - 1, q, q + 1, r, sv, -r, -sv, r + q, sv + q, q - r, q - sv, 1 << 160, (1 << 160) + r,
                r + 2 * q, sv + 2 * q, r - q, sv - q]
        for a in vals:
            for b in vals:
                yield ('rs', a, b), ref.der_sig(a, b)
        for body in (ref.tlv(0x30, b''), ref.der_seq(ref.der_int(r)), ref.der_seq(*[ref.der_int(r)] * 3),
                     ref.der_seq(ref.der_int(r), ref.der_int(sv), ref.der_int(1)), ref.tlv(0x31, ref.der_int(r) + ref.der_int(sv)),
                     ref.der_int(r), ref.NULL, b'', b'\x30\x80' + ref.der_int(r) + ref.der_int(sv) + b'\0\0',
                     ref.der_seq(ref.tlv(4, b'x'), ref.tlv(4, b'y')), ref.der_seq(ref.NULL, ref.NULL)):
            yield ('der', body), body

def fn_c04_sigs(ctx, p):
    """altered signatures"""
    name, chunk = p
    s, vs = tools(name)
    d = b'message'
    raw = raw_of(name)
    good = B(s.Sign(S(d), None))
    require(verify(s, d, good) is True, 'genuine signature')
    v = vs[-1]
    cheap = not name.startswith(('dsa', 'rsa2048'))
    for i, (what, m) in enumerate(inputs.mutants(good, full_values=cheap or ctx.thorough,
                                                 inserts=(0, 255), ranges=len(good) < 72)):
        if i % 8 == chunk:
            check_sig(ctx, name, v, d, m, what)
    if name.startswith('hmac') and chunk == 0:
        require(len(good) == 25, 'length')
        for n in range(0, 25):
            require(verify(v, d, good[:n]) is not True, 'truncated to %d', n)
    if name.startswith('hmac'):
        bits = len(good) * 8
        for i in range(chunk, bits, 8):
            for j in range(i + 1, bits):
                m = bytearray(good)
                m[i // 8] ^= 1 << i % 8
                m[j // 8] ^= 1 << j % 8
                require(verify(v, d, bytes(m)) is not True, 'bits %d %d', i, j)
                ctx.ev(('bits', i, j), 'refused')
    hdr = good[:5]
    if chunk == 0:
        for what, sg in crafted(raw, d, d + b'\0', good[5:]):
            check_sig(ctx, name, v, d, hdr + sg, what)

def gen_c04_keys(ctx):
    for t in (('hmac.0', 'hmac.1', 'hmac.2', 'hmac.4'), ('rsa512.0', 'rsa1024.0', 'rsa1024.1', 'rsa2048.0'),
              ('dsa.0', 'dsa.1', 'dsa.2', 'dsa.3')):
        for r in (1, 2, 3):
            for sub in itertools.combinations(t, r):
                yield t, sub

def fn_c04_keys(ctx, p):
    """a key set verifies exactly the signatures of its own keys"""
    allk, sub = p
    _, vs = tools(*sub)
    for name in allk:
        raw = raw_of(name)
        for d in (b'', b'data'):
            sig = ref_sign(raw, d + b'\0')
            blob = b'\0' + key_id(raw) + sig
            for v in vs:
                got = verify(v, d, blob)
                require((got is True) == (name in sub), 'signature by %s under key set %s: %s', name, sub, got)
                if name not in sub:
                    try:
                        v.Verify(S(d), S(blob), None)
                    except K.errors.KeyNotFoundError:
                        pass
                # the header of another key of the set
                for other in sub:
                    if other != name:
                        require(verify(v, d, b'\0' + key_id(raw_of(other)) + sig) is not True,
                                'signature by %s accepted for %s', name, other)
            ctx.ev((name, d))

def gen_rare(*kinds):
    def gen(ctx):
        return [(kind, r) for kind in kinds for r in env.RARE[kind]]
    return gen

def fn_rare(ctx, p):
    """data for which the signature value begins or ends with one, two or three zero bytes"""
    kind, r = p
    name = {'sig': 'rsa%d.0' % r.get('bits', 0), 'dsa': 'dsa.0', 'mac': 'hmac.0'}[kind]
    raw = raw_of(name)
    s, vs = tools(name)
    d = r['msg'].encode()
    sig = ref_sign(raw, d + b'\0', r['k']) if kind == 'dsa' else ref_sign(raw, d + b'\0')
    made = b'\0' + key_id(raw) + sig
    mine = B(s.Sign(S(d), None))
    require(kind == 'dsa' or mine == made, 'signature is %s, not %s', mine.hex(), made.hex())
    for v in vs:
        for what, x in (('own', mine), ('reference', made)):
            require(verify(v, d, x) is True, '%s signature refused (%s, %d zeros)', what, kind, r['zeros'])
            ctx.ev(what)
        require(verify(v, d + b'x', made) is not True, 'signature verifies for other data')
        # the zero bytes given another value
        for i in range(len(made)):
            if made[i] == 0:
                m = made[:i] + b'\1' + made[i + 1:]
                check_sig(ctx, name, v, d, m, ('set', i))

def gen_c04_text(ctx):
    for name in ('hmac.0', 'rsa512.0', 'dsa.0'):
        for part in range(4):
            yield name, part

def fn_c04_text(ctx, p):
    """single character changes of the encoded signature"""
    name, part = p
    s, vs = tools(name)
    d = b'text'
    text = s.Sign(S(d))
    good = ref.b64dec(text)
    v = vs[-1]
    chars = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    if name == 'dsa.0' and not ctx.thorough:
        chars = chars[::7]
    for i in range(part, len(text), 4):
        for ch in chars:
            m = text[:i] + ch + text[i + 1:]
            if m == text:
                continue
            got = verify(v, d, m, 'text')
            if got is True:
                mb = ref.b64dec(m)
                check_sig(ctx, name, v, d, mb, (i, ch))
            else:
                require(ref.b64dec(m) != good, 'same bytes refused')
                ctx.ev((i, ch), 'refused')

def gen_ends(ctx):
    return range(256)

def fn_c04_ends(ctx, b):
    """HMAC keys that begin or end with, or consist of, any byte"""
    seen = []
    for mac in sorted({m for _, m in inputs.odd_keys(b)}):
        s = env.signer(dict(size=256, hmac=mac))
        sig = s.Sign('data', None)
        require(B(sig) == ref.hmac_sign(mac, b'data'), 'signature of key %s', mac.hex())
        require(s.Verify('data', sig, None) is True and s.Verify('data', s.Sign('data')) is True, 'own signature')
        u = K.keyczar.UnversionedSigner(env.keyset([(1, 'PRIMARY', dict(size=256, hmac=mac))], env.SIGN))
        require(B(u.Sign('data', None)) == ref.hmac_sha1(mac, b'data'), 'unversioned signature of key %s', mac.hex())
        require(u.Verify('data', u.Sign('data')) is True, 'own unversioned signature')
        for o, osig, ousig in seen:
            require(verify(s, b'data', b'\0' + ref.hmac_id(mac) + B(osig)[5:]) is not True, 'signature of another key')
            require(not u.Verify('data', ousig, None), 'unversioned signature of another key')
        seen.append((mac, sig, u.Sign('data', None)))
        ctx.ev(mac)

def gen_c04_k(ctx):
    q = env.DSA(0)['q']
    for i in range(3):
        for e in list(range(0, 6)) + [q + n for n in range(-8, 8)] + [(1 << 160) - 1, (1 << 159), (1 << 159) - 1]:
            yield i, e

def fn_c04_k(ctx, p):
    """every value near the ends of its range drawn for a DSA signature"""
    i, e = p
    s, vs = tools('dsa.0')
    for shift in range(0, 9):       # a source that draws some bits more
        env.rng.reset('k')
        env.rng.twist = lambda n, out: (e << shift).to_bytes(64, 'big')[-len(out):] if n == i else out
        try:
            sig = B(s.Sign('data', None))
        finally:
            env.rng.reset('k')
        for v in vs:
            require(verify(v, b'data', sig) is True, 'signature with the random value %x does not verify', e)
        require(sig_valid(raw_of('dsa.0'), b'data\0', sig[5:]), 'signature with the random value %x is not valid', e)
        ctx.ev((i, e, shift))

RUNS = {'hmac': 1200, 'dsa': 270, 'rsa': 270}

def run_keys(kind):
    raws = {'hmac': [env.HMAC(0), env.HMAC(1)], 'dsa': [env.DSA(0), env.DSA(1)], 'rsa': [env.RSA(512), env.RSA(1024, 1)]}[kind]
    return env.keyset([(1, 'PRIMARY', raws[0]), (2, 'ACTIVE', raws[1])], env.SIGN)

def gen_run(ctx):
    return [(kind, part) for kind in RUNS for part in range(2)]

def fn_c04_run(ctx, p):
    """very many signatures and refusals with the same opened key set"""
    kind, part = p
    z = K.keyczar.Signer(run_keys(kind))
    n = RUNS[kind]
    msgs = [S(inputs.pattern(i % 50, b'run%d' % i)) for i in range(n)]
    sigs = [z.Sign(m) for m in msgs] if part else None
    for i, m in enumerate(msgs):
        sig = sigs[i] if part else z.Sign(m)
        require(z.Verify(m, sig) is True, 'signature number %d does not verify', i)
        require(not z.Verify(m + 'x', sig), 'signature number %d verifies for other data', i)
        if i:
            require(m == msgs[i - 1] or not z.Verify(msgs[i - 1], sig), 'signature number %d verifies for the data before', i)
    ctx.many(n, 'signatures in one run')

@prop('C04', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'Completeness for data of all lengths 0..300 and structured contents under all key types and sizes; soundness '
      'for every single-byte alteration of signature and data, all bit pairs for HMAC, special DSA/RSA values and all '
      'subsets of key sets. A different encoding of the same signature value may be accepted. '
      'Encoded values with other paddings, values enlarged by the modulus or the order, and alterations presented after the genuine signature was verified on the same object; long runs on one object.')
def c04():
    return [Family('complete', gen_c04_ok, fn_c04_ok), Family('two-bytes', gen_c04_pairs, fn_c04_pairs),
            Family('other-data', gen_c04_data, fn_c04_data), Family('long-data', gen_c04_long, fn_c04_long),
            Family('altered', gen_c04_sigs, fn_c04_sigs), Family('key-sets', gen_c04_keys, fn_c04_keys),
            Family('text', gen_c04_text, fn_c04_text),
            Family('key-bytes', gen_ends, fn_c04_ends), Family('random-values', gen_c04_k, fn_c04_k),
            Family('leading-zeros', gen_rare('sig', 'dsa', 'mac'), fn_rare), Family('long-run', gen_run, fn_c04_run)]

# ---------------------------------------------------------------- C05
def attached(v, blob, nonce):
    """data, None (refused) or 'error'"""
    try:
        r = v.AttachedVerify(S(blob), S(nonce), None)
    except K.errors.KeyczarError:
        return None
    if r is None or r is False:
        return None
    require(type(r) is str, 'returned a %s', type(r).__name__)
    return B(r)

def att_msg(d, nonce):
    return d + ref.pack(nonce) + b'\0'

DATA5 = [b'', b'\0', b'a', b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\1a', b'\0\0\0\5hello', b'hello', b'a\0', b'\0a', b'\xff' * 4,
         b'\xff' * 8, b'\x7f\xff\xff\xff', b'x' * 255, b'x' * 256, b'x' * 257, b'\0' * 16, b'\0\0\0\0\0', b'\r\n', b' ']
NONCE5 = [b'', b'\0', b'a', b'nonce', b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\1a', b'n' * 16, b'n' * 255, b'n' * 256, b'\xff' * 5,
          b'a\0', b'\0a', b'\0\0\0\0\0', b'\r\n', b' ', b'N' * 16]

def gen_c05_ok(ctx):
    for name in ('hmac.0', 'rsa512.0', 'rsa1024.0', 'rsa2048.0', 'dsa.0', 'dsa.3'):
        for d in DATA5:
            yield name, d, None
    for n in range(0, 300):
        yield 'hmac.0', inputs.pattern(n), None
    for d in inputs.special():
        yield 'hmac.0', d, 'few'
    for n in sorted(set(b for b in inputs.BOUNDARY if b > 299) | {65535, 65536, 65537, 1 << 20}):
        yield 'hmac.0', inputs.pattern(n), 'few'
    for name in ('hmac.0', 'rsa512.0', 'dsa.0'):
        for n in inputs.BOUNDARY:
            yield name, inputs.pattern(n), 'nonce'

def fn_c05_ok(ctx, p):
    name, d, few = p
    s, vs = tools(name)
    raw = raw_of(name)
    if few == 'nonce':          # long nonces, and others of the same length
        nonce = d
        for d in (b'', b'x', inputs.pattern(40)):
            blob = B(s.AttachedSign(S(d), S(nonce), None))
            for v in vs:
                require(attached(v, blob, nonce) == d, 'data are not returned with a nonce of %d bytes', len(nonce))
                for i in (0, 1, len(nonce) // 2, len(nonce) - 2, len(nonce) - 1):
                    other = nonce[:i] + bytes([nonce[i] ^ 1]) + nonce[i + 1:]
                    require(attached(v, blob, other) is None, 'another nonce of %d bytes is accepted', len(nonce))
                    ctx.ev((d, i, len(nonce)), 'refused')
                for other in (nonce[:-1], nonce + b'\0', nonce[:255], b''):
                    if other != nonce:
                        require(attached(v, blob, other) is None, 'a nonce of %d bytes is accepted for one of %d', len(other), len(nonce))
            ctx.ev((d, len(nonce)), 'returned')
        return 'ok'
    nonces = [b'', b'nonce', d[:70]] if few else NONCE5 + [d, d[:1], d[1:]]
    if name == 'hmac.0' and not few:
        nonces = nonces + [bytes([b]) for b in range(256)] + [inputs.pattern(n) for n in range(0, 70)]
    for nonce in nonces:
        blob = B(s.AttachedSign(S(d), S(nonce), None))
        text = s.AttachedSign(S(d), S(nonce))
        head = b'\0' + key_id(raw) + ref.pack(d)
        require(blob.startswith(head), 'blob is not header, length, data, signature')
        require(sig_valid(raw, att_msg(d, nonce), blob[len(head):]), 'signature in the blob is not the published one')
        for v in vs:
            require(attached(v, blob, nonce) == d, 'blob does not verify (%d bytes, nonce %r)', len(d), nonce[:20])
            require(v.AttachedVerify(text, S(nonce)) == S(d), 'encoded blob does not verify')
        other = nonce + b'\0' if nonce != b'nonce' else b'other'
        require(attached(vs[-1], blob, other) is None, 'another nonce is accepted')
        ctx.ev(nonce)

def gen_c05_nonce(ctx):
    for name in ('hmac.0', 'rsa512.0', 'dsa.0'):
        for n in range(len(NONCE5)):
            yield name, n

def fn_c05_nonce(ctx, p):
    name, n = p
    s, vs = tools(name)
    nonce = NONCE5[n]
    v = vs[-1]
    small = name == 'hmac.0'
    for d in DATA5 if small else DATA5[:9]:
        blob = B(s.AttachedSign(S(d), S(nonce), None))
        require(attached(v, blob, nonce) == d, 'genuine')
        others = list(NONCE5) + [d, d + nonce, nonce + d, ref.pack(nonce), ref.pack(nonce) + b'\0', nonce + b'\0',
                                 nonce * 2, b'\0' * 16]
        if small:
            others += [m for _, m in inputs.mutants(nonce, full_values=len(nonce) < 17, ranges=len(nonce) < 17)]
        for o in others:
            if o != nonce:
                require(attached(v, blob, o) is None, 'nonce %r accepted instead of %r', o[:40], nonce[:40])
                ctx.ev((d, o), 'refused')

def gen_c05_shift(ctx):
    for name in ('hmac.0', 'rsa512.0', 'dsa.0'):
        for i in range(len(DATA5)):
            yield name, i

def fn_c05_shift(ctx, p):
    """bytes moved between data, nonce and length fields"""
    name, i = p
    s, vs = tools(name)
    d = DATA5[i]
    v = vs[-1]
    raw = raw_of(name)
    for nonce in NONCE5 if name == 'hmac.0' else NONCE5[:8]:
        blob = B(s.AttachedSign(S(d), S(nonce), None))
        hdr, sig = blob[:5], blob[9 + len(d):]
        whole = d + ref.pack(nonce)
        for cut in range(len(whole) + 1):
            if len(whole) > 100 and cut % 29 and abs(cut - len(d)) > 6:
                continue
            nd = whole[:cut]
            for nn in {whole[cut:], whole[cut + 4:], nonce, ref.pack(whole[cut:]), b''}:
                if (nd, nn) == (d, nonce):
                    continue
                got = attached(v, hdr + ref.pack(nd) + sig, nn)
                if got is not None and nd + ref.pack(nn) == whole:
                    ctx.finding('attached-boundary', 'data %r nonce %r accepted as data %r nonce %r', d[:40],
                                nonce[:40], nd[:40], nn[:40])
                    continue
                require(got is None, 'a blob that was not signed is accepted: data %r nonce %r', nd[:40], nn[:40])
                ctx.ev((nonce, cut, nn), 'refused')
        # a plain signature is not an attached one, and the length field is bound
        plain = B(s.Sign(S(d), None))
        for nn in (b'', nonce, d):
            require(attached(v, plain[:5] + ref.pack(d) + plain[5:], nn) is None, 'plain signature accepted as attached')
        for delta in (-5, -4, -1, 1, 4, 5, 20, 21, 1 << 24, 1 << 31, -1 << 31):
            m = hdr + ref.i4(len(d) + delta) + blob[9:]
            require(attached(v, m, nonce) is None, 'length field off by %d accepted', delta)
        for m in (hdr + d + sig, hdr + sig, hdr + ref.pack(d), hdr, b'', hdr + ref.pack(b'') + ref.pack(d) + sig):
            if m != blob and d:
                require(attached(v, m, nonce) is None, 'malformed blob accepted')

def gen_c05_blob(ctx):
    for name in ('hmac.0', 'rsa512.0', 'dsa.0', 'dsa.3', 'rsa1024.0'):
        for d, nonce in ((b'', b''), (b'hello', b'nonce'), (b'\0\0\0\1a', b'\0\0'), (inputs.pattern(30), b'n' * 16)):
            for chunk in range(8):
                yield name, d, nonce, chunk

def fn_c05_blob(ctx, p):
    name, d, nonce, chunk = p
    s, vs = tools(name)
    v = vs[-1]
    raw = raw_of(name)
    blob = B(s.AttachedSign(S(d), S(nonce), None))
    require(attached(v, blob, nonce) == d, 'genuine')
    muts = inputs.mutants(blob, full_values=name == 'hmac.0' or ctx.thorough, inserts=(0, 255),
                          ranges=name == 'hmac.0' or (ctx.thorough and len(blob) < 90))
    made = ((w, blob[:9 + len(d)] + x) for w, x in crafted(raw, d, att_msg(d, nonce), blob[9 + len(d):]))
    for i, (what, m) in enumerate(itertools.chain(muts, made)):
        if i % 8 != chunk or m == blob:
            continue
        got = attached(v, m, nonce)
        if got is None:
            ctx.ev(what, 'refused')
            continue
        sig = m[9 + len(got):]
        ok = sig_valid(raw, att_msg(got, nonce), sig)
        if ok is None:
            r, sv = K.util.ParseDsaSig(S(sig))
            ok = ref.dsa_valid(raw['p'], raw['q'], raw['g'], raw['y'], att_msg(got, nonce), r, sv)
        require(ok and got == d and m[:9 + len(d)] == blob[:9 + len(d)] and 'hmac' not in raw,
                'altered blob (%s) accepted, returned %r', what, got[:40])
        ctx.ev(what, 'same value')

def gen_c05_keys(ctx):
    for t in (('hmac.0', 'hmac.1', 'hmac.2'), ('rsa512.0', 'rsa1024.0', 'rsa1024.1'), ('dsa.0', 'dsa.1', 'dsa.2')):
        for r in (1, 2, 3):
            for sub in itertools.combinations(t, r):
                yield t, sub

def fn_c05_keys(ctx, p):
    allk, sub = p
    _, vs = tools(*sub)
    for name in allk:
        raw = raw_of(name)
        for d in (b'', b'data'):
            for nonce in (b'', b'n'):
                sig = ref_sign(raw, att_msg(d, nonce))
                blob = b'\0' + key_id(raw) + ref.pack(d) + sig
                for v in vs:
                    require((attached(v, blob, nonce) == d) == (name in sub), 'blob by %s under key set %s', name, sub)
                    for other in sub:
                        if other != name:
                            require(attached(v, b'\0' + key_id(raw_of(other)) + ref.pack(d) + sig, nonce) is None,
                                    'blob by %s accepted for %s', name, other)
                ctx.ev((name, d, nonce))

def fn_c05_run(ctx, p):
    """very many attached signatures and refusals with the same opened key set"""
    kind, part = p
    z = K.keyczar.Signer(run_keys(kind))
    n = RUNS[kind] if kind == 'hmac' else 130
    msgs = [S(inputs.pattern(i % 30, b'run%d' % i)) for i in range(n)]
    nonce = lambda i: S(inputs.pattern((i // 3) % 20, b'nonce%d' % (i % 17)))
    blobs = [z.AttachedSign(m, nonce(i)) for i, m in enumerate(msgs)] if part else None
    for i, m in enumerate(msgs):
        blob = blobs[i] if part else z.AttachedSign(m, nonce(i))
        require(z.AttachedVerify(blob, nonce(i)) == m, 'blob number %d does not verify', i)
        require(z.AttachedVerify(blob, nonce(i) + 'x') is None, 'blob number %d verifies with another nonce', i)
        if i and nonce(i - 1) != nonce(i):
            require(z.AttachedVerify(blob, nonce(i - 1)) is None, 'blob number %d verifies with the nonce before', i)
    ctx.many(n, 'attached signatures in one run')

@prop('C05', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'All pairs of 20 data and 17 nonce values that collide under naive concatenation, data of all lengths 0..299, all '
      'one-byte nonces; every move of the data/nonce boundary, every single-byte alteration of blobs, every other nonce '
      'of the pool and every mutation of the nonce. Re-encodings of the same signature value are not counted as changes. '
      'Crafted values as in C04; long runs on one object.')
def c05():
    return [Family('complete', gen_c05_ok, fn_c05_ok), Family('other-nonce', gen_c05_nonce, fn_c05_nonce),
            Family('shifted', gen_c05_shift, fn_c05_shift), Family('altered', gen_c05_blob, fn_c05_blob),
            Family('key-sets', gen_c05_keys, fn_c05_keys), Family('long-run', gen_run, fn_c05_run)]

# ---------------------------------------------------------------- C06
_u = {}

def unversioned(vs, public=False):
    """vs: ((number, status, name), ...)"""
    if (vs, public) not in _u:
        triples = [(n, s, raw_of(name)) for n, s, name in vs]
        if public:
            _u[vs, public] = K.keyczar.UnversionedVerifier(env.keyset(triples, env.VER, public=True))
        else:
            _u[vs, public] = K.keyczar.UnversionedSigner(env.keyset(triples, env.SIGN))
    return _u[vs, public]

def gen_c06_plain(ctx):
    for name in NAMES:
        full = name == 'hmac.0'
        slow = name.startswith(('rsa2048', 'rsa4096'))
        for d in inputs.plain(200) if full else \
                [inputs.pattern(n) for n in (range(0, 70) if not slow else range(0, 70, 11))] + inputs.special()[:40 if not slow else 4]:
            yield name, d

def fn_c06_plain(ctx, p):
    name, d = p
    raw = raw_of(name)
    u = unversioned(((1, 'PRIMARY', name), ))
    sig, text = u.Sign(S(d), None), u.Sign(S(d))
    for s in (B(sig), ref.b64dec(text)):
        require(s is not None and sig_valid(raw, d, s), 'not the plain signature of the data')
        if 'n' in raw:
            require(s == ref_sign(raw, d), 'RSA signature is not the standard encoding')
    vs = [u] if 'hmac' in raw else [u, unversioned(((1, 'PRIMARY', name), ), True)]
    for v in vs:
        require(v.Verify(S(d), sig, None) and v.Verify(S(d), text), 'does not verify')
        require(v.Verify(S(d), S(ref_sign(raw, d)), None), 'a standard signature does not verify')
        for o in (d + b'\0', d[:-1], b'x' + d, d.swapcase()):
            if o != d:
                require(not v.Verify(S(o), sig, None), 'verifies for other data')
    # a versioned signature is not an unversioned one, nor the other way round
    s = tools(name)[0]
    vsig = B(s.Sign(S(d), None))
    for v in vs:
        for m in (vsig, vsig[5:]):
            try:
                require(not v.Verify(S(d), S(m), None), 'versioned signature verifies as unversioned')
            except K.errors.KeyczarError:
                pass
    return 'ok'

POOLS = [('hmac.0', 'hmac.1', 'hmac.2', 'hmac.3'), ('rsa512.0', 'rsa1024.0', 'rsa2048.0', 'rsa768.0'),
         ('dsa.0', 'dsa.1', 'dsa.2', 'dsa.3')]

def gen_c06_sets(ctx):
    for pool in POOLS:
        for n in (0, 1, 2, 3, 4) if ctx.thorough or pool[0][0] == 'h' else (0, 1, 2, 3):
            for names in itertools.permutations(pool, n):
                for statuses in itertools.product(env.STATUSES, repeat=n):
                    if statuses.count('PRIMARY') <= 1:
                        if n == 4 and not ctx.thorough and names != tuple(sorted(names)):
                            continue
                        yield pool, names, statuses

_sigs = {}

def fn_c06_sets(ctx, p):
    """verification succeeds exactly if some key of the set made the signature"""
    pool, names, statuses = p
    vs = tuple((i + 1, st, n) for i, (st, n) in enumerate(zip(statuses, names)))
    numbered = vs if len(vs) % 2 else tuple((n * 7, s, k) for n, s, k in vs)
    if not vs:
        meta = env.MemReader(dict(name='x', purpose=env.SIGN, encrypted=False, versions=[],
                                  type=env.kind(raw_of(pool[0]))), {})
        objs = [K.keyczar.UnversionedSigner(meta), K.keyczar.UnversionedVerifier(meta)]
    else:
        triples = [(n, s, raw_of(name)) for n, s, name in numbered]
        objs = [K.keyczar.UnversionedSigner(env.keyset(triples, env.SIGN))]
        if pool[0][0] != 'h':
            objs.append(K.keyczar.UnversionedVerifier(env.keyset(triples, env.VER, public=True)))
        else:
            objs.append(K.keyczar.UnversionedVerifier(env.keyset(triples, env.SIGN)))
    d = b'the data'
    for name in pool:
        if name not in _sigs:
            _sigs[name] = ref_sign(raw_of(name), d)
        for o in objs:
            got = o.Verify(S(d), S(_sigs[name]), None)
            require(bool(got) == (name in names), 'signature by %s under %s: %r', name, vs, got)
            require(not o.Verify(S(d + b'x'), S(_sigs[name]), None), 'other data accepted')
        ctx.ev(name)
    prim = [n for n, s in zip(names, statuses) if s == 'PRIMARY']
    if prim:
        require(sig_valid(raw_of(prim[0]), d, B(objs[0].Sign(S(d), None))), 'not signed with the primary key')
    else:
        try:
            objs[0].Sign(S(d))
            require(False, 'signed without a primary key')
        except K.errors.NoPrimaryKeyError:
            pass

def gen_c06_alter(ctx):
    for pool in POOLS:
        for chunk in range(8):
            yield pool, chunk

def fn_c06_alter(ctx, p):
    pool, chunk = p
    vs = tuple((i + 1, 'PRIMARY' if i == 0 else 'ACTIVE', n) for i, n in enumerate(pool[:2]))
    u = unversioned(vs)
    d = b'altered'
    for name in pool[:2]:
        good = ref_sign(raw_of(name), d)
        require(u.Verify(S(d), S(good), None), 'genuine')
        for i, (what, m) in enumerate(itertools.chain(inputs.mutants(good, full_values=pool[0][0] == 'h', inserts=(0, 255),
                                                                     ranges=len(good) < 48),
                                                      crafted(raw_of(name), d, d, good))):
            if i % 8 != chunk or m == good:
                continue
            try:
                got = bool(u.Verify(S(d), S(m), None))
            except K.errors.KeyczarError:
                got = False
            if got:
                oks = []
                for k in pool[:2]:
                    ok = sig_valid(raw_of(k), d, m)
                    if ok is None:
                        r, s = K.util.ParseDsaSig(S(m))
                        ok = ref.dsa_valid(*[raw_of(k)[c] for c in 'pqgy'], d, r, s)
                    oks.append(ok)
                require(any(oks), 'altered signature (%s) verifies', what)
            ctx.ev((name, what), 'same value' if got else 'refused')

def gen_c06_many(ctx):
    return (5, 6, 8, 9, 10, 11, 16, 17, 33, 65, 129)

def fn_c06_many(ctx, n):
    """each of many keys is tried"""
    raws = [dict(hmac=inputs.pattern(32, b'many%d' % i), size=256) for i in range(n)]
    v = K.keyczar.UnversionedVerifier(env.keyset([(i + 1, ('PRIMARY' if i == n - 1 else 'ACTIVE'), r) for i, r in enumerate(raws)], env.SIGN))
    for i, r in enumerate(raws):
        require(v.Verify('many', S(ref_sign(r, b'many')), None), 'key %d of %d is not tried', i + 1, n)
        require(not v.Verify('many', S(ref_sign(r, b'more')), None), 'other data verifies')
        ctx.ev(i)
    require(not v.Verify('many', S(ref_sign(env.HMAC(0), b'many')), None), 'another key verifies')

def gen_c06_files(ctx):
    for pool in POOLS:
        for pos in range(3):
            yield pool, pos

def fn_c06_files(ctx, p):
    """through the Read class methods and files"""
    pool, pos = p
    d = env.fresh_dir()
    names = pool[:3]
    triples = [(i + 1, 'PRIMARY' if i == pos else 'INACTIVE', raw_of(n)) for i, n in enumerate(names)]
    env.write_keyset(d, env.keyset(triples, env.SIGN))
    s = K.keyczar.UnversionedSigner.Read(d)
    v = K.keyczar.UnversionedVerifier.Read(d)
    require(sig_valid(raw_of(names[pos]), b'x', B(s.Sign('x', None))), 'not signed with the primary key')
    for n in names:
        sig = S(ref_sign(raw_of(n), b'x'))
        require(v.Verify('x', sig, None) and s.Verify('x', sig, None), 'key %s not tried', n)
    env.rmdir(d)
    return 'ok'

def fn_c06_run(ctx, p):
    """very many unversioned signatures and refusals with the same opened key set"""
    kind, part = p
    ks = run_keys(kind)
    z = K.keyczar.UnversionedSigner(ks)
    n = RUNS[kind] if kind == 'hmac' else 130
    msgs = [S(inputs.pattern(i % 50, b'run%d' % i)) for i in range(n)]
    sigs = [z.Sign(m) for m in msgs] if part else None
    for i, m in enumerate(msgs):
        sig = sigs[i] if part else z.Sign(m)
        require(z.Verify(m, sig) is True, 'signature number %d does not verify', i)
        require(not z.Verify(m + 'x', sig), 'signature number %d verifies for other data', i)
    ctx.many(n, 'signatures in one run')

@prop('C06', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'Every ordered key set of up to 4 (HMAC) or 3 keys with every status assignment, against signatures of every key '
      'in and outside the set made by the independent reference; every single-byte alteration; all data lengths 0..200. '
      'Crafted values as in C04; sets of many keys and long runs on one object.')
def c06():
    return [Family('plain', gen_c06_plain, fn_c06_plain), Family('sets', gen_c06_sets, fn_c06_sets),
            Family('altered', gen_c06_alter, fn_c06_alter), Family('files', gen_c06_files, fn_c06_files),
            Family('key-bytes', gen_ends, fn_c04_ends), Family('many-keys', gen_c06_many, fn_c06_many), Family('long-run', gen_run, fn_c06_run)]
