"""C01 encryption round trip, C02 AES tampering, C03 RSA/OAEP decryption."""
import itertools
import os

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .registry import prop

RULE = ('a case is one enumerated input run on the real code; distinct ones are counted per family and input, and '
        'every one is non-trivial because it is executed and compared with the independent reference')

def keyczar_error(fn, *a, **kw):
    """The KeyczarError that fn raises, or a violation."""
    try:
        r = fn(*a, **kw)
    except K.errors.KeyczarError as e:
        return e
    raise Violation('accepted, returned %r' % (r if not isinstance(r, str) else r[:80],))

# ---------------------------------------------------------------- C01
def aes_sets():
    for bits in (128, 192, 256):
        for i in range(len([k for k in env.FIX['aes'] if k['size'] == bits])):
            yield 'aes%d.%d' % (bits, i), [env.AES(bits, i)]
    yield 'aes-multi', [env.AES(128), env.AES(192), env.AES(256)]

def set_of(name):
    for n, raws in itertools.chain(aes_sets(), rsa_sets()):
        if n == name:
            return raws

def rsa_sets():
    for bits in (512, 768, 1024, 2048, 4096):
        for i in range(len([k for k in env.FIX['rsa'] if k['size'] == bits])):
            yield 'rsa%d.%d' % (bits, i), [env.RSA(bits, i)]
    yield 'rsa-multi', [env.RSA(1024), env.RSA(2048), env.RSA(1024, 1)]

_crypters = {}

def crypter_of(name):
    if name not in _crypters:
        _crypters[name] = env.crypter(*set_of(name))
    return _crypters[name]

def roundtrip(c, enc, data):
    d = S(data)
    for encoder, decoder in ((K.util.Base64WSEncode, K.util.Base64WSDecode), (None, None)):
        ct = enc.Encrypt(d, encoder)
        require(type(ct) is str, 'ciphertext is a %s', type(ct).__name__)
        require(c.Decrypt(ct, decoder) == d, 'decrypting gives a different plaintext (%d bytes)', len(data))
        if encoder:
            require(c.Decrypt(enc.Encrypt(d)) == d, 'default encoding: different plaintext')
            require('=' not in ct and '\n' not in ct, 'encoded ciphertext has padding or line breaks')
    # mixed: encoding is only a wrapper
    raw = enc.Encrypt(d, None)
    require(c.Decrypt(K.util.Base64WSEncode(raw)) == d, 'encoding a raw ciphertext')
    return raw

def gen_c01_aes(ctx):
    for name, raws in aes_sets():
        first = name in ('aes128.0', 'aes192.0', 'aes256.0', 'aes-multi')
        for d in inputs.plain(400 if first else 40, boundary=first):
            yield name, d
    yield 'aes128.0', inputs.pattern(1 << 20)
    yield 'aes256.0', inputs.pattern((1 << 20) + 1)
    yield 'aes128.0', inputs.pattern((1 << 24) + 5)
    for n in (4096, 65536, (1 << 20) + 17, (1 << 21) + 30):
        for extra in range(0, 16, 5):
            pad = 16 - (n + extra) % 16
            yield 'aes128.0', inputs.pattern(n + extra - 40) + bytes([pad]) * 40
    if ctx.thorough:
        for n in range(400, 4200):
            yield 'aes128.0', inputs.pattern(n)
        yield 'aes128.0', inputs.pattern(1 << 24)

def fn_c01_aes(ctx, p):
    name, d = p
    roundtrip(crypter_of(name), crypter_of(name), d)
    return 'ok'

def gen_c01_pairs(ctx):
    return range(256)

def fn_c01_pairs(ctx, hi):
    """all two-byte plaintexts with this first byte"""
    c = crypter_of('aes128.0')
    for lo in range(256):
        d = S(bytes([hi, lo]))
        require(c.Decrypt(c.Encrypt(d)) == d, 'plaintext %r does not come back', d)
        ctx.ev((hi, lo))

def rsa_max(raw):
    return ref.rsa_k(raw['n']) - 42

def gen_c01_rsa(ctx):
    for name, raws in rsa_sets():
        m = rsa_max(raws[-1])
        slow = raws[-1]['size'] > 1024
        main = name in ('rsa512.0', 'rsa1024.0')
        for n in sorted(set(list(range(0, m + 3, 1 if not slow or ctx.thorough else 37)) + [m - 1, m, m + 1, m + 2])):
            yield name, inputs.pattern(n)
        for d in (inputs.special(m) if main or ctx.thorough else
                  [b'\0' * n for n in (1, 2, m - 1, m)] + [b'\1', b'\0\1', b'\1\0', b'\1' * m, b'\xff' * m]):
            yield name, d
        for n in (m + 1, m + 3, 2 * m, ref.rsa_k(raws[-1]['n']), 1000, 5000):
            yield name, b'\0' * n
            yield name, inputs.pattern(n)

_enc = {}

def fn_c01_rsa(ctx, p):
    name, d = p
    c = crypter_of(name)
    raws = set_of(name)
    if name not in _enc:
        vs = [(i + 1, 'PRIMARY' if i == len(raws) - 1 else 'ACTIVE', r) for i, r in enumerate(raws)]
        _enc[name] = (K.keyczar.Encrypter(env.keyset(vs, env.ENC, public=True)),
                      K.keyczar.Encrypter(env.keyset(vs, env.CRYPT)))
    pub, priv = _enc[name]
    if len(d) <= rsa_max(raws[-1]):
        roundtrip(c, pub, d)
        require(c.Decrypt(priv.Encrypt(S(d))) == S(d), 'encrypter on the private set')
        return 'ok'
    for e in (c, pub, priv):
        keyczar_error(e.Encrypt, S(d))
        keyczar_error(e.Encrypt, S(d), None)
    return 'refused'

def gen_c01_seeds(ctx):
    """many OAEP seeds: some ciphertexts and encoded blocks begin with zero bytes"""
    for i in range(64 if not ctx.thorough else 1024):
        yield i

def fn_c01_seeds(ctx, i):
    c = crypter_of('rsa512.0')
    zero = 0
    for j in range(64):
        for d in ('', 'x', '\0', S(inputs.pattern(22))):
            ct = c.Encrypt(d, None)
            zero += ct[5] == '\0'
            require(len(ct) == 69, 'ciphertext is not modulus sized: %d', len(ct))
            require(c.Decrypt(ct, None) == d, 'ciphertext %s does not decrypt', ct.encode('latin-1').hex())
            ctx.ev((j, d))
    ctx.count('ciphertexts_with_leading_zero', zero)

def rare(*kinds):
    return [(kind, r) for kind in kinds for r in env.RARE[kind]]

def gen_c01_rare(ctx):
    """random values for which the encoded block or the ciphertext begins with one, two or three zero bytes"""
    return rare('oaep', 'ct')

def fn_c01_rare(ctx, p):
    kind, r = p
    name = 'rsa%d.0' % r['bits']
    c, raw, seed = crypter_of(name), set_of(name)[0], bytes.fromhex(r['seed'])
    d = r['msg']
    made = ref.rsa_encrypt(raw['n'], raw['e'], d.encode(), seed)
    for what in ('raw', 'encoded'):
        env.rng.buf = seed                  # the next random bytes that the package draws
        ct = c.Encrypt(d, None) if what == 'raw' else K.util.Base64WSDecode(c.Encrypt(d))
        ctx.count('seed_used', B(ct) == made)
        require(len(ct) == len(made), 'ciphertext is not modulus sized: %d', len(ct))
        require(c.Decrypt(ct, None) == d, 'ciphertext does not decrypt (%s, %d leading zeros)', kind, r['zeros'])
        ctx.ev(what)
    require(c.Decrypt(S(made), None) == d, 'reference ciphertext does not decrypt (%s, %d leading zeros)', kind,
            r['zeros'])

def gen_c01_hist(ctx):
    """status of the key must not matter for decryption; primary anywhere"""
    for kinds in ('aes', 'rsa'):
        for n in (1, 2, 3):
            for prim in range(n):
                for order in itertools.permutations(range(n)):
                    yield kinds, n, prim, order

def fn_c01_hist(ctx, p):
    kinds, n, prim, order = p
    raws = [env.AES(128), env.AES(192), env.AES(256)] if kinds == 'aes' else \
        [env.RSA(1024, 0), env.RSA(512), env.RSA(1024, 1)]
    vs = [(i + 1, 'PRIMARY' if i == prim else ('ACTIVE' if i % 2 else 'INACTIVE'), raws[i]) for i in range(n)]
    c = K.keyczar.Crypter(env.keyset([vs[i] for i in order], env.CRYPT))
    for d in (b'', b'a', b'\0\0', inputs.pattern(20)):
        raw = roundtrip(c, c, d)
        for other in range(n):
            vs2 = [(i + 1, 'PRIMARY' if i == other else 'ACTIVE', raws[i]) for i in range(n)]
            c2 = K.keyczar.Crypter(env.keyset(vs2, env.CRYPT))
            require(c2.Decrypt(raw, None) == S(d), 'not decrypted after the primary moved')
            ctx.ev((d, other))

def gen_c01_run(ctx):
    return [(name, part) for name in ('aes128.0', 'aes-multi') for part in range(4)] + [('rsa', part) for part in range(4)]

def fn_c01_run(ctx, p):
    """very many messages through the same opened key set, in the order they were made and in the opposite one"""
    name, part = p
    n = 150 if name == 'rsa' else 3000 if ctx.thorough else 1200
    c = env.crypter(env.RSA(512)) if name == 'rsa' else crypter_of(name)
    size = lambda i: i % 20 if name == 'rsa' else (i * 7 + part) % 100
    enc, dec = ((None, None), (K.util.Base64WSEncode, K.util.Base64WSDecode))[part % 2]
    msgs = [S(inputs.pattern(size(i), b'run%d' % i)) for i in range(n)]
    if part < 2:
        cts = [c.Encrypt(m, enc) for m in msgs]
        for i in list(range(n)) + list(range(n - 1, -1, -40)):
            require(c.Decrypt(cts[i], dec) == msgs[i], 'message number %d of %d', i, n)
    else:
        for i, m in enumerate(msgs):
            require(c.Decrypt(c.Encrypt(m, enc), dec) == m, 'message number %d', i)
    ctx.many(n, 'round trips in one run')

@prop('C01', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'Every plaintext of length 0..400, every one- and two-byte plaintext, boundary lengths up to 1 MB and structured '
      'contents, for every AES size and RSA size, all encodings, 1..3 keys in every order; RSA lengths 0..capacity+2. '
      'Trusts the environment\'s crypto libraries to be deterministic given the controlled random source. '
      'Long runs of up to several hundred operations on one object with earlier ciphertexts read again at intervals.')
def c01():
    return [Family('aes', gen_c01_aes, fn_c01_aes), Family('aes-two-bytes', gen_c01_pairs, fn_c01_pairs),
            Family('rsa', gen_c01_rsa, fn_c01_rsa), Family('rsa-seeds', gen_c01_seeds, fn_c01_seeds),
            Family('rsa-leading-zeros', gen_c01_rare, fn_c01_rare),
            Family('keys', gen_c01_hist, fn_c01_hist), Family('long-run', gen_c01_run, fn_c01_run)]

# ---------------------------------------------------------------- C02
def must_refuse(c, raw, what):
    try:
        r = c.Decrypt(S(raw), None)
    except K.errors.KeyczarError:
        return
    raise Violation('altered ciphertext (%s) was decrypted to %r: %s' % (what, r[:40], raw.hex()[:300]))

def genuine(name, data, label='g'):
    raw = set_of(name)[-1]
    iv = inputs.pattern(16, b'iv' + label.encode())
    return ref.aes_encrypt(raw['aes'], raw['hmac'], iv, data)

def tampered(ctx, c, good, d, muts):
    require(c.Decrypt(S(good), None) == S(d), 'genuine ciphertext not decrypted')
    n = 0
    for what, m in muts:
        if m == good:
            continue
        must_refuse(c, m, what)
        ctx.ev(what, 'refused')
        n += 1
    return n

def gen_c02_mut(ctx):
    for name in ('aes128.0', 'aes192.0', 'aes256.0', 'aes-multi'):
        for n in ((0, 1, 15, 16, 17, 31, 32, 33, 48) if name == 'aes128.0' or ctx.thorough else (0, 16, 20)):
            yield name, n

def fn_c02_mut(ctx, p):
    name, n = p
    d = inputs.pattern(n)
    good = genuine(name, d)
    tampered(ctx, crypter_of(name), good, d, inputs.mutants(good))

def gen_c02_bits2(ctx):
    """all pairs of flipped bits; a case is the first bit"""
    for n in ((0, 20) if not ctx.thorough else (0, 1, 16, 20, 40)):
        for i in range(len(genuine('aes128.0', inputs.pattern(n))) * 8):
            yield n, i

def fn_c02_bits2(ctx, p):
    n, i = p
    good = bytearray(genuine('aes128.0', inputs.pattern(n)))
    c = crypter_of('aes128.0')
    good[i // 8] ^= 1 << i % 8
    must_refuse(c, bytes(good), 'bit %d' % i)
    for j in range(i + 1, len(good) * 8):
        good[j // 8] ^= 1 << j % 8
        must_refuse(c, bytes(good), 'bits %d %d' % (i, j))
        good[j // 8] ^= 1 << j % 8
        ctx.ev(j, 'refused')

def gen_c02_splice(ctx):
    return itertools.product(range(6), range(6))

def fn_c02_splice(ctx, p):
    """prefix of one genuine ciphertext with a suffix of another, at all pairs of positions"""
    c = crypter_of('aes-multi')
    raws = set_of('aes-multi')
    msgs = []
    for i in range(6):
        raw = raws[i % 3]
        iv = inputs.pattern(16, b'iv%d' % (i // 2))
        msgs.append((inputs.pattern((0, 20, 32)[i // 2], b'm%d' % i), raw, iv))
    cts = [ref.aes_encrypt(r['aes'], r['hmac'], iv, m) for m, r, iv in msgs]
    for (m, r, iv), ct in zip(msgs, cts):
        require(c.Decrypt(S(ct), None) == S(m), 'genuine ciphertext not decrypted')
    a, b = cts[p[0]], cts[p[1]]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            m = a[:i] + b[j:]
            if m in cts:
                continue
            must_refuse(c, m, 'splice %d %d' % (i, j))
            ctx.ev((i, j), 'refused')

def gen_c02_crafted(ctx):
    for name in ('aes128.0', 'aes256.0', 'aes-multi'):
        yield name

def fn_c02_crafted(ctx, name):
    """tags made with wrong keys, over wrong data, of wrong length; blocks moved"""
    c = crypter_of(name)
    raw = set_of(name)[-1]
    d = inputs.pattern(40)
    good = genuine(name, d)
    body, tag = good[:-20], good[-20:]
    muts = []
    others = [k for k in env.FIX['aes'] if k['hmac'] != raw['hmac']]
    for k in [o['hmac'] for o in others] + [raw['aes'], b'', b'\0' * 32, raw['hmac'][:16], raw['hmac'] + b'x']:
        muts.append((('wrongkey', k.hex()[:8]), body + ref.hmac_sha1(k, body)))
    for lo in range(len(body)):
        for hi in (len(body), len(body) - 1, len(body) - 16, len(body) - 20):
            if hi > lo and (lo, hi) != (0, len(body)):
                muts.append((('partial', lo, hi), body + ref.hmac_sha1(raw['hmac'], body[lo:hi])))
    muts.append((('plain-tag', ), body + ref.hmac_sha1(raw['hmac'], d)))
    muts.append((('hmac-sign-tag', ), body + ref.hmac_sha1(raw['hmac'], body + b'\0')))
    muts.append((('sha1-tag', ), body + ref.sha1(body)))
    for n in range(0, 20):
        muts.append((('shorttag', n), body + tag[:n]))
        muts.append((('zerotag', n), body + tag[:n] + b'\0' * (20 - n)))
    for n in range(1, 21):
        muts.append((('longtag', n), body + tag + tag[:n]))
    for v in range(256):
        muts.append((('tagfill', v), body + bytes([v]) * 20))
        muts.append((('tagxor', v), body + bytes(t ^ v for t in tag)))
        muts.append((('version', v), bytes([v]) + good[1:]))
        muts.append((('version-retagged', v), bytes([v]) + body[1:] +
                     ref.hmac_sha1(raw['hmac'], bytes([v]) + body[1:])))
    hdr, iv, blocks = body[:5], body[5:21], [body[i:i + 16] for i in range(21, len(body), 16)]
    for perm in itertools.permutations([iv] + blocks):
        muts.append((('perm', ), hdr + b''.join(perm) + tag))
    for r in range(0, 5):
        for combo in itertools.product([iv] + blocks, repeat=r):
            muts.append((('combo', ), hdr + b''.join(combo) + tag))
    for o in others:
        oid = ref.aes_id(o['aes'], o['hmac'])
        muts.append((('otherid', oid.hex()), b'\0' + oid + good[5:]))
        nb = b'\0' + oid + body[5:]
        # tagged with a key of the set, but not with the one that the header names
        muts.append((('otherid-retagged', oid.hex()), nb + ref.hmac_sha1(raw['hmac'], nb)))
    n = 0
    muts = [(w, m) for w, m in muts if not (w[0] == 'version-retagged' and w[1] == 0)]
    n = tampered(ctx, c, good, d, muts)
    ctx.count('crafted', n)

def fn_c02_padding(ctx, name):
    """rightly tagged, but the body is not a padded plaintext"""
    c = crypter_of(name)
    raw = set_of(name)[-1]
    for what, m in ref.bad_paddings(raw['aes'], raw['hmac'], inputs.pattern(16, b'pad')):
        must_refuse(c, m, what)
        ctx.ev(what, 'refused')

def gen_c02_text(ctx):
    for n in (0, 1, 2, 15, 16):
        for half in range(4):
            yield n, half

def fn_c02_text(ctx, p):
    """changes to the base64 text: refused, unless the text still denotes the same bytes"""
    n, part = p
    c = crypter_of('aes128.0')
    d = inputs.pattern(n)
    good = genuine('aes128.0', d)
    text = ref.b64enc(good)
    require(c.Decrypt(text) == S(d), 'genuine ciphertext not decrypted')
    alphabet = [chr(i) for i in range(128)]
    for i in range(part, len(text), 4):
        for ch in alphabet:
            m = text[:i] + ch + text[i + 1:]
            same = ref.b64dec(m) == good if all(x.isalnum() or x in '-_' for x in m) and m.isascii() else None
            try:
                r = c.Decrypt(m)
            except K.errors.KeyczarError:
                require(not same, 'the same bytes are refused')
                ctx.ev((i, ch), 'refused')
                continue
            require(same is not False and r == S(d), 'text with character %d changed decrypts to %r', i, r)
            ctx.ev((i, ch), 'same bytes')
        for m in (text[:i], text[i:] if i else 'A', text[:i] + text[i + 1:]):
            try:
                r = c.Decrypt(m)
            except K.errors.KeyczarError:
                ctx.ev((i, 'cut', len(m)), 'refused')
                continue
            require(m == text or ref.b64dec(m) == good, 'shortened text decrypts')

def gen_c02_long(ctx):
    for n in (100, 255, 256, 4080, 4096, 5000):
        for part in range(8):
            yield n, part

def fn_c02_long(ctx, p):
    n, part = p
    c = crypter_of('aes128.0')
    d = inputs.pattern(n)
    good = genuine('aes128.0', d)
    def muts():
        for i in range(part, len(good), 8):
            yield ('flip', i), good[:i] + bytes([good[i] ^ 1 << (i % 8)]) + good[i + 1:]
            if n <= 256 or i % 16 == 0 or i > len(good) - 64:
                yield ('head', i), good[:i]
                yield ('cut', i), good[:i] + good[i + 1:]
                yield ('cut16', i), good[:i] + good[i + 16:]
    tampered(ctx, c, good, d, muts())

def gen_c02_run(ctx):
    return range(8)

def fn_c02_run(ctx, part):
    """very many altered and genuine ciphertexts given to the same opened key set"""
    name = ('aes128.0', 'aes-multi')[part % 2]
    c = crypter_of(name)
    good = genuine(name, inputs.pattern(33), 'run%d' % part)
    n = 3000 if ctx.thorough else 1200
    for i in range(n):
        if part < 6 or i % 3 == 0:
            pos = (i * (part + 1)) % len(good)
            bad = good[:pos] + bytes([good[pos] ^ (1 << i % 8)]) + good[pos + 1:]
            must_refuse(c, bad, 'attempt %d' % i)
        if part % 3 == 0 or i % 100 == 99:
            require(c.Decrypt(S(good), None) == S(inputs.pattern(33)), 'genuine ciphertext refused after %d attempts', i)
    ctx.many(n, 'refused in one run')

@prop('C02', 'exploration', RULE, 'exhaustive bounded enumeration of alterations on the real code',
      'For genuine ciphertexts of nine lengths: every value of every byte, every pair of flipped bits, every '
      'truncation, range deletion, insertion position, block order, splice of two genuine ciphertexts at all pairs of '
      'positions, every text character. Excludes by construction only forgeries that break HMAC-SHA1. '
      'Alterations are also presented after the genuine ciphertext was opened on the same object, and in long runs.')
def c02():
    return [Family('mutants', gen_c02_mut, fn_c02_mut), Family('bit-pairs', gen_c02_bits2, fn_c02_bits2),
            Family('splices', gen_c02_splice, fn_c02_splice), Family('crafted', gen_c02_crafted, fn_c02_crafted), Family('padding', gen_c02_crafted, fn_c02_padding),
            Family('text', gen_c02_text, fn_c02_text), Family('long', gen_c02_long, fn_c02_long),
            Family('long-run', gen_c02_run, fn_c02_run)]

# ---------------------------------------------------------------- C03
def rsa_case(ctx, c, raw, body, what):
    """Decrypt header+body and compare with the OAEP reference."""
    n, k = raw['n'], ref.rsa_k(raw['n'])
    v = ref.b2i(body)
    em = ref.rsa_private(raw, v).to_bytes(k, 'big')
    want = ref.oaep_decode(k, em)
    canonical = len(body) == k and v < n
    ct = b'\0' + ref.rsa_id(n, raw['e']) + body
    try:
        got = c.Decrypt(S(ct), None)
    except K.errors.KeyczarError as e:
        require(not (want and canonical), 'well-formed ciphertext refused (%s): %s', what, e)
        ctx.ev(what, 'refused')
        return
    require(want is not None, 'malformed block accepted (%s), returned %r', what, got[:40])
    require(got == S(want[0]), 'wrong message for %s: %r instead of %r', what, got[:40], want[0][:40])
    ctx.ev(what, 'decrypted')

def put(raw, em):
    return ref.rsa_raw_enc(raw['n'], raw['e'], em)

C03_KEYS = [('rsa512.0', 'full'), ('rsa768.0', 'some'), ('rsa1024.0', 'full'), ('rsa1024.1', 'some'),
            ('rsa1024.2', 'some'), ('rsa1024.3', 'some'), ('rsa1024.4', 'some'), ('rsa2048.0', 'some')]

def gen_c03_blocks(ctx):
    for name, mode in C03_KEYS:
        for part in ('msgs', 'lhash', 'delim', 'first', 'nodelim', 'shift', 'label'):
            for chunk in range(8):
                yield name, part, mode == 'full' or ctx.thorough, chunk

def fn_c03_blocks(ctx, p):
    name, part, full, chunk = p
    raw = set_of(name)[0]
    c = crypter_of(name)
    count = itertools.count()
    n, k = raw['n'], ref.rsa_k(raw['n'])
    top = k - 42
    seed = inputs.pattern(20, b'seed')
    def case(what, em):
        if next(count) % 8 == chunk and ref.b2i(em) < n:
            rsa_case(ctx, c, raw, put(raw, em), what)
    if part == 'msgs':
        for d in inputs.plain(top, False, top) if full else [inputs.pattern(i) for i in range(0, top + 1, 7)] + \
                [b'', b'\0', b'\1', b'\0\1', b'\1\0', b'\0' * top, b'\1' * top, b'\0' * (top - 1) + b'\1']:
            case(('msg', d), ref.oaep_encode(k, d, seed))
        for z in range(top + 1):
            for t in (b'', b'\1', b'\0', b'x'):
                if z + len(t) <= top and (full or z % 5 == 0):
                    case(('zeros', z, t), ref.oaep_encode(k, b'\0' * z + t, seed))
                    case(('ones', z, t), ref.oaep_encode(k, b'\1' * z + t, seed))
        for s in (b'\0' * 20, b'\xff' * 20, b'\0' * 19 + b'\1', b'\1' + b'\0' * 19):
            case(('seed', s), ref.oaep_encode(k, b'hello', s))
    elif part == 'lhash':
        for i in range(160):
            l = bytearray(ref.LHASH)
            l[i // 8] ^= 1 << i % 8
            case(('lhash', i), ref.oaep_encode(k, b'hello', seed, lhash=bytes(l)))
        for l in (b'\0' * 20, b'\xff' * 20, ref.LHASH[::-1], ref.sha1(b'\0'), ref.sha1(b'x'), ref.sha1(ref.LHASH)):
            case(('lhash', l), ref.oaep_encode(k, b'hello', seed, lhash=l))
        for i in range(20):
            case(('lhash-head', i), ref.oaep_encode(k, b'hello', seed, lhash=ref.LHASH[:i] + b'\0' * (20 - i)))
            case(('lhash-tail', i), ref.oaep_encode(k, b'hello', seed, lhash=b'\0' * i + ref.LHASH[i:]))
    elif part == 'delim':
        for v in range(256):
            for mlen in ((0, 1, 5, top - 1, top) if full else (0, 5, top)):
                case(('delim', v, mlen), ref.oaep_encode(k, inputs.pattern(mlen), seed, delim=bytes([v])))
            case(('delim2', v), ref.oaep_encode(k, b'\1hello', seed, delim=bytes([v])))
            # non-zero byte inside the padding string
            for pos in range(0, top - 5, 1 if full and v in (1, 2, 255) else 11):
                ps = bytearray(top - 5)
                ps[pos] = v
                case(('ps', v, pos), ref.oaep_mask(k, ref.LHASH + bytes(ps) + b'\1hello', seed))
    elif part == 'first':
        for v in range(256):
            case(('first', v), ref.oaep_encode(k, b'hello', seed, first=v))
        for v in range(1, 256):
            case(('first-empty', v), ref.oaep_encode(k, b'', seed, first=v))
    elif part == 'nodelim':
        case(('nodelim', ), ref.oaep_mask(k, ref.LHASH + b'\0' * (k - 41), seed))
        for v in (2, 0x80, 0xff):
            for z in range(0, k - 41):
                case(('nodelim', v, z), ref.oaep_mask(k, ref.LHASH + b'\0' * z + bytes([v]) * (k - 41 - z), seed))
    elif part == 'shift':
        # blocks that are well formed when read one or more bytes off
        for shift in (-2, -1, 1, 2):
            kk = k - shift
            if shift > 0:
                for s in range(40):
                    sd = inputs.pattern(20, b's%d' % s)
                    em = b'\0' * shift + ref.oaep_encode(kk, b'hello', sd)
                    case(('shift', shift, s), em)
            else:
                for s in range(40):
                    sd = inputs.pattern(20, b's%d' % s)
                    db = ref.LHASH + b'\0' * (k - 20 - 20 - 6) + b'\1hello'
                    mdb = ref.xor(db, ref.mgf1(sd, len(db)))
                    em = ref.xor(sd, ref.mgf1(mdb, 20)) + mdb
                    case(('shift', shift, s), em)
        for v in (0, 1, 2, n - 1, n - 2):
            case(('tiny', v), (v % n).to_bytes(k, 'big'))
        for i in range(0, k * 8 - 1, 3):
            case(('pow2', i), (1 << i).to_bytes(k, 'big'))
    elif part == 'label':
        for l in (b'x', b'\0', b'label', b'keyczar'):
            case(('label', l), ref.oaep_encode(k, b'hello', seed, lhash=ref.sha1(l)))
        for mlen in (0, 5):  # PKCS1 v1.5 blocks and raw messages
            case(('v15', mlen), b'\0\2' + b'\x7f' * (k - 3 - mlen) + b'\0' + b'h' * mlen)
            case(('sig', mlen), ref.emsa(k, b'h' * mlen))
            case(('raw', mlen), b'\0' * (k - mlen) + b'h' * mlen)

def gen_c03_alter(ctx):
    for name in ('rsa512.0', 'rsa768.0', 'rsa1024.0', 'rsa1024.2'):
        for part in range(8):
            yield name, part

def fn_c03_alter(ctx, p):
    name, part = p
    raw = set_of(name)[0]
    c = crypter_of(name)
    k = ref.rsa_k(raw['n'])
    body = ref.rsa_encrypt(raw['n'], raw['e'], b'secret', inputs.pattern(20))[5:]
    rsa_case(ctx, c, raw, body, 'genuine')
    muts = inputs.mutants(body, full_values=ctx.thorough and k <= 64, inserts=(0, 255), ranges=k <= 64)
    for i, (what, m) in enumerate(muts):
        if i % 8 == part:
            rsa_case(ctx, c, raw, m, what)
    if part == 0:
        v = ref.b2i(body)
        for t in (1, 2, 255):
            m = v + t * raw['n']
            rsa_case(ctx, c, raw, m.to_bytes(k + 1 if m >> 8 * k else k, 'big'), ('plus n', t))
        rsa_case(ctx, c, raw, (raw['n'] - v).to_bytes(k, 'big'), 'negated')
        for t in (0, 1, 2, raw['n'] - 1, raw['n'], raw['n'] + 1, (1 << 8 * k) - 1):
            rsa_case(ctx, c, raw, t.to_bytes(k, 'big'), ('value', t))

def gen_c03_rare(ctx):
    return rare('oaep', 'ct')

def fn_c03_rare(ctx, p):
    """blocks and ciphertexts with leading zero bytes, intact and with those bytes changed or moved"""
    kind, r = p
    name = 'rsa%d.0' % r['bits']
    raw, c, z = set_of(name)[0], crypter_of(name), r['zeros']
    k = ref.rsa_k(raw['n'])
    if kind == 'ct':
        body = ref.rsa_encrypt(raw['n'], raw['e'], r['msg'].encode(), bytes.fromhex(r['seed']))[5:]
        for what, m in [('intact', body), ('cut', body[z:]), ('moved', body[z:] + body[:z])] + \
                [(('cut', i), body[i:]) for i in range(1, z)]:
            rsa_case(ctx, c, raw, m, what)
        return
    em = ref.oaep_encode(k, r['msg'].encode(), bytes.fromhex(r['seed']))
    require(em[:z + 1] == bytes(z + 1), 'fixture')
    rsa_case(ctx, c, raw, put(raw, em), 'intact')
    for i in range(z + 1):
        for v in (1, 0x80, 0xff):
            m = bytearray(em)
            m[i] = v
            if ref.b2i(m) < raw['n']:
                rsa_case(ctx, c, raw, put(raw, bytes(m)), ('set', i, v))
        if i:
            rsa_case(ctx, c, raw, put(raw, em[i:] + bytes(i)), ('left', i)) if em[i] == 0 else None
            rsa_case(ctx, c, raw, put(raw, bytes(i) + em[:-i]), ('right', i))

def gen_c03_multi(ctx):
    return itertools.product(range(3), range(3))

def fn_c03_multi(ctx, p):
    """header of one key, body made for another"""
    raws = set_of('rsa-multi')
    c = crypter_of('rsa-multi')
    a, b = raws[p[0]], raws[p[1]]
    for s in range(8):
        body = ref.rsa_encrypt(b['n'], b['e'], b'hello', inputs.pattern(20, b'%d' % s))[5:]
        rsa_case(ctx, c, a, body, ('mixed', s))

@prop('C03', 'exploration', RULE, 'exhaustive bounded enumeration of OAEP blocks and alterations on the real code',
      'Every class of malformed OAEP block (each label-hash bit, every delimiter and first byte, every padding '
      'position, shifted blocks), all message lengths, and single-byte alterations of genuine ciphertexts, for five '
      'key sizes and moduli; oracle is an independent OAEP decoder. A non-canonical encoding of the ciphertext '
      'integer may be accepted or refused.')
def c03():
    return [Family('blocks', gen_c03_blocks, fn_c03_blocks), Family('altered', gen_c03_alter, fn_c03_alter),
            Family('mixed', gen_c03_multi, fn_c03_multi), Family('leading-zeros', gen_c03_rare, fn_c03_rare)]
