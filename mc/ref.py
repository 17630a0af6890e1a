"""Independent reference implementation of the Keyczar formats.

Written from the published format description, on bytes, with no code shared
with the package under test and none of the crypto libraries it uses: only
hashlib.sha1 and integer arithmetic.
"""
import functools
import hashlib

def sha1(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p)
    return h.digest()

def hmac_sha1(key, msg):
    if len(key) > 64:
        key = sha1(key)
    key = key + b'\0' * (64 - len(key))
    return sha1(bytes(b ^ 0x5c for b in key), sha1(bytes(b ^ 0x36 for b in key), msg))

# ---------------------------------------------------------------- base64
_B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
_B64INV = {c: i for i, c in enumerate(_B64)}

def b64enc(data):
    out = bytearray()
    for i in range(0, len(data), 3):
        chunk = data[i:i + 3]
        n = int.from_bytes(chunk + b'\0' * (3 - len(chunk)), 'big')
        for j in range(len(chunk) + 1):
            out.append(_B64[(n >> (18 - 6 * j)) & 63])
    return out.decode('ascii')

def b64dec(text):
    """Decode canonical unpadded web-safe base64; None if it is not that."""
    raw = text.encode('ascii')
    if len(raw) % 4 == 1 or any(c not in _B64INV for c in raw):
        return None
    out = bytearray()
    for i in range(0, len(raw), 4):
        chunk = raw[i:i + 4]
        n = 0
        for c in chunk:
            n = n << 6 | _B64INV[c]
        n <<= 6 * (4 - len(chunk))
        out += n.to_bytes(3, 'big')[:len(chunk) - 1]
    return bytes(out)

# ---------------------------------------------------------------- AES
def _make_sbox():
    p = q = 1
    sbox = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) & 0xff ^ (q << 2 | q >> 6) & 0xff ^ \
            (q << 3 | q >> 5) & 0xff ^ (q << 4 | q >> 4) & 0xff
        sbox[p] = (x ^ 0x63) & 0xff
        if p == 1:
            break
    sbox[0] = 0x63
    return sbox

_S = _make_sbox()
_SI = [0] * 256
for _i, _v in enumerate(_S):
    _SI[_v] = _i

def _xt(a):
    return ((a << 1) ^ 0x1b) & 0xff if a & 0x80 else a << 1

def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r

_M = {k: [_mul(i, k) for i in range(256)] for k in (2, 3, 9, 11, 13, 14)}

class Aes:
    def __init__(self, key):
        nk = len(key) // 4
        assert len(key) in (16, 24, 32)
        self.rounds = nk + 6
        w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
        rcon = 1
        for i in range(nk, 4 * (self.rounds + 1)):
            t = list(w[i - 1])
            if i % nk == 0:
                t = t[1:] + t[:1]
                t = [_S[b] for b in t]
                t[0] ^= rcon
                rcon = _xt(rcon)
            elif nk > 6 and i % nk == 4:
                t = [_S[b] for b in t]
            w.append([a ^ b for a, b in zip(w[i - nk], t)])
        self.rk = [sum(w[4 * r:4 * r + 4], []) for r in range(self.rounds + 1)]

    def enc(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[0])]
        m2, m3 = _M[2], _M[3]
        for r in range(1, self.rounds + 1):
            s = [_S[b] for b in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r != self.rounds:
                n = []
                for c in range(0, 16, 4):
                    a, b, d, e = s[c:c + 4]
                    n += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e,
                          a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
                s = n
            s = [a ^ b for a, b in zip(s, self.rk[r])]
        return bytes(s)

    def dec(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[self.rounds])]
        m9, mb, md, me = _M[9], _M[11], _M[13], _M[14]
        for r in range(self.rounds - 1, -1, -1):
            s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
            s = [_SI[b] for b in s]
            s = [a ^ b for a, b in zip(s, self.rk[r])]
            if r:
                n = []
                for c in range(0, 16, 4):
                    a, b, d, e = s[c:c + 4]
                    n += [me[a] ^ mb[b] ^ md[d] ^ m9[e], m9[a] ^ me[b] ^ mb[d] ^ md[e],
                          md[a] ^ m9[b] ^ me[d] ^ mb[e], mb[a] ^ md[b] ^ m9[d] ^ me[e]]
                s = n
        return bytes(s)

def cbc_enc(key, iv, data):
    a = Aes(key)
    out = []
    for i in range(0, len(data), 16):
        iv = a.enc(bytes(x ^ y for x, y in zip(data[i:i + 16], iv)))
        out.append(iv)
    return b''.join(out)

def cbc_dec(key, iv, data):
    a = Aes(key)
    out = []
    for i in range(0, len(data), 16):
        blk = data[i:i + 16]
        out.append(bytes(x ^ y for x, y in zip(a.dec(blk), iv)))
        iv = blk
    return b''.join(out)

def pkcs5(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n

def unpkcs5(data):
    n = data[-1]
    assert 1 <= n <= 16 and data.endswith(bytes([n]) * n)
    return data[:-n]

# ---------------------------------------------------------------- Keyczar symmetric
def i4(n):
    return (n & 0xffffffff).to_bytes(4, 'big')

def aes_id(aes_key, hmac_key):
    return sha1(i4(len(aes_key)), aes_key, hmac_key)[:4]

def hmac_id(key):
    return sha1(key)[:4]

def aes_encrypt(aes_key, hmac_key, iv, plain):
    m = b'\0' + aes_id(aes_key, hmac_key) + iv + cbc_enc(aes_key, iv, pkcs5(plain))
    return m + hmac_sha1(hmac_key, m)

def aes_decrypt(aes_key, hmac_key, ct):
    """The plaintext, or None if ct is not a valid ciphertext of this key."""
    if len(ct) < 5 + 16 + 16 + 20 or ct[:5] != b'\0' + aes_id(aes_key, hmac_key):
        return None
    if hmac_sha1(hmac_key, ct[:-20]) != ct[-20:] or (len(ct) - 41) % 16:
        return None
    return unpkcs5(cbc_dec(aes_key, ct[5:21], ct[21:-20]))

def hmac_sign(key, data):
    return b'\0' + hmac_id(key) + hmac_sha1(key, data + b'\0')

def pack(b):
    return i4(len(b)) + b

# ---------------------------------------------------------------- integers
def i2b(n):
    return n.to_bytes((n.bit_length() + 7) // 8, 'big')

def b2i(b):
    return int.from_bytes(b, 'big')

def trim(n):
    return i2b(n) or b'\0'

def prefix_id(*ints):
    return sha1(*[pack(trim(n)) for n in ints])[:4]

# ---------------------------------------------------------------- RSA
def mgf1(seed, n):
    out = b''
    i = 0
    while len(out) < n:
        out += sha1(seed, i4(i))
        i += 1
    return out[:n]

def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))

LHASH = sha1(b'')

def rsa_k(n):
    return (n.bit_length() + 7) // 8

def oaep_mask(k, db, seed, first=0):
    assert len(db) == k - 21
    mdb = xor(db, mgf1(seed, k - 21))
    return bytes([first]) + xor(seed, mgf1(mdb, 20)) + mdb

def oaep_encode(k, msg, seed, lhash=LHASH, delim=b'\1', first=0):
    ps = b'\0' * (k - len(msg) - 2 * 20 - 2 + 1 - len(delim))
    return oaep_mask(k, lhash + ps + delim + msg, seed, first)

def oaep_decode(k, em):
    """(message, seed), or None if not well formed."""
    if len(em) != k or em[0]:
        return None
    mdb = em[21:]
    seed = xor(em[1:21], mgf1(mdb, 20))
    db = xor(mdb, mgf1(seed, k - 21))
    if db[:20] != LHASH:
        return None
    rest = db[20:].lstrip(b'\0')
    if rest[:1] != b'\1':
        return None
    return rest[1:], seed

def rsa_id(n, e):
    return prefix_id(n, e)

def rsa_raw_enc(n, e, em):
    return pow(b2i(em), e, n).to_bytes(rsa_k(n), 'big')

def rsa_encrypt(n, e, msg, seed):
    return b'\0' + rsa_id(n, e) + rsa_raw_enc(n, e, oaep_encode(rsa_k(n), msg, seed))

def rsa_private(raw, v):
    """v ** d mod n."""
    mp, mq = pow(v, raw['dp'], raw['p']), pow(v, raw['dq'], raw['q'])
    return mq + raw['q'] * (raw['invq'] * (mp - mq) % raw['p'])

def rsa_decrypt(n, e, d, ct):
    """(message, seed) or None."""
    if ct[:5] != b'\0' + rsa_id(n, e) or len(ct) != 5 + rsa_k(n):
        return None
    c = b2i(ct[5:])
    if c >= n:
        return None
    return oaep_decode(rsa_k(n), pow(c, d, n).to_bytes(rsa_k(n), 'big'))

_SHA1_DI = bytes.fromhex('3021300906052b0e03021a05000414')

def emsa(k, msg):
    t = _SHA1_DI + sha1(msg)
    return b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t

def rsa_sign_raw(n, d, msg):
    return pow(b2i(emsa(rsa_k(n), msg)), d, n).to_bytes(rsa_k(n), 'big')

def rsa_valid(n, e, msg, s):
    """Is the integer s a valid PKCS1-v1_5 SHA-1 signature value?"""
    return 0 <= s < n and pow(s, e, n) == b2i(emsa(rsa_k(n), msg))

# ---------------------------------------------------------------- DSA
def dsa_id(p, q, g, y):
    return prefix_id(p, q, g, y)

def dsa_sign(p, q, g, x, k, msg):
    r = pow(g, k, p) % q
    s = pow(k, -1, q) * (b2i(sha1(msg)) + x * r) % q
    return r, s

def dsa_valid(p, q, g, y, msg, r, s):
    if not (0 < r < q and 0 < s < q):
        return False
    w = pow(s, -1, q)
    return pow(g, b2i(sha1(msg)) * w % q, p) * pow(y, r * w % q, p) % p % q == r

def dsa_recover_k(p, q, g, x, msg, r, s):
    return (b2i(sha1(msg)) + x * r) * pow(s, -1, q) % q

# ---------------------------------------------------------------- DER
def der_len(n):
    if n < 128:
        return bytes([n])
    b = i2b(n)
    return bytes([0x80 | len(b)]) + b

def tlv(tag, body):
    return bytes([tag]) + der_len(len(body)) + body

def der_int(n):
    size = n.bit_length() // 8 + 1 if n >= 0 else (n + 1).bit_length() // 8 + 1
    return tlv(2, n.to_bytes(size, 'big', signed=True))

def der_seq(*items):
    return tlv(0x30, b''.join(items))

def der_oid(*arcs):
    out = bytearray([arcs[0] * 40 + arcs[1]])
    for a in arcs[2:]:
        chunk = [a & 127]
        a >>= 7
        while a:
            chunk.append(a & 127 | 128)
            a >>= 7
        out += bytes(reversed(chunk))
    return tlv(6, bytes(out))

NULL = b'\5\0'
OID_RSA = der_oid(1, 2, 840, 113549, 1, 1, 1)
OID_DSA = der_oid(1, 2, 840, 10040, 4, 1)

def rsa_pkcs8(v):
    key = der_seq(der_int(0), *[der_int(v[n]) for n in ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq')])
    return der_seq(der_int(0), der_seq(OID_RSA, NULL), tlv(4, key))

def dsa_pkcs8(v):
    return der_seq(der_int(0), der_seq(OID_DSA, der_seq(*[der_int(v[n]) for n in 'pqg'])),
                   tlv(4, der_int(v['x'])))

def rsa_x509(v):
    return der_seq(der_seq(OID_RSA, NULL), tlv(3, b'\0' + der_seq(der_int(v['n']), der_int(v['e']))))

def dsa_x509(v):
    return der_seq(der_seq(OID_DSA, der_seq(*[der_int(v[n]) for n in 'pqg'])),
                   tlv(3, b'\0' + der_int(v['y'])))

def der_sig(r, s):
    return der_seq(der_int(r), der_int(s))

class DerError(Exception):
    pass

def der_read(b, pos=0):
    """(tag, body, next position) of a strict DER element."""
    if pos + 2 > len(b):
        raise DerError()
    tag, n = b[pos], b[pos + 1]
    pos += 2
    if n & 0x80:
        c = n & 0x7f
        if not c or pos + c > len(b) or b[pos] == 0:
            raise DerError()
        n = b2i(b[pos:pos + c])
        pos += c
        if n < 128:
            raise DerError()
    if pos + n > len(b):
        raise DerError()
    return tag, b[pos:pos + n], pos + n

def der_parse_sig(b):
    tag, body, end = der_read(b)
    if tag != 0x30 or end != len(b):
        raise DerError()
    out = []
    pos = 0
    while pos < len(body):
        tag, v, pos = der_read(body, pos)
        if tag != 2 or not v or (len(v) > 1 and (v[0] == 0 and v[1] < 128 or v[0] == 255 and v[1] >= 128)):
            raise DerError()
        out.append(int.from_bytes(v, 'big', signed=True))
    if len(out) != 2:
        raise DerError()
    return tuple(out)

# ---------------------------------------------------------------- primes (fixtures only)
@functools.lru_cache(maxsize=None)
def is_prime(n, rounds=20):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for i in range(rounds):
        a = 2 + b2i(sha1(i4(i), i2b(n))) % (n - 3)
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True

def bad_paddings(aes_key, hmac_key, iv):
    """ciphertexts with a right tag whose body is not a whole number of blocks or not padded: (what, bytes)"""
    def tagged(body):
        m = b'\0' + aes_id(aes_key, hmac_key) + iv + body
        return m + hmac_sha1(hmac_key, m)
    first = bytes(range(65, 81))
    blocks = []
    for v in range(256):
        for n in (1, 2, 15, 16):
            blocks.append(first[:16 - n] + bytes([v]) * n)
        blocks.append(bytes(15) + bytes([v]))
    for n in range(2, 17):
        for i in range(n - 1):         # one byte of the padding is wrong
            for x in (0, n - 1, n + 1, n ^ 0x80):
                p = bytearray([n]) * n
                p[i] = x
                blocks.append(first[:16 - n] + bytes(p))
    for b in sorted(set(blocks)):
        for head in (b'', first):
            if not (1 <= b[-1] <= 16 and b.endswith(bytes([b[-1]]) * b[-1])):
                yield ('padding', head + b), tagged(cbc_enc(aes_key, iv, head + b))
    for v in range(17, 256):           # more than a block of padding
        whole = (first * 16)[:-v % 16] + bytes([v]) * v
        yield ('padding', whole), tagged(cbc_enc(aes_key, iv, whole))
    yield ('empty', ), tagged(b'')
    body = cbc_enc(aes_key, iv, pkcs5(first) + first)
    for n in range(1, len(body)):
        if n % 16:
            yield ('length', n), tagged(body[:n])
