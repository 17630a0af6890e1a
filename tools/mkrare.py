"""Generates fixtures/rare.json: inputs whose intermediate values have one, two or three leading zero bytes.

Found by deterministic search with the reference implementation (mc/ref.py): OAEP seeds that give a masked seed, or a
ciphertext, with leading zeros; messages whose RSA signature, or HMAC, begins (HMAC: also ends) with zeros; DSA
nonces and messages whose r or s is short."""
import hashlib, json, multiprocessing, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import ref
FIX = json.load(open(HERE + '/fixtures/keys.json'))
RSA = lambda bits, i=0: [k for k in FIX['rsa'] if k['size'] == bits][i]
CH = 4096

def seed(i):
    return hashlib.sha1(b'rare%d' % i).digest()

def nz(b):
    return len(b) - len(b.lstrip(b'\0'))

def oaep(a):
    bits, z, msg, c = a
    k = bits // 8
    db = ref.LHASH + bytes(k - len(msg) - 42) + b'\1' + msg
    n = len(db)
    sha = hashlib.sha1
    idx = [i.to_bytes(4, 'big') for i in range((n + 19) // 20)]
    dbi = int.from_bytes(db, 'big')
    i0 = b'\0\0\0\0'
    for i in range(c * CH, (c + 1) * CH):
        s = seed(i)
        m = b''.join([sha(s + x).digest() for x in idx])[:n]
        mdb = (dbi ^ int.from_bytes(m, 'big')).to_bytes(n, 'big')
        t = sha(mdb + i0).digest()
        if s[:z] == t[:z] and (s[z] != t[z]):
            return s.hex()

def ct(a):
    bits, z, msg, c = a
    r = RSA(bits)
    lim = 1 << (bits - 8 * z)
    for i in range(c * CH, (c + 1) * CH):
        v = pow(int.from_bytes(ref.oaep_encode(bits // 8, msg, seed(i)), 'big'), r['e'], r['n'])
        if v < lim:
            return seed(i).hex()

def sig(a):
    bits, z, _, c = a
    r = RSA(bits)
    lim = 1 << (bits - 8 * z)
    for i in range(c * CH, (c + 1) * CH):
        m = b'm%d' % i
        h = int.from_bytes(ref.emsa(bits // 8, m + b'\0'), 'big')
        x, y = pow(h, r['dp'], r['p']), pow(h, r['dq'], r['q'])
        if y + (x - y) * r['invq'] % r['p'] * r['q'] < lim:
            return m.decode()

def dsa(a):
    i, z, what, c = a
    d = FIX['dsa'][i]
    lim = 1 << (160 - 8 * z)
    for j in range(c * CH, (c + 1) * CH):
        if what == 'r':
            k = 10 ** 40 + j
            m = b'm'
            r = pow(d['g'], k, d['p']) % d['q']
            if r < lim:
                return [k, 'm']
        else:
            if j == c * CH:
                k = 10 ** 40 + 7
                r, ki = pow(d['g'], k, d['p']) % d['q'], pow(k, -1, d['q'])
            m = b'm%d' % j
            s = ki * (int.from_bytes(hashlib.sha1(m + b'\0').digest(), 'big') + d['x'] * r) % d['q']
            if s < lim:
                return [k, m.decode()]

def mac(a):
    i, z, what, c = a
    key = bytes.fromhex(FIX['hmac'][i]['hmac'])
    import hmac
    for j in range(c * CH, (c + 1) * CH):
        m = b'm%d' % j
        t = hmac.digest(key, m + b'\0', 'sha1')
        if (t[:z] if what == 'first' else t[-z:]) == bytes(z):
            return m.decode()

def search(pool, fn, a):
    c = 0
    while True:
        for r in pool.map(fn, [a + (c + j, ) for j in range(64)], 1):
            if r is not None:
                return r
        c += 64

if __name__ == '__main__':
    out = dict(oaep=[], ct=[], sig=[], dsa=[], mac=[])
    with multiprocessing.Pool(8) as p:
        for bits, z in ((512, 1), (512, 2), (512, 3), (1024, 1), (1024, 2), (1024, 3)):
            for msg in ((b'hello', b'') if z < 3 else (b'hello', )):
                out['oaep'].append(dict(bits=bits, zeros=z, msg=msg.decode(), seed=search(p, oaep, (bits, z, msg))))
                print(out['oaep'][-1], flush=True)
        for bits, z in ((512, 1), (512, 2), (512, 3), (1024, 1), (1024, 2)):
            out['ct'].append(dict(bits=bits, zeros=z, msg='hello', seed=search(p, ct, (bits, z, b'hello'))))
            out['sig'].append(dict(bits=bits, zeros=z, msg=search(p, sig, (bits, z, None))))
            print(out['sig'][-1], flush=True)
        for what, zs in (('r', (1, 2)), ('s', (1, 2, 3))):
            for z in zs:
                k, m = search(p, dsa, (0, z, what))
                out['dsa'].append(dict(what=what, zeros=z, k=k, msg=m))
        for what in ('first', 'last'):
            for z in (1, 2, 3):
                out['mac'].append(dict(what=what, zeros=z, msg=search(p, mac, (0, z, what))))
    json.dump(out, open(HERE + '/fixtures/rare.json', 'w'), indent=1)
