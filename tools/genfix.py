"""Generates fixtures/keys.json (key material for the checks), deterministically."""
import hashlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import ref

def stream(label):
    i = 0
    while True:
        yield from hashlib.sha256(b'keyczar-mc|%s|%d' % (label.encode(), i)).digest()
        i += 1

def rb(label, n):
    s = stream(label)
    return bytes(next(s) for _ in range(n))

def prime(label, bits, e):
    s = stream(label)
    while True:
        n = int.from_bytes(bytes(next(s) for _ in range(bits // 8)), 'big')
        n |= 3 << (bits - 2) | 1
        if ref.is_prime(n) and (n - 1) % e:
            return n

def rsa(label, bits, e):
    p, q = prime(label + 'p', bits // 2, e), prime(label + 'q', bits // 2, e)
    if p < q:
        p, q = q, p
    n, d = p * q, pow(e, -1, (p - 1) * (q - 1))
    assert n.bit_length() == bits
    return dict(size=bits, n=n, e=e, d=d, p=p, q=q, dp=d % (p - 1), dq=d % (q - 1), invq=pow(q, -1, p))

def dsa_domain(label):
    s = stream(label)
    while True:
        q = int.from_bytes(bytes(next(s) for _ in range(20)), 'big') | 1 << 159 | 1
        if ref.is_prime(q):
            break
    while True:
        x = int.from_bytes(bytes(next(s) for _ in range(128)), 'big') | 1 << 1023
        p = x - (x % (2 * q)) + 1
        if p.bit_length() == 1024 and ref.is_prime(p):
            break
    h = 2
    while pow(h, (p - 1) // q, p) == 1:
        h += 1
    return p, q, pow(h, (p - 1) // q, p)

def dsa(dom, x):
    p, q, g = dom
    return dict(size=1024, p=p, q=q, g=g, x=x, y=pow(g, x, p))

out = dict(aes=[], hmac=[], rsa=[], dsa=[])
for bits in (128, 192, 256):
    n = bits // 8
    for i in range(3):
        out['aes'].append(dict(size=bits, aes=rb('aes%d.%d' % (bits, i), n).hex(), hmac=rb('aesh%d.%d' % (bits, i), 32).hex()))
out['aes'].append(dict(size=128, aes='00' * 16, hmac='00' * 32))
out['aes'].append(dict(size=128, aes='ff' * 16, hmac='00' * 31 + '01'))
for i in range(4):
    out['hmac'].append(dict(size=256, hmac=rb('hmac%d' % i, 32).hex()))
out['hmac'].append(dict(size=256, hmac='00' * 32))
for bits, e, i in ((512, 65537, 0), (768, 65537, 0), (1024, 65537, 0), (1024, 3, 1), (1024, 17, 2),
                   (1024, 65537, 3), (2048, 65537, 0), (2048, 65537, 1), (4096, 65537, 0)):
    out['rsa'].append(rsa('rsa%d.%d' % (bits, i), bits, e))
def rsa_high(label, bits, e):
    """A modulus just below 2**bits."""
    p = prime(label + 'p', bits // 2, e)
    q = (1 << bits) // p
    while not (ref.is_prime(q) and (q - 1) % e):
        q -= 1
    if p < q:
        p, q = q, p
    n, d = p * q, pow(e, -1, (p - 1) * (q - 1))
    assert n >> (bits - 64) == (1 << 64) - 1
    return dict(size=bits, n=n, e=e, d=d, p=p, q=q, dp=d % (p - 1), dq=d % (q - 1), invq=pow(q, -1, p))

out['rsa'].append(rsa_high('high', 1024, 65537))
d1, d2 = dsa_domain('dom1'), dsa_domain('dom2')
out['dsa'].append(dsa(d1, int.from_bytes(rb('x1', 19), 'big')))
out['dsa'].append(dsa(d1, int.from_bytes(rb('x2', 19), 'big')))
out['dsa'].append(dsa(d2, int.from_bytes(rb('x3', 19), 'big')))
x = 5   # a key whose public value and secret are short
while pow(d2[2], x, d2[0]).bit_length() > 1016:
    x += 1
out['dsa'].append(dsa(d2, x))
# answers of the key generators in checks that do not judge them
out['pool_rsa'] = [rsa('pool%d' % i, 1024, 65537) for i in range(8)]
out['pool_dsa'] = [dsa(d1, int.from_bytes(rb('pool%d' % i, 19), 'big')) for i in range(10)]
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures/keys.json'), 'w'), indent=1)
