"""Byte strings and key sets that the checks enumerate."""
import hashlib

def pattern(n, label=b'p'):
    """n bytes without structure (deterministic)."""
    return hashlib.shake_128(label + n.to_bytes(8, 'big')).digest(n)

def lengths(top):
    return list(range(top + 1))

BOUNDARY = [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4031, 4032, 4079, 4080, 4081, 4095, 4096,
            4097, 4111, 4112, 4113, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537]

def special(limit=None):
    """Contents that something might treat specially."""
    out = []
    for n in range(1, 34):
        out.append(bytes([n]) * n)                  # looks like padding
        out.append(b'\0' * n)
        out.append(b'x' * 16 + b'\0' * n)
        out.append(b'\0' * n + b'x')
        out.append(b'a' * n + bytes([n % 16 or 16]) * (n % 16 or 16))
    for b in range(256):
        out.append(bytes([b]))
        out.append(bytes([b]) * 16)
        out.append(pattern(15) + bytes([b]))
        out.append(pattern(14) + bytes([b]))
        out.append(bytes([b]) + pattern(7))
        out.append(pattern(4) + bytes([b]) + pattern(4))
    out += [b'\r\n', b'\n', b'\r', b'a\r\nb', b'\x85', b'\x1c\x1d\x1e', b' ', b'  a  ', b'\t', b'=', b'==', b'a=',
            b'None', b'{}', b'[]', b'""', b'null', b'0', b'%s', b'%', b'\\', b'"', b"'", b'+/', b'-_', b'\xff' * 40,
            b'\xef\xbb\xbfbom', b'\xff\xfe', b'\xc3\xa9', b'\xc3', b'\x80', b'\xed\xa0\x80',
            b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\1a', b'\x7f\xff\xff\xff', b'\xff\xff\xff\xff', b'\0\0\0\2\0\0\0\0',
            b'\1', b'\1\1', b'\0\1', b'\1\0', b'\0\0\1', b'\0\1\0', b'a\0', b'a\0\0', b'\0a',
            b'AAAA', b'This is some test data', 'nai\u0308ve \u20ac'.encode('utf-8')]
    seen = set()
    res = []
    for o in out:
        if o not in seen and (limit is None or len(o) <= limit):
            seen.add(o)
            res.append(o)
    return res

def plain(top=272, boundary=True, limit=None):
    seen = set()
    for n in lengths(top):
        d = pattern(n)
        if (limit is None or n <= limit) and d not in seen:
            seen.add(d)
            yield d
    for d in special(limit):
        if d not in seen:
            seen.add(d)
            yield d
    if boundary:
        for n in BOUNDARY:
            if n > top and (limit is None or n <= limit):
                yield pattern(n)

def mutants(b, full_values=True, inserts=(0, 1, 0x20, 0x30, 0x41, 0x80, 0xff), ranges=True):
    """Every single-byte change, truncation, extension, insertion, deletion, swap."""
    n = len(b)
    for i in range(n):
        for v in (range(256) if full_values else [b[i] ^ (1 << k) for k in range(8)] + [0, 255]):
            if v != b[i]:
                yield ('set', i, v), b[:i] + bytes([v]) + b[i + 1:]
    for i in range(n):
        yield ('head', i), b[:i]
        if i:
            yield ('tail', i), b[i:]
    for i in range(n + 1):
        for v in inserts:
            m = b[:i] + bytes([v]) + b[i:]
            if m != b:
                yield ('ins', i, v), m
    if ranges:
        for i in range(n):
            for j in range(i + 1, n + 1):
                if (i or j < n) and b[:i] + b[j:] != b and i and j < n:
                    yield ('del', i, j), b[:i] + b[j:]
        for w in (1, 2, 4, 5, 8, 16, 20):
            for i in range(0, n - w):
                for j in (i + w, ):
                    if j + w <= n:
                        m = b[:i] + b[j:j + w] + b[i + w:j] + b[i:i + w] + b[j + w:]
                        if m != b:
                            yield ('swap', w, i, j), m
    for k in (1, 2, 3, 4, 8, 15, 16, 17, 20, 32):
        yield ('ext0', k), b + b'\0' * k
        yield ('extp', k), b + pattern(k, b'x')
        yield ('pre0', k), b'\0' * k + b
    yield ('twice', ), b + b
    yield ('rev', ), b[::-1]

def odd_keys(b):
    """AES and HMAC keys that begin or end with, or consist of, the byte"""
    p, m = pattern(16, b'odd%d' % b), pattern(32, b'oddm%d' % b)
    x = bytes([b])
    return [(x + p[1:], m), (p[:-1] + x, m), (p, x + m[1:]), (p, m[:-1] + x), (x * 32, x * 32), (x + p + p[:-1], m[:-2] + x * 2)]
