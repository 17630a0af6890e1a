"""C18 base64, C19 base64 streams, C22 ASN.1 and integer conversions, C33 packing."""
import io
import itertools

from .. import env, inputs, ref
from ..core import Family, Violation, explore, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop

# ---------------------------------------------------------------- C18
def enc_dec(d):
    e = K.util.Base64WSEncode(S(d))
    require(type(e) is str, 'encoding is a %s', type(e).__name__)
    require(e == ref.b64enc(d), 'encoding of %r is %r', d[:40], e[:60])
    r = K.util.Base64WSDecode(e)
    require(type(r) is str and r == S(d), 'decoding %r gives %r', e[:60], r[:40])
    return e

def gen_c18_all(ctx):
    """first byte; all strings of up to three bytes"""
    return range(256)

def fn_c18_all(ctx, hi):
    enc, dec = K.util.Base64WSEncode, K.util.Base64WSDecode
    enc_dec(bytes([hi]))
    if hi == 0:
        enc_dec(b'')
        ctx.ev('empty')
    al = ref._B64.decode()
    for mid in range(256):
        enc_dec(bytes([hi, mid]))
        p = al[hi >> 2] + al[(hi & 3) << 4 | mid >> 4]
        for lo in range(256):
            d = chr(hi) + chr(mid) + chr(lo)
            e = p + al[(mid & 15) << 2 | lo >> 6] + al[lo & 63]
            if enc(d) != e or dec(e) != d:
                raise Violation('%r: encoded %r, decoded %r' % (d, enc(d), dec(e)))
    ctx.many(1 + 256 + 65536)

def gen_c18_len(ctx):
    for d in inputs.plain(700):
        yield d
    for n in (54, 55, 56, 57, 58, 76, 77, 114, 171, 3 << 16, (1 << 20) + 1):
        yield b'\xfb' * n if n < 1 << 16 else inputs.pattern(n)
    # every length up to beyond 4096 characters of text, and the neighbours of all powers of two of it
    for n in range(701, 3300):
        yield inputs.pattern(n)
    for k in range(13, 19):
        for n in range((3 << k) // 4 - 2, (3 << k) // 4 + 3):
            yield inputs.pattern(n)
    for b in range(256):
        for n in range(4, 40):
            yield bytes([b]) * n

def fn_c18_len(ctx, d):
    e = enc_dec(d)
    require(K.util.Encode(S(d)) == e and K.util.Decode(e) == S(d), 'deprecated names differ')
    pad = '=' * (-len(e) % 4)
    require(K.util.Base64WSDecode(e + pad) == S(d), 'padding kept')
    return 'ok'

BREAKS = [' ', '\n', '\r\n', '\r', '  ', ' \n ', '\n\n']

def gen_c18_ws(ctx):
    for n in range(0, 14):
        for w in range(len(BREAKS)):
            yield n, w

def fn_c18_ws(ctx, p):
    """white space at every position and pair of positions, with and without padding"""
    n, w = p
    d = inputs.pattern(n)
    plain = ref.b64enc(d)
    for e in {plain, plain + '=' * (-len(plain) % 4)}:
        for i in range(len(e) + 1):
            t = e[:i] + BREAKS[w] + e[i:]
            require(K.util.Base64WSDecode(t) == S(d), 'white space at %d: %r', i, t)
            for j in range(i, len(e) + 1):
                for w2 in BREAKS[:4]:
                    t = e[:i] + BREAKS[w] + e[i:j] + w2 + e[j:]
                    require(K.util.Base64WSDecode(t) == S(d), 'white space: %r gives %r', t, K.util.Base64WSDecode(t))
                    ctx.ev((e == plain, i, j, w2))
        for k in (1, 2, 3, 4, 76):
            for w2 in BREAKS:
                t = w2.join(e[i:i + k] for i in range(0, len(e), k)) + w2
                require(K.util.Base64WSDecode(t) == S(d), 'wrapped at %d: %r', k, t)

ALPHA = ['A', 'B', 'z', '9', '-', '_', '+', '/', '=', ' ', '\n', '*', '\0', '\x80', '\xff', '\u20ac', '\u0100']

def gen_c18_text(ctx):
    return itertools.product(ALPHA, repeat=2)

def decode_any(t):
    try:
        r = K.util.Base64WSDecode(t)
    except K.errors.Base64DecodingError:
        return None
    require(type(r) is str, 'decoded to a %s', type(r).__name__)
    require(all(ord(c) < 256 for c in r), 'decoded to something that is not a byte string')
    return r

WEB = set(ref._B64.decode())

def fn_c18_text(ctx, p):
    """all texts over a small alphabet: only results or the decoding error"""
    head = ''.join(p)
    n = 0
    for length in (0, 1, 2, 3) if not ctx.thorough else (0, 1, 2, 3, 4):
        for tail in itertools.product(ALPHA, repeat=length):
            t = head + ''.join(tail)
            r = decode_any(t)
            core = t.replace(' ', '').replace('\n', '')
            if len(core) % 4 == 1:
                require(r is None, 'text of length %d accepted: %r gives %r', len(core), t, r)
            elif set(core) <= WEB:
                require(r is not None and B(r) == ref.b64dec(core), '%r gives %r', t, r)
            elif core.rstrip('=') and set(core.rstrip('=')) <= WEB and len(core) % 4 == 0 and \
                    len(core) - len(core.rstrip('=')) <= 2:
                require(r is not None and B(r) == ref.b64dec(core.rstrip('=')), 'padded %r gives %r', t, r)
            n += 1
    ctx.many(n, 'text')
    return 'text'

def gen_c18_mod(ctx):
    for n in list(range(1, 200, 4)) + [1001, 4097, 65537]:
        yield n

def fn_c18_mod(ctx, n):
    for ch in ('A', 'x', '_'):
        for t in (ch * n, ' ' + ch * n + '\n', '\n'.join([ch * n, '']), '\r\n'.join(ch * n), ' '.join(ch * n)):
            try:
                r = K.util.Base64WSDecode(t)
                raise Violation('text of length %d decodes to %r' % (n, r[:40]))
            except K.errors.Base64DecodingError:
                ctx.ev((ch, t[:3]), 'refused')

def gen_c18_chars(ctx):
    return range(0, 0x300)

def fn_c18_chars(ctx, c):
    """every character at every position of a text"""
    ch = chr(c)
    for base in ('', 'A', 'AB', 'ABC', 'ABCD', 'ABCDE'):
        for i in range(len(base) + 1):
            t = base[:i] + ch + base[i:]
            r = decode_any(t)
            if set(t) <= WEB:
                require((None if r is None else B(r)) == ref.b64dec(t), '%r gives %r', t, r)
    ctx.many(21, 'text')
    return 'text'

@prop('C18', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'All 16.8 million byte strings of up to three bytes, all lengths up to 700, white space at every pair of positions, '
      'every text of up to five characters over a 17-letter alphabet and every character below U+0300; the oracle is an '
      'independent encoder.')
def c18():
    return [Family('short', gen_c18_all, fn_c18_all), Family('lengths', gen_c18_len, fn_c18_len),
            Family('white-space', gen_c18_ws, fn_c18_ws), Family('texts', gen_c18_text, fn_c18_text),
            Family('bad-length', gen_c18_mod, fn_c18_mod), Family('characters', gen_c18_chars, fn_c18_chars)]

# ---------------------------------------------------------------- C19
class Sink:
    """A stream that takes text; `seen` is what has reached its destination: all up to the last flush."""
    def __init__(self):
        self.parts = []
        self.seen = ''

    def write(self, s):
        require(type(s) is str, 'wrote a %s', type(s).__name__)
        self.parts.append(s)

    def flush(self):
        self.seen = self.text

    def close(self):
        self.seen = self.text

    @property
    def text(self):
        return ''.join(self.parts)

def compositions(n):
    for cuts in range(1 << max(0, n - 1)):
        parts, cur = [], 1
        for i in range(n - 1):
            if cuts >> i & 1:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        yield parts + [cur] if n else []

def gen_c19_write(ctx):
    for n in range(0, 13 if not ctx.thorough else 16):
        for empties in range(4):
            yield n, empties

def fn_c19_write(ctx, p):
    """all ways to cut the data into writes"""
    n, empties = p
    for label in (b'a', b'b'):
        d = inputs.pattern(n, label)
        want = ref.b64enc(d)
        for parts in compositions(n):
            if empties:   # empty writes before, between or after
                sizes = ([0] if empties != 2 else []) + [x for s in parts for x in ([s, 0] if empties != 1 else [s])]
            else:
                sizes = parts
            out = Sink()
            w = K.util.IncrementalBase64WSStreamWriter(out)
            pos = 0
            for s in sizes:
                w.write(S(d[pos:pos + s]))
                pos += s
                require(want.startswith(out.text), 'output %r is not a prefix of %r', out.text, want)
            w.flush()
            require(out.text == want, 'writes %s give %r instead of %r', sizes, out.text, want)
            require(out.seen == want, 'the flush after writes %s does not flush the output stream', sizes)
            if empties == 3:
                w.flush()
                require(out.text == want, 'second flush adds %r', out.text[len(want):])
            ctx.ev((label, tuple(sizes)))

def gen_c19_sizes(ctx):
    sizes = [0, 1, 2, 3, 4, 5, 56, 57, 58, 255, 256, 4095, 4096, 4097]
    for a in sizes:
        for b in sizes:
            yield a, b

def fn_c19_sizes(ctx, p):
    a, b = p
    for c in (0, 1, 2, 3, 100, 4096):
        d = inputs.pattern(a + b + c)
        out = Sink()
        w = K.util.IncrementalBase64WSStreamWriter(out)
        for part in (d[:a], d[a:a + b], d[a + b:]):
            w.write(S(part))
        w.close() if c % 2 else w.flush()
        require(out.text == ref.b64enc(d), 'writes %d %d %d', a, b, c)
        require(out.seen == out.text, 'writes %d %d %d do not reach the destination', a, b, c)
        ctx.ev(c)
    # several writers at the same time do not share state
    outs = [Sink() for _ in range(3)]
    ws = [K.util.IncrementalBase64WSStreamWriter(o) for o in outs]
    ds = [inputs.pattern(a + b, b'%d' % i) for i in range(3)]
    for lo, hi in ((0, a), (a, a + b)):
        for w, d in zip(ws, ds):
            w.write(S(d[lo:hi]))
    for w in reversed(ws):
        w.flush()
    for o, d in zip(outs, ds):
        require(o.text == ref.b64enc(d), 'interleaved writers')

class Source:
    """Delivers text as the choices say: short reads, None, would-block errors."""
    def __init__(self, text, ch, nodata=0, shorts=None):
        self.text, self.pos, self.ch, self.nodata, self.shorts = text, 0, ch, nodata, shorts
        self.idle = self.reads = 0

    def read(self, size=-1):
        self.reads += 1
        require(self.reads < 5000, 'the source is read without end')
        left = len(self.text) - self.pos
        if self.nodata:
            c = self.ch(3)
            if c:
                self.nodata -= 1
                self.idle += 1
                if c == 1:
                    return None
                raise BlockingIOError(11, 'would block')
        if size is None or size < 0:
            size = left
        size = min(size, left)
        if size > 1 and (self.shorts is None or self.shorts > 0):
            c = self.ch(size if self.shorts is None else min(size, 4))
            if c and self.shorts is not None:
                self.shorts -= 1
                c = (c, size // 2, size - 1)[min(c, 3) - 1]
            size -= c
        r = self.text[self.pos:self.pos + size]
        self.pos += size
        return r

def read_all(r, source, want, call, limit=4000, most=None):
    """Read until the end is reported; returns the concatenation."""
    got = ''
    for _ in range(limit):
        idle = source.idle
        x = call(r)
        if x is None:
            require(source.idle > idle, 'reported no data yet although the source had data')
            continue
        require(type(x) is str, 'returned a %s', type(x).__name__)
        if x == '':
            require(got == want, 'end reported after %d of %d bytes', len(got), len(want))
            require(source.pos == len(source.text), 'end reported before the source ended')
            return got
        require(most is None or len(x) <= most, 'a read limited to %s characters returned %d', most, len(x))
        got += x
        require(want.startswith(got), 'read %r instead of %r', got[-30:], want[:len(got)][-30:])
    raise Violation('the end is never reported')

CALLS = [('read()', lambda r: r.read()), ('read(1)', lambda r: r.read(1)), ('read(2)', lambda r: r.read(2)),
         ('read(3)', lambda r: r.read(3)), ('read(4)', lambda r: r.read(4)), ('read(5)', lambda r: r.read(5)),
         ('read(8)', lambda r: r.read(8)), ('read(4096)', lambda r: r.read(4096)), ('read(-1)', lambda r: r.read(-1)),
         ('chars=1', lambda r: r.read(chars=1)), ('chars=2', lambda r: r.read(chars=2)),
         ('chars=5', lambda r: r.read(chars=5)), ('size=4,chars=1', lambda r: r.read(size=4, chars=1)),
         ('size=3,chars=2', lambda r: r.read(size=3, chars=2))]
MOST = [int(c[0].split('chars=')[1]) if 'chars=' in c[0] else None for c in CALLS]

def gen_c19_read(ctx):
    for n in range(0, 7 if not ctx.thorough else 9):
        for c in range(len(CALLS)):
            for nodata in (0, 1, 2):
                if n <= 4 or nodata < 2 or ctx.thorough:
                    yield n, c, nodata

def fn_c19_read(ctx, p):
    """every delivery (all short reads, bounded number of no-data answers) of short texts"""
    n, c, nodata = p
    d = inputs.pattern(n)
    def run(ch):
        src = Source(ref.b64enc(d), ch, nodata)
        r = K.util.IncrementalBase64WSStreamReader(src)
        read_all(r, src, S(d), CALLS[c][1], most=MOST[c])
        src.nodata = 0
        require(r.read() == '', 'read after the end')
    k = 0
    for ch, _ in explore(run):
        ctx.ev(tuple(ch.trace))
        k += 1
        if k > 60000:
            raise RuntimeError('bound')

def gen_c19_mixed(ctx):
    for n in range(0, 9):
        for chunk in (1, 2, 3, 4, 5):
            yield n, chunk

def fn_c19_mixed(ctx, p):
    """all sequences of read sizes over a source that delivers fixed chunks"""
    n, chunk = p
    d = inputs.pattern(n)
    calls = [CALLS[i][1] for i in (0, 1, 2, 3, 5)]
    class Chunks(Source):
        def read(self, size=-1):
            size = chunk if size is None or size < 0 else min(size, chunk)
            r = self.text[self.pos:self.pos + size]
            self.pos += len(r)
            return r
    def run(ch):
        src = Chunks(ref.b64enc(d), None)
        r = K.util.IncrementalBase64WSStreamReader(src)
        k = [0]
        def call(r):
            k[0] += 1
            return calls[ch(len(calls)) if k[0] <= 4 else k[0] % len(calls)](r)
        read_all(r, src, S(d), call)
    for ch, _ in explore(run):
        ctx.ev(tuple(ch.trace))

def gen_c19_zero(ctx):
    for n in range(0, 9):
        for chunk in (1, 2, 3, 4, 5):
            for size in (-1, 1, 3, 5):
                yield n, chunk, size

def fn_c19_zero(ctx, p):
    """requests for nothing at every place in a sequence of reads change nothing of what is read"""
    n, chunk, size = p
    d = inputs.pattern(n)
    nothing = [lambda r: r.read(0), lambda r: r.read(chars=0), lambda r: r.read(0, 2), lambda r: r.read(size, 0)]
    class Chunks(Source):
        def read(self, size=-1):
            size = chunk if size is None or size < 0 else min(size, chunk)
            r = self.text[self.pos:self.pos + size]
            self.pos += len(r)
            return r
    def run(ch):
        src = Chunks(ref.b64enc(d), None)
        r = K.util.IncrementalBase64WSStreamReader(src)
        got, k = [''], [0]
        def call(r):
            k[0] += 1
            c = ch(len(nothing) + 1) if k[0] <= 4 else k[0] % 2
            if c:
                x = nothing[c - 1](r)
                require(type(x) is str, 'a request for nothing returned %r', x)
                require(c not in (2, 4) or x == '', 'a request for no characters returned %r', x)
                if x:
                    return x
            return r.read(size)
        read_all(r, src, S(d), call)
    for ch, _ in explore(run):
        ctx.ev(tuple(ch.trace))

def gen_c19_long(ctx):
    for n in list(range(9, 80)) + [255, 256, 3071, 3072, 3073, 4095, 4096, 4097, 10000]:
        yield n

def fn_c19_long(ctx, n):
    """longer texts: every uniform chunk and read size; and io.StringIO itself"""
    d = inputs.pattern(n)
    text = ref.b64enc(d)
    for size in (-1, 1, 2, 3, 4, 5, 7, 16, 57, 76, 4096):
        if n > 300 and 0 < size < 7:
            continue
        for chunk in (1, 3, 4, 5, 64, 1 << 20):
            if n > 300 and chunk < 64:
                continue
            class Chunks(Source):
                def read(self, size=-1):
                    k = chunk if size is None or size < 0 else min(size, chunk)
                    r = self.text[self.pos:self.pos + k]
                    self.pos += len(r)
                    return r
            src = Chunks(text, None)
            read_all(K.util.IncrementalBase64WSStreamReader(src), src, S(d), lambda r: r.read(size), 100000)
            ctx.ev((size, chunk))
        r = K.util.IncrementalBase64WSStreamReader(io.StringIO(text))
        got = ''
        while True:
            x = r.read(size)
            if not x:
                break
            got += x
        require(x == '' and got == S(d), 'reading from StringIO with size %d', size)
    if n < 300:
        for a in range(0, n + 1, 5):   # round trip through both streams
            out = Sink()
            w = K.util.IncrementalBase64WSStreamWriter(out)
            w.write(S(d[:a]))
            w.write(S(d[a:]))
            w.flush()
            got = ''
            r = K.util.IncrementalBase64WSStreamReader(io.StringIO(out.text))
            while True:
                x = r.read(7)
                if not x:
                    break
                got += x
            require(got == S(d), 'round trip')

def gen_c19_ws(ctx):
    for n in range(0, 5):
        m = (4 * n + 2) // 3
        for pad in (0, 1):
            for k in (0, 1, 2):
                for where in itertools.combinations(range(m + 1), k):
                    for what in ('\n', ' ', '\r\n', '\n\n'):
                        if k or what == '\n':
                            yield n, pad, where, what
    for n in (57, 58, 59, 114, 115, 300):
        for width in (4, 5, 64, 76):
            yield n, 1, width, '\n'

def fn_c19_ws(ctx, p):
    """line breaks, spaces and padding characters in the text, for every uniform chunk and read size"""
    n, pad, where, what = p
    d = inputs.pattern(n)
    text = ref.b64enc(d)
    if pad:
        text += '=' * (-len(text) % 4)
    if isinstance(where, int):
        text = ''.join(text[i:i + where] + what for i in range(0, len(text), where))
    else:
        for i in reversed(where):
            text = text[:i] + what + text[i:]
    for size in (-1, 1, 2, 3, 4, 5, 7):
        for chunk in (1, 2, 3, 4, 5, 1 << 20):
            class Chunks(Source):
                def read(self, size=-1):
                    k = chunk if size is None or size < 0 else min(size, chunk)
                    r = self.text[self.pos:self.pos + k]
                    self.pos += len(r)
                    return r
            src = Chunks(text, None)
            read_all(K.util.IncrementalBase64WSStreamReader(src), src, S(d), lambda r: r.read(size), 100000)
            ctx.ev((size, chunk))

def gen_c19_two(ctx):
    return range(0, 20)

def fn_c19_two(ctx, n):
    """two readers used in turn do not share state"""
    ds = [inputs.pattern(n + i, b'%d' % i) for i in range(2)]
    for size in (1, 2, 3, 4, 5):
        rs = [K.util.IncrementalBase64WSStreamReader(io.StringIO(ref.b64enc(d))) for d in ds]
        got = ['', '']
        done = [0, 0]
        while not all(done):
            for i in (0, 1):
                if not done[i]:
                    x = rs[i].read(size)
                    got[i] += x
                    done[i] = x == ''
        require(got == [S(d) for d in ds], 'readers used in turn')
        ctx.ev(size)

@prop('C19', 'exploration', RULE,
      'systematic exploration of all chunkings and source behaviours of the real streams (choice-sequence DFS)',
      'Every composition of up to 12 bytes into writes (with empty writes); for texts of up to 6 bytes every short-read '
      'pattern with up to two no-data answers at every position, for 14 kinds of read call; longer data with uniform '
      'chunks; line breaks, spaces and padding characters at every one and two positions of the text.')
def c19():
    return [Family('writes', gen_c19_write, fn_c19_write), Family('write-sizes', gen_c19_sizes, fn_c19_sizes),
            Family('reads', gen_c19_read, fn_c19_read), Family('mixed-reads', gen_c19_mixed, fn_c19_mixed),
            Family('long', gen_c19_long, fn_c19_long), Family('two-readers', gen_c19_two, fn_c19_two),
            Family('white-space', gen_c19_ws, fn_c19_ws), Family('zero-reads', gen_c19_zero, fn_c19_zero)]

# ---------------------------------------------------------------- C22
def special_ints(bits):
    out = {0, 1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 65537}
    for b in bits:
        out |= {1 << b, (1 << b) - 1, (1 << b) + 1, (1 << b) | (1 << b // 2), ref.b2i(inputs.pattern(b // 8 + 1)) >> 8 - b % 8}
    return sorted(out)

RSA_P = ('n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq')

def gen_c22_rsa(ctx):
    ints = special_ints(list(range(1, 70)) + list(range(500, 520)) + list(range(1010, 1040, 1)) + [2047, 2048, 4095, 4096, 8192])
    for i in range(0, len(ints), 8):
        yield ints[i:i + 8]

def check_rsa(v):
    t = K.util.ExportRsaPkcs8(v)
    require(t == ref.b64enc(ref.rsa_pkcs8(v)), 'PKCS#8 is not the standard structure')
    require(K.util.ParsePkcs8(t) == v, 'PKCS#8 parses to other parameters')
    pub = {c: v[c] for c in ('n', 'e')}
    t = K.util.ExportRsaX509(v)
    require(t == ref.b64enc(ref.rsa_x509(v)), 'X.509 is not the standard structure')
    require(K.util.ParseX509(t) == pub, 'X.509 parses to other parameters')
    require(K.util.ExportRsaX509(pub) == t, 'X.509 of the public parameters')

def check_dsa(v):
    t = K.util.ExportDsaPkcs8(v)
    require(t == ref.b64enc(ref.dsa_pkcs8(v)), 'PKCS#8 is not the standard structure')
    require(K.util.ParsePkcs8(t) == {c: v[c] for c in 'pqgx'}, 'PKCS#8 parses to other parameters')
    t = K.util.ExportDsaX509(v)
    require(t == ref.b64enc(ref.dsa_x509(v)), 'X.509 is not the standard structure')
    require(K.util.ParseX509(t) == {c: v[c] for c in 'pqgy'}, 'X.509 parses to other parameters')

def fn_c22_rsa(ctx, ints):
    base = {c: env.RSA(512)[c] for c in RSA_P}
    dbase = {c: env.DSA(0)[c] for c in 'pqgxy'}
    for x in ints:
        for c in RSA_P:
            check_rsa(dict(base, **{c: x}))
            ctx.ev((x, c))
        check_rsa({c: x for c in RSA_P})
        check_rsa({c: x + i for i, c in enumerate(RSA_P)})
        for c in 'pqgxy':
            check_dsa(dict(dbase, **{c: x}))
            ctx.ev((x, 'dsa', c))
        check_dsa({c: x for c in 'pqgxy'})
        check_dsa({c: x + i for i, c in enumerate('pqgxy')})

def gen_c22_keys(ctx):
    for k in env.FIX['rsa'] + env.FIX['dsa']:
        yield k

def fn_c22_keys(ctx, k):
    if 'n' in k:
        check_rsa({c: k[c] for c in RSA_P})
        t = K.util.ExportRsaPkcs8(k)
        for wrapped in (t + '=' * (-len(t) % 4), '\n'.join(t[i:i + 64] for i in range(0, len(t), 64))):
            require(K.util.ParsePkcs8(wrapped) == {c: k[c] for c in RSA_P}, 'wrapped text')
    else:
        check_dsa({c: k[c] for c in 'pqgxy'})
    return 'ok'

def gen_c22_sig(ctx):
    ints = special_ints(range(1, 168))
    for i in range(0, len(ints), 8):
        yield ints[i:i + 8]

def check_sig22(r, s):
    t = K.util.MakeDsaSig(r, s)
    require(B(t) == ref.der_sig(r, s), 'not the DER sequence of 0x%x and 0x%x', r, s)
    require(K.util.ParseDsaSig(t) == (r, s), 'parses to %r', K.util.ParseDsaSig(t))

def fn_c22_sig(ctx, ints):
    others = special_ints([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 151, 152, 153, 158, 159, 160])
    for r in ints:
        for s in others:
            check_sig22(r, s)
            check_sig22(s, r)
            ctx.ev((r, s))

def gen_c22_sig2(ctx):
    return range(0, 300)

def fn_c22_sig2(ctx, r):
    for s in range(0, 300):
        check_sig22(r, s)
    ctx.many(300)

def gen_c22_ints(ctx):
    return range(0, 1 << 17, 1 << 11)

def check_int(n):
    b = K.util.BigIntToBytes(n)
    require(B(b) == ref.i2b(n), 'BigIntToBytes(0x%x) is %r', n, b)
    require(K.util.BytesToLong(b) == n, 'BytesToLong of %r', b)
    for z in ('\0', '\0\0'):
        require(K.util.BytesToLong(z + b) == n, 'leading zero bytes')
    bits = K.util.IntToBin(n)
    require(bits == format(n, 'b'), 'IntToBin(0x%x) is %r', n, bits)
    if n:
        require(K.util.BinToBytes(bits) == b, 'BinToBytes of %r', bits)
    require(K.util.BytesToBin(b) == (format(n, '0%db' % (8 * len(b))) if b else ''), 'BytesToBin of %r', b)

def fn_c22_ints(ctx, lo):
    for n in range(lo, lo + (1 << 11)):
        check_int(n)
        b = n.to_bytes(4, 'big')
        require(B(K.util.IntToBytes(n)) == b and K.util.BytesToLong(K.util.IntToBytes(n)) == n, 'IntToBytes(%d)', n)
    ctx.many(1 << 11)

def gen_c22_big(ctx):
    ints = special_ints(list(range(1, 600)) + list(range(1016, 1034)) + [2047, 2048, 2049, 4095, 4096, 8191, 8192, 16384, 32768, 65537])
    for i in range(0, len(ints), 64):
        yield ints[i:i + 64]

def fn_c22_big(ctx, ints):
    for n in ints:
        check_int(n)
        if n < 1 << 32:
            require(B(K.util.IntToBytes(n)) == n.to_bytes(4, 'big'), 'IntToBytes(%d)', n)
        ctx.ev(n)

def gen_c22_bytes(ctx):
    return range(256)

def fn_c22_bytes(ctx, hi):
    for d in [bytes([hi])] + [bytes([hi, lo]) for lo in range(256)] + [bytes([0, hi]), bytes([hi]) * 20, inputs.pattern(hi)]:
        bits = K.util.BytesToBin(S(d))
        require(bits == ''.join(format(x, '08b') for x in d), 'BytesToBin(%r) is %r', d, bits)
        require(B(K.util.BinToBytes(bits)) == d, 'BinToBytes does not undo BytesToBin for %r', d)
        require(K.util.BytesToLong(S(d)) == ref.b2i(d), 'BytesToLong(%r)', d)
        ctx.ev(d)
    for n in range(1, 9):
        bits = format(hi, '08b')[:n]
        require(K.util.BinToBytes(bits) == chr(int(bits, 2)), 'BinToBytes(%r)', bits)

OTHER_OIDS = [(1, 2, 840, 113549, 1, 1), (1, 2, 840, 113549, 1, 1, 0), (1, 2, 840, 113549, 1, 1, 2), (1, 2, 840, 113549, 1, 1, 5),
              (1, 2, 840, 113549, 1, 1, 1, 1), (1, 2, 840, 113549, 1, 1, 129), (1, 2, 840, 10040, 4), (1, 2, 840, 10040, 4, 3), (1, 2, 840, 10040, 4, 1, 1),
              (1, 2, 840, 10045, 2, 1), (1, 3, 14, 3, 2, 26), (2, 5, 4, 3)]

def gen_c22_refused(ctx):
    versions = [1, 2, 3, 127, 128, 255, 256, 65536, -1, 1 << 64]
    for kind in ('rsa', 'dsa'):
        for v in versions:
            yield kind, 'version', v
        for oid in OTHER_OIDS:
            yield kind, 'oid', oid
        for n in range(0, 6):
            yield kind, 'fields', n
    for v in versions:
        yield 'rsa', 'inner', v
    for n in range(0, 8):
        yield 'dsa', 'sig', n

def fn_c22_refused(ctx, p):
    """structures of another version, another algorithm or with another number of fields"""
    kind, what, x = p
    if what == 'sig':     # DSA signature values of more or fewer than two integers
        for vals in itertools.product((0, 1, 5, 1 << 159), repeat=min(x, 3)):
            vals += (7, ) * (x - 3)
            if x == 2:
                check_sig22(*vals)
                continue
            try:
                r = K.util.ParseDsaSig(S(ref.der_seq(*[ref.der_int(n) for n in vals])))
            except K.errors.KeyczarError:
                ctx.ev(vals, 'refused')
                continue
            raise Violation('ParseDsaSig gives %r for the sequence %r' % (r, vals))
        return
    v = env.RSA(512) if kind == 'rsa' else env.DSA(0)
    version, inner, oid = ref.der_int(0), ref.der_int(0), ref.OID_RSA if kind == 'rsa' else ref.OID_DSA
    if what == 'version':
        version = ref.der_int(x)
    elif what == 'inner':
        inner = ref.der_int(x)
    elif what == 'oid':
        oid = ref.der_oid(*x)
    alg = ref.der_seq(oid, ref.NULL if kind == 'rsa' else ref.der_seq(*[ref.der_int(v[n]) for n in 'pqg']))
    priv = ref.der_seq(inner, *[ref.der_int(v[n]) for n in RSA_P]) if kind == 'rsa' else ref.der_int(v['x'])
    pub = ref.der_seq(ref.der_int(v['n']), ref.der_int(v['e'])) if kind == 'rsa' else ref.der_int(v['y'])
    pkcs8 = [version, alg, ref.tlv(4, priv)]
    x509 = [alg, ref.tlv(3, b'\0' + pub)]
    todo = []
    if what == 'fields':
        extra = [ref.der_int(0), ref.NULL, ref.tlv(4, b'x')]
        if x != 3:
            todo.append((K.util.ParsePkcs8, (pkcs8 + extra)[:x]))
        if x != 2:
            todo.append((K.util.ParseX509, (x509 + extra)[:x]))
    else:
        todo.append((K.util.ParsePkcs8, pkcs8))
        if what == 'oid':
            todo.append((K.util.ParseX509, x509))
    for f, fields in todo:
        try:
            r = f(ref.b64enc(ref.der_seq(*fields)))
        except Exception:
            ctx.ev(f.__name__, 'refused')
            continue
        raise Violation('%s accepts a %s structure with %s %s' % (f.__name__, kind, what, x))

@prop('C22', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'Every parameter of each structure takes every special value around every bit length of the bounds (others held), '
      'all pairs of DSA values below 300 and of special values, all integers below 2^17 and around every power of two up '
      'to 2^600; structures of other versions, algorithms and field counts; oracle is an independent DER encoder. '
      'Structures that do not match are refused.')
def c22():
    return [Family('parameters', gen_c22_rsa, fn_c22_rsa), Family('keys', gen_c22_keys, fn_c22_keys),
            Family('signatures', gen_c22_sig, fn_c22_sig), Family('small-signatures', gen_c22_sig2, fn_c22_sig2),
            Family('integers', gen_c22_ints, fn_c22_ints), Family('big-integers', gen_c22_big, fn_c22_big),
            Family('bytes', gen_c22_bytes, fn_c22_bytes), Family('refused', gen_c22_refused, fn_c22_refused)]

# ---------------------------------------------------------------- C33
POOL33 = [b'', b'\0', b'a', b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\1a', b'\0\0\0\2\0\0\0\0', b'\xff\xff\xff\xff', b'x' * 127,
          b'x' * 128, b'x' * 255, b'x' * 256, b'x' * 257]

def ref_pack(items):
    return ref.i4(len(items)) + b''.join(ref.pack(i) for i in items)

def gen_c33_lists(ctx):
    for n in range(0, 4):
        for head in itertools.product(range(len(POOL33)), repeat=min(n, 2)):
            yield n, head

def check_pack(items):
    p = K.util.PackMultipleByteArrays(*[S(i) for i in items])
    require(B(p) == ref_pack(items), 'packing of %r is %r', items, p[:60])
    require([B(x) for x in K.util.UnpackMultipleByteArrays(p)] == list(items), 'unpacking gives another list')
    return B(p)

def fn_c33_lists(ctx, p):
    n, head = p
    for tail in itertools.product(POOL33, repeat=n - len(head)):
        items = [POOL33[i] for i in head] + list(tail)
        check_pack(items)
        ctx.ev(tail)
    return 'ok'

def gen_c33_sizes(ctx):
    for n in list(range(0, 2100)) + [m + k for m in (4096, 8192, 16384, 32768, 65536) for k in range(-16, 17)] + [(1 << 24) + 1]:
        yield n

def fn_c33_sizes(ctx, n):
    d = inputs.pattern(n)
    p = B(K.util.PackByteArray(S(d)))
    require(p == ref.pack(d), 'packing of %d bytes', n)
    for off in (0, 1, 5):
        r, end = K.util.UnpackByteArray(S(b'z' * off + p + b'rest'), off)
        require(B(r) == d and end == off + 4 + n, 'unpacking at offset %d', off)
        for cut in (1, 2, 3, 4, 5, n // 2 + 1, n, n + 1, n + 4):
            if 0 < cut <= n + 4:
                try:
                    r = K.util.UnpackByteArray(S(b'z' * off + p[:len(p) - cut]), off)
                except K.errors.KeyczarError:
                    pass
                else:
                    raise Violation('an array of %d bytes cut by %d unpacks' % (n, cut))
                require(try_unpack(b'\0\0\0\1' + p[:len(p) - cut]) == 'refused' or cut == n + 4, 'a list cut by %d unpacks', cut)
    check_pack([d])
    check_pack([d, b''])
    check_pack([b'', d, b'x'])
    if n < 300:
        check_pack([b'y'] * n)
        check_pack([bytes([n & 255])] * n)
        for k in range(0, n, 7):
            check_pack([d[:k], d[k:]])
    return 'ok'

def parse33(data):
    """Reference parse ignoring the count: list or None."""
    if len(data) < 4:
        return None
    pos, out = 4, []
    while pos < len(data):
        if pos + 4 > len(data):
            return None
        n = int.from_bytes(data[pos:pos + 4], 'big', signed=True)
        if n < 0 or pos + 4 + n > len(data):
            return None
        out.append(data[pos + 4:pos + 4 + n])
        pos += 4 + n
    return out

def try_unpack(data):
    want = parse33(data)
    try:
        got = K.util.UnpackMultipleByteArrays(S(data))
    except K.errors.KeyczarError:
        if want is not None and len(want) == int.from_bytes(data[:4], 'big', signed=True):
            raise Violation('a packing is refused: %r' % (data[:60], ))
        return 'refused'
    require(want is not None, 'not a packing, but unpacks: %r', data[:60])
    require([B(x) for x in got] == want, 'unpacks to something else: %r', data[:60])
    return 'unpacked'

def gen_c33_bad(ctx):
    al = (0, 1, 2, 4, 0x7f, 0x80, 0xff)
    return itertools.product(al, repeat=3)

def fn_c33_bad(ctx, head):
    """all short byte strings over the bytes that matter"""
    al = (0, 1, 2, 4, 0x7f, 0x80, 0xff)
    n = 0
    for cnt in (b'\0\0\0\0', b'\0\0\0\1', b'\0\0\0\2', b'\xff\xff\xff\xff'):
        for k in range(0, 4):
            for tail in itertools.product(al, repeat=k):
                for mid in (bytes(head), ):
                    try_unpack(cnt + mid + bytes(tail))
                    try_unpack(cnt + b'\0\0' + mid + bytes(tail))
                    n += 2
    for k in range(0, 4):
        try_unpack(bytes(head[:k]))
        n += 1
    ctx.many(n, 'short string')
    return 'short string'

def gen_c33_mut(ctx):
    for items in ([], [b''], [b'a'], [b'', b''], [b'hello', b'\0\0\0\1'], [b'k' * 16, b'h' * 32], [b'a', b'b', b'c']):
        yield items

def fn_c33_mut(ctx, items):
    good = ref_pack(items)
    require(try_unpack(good) == 'unpacked', 'packing')
    for what, m in inputs.mutants(good, ranges=True):
        ctx.ev(what, try_unpack(m))
    for off in range(len(good) + 3):   # single arrays at any offset
        want = None
        if off + 4 <= len(good):
            n = int.from_bytes(good[off:off + 4], 'big', signed=True)
            if 0 <= n <= len(good) - off - 4:
                want = good[off + 4:off + 4 + n], off + 4 + n
        try:
            got = K.util.UnpackByteArray(S(good), off)
            got = B(got[0]), got[1]
        except K.errors.KeyczarError:
            got = None
        require(got == want, 'array at offset %d: %r', off, got)

def gen_c33_len(ctx):
    return range(0, 0x100)

def fn_c33_len(ctx, b):
    """every value of every byte of the length field"""
    for pos in range(4):
        for rest in (b'', b'x', b'x' * 5, b'x' * 300):
            f = bytearray(ref.i4(5))
            f[pos] = b
            ctx.ev((pos, len(rest)), try_unpack(b'\0\0\0\1' + bytes(f) + rest))

@prop('C33', 'exploration', RULE, 'exhaustive bounded enumeration on the real code',
      'All lists of up to three strings over a 13-element pool that collides under naive packing, all lengths 0..599, '
      'every single-byte alteration of packings, all short strings over the bytes that matter. A wrong count alone may '
      'be accepted. '
      'Arrays cut at every place, for every size.')
def c33():
    return [Family('lists', gen_c33_lists, fn_c33_lists), Family('sizes', gen_c33_sizes, fn_c33_sizes),
            Family('short', gen_c33_bad, fn_c33_bad), Family('altered', gen_c33_mut, fn_c33_mut),
            Family('length-field', gen_c33_len, fn_c33_len)]
