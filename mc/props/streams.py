"""C15, C16, C17: encrypting and decrypting streams."""
import io
import itertools

from .. import env, inputs, ref
from ..core import Family, Violation, explore, require
from ..env import B, K, S
from .codec import Sink, Source
from .registry import prop

RULE = ('one evaluation is one complete stream history (writes, or deliveries and reads) on the real code; histories '
        'are distinct by construction of the enumeration')

SETS = {
    'aes128': lambda: [env.AES(128)],
    'aes192': lambda: [env.AES(192)],
    'aes256': lambda: [env.AES(256)],
    'multi': lambda: [env.AES(128), env.AES(256), env.AES(128, 1)],
}
_cache = {}

def crypter_of(name):
    if name not in _cache:
        _cache[name] = env.crypter(*SETS[name]())
    return _cache[name]

def primary(name):
    return SETS[name]()[-1]

def encode(enc, raw):
    return S(raw) if enc == 'raw' else ref.b64enc(raw)

def writer(c, out, enc):
    return c.CreateEncryptingStreamWriter(out, encoder=None) if enc == 'raw' else c.CreateEncryptingStreamWriter(out)

def reader(c, src, enc, buf=None):
    kw = {} if buf is None else dict(buffer_size=buf)
    if enc == 'raw':
        kw['decoder'] = None
    return c.CreateDecryptingStreamReader(src, **kw)

def stream_plain(c, text, enc, size=-1):
    r = reader(c, io.StringIO(text), enc)
    got = ''
    for _ in range(100000):
        x = r.read(size)
        if x is None:
            continue
        if x == '':
            return got
        got += x
    raise Violation('the decrypting stream does not end')

def gen_keys(ctx):
    return range(256)

def fn_keys(ctx, b):
    """keys that begin or end with, or consist of, any byte"""
    for aes, mac in inputs.odd_keys(b):
        c = env.crypter(dict(size=len(aes) * 8, aes=aes, hmac=mac))
        out = Sink()
        w = writer(c, out, 'raw')
        for x in ('first ', 'second'):
            w.write(x)
        w.flush()
        require(c.Decrypt(out.text, None) == 'first second', 'stream output decrypted in one piece, key %s %s', aes.hex(), mac.hex())
        require(stream_plain(c, out.text, 'raw') == 'first second', 'stream output decrypted as a stream, key %s %s', aes.hex(), mac.hex())
        require(stream_plain(c, c.Encrypt('one piece'), 'b64') == 'one piece', 'decrypted as a stream, key %s %s', aes.hex(), mac.hex())
        require(ref.aes_decrypt(aes, mac, B(out.text)) == b'first second', 'stream output')
        ctx.ev((aes, mac))

# ---------------------------------------------------------------- C15
def written(ctx, name, enc, parts, deep=True):
    c = crypter_of(name)
    d = b''.join(parts)
    out = Sink()
    w = writer(c, out, enc)
    for x in parts:
        w.write(S(x))
    w.flush()
    judge(c, name, enc, d, out.text, deep)
    require(out.seen == out.text, 'the flush does not flush the output stream')

def judge(c, name, enc, d, text, deep=True):
    raw = B(text) if enc == 'raw' else ref.b64dec(text)
    key = primary(name)
    if enc != 'raw':
        require(ref.b64enc(raw) == text, 'output is not one web-safe base64 text')
    want = 5 + 16 + (len(d) // 16 + 1) * 16 + 20
    require(len(raw) == want, 'output of %d bytes instead of %d', len(raw), want)
    if deep:
        got = ref.aes_decrypt(key['aes'], key['hmac'], raw)
        require(got == d, 'output is not a ciphertext of what was written: %r', got)
    else:
        require(ref.hmac_sha1(key['hmac'], raw[:-20]) == raw[-20:], 'tag of the output')
        require(raw[:5] == b'\0' + ref.aes_id(key['aes'], key['hmac']), 'header of the output')
    got = c.Decrypt(text, None) if enc == 'raw' else c.Decrypt(text)
    require(got == S(d), 'decrypting in one piece gives something else')
    require(stream_plain(c, text, enc) == S(d), 'decrypting as a stream gives something else')

SIZES = (0, 1, 15, 16, 17, 31, 32, 33)

def gen_c15_seq(ctx):
    for n in range(0, 5 if not ctx.thorough else 6):
        for head in itertools.product(SIZES, repeat=max(0, n - 1)):
            yield n, head

def parts_of(sizes, label=b'p'):
    d = inputs.pattern(sum(sizes), label)
    out, pos = [], 0
    for s in sizes:
        out.append(d[pos:pos + s])
        pos += s
    return out

def fn_c15_seq(ctx, p):
    n, head = p
    for last in (SIZES if n else (None, )):
        sizes = head + (() if last is None else (last, ))
        for enc in ('raw', 'b64'):
            written(ctx, 'aes128', enc, parts_of(sizes), deep=sum(sizes) <= 70)
            ctx.ev((last, enc))

def gen_c15_comp(ctx):
    for base in (0, 14, 30):
        for n in range(0, 9 if not ctx.thorough else 12):
            yield base, n

def fn_c15_comp(ctx, p):
    """all compositions of n bytes after one write of `base` bytes, with and without an empty write between"""
    base, n = p
    for cuts in range(1 << max(0, n - 1)):
        sizes, run = [base], 1
        for i in range(n):
            if i == n - 1 or cuts >> i & 1:
                sizes.append(run)
                run = 1
            else:
                run += 1
        for empty in range(-1, len(sizes)) if n < 6 else (-1, ):
            s = sizes if empty < 0 else sizes[:empty] + [0] + sizes[empty:]
            written(ctx, 'aes128', 'raw' if cuts % 2 else 'b64', parts_of(s), deep=False)
            ctx.ev((cuts, empty))

def gen_c15_uni(ctx):
    for name in SETS:
        for total in list(range(0, 71)) + [127, 128, 129, 255, 256, 257]:
            yield name, total

def fn_c15_uni(ctx, p):
    name, total = p
    d = inputs.pattern(total)
    for chunk in (1, 2, 3, 5, 7, 8, 15, 16, 17, 31, 32, 33, 64, 300):
        for enc in ('raw', 'b64'):
            written(ctx, name, enc, [d[i:i + chunk] for i in range(0, total, chunk)], deep=chunk in (1, 16, 17))
            ctx.ev((chunk, enc))

def gen_c15_big(ctx):
    for n in (1023, 1024, 4095, 4096, 4097, 8192, 10000, 65536, 70001) + ((1 << 20, (1 << 22) + 5) if ctx.thorough else ()):
        for chunk in (64, 100, 1000, 4096, 1 << 24):
            if n < 50000 or chunk > 64:
                yield n, chunk

def fn_c15_big(ctx, p):
    n, chunk = p
    d = inputs.pattern(n)
    for enc in ('raw', 'b64'):
        written(ctx, 'aes128', enc, [d[i:i + chunk] for i in range(0, n, chunk)], deep=False)
        ctx.ev(enc)

def gen_c15_content(ctx):
    sp = inputs.special()
    for i in range(0, len(sp), 16):
        yield i

def fn_c15_content(ctx, i):
    for d in inputs.special()[i:i + 16]:
        for cut in {0, 1, len(d) // 2, len(d) - 1}:
            for enc in ('raw', 'b64'):
                written(ctx, 'multi', enc, [d[:cut], d[cut:]], deep=cut == 0)
                ctx.ev((d, cut, enc))

def gen_c15_inter(ctx):
    """all interleavings of the writes of two or three streams"""
    for sizes in ((1, 16, 0, 17), (16, 16, 1), (15, 1, 33), (0, 0, 1)):
        for other in ((16, 1, 15), (33, ), (7, 7, 7, 7)):
            yield sizes, other

def fn_c15_inter(ctx, p):
    c = crypter_of('multi')
    scripts = [parts_of(p[0], b'a'), parts_of(p[1], b'b')]
    total = len(scripts[0]) + len(scripts[1]) + 2
    for enc in (('raw', 'raw'), ('b64', 'b64'), ('raw', 'b64')):
        for where in itertools.combinations(range(total), len(scripts[0]) + 1):
            outs = [Sink(), Sink()]
            ws = [writer(c, outs[i], enc[i]) for i in range(2)]
            pos = [0, 0]
            for t in range(total):
                i = 0 if t in where else 1
                if pos[i] < len(scripts[i]):
                    ws[i].write(S(scripts[i][pos[i]]))
                else:
                    ws[i].flush()
                pos[i] += 1
                if t == total // 2:   # a one-shot operation in between
                    require(c.Decrypt(c.Encrypt('between')) == 'between', 'one-shot operation between the writes')
            for i in range(2):
                judge(c, 'multi', enc[i], b''.join(scripts[i]), outs[i].text, deep=False)
            ctx.ev((enc, where))

def refused(f, *args):
    try:
        f(*args)
    except Exception:
        return True
    return False

class Closable(Sink):
    closed = False

    def close(self):
        self.closed = True

def gen_c15_file(ctx):
    for enc in ('raw', 'b64'):
        for n in list(range(0, 50)) + [8191, 8192, 8193, 20000]:
            yield enc, n

def fn_c15_file(ctx, p):
    """a file as the output stream: after the flush another reader of the file finds the whole ciphertext"""
    enc, n = p
    c = crypter_of('aes128')
    d = env.fresh_dir()
    path = d + '/out'
    with open(path, 'w', encoding='latin-1', newline='') as out:
        w = writer(c, out, enc)
        w.write(S(inputs.pattern(n)))
        w.flush()
        with open(path, encoding='latin-1', newline='') as fh:
            judge(c, 'aes128', enc, inputs.pattern(n), fh.read(), deep=n < 100)
    env.rmdir(d)

def gen_c15_closed(ctx):
    for enc in ('raw', 'b64'):
        for flush in (0, 1):
            for sizes in [()] + [(a, ) for a in SIZES] + [(a, b) for a in SIZES for b in SIZES]:
                yield enc, flush, sizes

def fn_c15_closed(ctx, p):
    """a closed stream takes nothing more, changes nothing that was written, and leaves the output stream open"""
    enc, flush, sizes = p
    c = crypter_of('aes128')
    parts = parts_of(sizes)
    out = Closable()
    w = writer(c, out, enc)
    for x in parts:
        w.write(S(x))
    if flush:
        w.flush()
    before = out.text
    w.close()
    require(not out.closed, 'the output stream is closed')
    require(out.text == before, 'closing writes something')
    if flush:
        judge(c, 'aes128', enc, b''.join(parts), before)
    for f, args in ((w.write, ('x', )), (w.write, ('y' * 32, )), (w.flush, ()), (w.write, ('', ))):
        require(refused(f, *args), 'a closed stream accepts %s', f.__name__)
    require(out.text == before, 'a closed stream writes something')

@prop('C15', 'exploration', RULE,
      'systematic exploration of all write sequences of the real encrypting stream up to length 4 over boundary sizes, '
      'all compositions, all interleavings of two streams',
      'All write sequences of up to 4 writes over {0,1,15,16,17,31,32,33} bytes, all compositions of up to 8 bytes at '
      'three block offsets with empty writes, uniform chunks of totals 0..70, sizes up to 70 kB, two interleaved streams; '
      'closing with and without a flush; output streams that buffer until they are flushed, and files; each output is decrypted by an independent AES-CBC/HMAC, in one piece and as a stream.')
def c15():
    return [Family('sequences', gen_c15_seq, fn_c15_seq), Family('compositions', gen_c15_comp, fn_c15_comp),
            Family('uniform', gen_c15_uni, fn_c15_uni), Family('big', gen_c15_big, fn_c15_big),
            Family('contents', gen_c15_content, fn_c15_content), Family('interleaved', gen_c15_inter, fn_c15_inter),
            Family('key-bytes', gen_keys, fn_keys), Family('closed', gen_c15_closed, fn_c15_closed), Family('files', gen_c15_file, fn_c15_file)]

# ---------------------------------------------------------------- C16
LENS = (0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49)

def genuine(name, n, keyno=-1):
    key = SETS[name]()[keyno]
    d = inputs.pattern(n, b'plain')
    return d, ref.aes_encrypt(key['aes'], key['hmac'], inputs.pattern(16, b'iv%d' % n), d)

def drain(r, src, want, sizes, limit=20000):
    """read with the given sizes (the last repeated) until the end is reported"""
    got, k = '', 0
    while True:
        n = sizes[min(k, len(sizes) - 1)]
        k += 1
        require(k < limit, 'the end is never reported')
        x = r.read(n) if n is not None else r.read()
        if x is None:
            require(src.pos < len(src.text) or src.idle or got != want, 'no data yet reported after the end')
            continue
        require(type(x) is str, 'returned a %s', type(x).__name__)
        require(n is None or n < 0 or len(x) <= n, 'read(%s) returned %d bytes', n, len(x))
        if x == '':
            require(got == want, 'end reported after %d of %d bytes', len(got), len(want))
            break
        got += x
        require(want.startswith(got), 'read %r, not %r', got[-20:], want[len(got) - len(x):len(got)][-20:])
    src.nodata = 0
    for _ in range(2):
        require(r.read(sizes[-1] if sizes[-1] is not None else -1) == '', 'something is read after the end')

class Chunks(Source):
    """delivers at most `chunk` per read, with no-data answers where the choices say"""
    def __init__(self, text, ch, chunk, nodata=0):
        Source.__init__(self, text, ch, nodata)
        self.chunk = chunk

    def read(self, size=-1):
        self.reads += 1
        require(self.reads < 50000, 'the source is read without end')
        if self.nodata:
            c = self.ch(3)
            if c:
                self.nodata -= 1
                self.idle += 1
                if c == 1:
                    return None
                raise BlockingIOError(11, 'would block')
        k = self.chunk if size is None or size < 0 else min(size, self.chunk)
        r = self.text[self.pos:self.pos + k]
        self.pos += len(r)
        return r

def gen_c16_dev(ctx):
    """all placements of up to two deviations (short read, None, would block) in otherwise full deliveries"""
    for n in LENS:
        for enc in ('raw', 'b64'):
            for size in (None, 1, 16, 1000):
                for nodata, shorts in ((1, 1), (2, 0), (0, 2)) + (((2, 1), (1, 2)) if ctx.thorough else ()):
                    yield n, enc, size, nodata, shorts

def fn_c16_dev(ctx, p):
    n, enc, size, nodata, shorts = p
    d, raw = genuine('aes128', n)
    text = encode(enc, raw)
    c = crypter_of('aes128')
    def run(ch):
        src = Source(text, ch, nodata, shorts)
        drain(reader(c, src, enc), src, S(d), (size, ))
    k = 0
    for ch, _ in explore(run):
        k += 1
        require(k < 500000, 'too many')
    ctx.many(k)

def gen_c16_chunk(ctx):
    """uniform delivery chunks x uniform read sizes x buffer sizes, with one no-data answer anywhere"""
    for n in LENS + ((63, 64, 65, 100) if ctx.thorough else (64, 100)):
        for enc in ('raw', 'b64'):
            for chunk in (1, 2, 3, 4, 5, 7, 15, 16, 17, 20, 21, 1000):
                yield n, enc, chunk

def fn_c16_chunk(ctx, p):
    n, enc, chunk = p
    d, raw = genuine('multi', n, n % 3)
    text = encode(enc, raw)
    c = crypter_of('multi')
    for size in (None, -1, 1, 2, 7, 15, 16, 17, 32, 33, 4096):
        for buf in ((None, ) if size not in (None, 16, 4096) else (None, -1, 0, 1, 15, 16, 17, 33, 4096)):
            src = Chunks(text, None, chunk)
            drain(reader(c, src, enc, buf), src, S(d), (size, ))
            ctx.ev((size, buf))
    for size in (None, 1, 17):
        def run(ch):
            src = Chunks(text, ch, chunk, 1)
            drain(reader(c, src, enc), src, S(d), (size, ))
        ctx.many(sum(1 for _ in explore(run)))

READS = (1, 2, 15, 16, 17, 40, None)

def gen_c16_reads(ctx):
    """all sequences of three read sizes, then every repeated size"""
    for n in LENS:
        for enc in ('raw', 'b64'):
            for first in READS:
                yield n, enc, first

def fn_c16_reads(ctx, p):
    n, enc, first = p
    d, raw = genuine('aes256', n)
    text = encode(enc, raw)
    c = crypter_of('aes256')
    for a, b in itertools.product(READS, repeat=2):
        for last in (1, 16, None):
            for chunk in (1 << 20, 3):
                src = Chunks(text, None, chunk)
                drain(reader(c, src, enc), src, S(d), (first, a, b, last))
                ctx.ev((a, b, last, chunk))

def gen_c16_big(ctx):
    for n in (255, 256, 1023, 1024, 4059, 4060, 4095, 4096, 4097, 8192, 10000) + ((65536, 200000) if ctx.thorough else ()):
        for enc in ('raw', 'b64'):
            yield n, enc

def fn_c16_big(ctx, p):
    n, enc = p
    d, raw = genuine('aes128', n)
    text = encode(enc, raw)
    c = crypter_of('aes128')
    for chunk in (100, 4096, 1 << 20):
        for size in (None, 57, 100, 1000, 4096, 1 << 20):
            for buf in (None, -1, 16, 1000, 4096):
                src = Chunks(text, None, chunk)
                drain(reader(c, src, enc, buf), src, S(d), (size, ))
                ctx.ev((chunk, size, buf))
    r = reader(c, io.StringIO(text), enc)
    got = ''
    while True:
        x = r.read(333)
        if x == '':
            break
        got += x or ''
    require(got == S(d), 'reading from a StringIO')

def gen_c16_contents(ctx):
    sp = inputs.special()
    for i in range(0, len(sp), 16):
        yield i

def fn_c16_contents(ctx, i):
    """plaintexts with special contents (in particular, ones that look like padding)"""
    key = env.AES(128)
    c = crypter_of('aes128')
    for d in inputs.special()[i:i + 16]:
        raw = ref.aes_encrypt(key['aes'], key['hmac'], inputs.pattern(16, b'iv'), d)
        for enc in ('raw', 'b64'):
            for size in (None, 1, 16):
                src = Chunks(encode(enc, raw), None, 1 << 20)
                drain(reader(c, src, enc), src, S(d), (size, ))
                ctx.ev((d, enc, size))

def gen_c16_inter(ctx):
    return itertools.product((0, 1, 16, 33), (1, 17, 48), ('raw', 'b64'))

def fn_c16_inter(ctx, p):
    """two streams of one crypter read in all interleavings (first 6 steps), then in turn"""
    a, b, enc = p
    c = crypter_of('multi')
    data = [genuine('multi', a, 0), genuine('multi', b, 2)]
    for order in itertools.product((0, 1), repeat=6):
        rs = [reader(c, io.StringIO(encode(enc, raw)), enc) for _, raw in data]
        got, done = ['', ''], [False, False]
        def step(i):
            if not done[i]:
                x = rs[i].read(7)
                if x == '':
                    done[i] = True
                got[i] += x or ''
        for i in order:
            step(i)
        for _ in range(200):
            step(0), step(1)
        require(got == [S(d) for d, _ in data] and all(done), 'streams read in turn disturb each other')
        ctx.ev(order)

class ClosableSource(io.StringIO):
    pass

def gen_c16_closed(ctx):
    for enc in ('raw', 'b64'):
        for n in LENS:
            for size in (-1, 1, 16, 17, 100):
                for k in range(0, 4):
                    yield enc, n, size, k

def fn_c16_closed(ctx, p):
    """a stream that was closed after k reads refuses to read, and leaves the source open"""
    enc, n, size, k = p
    c = crypter_of('multi')
    d, raw = genuine('multi', n)
    src = ClosableSource(encode(enc, raw))
    r = reader(c, src, enc)
    got = ''
    for _ in range(k):
        got += r.read(size) or ''
    require(S(d).startswith(got), 'wrong data')
    r.close()
    require(not src.closed, 'the source is closed')
    for s in (-1, 1, size):
        require(refused(r.read, s), 'a closed stream can be read')

def gen_c16_zero(ctx):
    return itertools.product(LENS, ('raw', 'b64'), (1, 5, 16, 1000), (1, 16, 40, None))

def fn_c16_zero(ctx, p):
    """requests for no characters, at every subset of the first five reads, change nothing of what is read"""
    n, enc, chunk, size = p
    d, raw = genuine('multi', n, n % 3)
    text = encode(enc, raw)
    c = crypter_of('multi')
    def run(ch):
        src = Chunks(text, None, chunk)
        r = reader(c, src, enc)
        class Zeros:
            k = 0
            def read(self, *a):
                self.k += 1
                if ch(2) if self.k <= 5 else self.k % 3 == 0:
                    x = r.read(0)
                    require(x is None or x == '', 'a request for no characters returned %r', x)
                return r.read(*a)
        drain(Zeros(), src, S(d), (size, ))
    ctx.many(sum(1 for _ in explore(run)))

@prop('C16', 'exploration', RULE,
      'systematic exploration of delivery schedules and read sequences of the real decrypting stream (choice-sequence '
      'DFS with a deviation bound)',
      'For 11 plaintext lengths around block boundaries, raw and base64: every placement of up to two deviations (short '
      'read, None, would-block error), all uniform delivery chunks and read sizes, all sequences of three read sizes, '
      'buffer sizes, two interleaved streams; ciphertexts come from an independent implementation.',
      ['a source that has no data yet has some after finitely many attempts'])
def c16():
    return [Family('deviations', gen_c16_dev, fn_c16_dev), Family('chunks', gen_c16_chunk, fn_c16_chunk),
            Family('read-sequences', gen_c16_reads, fn_c16_reads), Family('big', gen_c16_big, fn_c16_big),
            Family('contents', gen_c16_contents, fn_c16_contents),
            Family('key-bytes', gen_keys, fn_keys), Family('interleaved', gen_c16_inter, fn_c16_inter), Family('closed', gen_c16_closed, fn_c16_closed),
            Family('zero-reads', gen_c16_zero, fn_c16_zero)]

# ---------------------------------------------------------------- C17
def must_fail(c, text, enc, chunk, size, what, nodata=None):
    src = Chunks(text, nodata, chunk, 1 if nodata else 0)
    r = reader(c, src, enc)
    failed = None
    for _ in range(5000):
        try:
            x = r.read(size) if size is not None else r.read()
        except K.errors.KeyczarError as e:
            failed = type(e).__name__
            break
        if x is None:
            continue
        require(x != '', 'the end is reported for an altered stream (%r)', what)
        require(size is None or size < 0 or len(x) <= size, 'read returned too much')
    require(failed, 'neither an error nor the end (%r)', what)
    for _ in range(3):     # no later read reports the end either
        try:
            x = r.read(size) if size is not None else r.read()
        except K.errors.KeyczarError:
            continue
        require(x != '', 'after the error, the end is reported for an altered stream (%r)', what)
    return failed

def is_genuine(name, raw):
    for key in SETS[name]():
        if raw[:5] == b'\0' + ref.aes_id(key['aes'], key['hmac']) and len(raw) >= 57 and len(raw) % 16 == 9 and \
                ref.hmac_sha1(key['hmac'], raw[:-20]) == raw[-20:]:
            return True
    return False

WAYS = list(itertools.product((1, 5, 16, 1 << 20), (None, 1, 7, 16, 1000)))

def gen_c17_alter(ctx):
    for n in (0, 5, 16, 33) + ((15, 31, 48) if ctx.thorough else ()):
        for part in range(8):
            yield n, part

def fn_c17_alter(ctx, p):
    n, part = p
    d, raw = genuine('aes128', n)
    c = crypter_of('aes128')
    full = n in (0, 16)
    for i, (what, m) in enumerate(inputs.mutants(raw, full_values=full, ranges=n < 16)):
        if i % 8 != part or is_genuine('aes128', m):
            continue
        structural = what[0] != 'set'
        for chunk, size in WAYS if structural else [WAYS[(i // 8) % len(WAYS)], WAYS[(i // 8 * 7 + 3) % len(WAYS)]]:
            ctx.ev((what, chunk, size), must_fail(c, S(m), 'raw', chunk, size, what))
        if structural:
            for size in (None, 1, 16):
                ctx.ev((what, 'b64', size), must_fail(c, ref.b64enc(m), 'b64', 1 << 20, size, what))
        else:
            ctx.ev((what, 'b64'), must_fail(c, ref.b64enc(m), 'b64', 1 << 20, (None, 1, 16)[i % 3], what))

def gen_c17_bits(ctx):
    for n in (0, 15, 16, 32, 47):
        for part in range(4):
            yield n, part

def fn_c17_bits(ctx, p):
    """every bit, with every delivery and read size"""
    n, part = p
    d, raw = genuine('multi', n, n % 3)
    c = crypter_of('multi')
    for bit in range(part, len(raw) * 8, 4):
        m = bytearray(raw)
        m[bit // 8] ^= 1 << bit % 8
        for chunk, size in WAYS:
            ctx.ev((bit, chunk, size), must_fail(c, S(bytes(m)), 'raw', chunk, size, ('bit', bit)))

def gen_c17_cut(ctx):
    for n in (0, 1, 15, 16, 17, 32, 48, 100):
        for enc in ('raw', 'b64'):
            yield n, enc

def fn_c17_cut(ctx, p):
    """every truncation and many extensions, with every delivery and read size, and with a no-data answer anywhere"""
    n, enc = p
    d, raw = genuine('aes192', n)
    c = crypter_of('aes192')
    for m in [raw[:i] for i in range(len(raw))] + [raw + bytes(k) for k in range(1, 50)] + \
            [raw + raw[:k] for k in range(1, len(raw) + 1)] + [raw + raw[-k:] for k in range(1, 41)]:
        for chunk, size in WAYS:
            ctx.ev((m, chunk, size), must_fail(c, encode(enc, m), enc, chunk, size, ('length', len(m), len(raw))))
        if n in (0, 16):
            def run(ch):
                return must_fail(c, encode(enc, m), enc, 16, None, ('length', len(m), 'idle'), ch)
            ctx.many(sum(1 for _ in explore(run)), 'idle')
    if enc == 'b64':
        text = ref.b64enc(raw)
        for i in range(len(text)):
            if ref.b64dec(text[:i]) == raw:
                continue
            for chunk, size in WAYS:
                ctx.ev((i, chunk, size), must_fail(c, text[:i], enc, chunk, size, ('text', i)))

def gen_c17_text(ctx):
    for n in (0, 5, 16):
        for part in range(4):
            yield n, part

AL = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'

def fn_c17_text(ctx, p):
    """every single-character change of the base64 text that changes the decoded bytes"""
    n, part = p
    d, raw = genuine('aes128', n)
    text = ref.b64enc(raw)
    c = crypter_of('aes128')
    for i in range(part, len(text), 4):
        for ch in AL:
            m = text[:i] + ch + text[i + 1:]
            if ref.b64dec(m) == raw:
                continue
            ctx.ev((i, ch), must_fail(c, m, 'b64', 1 << 20, (None, 1, 16)[(i + ord(ch)) % 3], ('char', i, ch)))

def gen_c17_splice(ctx):
    return itertools.product(range(3), range(3), (0, 16, 33))

def fn_c17_splice(ctx, p):
    """prefix of one genuine stream, suffix of another one (other key, other data)"""
    a, b, n = p
    c = crypter_of('multi')
    _, x = genuine('multi', n, a)
    _, y = genuine('multi', n + 1, b)
    for i in range(0, len(x) + 1):
        for j in {i, len(y) - len(x) + i, len(y) - 20, 5, 21, 0}:
            if 0 <= j <= len(y):
                m = x[:i] + y[j:]
                if is_genuine('multi', m):
                    continue
                for size in (None, 16):
                    ctx.ev((i, j, size), must_fail(c, S(m), 'raw', 16, size, ('splice', i, j)))

def gen_c17_other(ctx):
    return itertools.product(('aes128', 'aes256', 'multi'), (0, 16, 40))

def fn_c17_other(ctx, p):
    """streams made with a key that the set does not hold, or a header alone kept genuine"""
    name, n = p
    c = crypter_of(name)
    held = SETS[name]()
    for key in env.FIX['aes']:
        if any(k['aes'] == key['aes'] and k['hmac'] == key['hmac'] for k in held):
            continue
        raw = ref.aes_encrypt(key['aes'], key['hmac'], inputs.pattern(16, b'o'), inputs.pattern(n))
        k0 = held[0]
        forged = b'\0' + ref.aes_id(k0['aes'], k0['hmac']) + raw[5:]
        halves = [ref.aes_encrypt(k0['aes'], key['hmac'], inputs.pattern(16, b'o'), inputs.pattern(n)),
                  ref.aes_encrypt(key['aes'], key['hmac'], inputs.pattern(16, b'o'), inputs.pattern(n))]
        for m in [raw, forged] + halves + [b'\0' + ref.aes_id(k0['aes'], k0['hmac']) + h[5:] for h in halves]:
            for chunk, size in WAYS:
                ctx.ev((key['aes'], m[:5], chunk, size), must_fail(c, S(m), 'raw', chunk, size, 'other key'))

def gen_c17_pad(ctx):
    return ['aes128', 'aes192', 'aes256', 'multi']

def fn_c17_pad(ctx, name):
    """rightly tagged, but the body is not a padded plaintext"""
    k = primary(name)
    for what, m in ref.bad_paddings(k['aes'], k['hmac'], inputs.pattern(16, b'pad')):
        for chunk, size in WAYS if what[0] != 'padding' or ctx.thorough else WAYS[:2]:
            ctx.ev((what, chunk, size), must_fail(crypter_of(name), S(m), 'raw', chunk, size, what))

def gen_c17_long(ctx):
    return itertools.product((1000, 4096, 8200), ('raw', 'b64'))

def fn_c17_long(ctx, p):
    """long streams: changes and cuts at every region boundary"""
    n, enc = p
    d, raw = genuine('aes128', n)
    c = crypter_of('aes128')
    L = len(raw)
    spots = sorted({0, 1, 4, 5, 20, 21, 36, 37, L // 2, L - 53, L - 37, L - 36, L - 21, L - 20, L - 19, L - 1} |
                   set(range(16, L, 509)))
    for i in spots:
        m = bytearray(raw)
        m[i] ^= 0x40
        for v in (bytes(m), raw[:i], raw[:i] + raw[i + 16:] if i < L - 16 else raw[:i]):
            for size in (None, 100, 4096):
                ctx.ev((i, len(v), size), must_fail(c, encode(enc, v), enc, 4096, size, ('long', i)))

@prop('C17', 'exploration', RULE,
      'exhaustive enumeration of single alterations, truncations, extensions and splices x deliveries x read sizes on the '
      'real decrypting stream',
      'Every byte value at every position of one- and two-block streams, every bit x 20 delivery/read-size combinations, '
      'every truncation and every listed extension x the same combinations and with a no-data answer at every point, '
      'every character of base64 streams, all splice points; reads go on after the error. Genuineness is decided by an '
      'independent HMAC.')
def c17():
    return [Family('altered', gen_c17_alter, fn_c17_alter), Family('bits', gen_c17_bits, fn_c17_bits),
            Family('length', gen_c17_cut, fn_c17_cut), Family('text', gen_c17_text, fn_c17_text),
            Family('splices', gen_c17_splice, fn_c17_splice), Family('other-keys', gen_c17_other, fn_c17_other),
            Family('padding', gen_c17_pad, fn_c17_pad),
            Family('long', gen_c17_long, fn_c17_long)]
