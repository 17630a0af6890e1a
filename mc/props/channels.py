"""C34 what a rejection reveals, C35 use leaves no traces, C36 secrets in messages."""
import ast
import gc
import importlib
import importlib.abc
import importlib.machinery
import io
import os
import sys
import types

from .. import env, inputs, ref
from ..core import Family, Violation, require
from ..env import B, K, S
from .crypt import RULE
from .registry import prop
from .sign import key_id

# ---------------------------------------------------------------- C34
# The work of an operation is the number of bytecode instructions that it
# executes in the package. It is counted by the interpreter's own monitoring.
MON = sys.monitoring
TOOL = 3
_count = [0]
_prefix = None

def _instruction(code, offset):
    if code.co_filename.startswith(_prefix):
        _count[0] += 1
    else:
        return MON.DISABLE

class Counting:
    """Counts the instructions of the package while it is active."""
    def __enter__(self):
        global _prefix
        _prefix = os.path.join(env.SRC, 'keyczar') + os.sep
        if MON.get_tool(TOOL) is None:
            MON.use_tool_id(TOOL, 'work')
            MON.register_callback(TOOL, MON.events.INSTRUCTION, _instruction)
        MON.set_events(TOOL, MON.events.INSTRUCTION)
        gc.disable()
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        gc.enable()

def outcome(fn, *a):
    try:
        r = fn(*a)
    except Exception as e:
        return type(e).__name__, str(e)
    return 'result', repr(r)

def measured(fn, *a):
    _count[0] = 0
    o = outcome(fn, *a)
    return o, _count[0]

class Ops:
    """Operations that check an HMAC tag. `mods` is the set of modules to use."""
    def __init__(self, mods, variant=0):
        m = self.m = mods
        kz = m.keyczar
        aes = [[(1, 'PRIMARY', env.AES(128))], [(3, 'ACTIVE', env.AES(192)), (2, 'PRIMARY', env.AES(256))]][variant]
        hk = [[(1, 'PRIMARY', env.HMAC())], [(1, 'ACTIVE', env.HMAC(1)), (2, 'PRIMARY', env.HMAC()), (3, 'INACTIVE', env.HMAC(2))]][variant]
        self.c = kz.Crypter(env.keyset(aes, env.CRYPT))
        self.s = kz.Signer(env.keyset(hk, env.SIGN))
        self.us = kz.UnversionedSigner(env.keyset(hk, env.SIGN))
        se = kz.SessionEncrypter(self.c)
        self.sd = kz.SessionDecrypter(self.c, se.session_material)
        sse = kz.SignedSessionEncrypter(self.c, self.s)
        self.ssd = kz.SignedSessionDecrypter(self.c, self.s, sse.session_material)
        self.se, self.sse = se, sse

    def stream(self, x, n):
        r = self.c.CreateDecryptingStreamReader(io.StringIO(x, newline=''), None)
        out = ''
        while True:
            d = r.read(n)
            if d == '':
                return out
            out += d or ''

    def make(self, kind, n):
        """(operation on one raw value, genuine raw value); the value ends with the tag"""
        d = S(inputs.pattern(n))
        if kind == 'verify':
            return (lambda x: self.s.Verify(d, x, None)), self.s.Sign(d, None)
        if kind == 'unversioned':
            return (lambda x: self.us.Verify(d, x, None)), self.us.Sign(d, None)
        if kind == 'attached':
            return (lambda x: self.s.AttachedVerify(x, 'a nonce', None)), self.s.AttachedSign(d, 'a nonce', None)
        if kind == 'decrypt':
            return (lambda x: self.c.Decrypt(x, None)), self.c.Encrypt(d, None)
        if kind == 'verify-text':
            return (lambda x: self.s.Verify(d, env.w64(B(x)))), self.s.Sign(d, None)
        if kind == 'decrypt-text':
            return (lambda x: self.c.Decrypt(env.w64(B(x)))), self.c.Encrypt(d, None)
        if kind == 'stream':
            return (lambda x: self.stream(x, -1)), self.c.Encrypt(d, None)
        if kind == 'stream-7':
            return (lambda x: self.stream(x, 7)), self.c.Encrypt(d, None)
        if kind == 'session':
            return (lambda x: self.sd.Decrypt(x, None)), self.se.Encrypt(d, None)
        if kind == 'signed-session':    # takes text only
            return (lambda x: self.ssd.Decrypt(env.w64(B(x)))), S(env.u64(self.sse.Encrypt(d)))
        if kind == 'material':
            kz = self.m.keyczar
            return (lambda x: kz.SessionDecrypter(self.c, env.w64(B(x)))), S(env.u64(self.se.session_material))
        raise ValueError(kind)

KINDS34 = ('verify', 'unversioned', 'attached', 'decrypt', 'verify-text', 'decrypt-text', 'stream', 'stream-7',
           'session', 'signed-session', 'material')

def gen_c34(ctx):
    for kind in KINDS34:
        for n in ((0, 1, 15, 16, 33, 64, 255, 1000) if kind != 'material' else (0,)) + ((200, 4096) if ctx.thorough else ()):
            for variant in (0, 1):
                yield kind, n, variant

def form(kind):
    return 'text ' if kind in ('verify-text', 'decrypt-text', 'signed-session', 'material') else ''

def wrong(g, pos, x):
    """genuine value with the bytes of the tag at `pos` changed by `x`"""
    b = bytearray(B(g))
    for p in pos:
        b[len(b) - 20 + p] ^= x
    return S(bytes(b))

def same(ctx, ref_, got, what, *args):
    require(got[0] == ref_[0], '%s: ends with %s instead of %s', what % args, got[0], ref_[0])
    if what.startswith('text '):
        return                 # reading the text form may take any number of steps
    require(got[1] == ref_[1], '%s: takes %d steps instead of %d', what % args, got[1], ref_[1])

def refusal(o):
    return o[0] != 'result' or o[1] in ('False', 'None')

def fn_c34_tag(ctx, p):
    kind, n, variant = p
    ops = Ops(K, variant)
    fn, g = ops.make(kind, n)
    require(not refusal(outcome(fn, g)), '%s refuses a genuine value', kind)
    full = (ctx.thorough and n < 64) or (kind in ('verify', 'decrypt', 'unversioned') and n == 1 and not variant)
    with Counting():
        for _ in range(3):
            measured(fn, g)
            first = measured(fn, wrong(g, [0], 1))
        require(refusal(first[0]), 'a wrong tag is accepted: %s', first[0])
        k = 0
        for pos in range(20):
            for x in range(1, 256) if full else (1, 2, 4, 8, 16, 32, 64, 128, 255):
                same(ctx, first, measured(fn, wrong(g, [pos], x)), form(kind) + '%s, byte %d of the tag wrong', kind, pos)
                k += 1
        for m in range(2, 21) if n < 64 else (2, 20):
            base = None
            sets = [range(m), range(20 - m, 20), [(i * 7) % 20 for i in range(m)], list(range(m - 1)) + [19]]
            for ps in sets:
                for x in (1, 255):
                    r = measured(fn, wrong(g, sorted(set(ps)), x))
                    if base is None:
                        base = r
                    if len(set(ps)) == m:
                        same(ctx, base, r, form(kind) + '%s, %d bytes of the tag wrong', kind, m)
                    k += 1
            require(base[0] == first[0], '%s, %d bytes of the tag wrong: ends with %s instead of %s', kind, m, base[0], first[0])
    ctx.many(k, 'same work')
    return 'ok'

def gen_c34_body(ctx):
    for kind in ('decrypt', 'stream', 'session', 'signed-session', 'material'):
        for n in ((0, 1, 14, 15, 16, 17, 31, 32, 47) if kind != 'material' else (0,)) + ((160, 300) if ctx.thorough else ()):
            yield kind, n

def fn_c34_body(ctx, p):
    """whatever the altered body would decrypt to, good or bad padding, the refusal is the same"""
    kind, n = p
    ops = Ops(K)
    fn, g = ops.make(kind, n)
    b = B(g)
    lo = 5 + (4 if kind == 'signed-session' else 0)
    if kind == 'signed-session':
        lo += 5
    hi = len(b) - 20 - (25 if kind == 'signed-session' else 0)
    with Counting():
        for _ in range(3):
            measured(fn, g)
            first = measured(fn, wrong(g, [0], 1))
        require(refusal(first[0]), 'a wrong tag is accepted: %s', first[0])
        k = 0
        # the byte that decides the padding: last byte of the block before the last one
        for pos in range(lo, hi):
            deciding = hi - 32 <= pos < hi and kind in ('decrypt', 'stream')
            for x in range(1, 256) if (deciding or ctx.thorough) else (1, 2, 4, 8, 16, 128, 255):
                r = measured(fn, S(b[:pos] + bytes([b[pos] ^ x]) + b[pos + 1:]))
                same(ctx, first, r, form(kind) + '%s of %d bytes, byte %d altered', kind, n, pos)
                k += 1
    ctx.many(k, 'same refusal')
    return 'ok'

def gen_c34_oaep(ctx):
    for size, i in ((1024, 0), (1024, 1), (2048, 0)) + (((512, 0), (768, 0), (4096, 0)) if ctx.thorough else ()):
        for how in ('start', 'label', 'delimiter', 'several', 'numbers'):
            yield size, i, how

def fn_c34_oaep(ctx, p):
    """whichever part of the encoding of an RSA message is wrong"""
    size, i, how = p
    raw = env.RSA(size, i)
    n, e = raw['n'], raw['e']
    kk = ref.rsa_k(n)
    c = K.keyczar.Crypter(env.keyset([(1, 'PRIMARY', raw)], env.CRYPT))
    hdr = b'\0' + ref.rsa_id(n, e)
    seed = inputs.pattern(20, b'seed')
    ems = []
    top = n >> (8 * kk - 8)
    msgs = [b'', b'x', inputs.pattern(kk - 42)]
    if how == 'start':
        for first in range(1, top):
            ems += [ref.oaep_encode(kk, m, seed, first=first) for m in msgs]
    elif how == 'label':
        for pos in range(20):
            for x in (1, 0x80, 0xff):
                lh = bytearray(ref.LHASH)
                lh[pos] ^= x
                ems += [ref.oaep_encode(kk, m, seed, bytes(lh)) for m in msgs]
        ems += [ref.oaep_encode(kk, b'x', seed, x) for x in (bytes(20), b'\xff' * 20, ref.LHASH[::-1])]
    elif how == 'delimiter':
        for x in range(2, 256):
            ems.append(ref.oaep_encode(kk, b'x', seed, delim=bytes([x])))
        for m in msgs:
            ems.append(ref.oaep_encode(kk, m and b'\x07' + m[1:], seed, delim=b'' if m else b'\0'))
        ems += [ref.oaep_encode(kk, b'\x07' * l, seed, delim=b'') for l in range(1, kk - 41)]
        ems.append(ref.oaep_encode(kk, b'', seed, delim=b'\0'))
    elif how == 'several':
        for first in (0, 1, top - 1):
            for lh in (ref.LHASH, bytes(20)):
                for de in (b'\1', b'\2', b'\0'):
                    if first or lh != ref.LHASH or de != b'\1':
                        ems += [ref.oaep_encode(kk, m if de != b'\0' else b'', seed, lh, de, first) for m in msgs]
    else:
        ems += [v.to_bytes(kk, 'big') for v in (0, 1, 2, 255, 256, n - 1, n - 2, n >> 1, n >> 8, n >> 9)]
        ems += [(1 << b).to_bytes(kk, 'big') for b in range(0, size - 1, 8 if ctx.thorough else 32)]
    good = S(hdr + ref.rsa_raw_enc(n, e, ref.oaep_encode(kk, b'x', seed)))
    bad = S(hdr + ref.rsa_raw_enc(n, e, ref.oaep_encode(kk, b'x', seed, bytes(20))))
    dec = lambda x: c.Decrypt(x, None)
    require(outcome(dec, good) == ('result', repr('x')), 'Decrypt refuses a genuine value')
    first = outcome(dec, bad)
    require(refusal(first), 'a wrong encoding is accepted: %s', first)
    for em in ems:
        r = outcome(dec, S(hdr + ref.rsa_raw_enc(n, e, em)))
        require(r == first, 'RSA-%d message with a wrong encoding (%s, %s): ends with %s instead of %s', size, how, em[:24].hex(), r, first)
    ctx.many(len(ems), 'same refusal of an encoding')
    return 'ok'

# the comparisons: the package with every comparison made visible
_watch = None
METHODS = ('startswith', 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'replace', 'split', 'partition',
           'rpartition', '__eq__', '__ne__', '__contains__', 'removeprefix', 'removesuffix', 'strip', 'lstrip', 'rstrip')

def _norm(v):
    if isinstance(v, str):
        try:
            return v.encode('latin-1')
        except UnicodeError:
            return b''
    if isinstance(v, (bytes, bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, bool):
        return b''
    if isinstance(v, int) and v > 0:
        return v.to_bytes((v.bit_length() + 7) // 8, 'big')
    if isinstance(v, (list, tuple)):
        try:
            return b''.join(x.encode('latin-1') if isinstance(x, str) else bytes([x]) for x in v)
        except (TypeError, ValueError, UnicodeError, AttributeError):
            return b''
    return b''

def variants(t):
    return [t, t.hex().encode(), t.hex().upper().encode(), env.w64(t).encode()]

def part(v, forms):
    """is v a form of the tag, or a part of it of at least four bytes"""
    v = _norm(v)
    return len(v) >= 4 and any(v in f or f in v for f in forms)

def see(l, r):
    if _watch is None or l is r:
        return
    t, w, hits = _watch
    if (part(l, t) and part(r, w)) or (part(l, w) and part(r, t)):
        # a part that is the same in both tells nothing
        if _norm(l) != _norm(r):
            hits.append((l, r))

def _kz_cmp(op, l, r):
    see(l, r)
    if op in ('In', 'NotIn') and isinstance(r, (list, tuple, set, frozenset, dict)):
        for x in list(r)[:100]:
            see(l, x)
    if op == 'Eq':
        return l == r
    if op == 'NotEq':
        return l != r
    if op == 'In':
        return l in r
    if op == 'NotIn':
        return l not in r
    if op == 'Lt':
        return l < r
    if op == 'LtE':
        return l <= r
    if op == 'Gt':
        return l > r
    return l >= r

def _kz_call(obj, name, *a, **kw):
    if a:
        see(obj, a[0])
    return getattr(obj, name)(*a, **kw)

def _kz_two(fn, *a, **kw):
    if len(a) == 2:
        see(a[0], a[1])
    return fn(*a, **kw)

class Visible(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]).__name__ in ('Eq', 'NotEq', 'In', 'NotIn', 'Lt', 'LtE', 'Gt', 'GtE'):
            return ast.copy_location(ast.Call(ast.Name('_kz_cmp', ast.Load()), [
                ast.Constant(type(node.ops[0]).__name__), node.left, node.comparators[0]], []), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            return ast.copy_location(ast.Call(ast.Name('_kz_call', ast.Load()), [f.value, ast.Constant(f.attr)] + node.args,
                                              node.keywords), node)
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if name in ('eq', 'ne', 'contains', 'cmp', 'lt', 'gt') and len(node.args) == 2:
            return ast.copy_location(ast.Call(ast.Name('_kz_two', ast.Load()), [f] + node.args, node.keywords), node)
        return node

class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(ast.fix_missing_locations(Visible().visit(tree)), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(_kz_cmp=_kz_cmp, _kz_call=_kz_call, _kz_two=_kz_two)
        super().exec_module(module)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'keyczar' and not name.startswith('keyczar.'):
            return None
        base = os.path.join(env.SRC, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(name, base + '.py'))

_visible = None

def _ours():
    return [k for k in sys.modules if k == 'keyczar' or k.startswith('keyczar.')]

class Visible2:
    """A second instance of the package, in which comparisons can be seen, takes the place of the first."""
    def __enter__(self):
        global _visible
        self.old = {k: sys.modules.pop(k) for k in _ours()}
        if _visible is None:
            f = Finder()
            sys.meta_path.insert(0, f)
            try:
                m = types.SimpleNamespace(**{m: importlib.import_module('keyczar.' + m) for m in (
                    'errors', 'util', 'keyinfo', 'keydata', 'keyczar', 'keys', 'readers', 'writers')})
            finally:
                sys.meta_path.remove(f)
            _visible = (m, {k: sys.modules[k] for k in _ours()})
        sys.modules.update(_visible[1])
        return _visible[0]

    def __exit__(self, *a):
        for k in _ours():
            del sys.modules[k]
        sys.modules.update(self.old)

def fn_c34_cmp(ctx, p):
    with Visible2() as m:
        return compared(ctx, p, m)

def compared(ctx, p, m):
    global _watch
    kind, n, variant = p
    ops = Ops(m, variant)
    fn, g = ops.make(kind, n)
    k = 0
    for pos in range(20):
        for more in ([pos], range(pos, 20), range(pos + 1)):
            w = wrong(g, more, 0x55)
            hits = []
            _watch = (variants(B(g)[-20:]), variants(B(w)[-20:]), hits)
            try:
                o = outcome(fn, w)
            finally:
                _watch = None
            require(refusal(o), 'a wrong tag is accepted: %s', o)
            require(not hits, '%s: the right and the wrong tag are compared with an operation that stops at the first difference', kind)
            k += 1
    ctx.many(k, 'not compared directly')
    return 'ok'

@prop('C34', 'exploration', RULE, 'exhaustive enumeration of wrong tags and altered bodies, with the executed instructions counted and all comparisons of the package monitored',
      'For eleven operations that check a tag, eight lengths, single keys and sets of keys: every value of every byte of the tag wrong, tags with 2 to 20 wrong bytes at four placements, '
      'every byte of IV and body altered (all values for the last two blocks, which decide the padding), RSA messages with every first byte, label hash, delimiter and combination of them wrong: outcome and (except for RSA) number of executed bytecode instructions of the '
      'package are the same. In an instance of the package in which every comparison and search is made visible, right and wrong tag never meet in one.',
      ['time spent in the libraries below the package is not measured', 'tags with different numbers of wrong bytes may take different work'])
def c34():
    return [Family('tags', gen_c34, fn_c34_tag, 600), Family('bodies', gen_c34_body, fn_c34_body, 600), Family('encodings', gen_c34_oaep, fn_c34_oaep), Family('comparisons', gen_c34, fn_c34_cmp)]

# ---------------------------------------------------------------- C35
_audit = None

WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
CHANGING = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime',
            'os.setxattr', 'os.removexattr', 'shutil.', 'tempfile.', 'subprocess.', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'os.spawn',
            'socket.connect', 'socket.bind', 'socket.sendto', 'os.putenv', 'os.unsetenv', 'os.chdir')

def _hook(event, args):
    if _audit is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITING and path not in ('/dev/null', b'/dev/null'):
            _audit.append('opens %r for writing' % (path, ))
    elif event.startswith(CHANGING):
        _audit.append('%s %r' % (event, args[:2]))

_hooked = False

def listening():
    global _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True

def tree(d):
    """everything that can be seen of a tree from outside, but not when it was read last"""
    out = {}
    for root, dirs, files in os.walk(d):
        for f in dirs + files + ['.']:
            p = os.path.join(root, f)
            s = os.lstat(p)
            out[os.path.relpath(p, d)] = (s.st_mode, s.st_uid, s.st_gid, s.st_ino, s.st_nlink, s.st_size, s.st_mtime_ns, s.st_ctime_ns,
                                          open(p, 'rb').read() if os.path.isfile(p) else None)
    return out

SETS35 = {
    'AES': (env.CRYPT, False, lambda i: env.FIX['aes'][i]), 'HMAC': (env.SIGN, False, lambda i: env.FIX['hmac'][i]),
    'RSA': (env.CRYPT, False, lambda i: env.RSA(1024, i)), 'RSA-sign': (env.SIGN, False, lambda i: env.RSA(1024, i)),
    'DSA': (env.SIGN, False, lambda i: env.DSA(i)), 'RSA-encrypt': (env.ENC, True, lambda i: env.RSA(1024, i)),
    'RSA-verify': (env.VER, True, lambda i: env.RSA(1024, i)), 'DSA-verify': (env.VER, True, lambda i: env.DSA(i))}
CLASSES35 = ('Crypter', 'Encrypter', 'Signer', 'Verifier', 'UnversionedSigner', 'UnversionedVerifier', 'GenericKeyczar')

def gen_c35(ctx):
    import itertools
    for name in SETS35:
        for n in (0, 1, 2) + ((3, ) if ctx.thorough else ()):
            for st in itertools.product(env.STATUSES, repeat=n):
                for how in ('plain', 'encrypted', 'damaged-meta', 'damaged-key', 'no-key'):
                    if n == 0 and how in ('damaged-key', 'no-key') or (how != 'plain' and SETS35[name][1]):
                        continue
                    yield name, st, how

def use(obj, mine):
    """everything that can be done with an opened set, genuine, altered and unfit inputs; yields what was tried"""
    text = 'some data to work with'
    kz = K.keyczar
    def t(fn, *a):
        try:
            return fn(*a)
        except K.errors.KeyczarError:
            return None
    def feed(fn, v):
        if not isinstance(v, str):
            return
        for x in (v, v[:-1], v[:7], '', 'A', v[:-3] + 'AAA', 'AAAA' + v[4:], 'AP' + v[2:], 'B' + v[1:], 'P' + v[1:], v + 'AAAA', '\x00\x01'):
            t(fn, x)
    yield str(obj)
    yield repr(obj)
    if hasattr(obj, 'Encrypt'):
        c = t(obj.Encrypt, text)
        t(obj.Encrypt, 'x' * 500)
        t(obj.Encrypt, text, None)
        yield 'encrypted'
        se = t(kz.SessionEncrypter, obj)
        m = se.Encrypt(text) if se else None
        yield 'session'
        out = io.StringIO(newline='')
        def stream():
            w = obj.CreateEncryptingStreamWriter(out)
            w.write(text)
            w.flush()
            w.close()
        try:
            stream()
        except (K.errors.KeyczarError, AttributeError, NotImplementedError):
            pass         # not for RSA
        yield 'stream'
        if hasattr(obj, 'Decrypt'):
            feed(obj.Decrypt, c)
            yield 'decrypted'
            def read(x):
                r = obj.CreateDecryptingStreamReader(io.StringIO(x, newline=''))
                while r.read(5) != '':
                    pass
                r.close()
            try:
                if mine == 'AES':
                    feed(read, c)
            except K.errors.KeyczarError:
                pass
            yield 'read'
            if se:
                feed(lambda x: kz.SessionDecrypter(obj, x).Decrypt(m), se.session_material)
                feed(lambda x: kz.SessionDecrypter(obj, se.session_material).Decrypt(x), m)
            yield 'session read'
            s = env.signer(env.HMAC())
            sse = t(kz.SignedSessionEncrypter, obj, s)
            if sse:
                feed(lambda x: kz.SignedSessionDecrypter(obj, s, x).Decrypt(sse.Encrypt(text)), sse.session_material)
                feed(lambda x: kz.SignedSessionDecrypter(obj, s, sse.session_material).Decrypt(x), sse.Encrypt(text))
            yield 'signed session'
    if hasattr(obj, 'Verify'):
        g = t(obj.Sign, text) if hasattr(obj, 'Sign') else 'AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA'
        feed(lambda x: obj.Verify(text, x), g)
        yield 'verified'
        if hasattr(obj, 'AttachedVerify'):
            g = t(obj.AttachedSign, text, 'n') if hasattr(obj, 'AttachedSign') else 'AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA'
            feed(lambda x: obj.AttachedVerify(x, 'n'), g)
            feed(lambda x: obj.AttachedVerify(x, 'other'), g)
            yield 'attached'
    if hasattr(obj, 'Promote'):
        for n in (1, 2, 3):
            t(obj.Promote, n)
            t(obj.Demote, n)
        yield 'changed in memory'

class Captured:
    """what is printed meanwhile"""
    def __enter__(self):
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err = io.StringIO(), io.StringIO()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.old

    def text(self):
        return self.out.getvalue() + self.err.getvalue()

def stored_set(name, st, how, crypter=None):
    purpose, public, raw = SETS35[name]
    d = env.fresh_dir()
    vs = [(i + 1, s, raw(i)) for i, s in enumerate(st)]
    r = env.keyset(vs, purpose, public=public, encrypted=how == 'encrypted', encrypt=crypter.Encrypt if how == 'encrypted' else None)
    if not vs:
        r.meta['type'] = {'AES': 'AES', 'HMAC': 'HMAC_SHA1'}.get(name, name[:3] + ('_PUB' if public else '_PRIV'))
    env.write_keyset(d, r)
    if how == 'damaged-meta':
        p = os.path.join(d, 'meta')
        text = open(p).read()
        open(p, 'w').write(text[:len(text) // 2])
    elif how == 'damaged-key':
        p = os.path.join(d, '1')
        text = open(p).read()
        open(p, 'w').write(text[:len(text) // 2])
    elif how == 'no-key':
        os.remove(os.path.join(d, '1'))
    for f in os.listdir(d):
        os.chmod(os.path.join(d, f), 0o400)
    os.chmod(d, 0o500)
    return d

def fds():
    return len(os.listdir('/proc/self/fd'))

def fn_c35(ctx, p):
    global _audit
    name, st, how = p
    kz = K.keyczar
    listening()
    crypter = env.crypter(env.AES(256))
    d = stored_set(name, st, how, crypter)
    before, where, environ = tree(d), os.getcwd(), dict(os.environ)
    k = 0
    for cls in CLASSES35:
        ways = [('Read', lambda c: c.Read(d)), ('reader', lambda c: c(K.readers.FileReader(d))), ('factory', lambda c: c(K.readers.CreateReader(d)))]
        if how == 'encrypted':
            ways.append(('crypter', lambda c: c(K.readers.EncryptedReader(K.readers.FileReader(d), crypter))))
        for way, fn in ways:
            _audit = log = []
            last = 'opening'
            open_before = fds()
            with Captured() as cap:
                try:
                    try:
                        obj = fn(getattr(kz, cls))
                    except Exception:
                        obj = None     # which error it is, is the matter of other properties
                    if obj is not None:
                        for last in use(obj, name):
                            k += 1
                finally:
                    _audit = None
                obj = None
            require(not log, '%s with %s (%s) of a %s set: %s, %s', cls, way, how, name, log[:1], last[:20])
            require(not cap.text(), '%s with %s of a %s set prints %r', cls, way, name, cap.text()[:80])
            require(tree(d) == before, '%s with %s changes the files of a %s set (%s)', cls, way, name, how)
            require(fds() <= open_before, '%s with %s of a %s set leaves a file open (%s)', cls, way, name, how)
            k += 1
    require(os.getcwd() == where and dict(os.environ) == environ, 'the process environment is changed')
    os.chmod(d, 0o700)
    env.rmdir(d)
    ctx.many(k, 'no trace')
    return 'ok'

@prop('C35', 'exploration', RULE, 'exhaustive enumeration of kinds of sets, status assignments, classes, operations and damages, with every file, process and network event of the interpreter monitored',
      'All classes on all kinds of sets with all status assignments of up to two (thorough: three) versions, plain, encrypted with and without the crypter, with damaged metadata, a '
      'damaged or a missing key, opened in four ways, with every operation on genuine, altered and unfit inputs: no file is opened for writing or '
      'changed (contents, times, rights), no process started, nothing printed, no file left open.',
      ['what the libraries below do without the interpreter noticing is seen only through the state of the tree'])
def c35():
    return [Family('use', gen_c35, fn_c35)]

# ---------------------------------------------------------------- C36
import base64
import json
import logging
import warnings

from .. import kzt

SECRET_TEXT = 'Tq7#very-private-words.91'
SECRET_NONCE = None

def spellings(v):
    """the ways in which a secret value may be written"""
    if isinstance(v, int):
        b = v.to_bytes((v.bit_length() + 7) // 8, 'big')
        return {str(v), '%x' % v, '%X' % v} | spellings(b) | spellings(b'\0' + b)
    out = {v.decode('latin-1'), v.hex(), v.hex().upper(), env.w64(v), base64.b64encode(v).decode(), repr(v.decode('latin-1'))[1:-1],
           repr(v)[2:-1], ', '.join(map(str, v)), json.dumps(v.decode('latin-1'))[1:-1], ascii(v.decode('latin-1'))[1:-1]}
    return out

def secrets_of(raw):
    out = set()
    for f in ('aes', 'hmac', 'd', 'x', 'dp', 'dq', 'invq') + (('p', 'q') if 'd' in raw else ()):
        if f in raw:
            out |= spellings(raw[f])
    return out

def windows(spelled):
    """twelve characters of a secret in a row are a disclosure (and at least half of it, if it is short)"""
    w = set()
    for s in spelled:
        n = min(len(s), 12)
        for i in range(0, max(1, len(s) - n + 1), 5):
            if len(set(s[i:i + n])) > 3:
                w.add(s[i:i + n])
        w.add(s[-n:] if len(set(s[-n:])) > 3 else s)
    return w

_windows = {}

def windows_of(raw):
    k = repr(sorted(raw.items()))
    if k not in _windows:
        _windows[k] = frozenset(windows(secrets_of(raw)))
    return _windows[k]

class Search:
    def __init__(self, raws, *more):
        self.w = set()
        for r in raws:
            self.w |= windows_of(r)
        for m in more:
            self.w |= windows(spellings(m))
        self.w.discard('')
        self.clean = set()

    def look(self, what, text, *args):
        if (text, len(self.w)) in self.clean:
            return
        self.clean.add((text, len(self.w)))
        for s in self.w:
            if s in text:
                raise Violation('%s shows a secret: %r' % (what % args if args else what, text[max(0, text.index(s) - 60):][:160]))

def shown(e):
    """all that is printed for an exception and the ones it came from"""
    out, seen = [], set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        out += [str(e), repr(e), repr(getattr(e, 'args', '')), type(e).__name__, repr(getattr(e, '__notes__', ''))]
        e = e.__cause__ or e.__context__
    return '\n'.join(out)

class Messages(Captured):
    """printed, logged and warned meanwhile"""
    def __enter__(self):
        super().__enter__()
        self.log = io.StringIO()
        self.handler = logging.StreamHandler(self.log)
        self.root = logging.getLogger()
        self.level = self.root.level
        self.root.addHandler(self.handler)
        self.root.setLevel(1)
        self.cm = warnings.catch_warnings(record=True)
        self.rec = self.cm.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        self.root.removeHandler(self.handler)
        self.root.setLevel(self.level)
        super().__exit__(*a)

    def text(self):
        return super().text() + self.log.getvalue() + '\n'.join(str(w.message) for w in self.rec)

def attempt(search, what, fn, *a):
    with Messages() as m:
        err = None
        try:
            r = fn(*a)
        except Exception as e:
            r, err = None, e
            text = shown(e)
    if err is not None:
        search.look(what, text)
    search.look(what, m.text())
    return r

def gen_c36_ops(ctx):
    for name in SETS35:
        for n in (1, 2):
            for prim in (True, False):
                yield name, n, prim

def altered(v, full):
    """v: raw value"""
    b = B(v)
    yield b
    for i in range(len(b)):
        for x in ((1, 0x80, 0xff) if full else (0x41, )):
            yield b[:i] + bytes([b[i] ^ x]) + b[i + 1:]
    for i in range(0, len(b), 1 if full else 5):
        yield b[:i]
    for x in (b'\0', b'\xff' * 16, b'\0' * 16, b[-20:]):
        yield b + x
        yield b[:5] + x + b[5:]
    yield from inputs.special(24)[::1 if full else 17]

def fn_c36_ops(ctx, p):
    name, n, prim = p
    kz = K.keyczar
    purpose, public, raw = SETS35[name]
    raws = [raw(i) for i in range(n)]
    pt = SECRET_TEXT
    search = Search(raws, pt.encode())
    vs = [(i + 1, 'PRIMARY' if prim and i == n - 1 else 'ACTIVE', r) for i, r in enumerate(raws)]
    r = env.keyset(vs, purpose, public=public)
    maker = env.keyset([v[:1] + ('PRIMARY' if v[0] == n else 'ACTIVE', v[2]) for v in vs], purpose, public=public)
    full = name in ('AES', 'HMAC') and n == 1
    k = 0
    objs = {}
    for cls in CLASSES35 + ('Keyczar', ):
        o = attempt(search, 'opening with ' + cls, getattr(kz, cls), r)
        if o is not None:
            objs[cls] = o
            search.look(cls, str(o) + repr(o) + str(o.metadata) + repr(o.metadata) + ''.join(map(str, o.versions)) + repr(o.versions))
        k += 1
    def feed(what, fn, g):
        nonlocal k
        if g is None:
            return
        for x in altered(g, full):
            attempt(search, what, fn, S(x))
            k += 1
    c = objs.get('Crypter') or objs.get('Encrypter')
    if c:
        for x in (pt, pt * 40, pt[:3]):
            attempt(search, 'Encrypt', c.Encrypt, x)
        attempt(search, 'Encrypt', c.Encrypt, None)
        for se in (attempt(search, 'session', kz.SessionEncrypter, c), attempt(search, 'signed session', kz.SignedSessionEncrypter, c, env.signer(env.HMAC(3)))):
            if se:
                search.look('session encrypter', str(se) + repr(se))
        out = io.StringIO(newline='')
        def stream(*a):
            w = c.CreateEncryptingStreamWriter(out)
            search.look('stream', str(w) + repr(w))
            w.write(pt)
            w.close()
            w.write(pt)
        attempt(search, 'stream', stream)
    if 'Crypter' in objs:
        c, w = objs['Crypter'], kz.Crypter(maker)
        g = w.Encrypt(pt, None)
        # the plaintext is the result here, so that it is not to be found in anything but the result
        feed('Decrypt', lambda x: c.Decrypt(x, None), g)
        if name == 'AES':
            def read(x):
                r = c.CreateDecryptingStreamReader(io.StringIO(x, newline=''), None)
                search.look('stream', str(r) + repr(r))
                for _ in range(200):
                    if r.read(5) == '':
                        break
                r.close()
                r.read()
            feed('stream', read, g)
        env.rng.log = log = []
        se = kz.SessionEncrypter(w)
        sse = attempt(search, 'signed session', kz.SignedSessionEncrypter, w, env.signer(env.HMAC()))   # too long for a small RSA key
        env.rng.log = None
        s2 = Search(raws + [env.HMAC()], pt.encode(), *[x for x in log if len(x) >= 16 and x not in B(g)])
        m = se.Encrypt(pt, None)
        def look2(what, fn, gen):
            nonlocal k
            for x in altered(gen, False):
                attempt(s2, what, fn, S(x))
                k += 1
        look2('SessionDecrypter', lambda x: kz.SessionDecrypter(c, env.w64(B(x))), env.u64(se.session_material))
        sd = attempt(search, 'session', kz.SessionDecrypter, c, se.session_material)
        if sd:
            search.look('session decrypter', str(sd) + repr(sd))
            look2('SessionDecrypter.Decrypt', lambda x: sd.Decrypt(x, None), m)
        if sse:
            sm = sse.Encrypt(pt)
            look2('SignedSessionDecrypter', lambda x: kz.SignedSessionDecrypter(c, env.signer(env.HMAC()), env.w64(B(x))), env.u64(sse.session_material))
            ssd = attempt(search, 'session', kz.SignedSessionDecrypter, c, env.signer(env.HMAC()), sse.session_material)
            if ssd:
                search.look('signed session decrypter', str(ssd) + repr(ssd))
                look2('SignedSessionDecrypter.Decrypt', lambda x: ssd.Decrypt(env.w64(B(x))), env.u64(sm))
    for sg, vf in (('Signer', 'Verifier'), ('UnversionedSigner', 'UnversionedVerifier')):
        v = objs.get(vf)
        if v is None:
            continue
        g = B(getattr(kz, sg)(env.keyset([(i + 1, 'PRIMARY' if i == n - 1 else 'ACTIVE', x) for i, x in enumerate(raws)], env.SIGN)).Sign('public data', None))
        s3 = Search(raws)
        if objs.get(sg):
            attempt(s3, 'Sign', objs[sg].Sign, 'public data')
            attempt(s3, 'Sign', objs[sg].Sign, None)
        feed('Verify', lambda x: v.Verify('public data', x, None), g)
        if hasattr(v, 'AttachedVerify'):
            g = kz.Signer(env.keyset([(i + 1, 'PRIMARY' if i == n - 1 else 'ACTIVE', x) for i, x in enumerate(raws)], env.SIGN)).AttachedSign('public data', 'n', None)
            feed('AttachedVerify', lambda x: v.AttachedVerify(x, 'n', None), g)
    ctx.many(k, 'nothing shown')
    return 'ok'

def gen_c36_inside(ctx):
    for kind in ('padding', 'oaep', 'json', 'packed'):
        for name in ('AES', 'RSA'):
            if (kind, name) not in (('padding', 'RSA'), ('oaep', 'AES')):
                for part in range(8 if kind in ('json', 'packed') else 1):
                    yield kind, name, part

def fn_c36_inside(ctx, p):
    """values that are genuine as ciphertexts, with contents that are not in order"""
    kind, name, part = p
    kz = K.keyczar
    raw = env.AES(128) if name == 'AES' else env.RSA(4096)
    c = env.crypter(raw)
    pt = SECRET_TEXT.encode()
    sk = env.AES(256, 1)
    nonce = inputs.pattern(16, b'nonce')
    search = Search([raw, sk], pt, nonce)
    s = env.signer(env.HMAC())
    k = 0
    def read(x):
        r = c.CreateDecryptingStreamReader(io.StringIO(x, newline=''), None)
        while r.read() != '':
            pass
    if kind == 'padding':
        for n in (16, 32, 48):
            for last in range(256):
                for fill in (pt, bytes([last])):
                    body = ((fill * 60)[:n - 1] if fill == pt else pt[:n].ljust(n, fill)[:n - 1]) + bytes([last])
                    h = b'\0' + ref.aes_id(raw['aes'], raw['hmac']) + bytes(16)
                    ct = h + ref.cbc_enc(raw['aes'], bytes(16), body)
                    ct += ref.hmac_sha1(raw['hmac'], ct)
                    attempt(search, 'Decrypt', lambda: c.Decrypt(S(ct), None))
                    attempt(search, 'stream', read, S(ct))
                    k += 2
    elif kind == 'oaep':
        n, e = raw['n'], raw['e']
        kk = ref.rsa_k(n)
        hdr = b'\0' + ref.rsa_id(n, e)
        for how in range(60):
            seed = bytes([how] * 20)
            em = ref.oaep_encode(kk, pt * (how % 7), seed, ref.LHASH if how % 3 else bytes(20), bytes([how % 4]), how % 2)
            attempt(search, 'Decrypt', lambda: c.Decrypt(S(hdr + ref.rsa_raw_enc(n, e, em)), None))
            k += 1
    else:
        key = env.key_obj(sk)
        good = dict(key=key, nonce=env.w64(nonce))
        if kind == 'json':
            texts = [json.dumps(good)]
            full = texts[0]
            texts += [full[:i] for i in range(0, len(full), 1 if name == 'AES' else 9)]
            texts += [full[:i] + '?' + full[i + 1:] for i in range(0, len(full), 3 if name == 'AES' else 9)]
            for path in (('key', ), ('nonce', ), ('key', 'aesKeyString'), ('key', 'hmacKey'), ('key', 'size'), ('key', 'mode'), ('key', 'hmacKey', 'size'),
                         ('key', 'hmacKey', 'hmacKeyString')):
                for v in ('delete', None, '', 'A', '!' + env.w64(nonce), 0, 17, [], {}, env.w64(sk['aes']) + '*', [env.w64(sk['aes'])], 'x' * 300):
                    if path[-1] in ('size', 'mode') and v and env.w64(sk['aes']) in str(v) + env.w64(sk['aes']) * (v == '!' + env.w64(nonce)):
                        continue            # no place for a secret
                    o = json.loads(full)
                    q = o
                    for f in path[:-1]:
                        q = q[f]
                    if v == 'delete':
                        del q[path[-1]]
                    else:
                        q[path[-1]] = v
                    texts.append(json.dumps(o))
            payloads = [t.encode() for t in texts]
        else:
            good = b'\0\0\0\2' + ref.pack(sk['aes']) + ref.pack(sk['hmac'])
            payloads = [good[:i] for i in range(len(good) + 1)] + [good + b'x', ref.pack(sk['aes']), good.hex().encode(), env.w64(good).encode(),
                        b'\0\0\0\3' + good[4:], b'\0\0\0\2' + ref.pack(sk['aes'] + b'x') + ref.pack(sk['hmac']), b'\0\0\0\2' + ref.pack(sk['hmac']) * 2,
                        b'\0\0\0\2' + ref.pack(sk['aes'] + sk['hmac']) + ref.pack(b'')]
        for t in payloads[part::8]:
            m = attempt(search, 'Encrypt', c.Encrypt, S(t))
            if m is None:
                continue
            for cls, more in (('SessionDecrypter', ()), ('SignedSessionDecrypter', (s, ))):
                d = attempt(search, cls, getattr(kz, cls), c, *more, m)
                if d is not None:
                    search.look(cls, str(d) + repr(d))
                    attempt(search, cls, d.Decrypt, env.w64(bytes(60)))
                k += 1
    ctx.many(k, 'nothing shown')
    return 'ok'

def gen_c36_files(ctx):
    for name in SETS35:
        for what in ('cut', 'fields', 'meta', 'wrong-crypter'):
            if what == 'wrong-crypter' and SETS35[name][1]:
                continue
            for part in range(8 if what in ('cut', 'fields') else 1):
                yield name, what, part

def fn_c36_files(ctx, p):
    """key files that are cut off, changed or put in the wrong place"""
    name, what, part = p
    kz = K.keyczar
    purpose, public, raw = SETS35[name]
    key = raw(0)
    search = Search([key])
    cls = {env.CRYPT: 'Crypter', env.SIGN: 'Signer', env.ENC: 'Encrypter', env.VER: 'Verifier'}[purpose]
    r = env.keyset([(1, 'PRIMARY', key)], purpose, public=public)
    text, meta = r.keys[1], dict(r.meta)
    k = 0
    def load(rd, note):
        nonlocal k
        o = attempt(search, note, getattr(kz, cls), rd)
        if o is not None:
            for x in use36(o):
                attempt(search, note, x)
        attempt(search, note, kz.GenericKeyczar, rd)
        k += 1
    if what == 'cut':
        for i in range(part, len(text), 8):
            load(env.MemReader(meta, {1: text[:i]}), 'a key cut off')
            if i // 8 % 3 == 0:
                load(env.MemReader(meta, {1: text[:i] + '?' + text[i + 1:]}), 'a damaged key')
                load(env.MemReader(meta, {1: text[:i] + text[i + 1:]}), 'a damaged key')
    elif what == 'fields':
        o = json.loads(text)
        def paths(x, pre=()):
            for f in x:
                yield pre + (f, )
                if isinstance(x[f], dict):
                    yield from paths(x[f], pre + (f, ))
        for path in list(paths(o))[part::8]:
            for v in (None, '', 'A', '!', 0, -1, 17, [], {}, True, 'delete', 'twice', 'swap', 'list', 'bad'):
                q = json.loads(text)
                c = q
                for f in path[:-1]:
                    c = c[f]
                f = path[-1]
                old = c[f]
                if v == 'delete':
                    del c[f]
                elif v == 'twice':
                    c[f] = old * 2 if isinstance(old, str) else old
                elif v == 'list':
                    c[f] = [old]
                elif v == 'bad':
                    c[f] = (old[:-1] + '*') if isinstance(old, str) else old
                elif v == 'swap':
                    c[f], c[f + 'x'] = {}, old
                else:
                    c[f] = v
                load(env.MemReader(meta, {1: json.dumps(q)}), 'a key with %s changed' % '.'.join(path))
    elif what == 'meta':
        for f in list(meta) + ['versions.status', 'versions.versionNumber', 'versions.exportable']:
            for v in (None, '', 'DSA_PRIV', 'RSA_PUB', 'AES', 'HMAC_SHA1', 'TEST', 0, [], {}, True, 'ENCRYPT'):
                m = json.loads(json.dumps(meta))
                if '.' in f:
                    m['versions'][0][f.split('.')[1]] = v
                else:
                    m[f] = v
                load(env.MemReader(m, {1: text}), 'metadata with %s changed' % f)
        # the key of another kind
        for other in SETS35:
            r2 = env.keyset([(1, 'PRIMARY', SETS35[other][2](0))], purpose)
            search.w |= Search([SETS35[other][2](0)]).w
            load(env.MemReader(meta, {1: r2.keys[1]}), 'a key of another kind')
        # a key file where the metadata should be, metadata where the key should be
        class Odd(env.MemReader):
            def GetMetadata(self):
                return text
        load(Odd(meta, {1: text}), 'a key in the place of the metadata')
        load(env.MemReader(meta, {1: json.dumps(meta)}), 'metadata in the place of a key')
    else:
        a, b = env.crypter(env.AES(256)), env.crypter(env.AES(128))
        enc = a.Encrypt(text)
        m = dict(meta, encrypted=True)
        for cr in (a, b, None):
            for t in (enc, text, enc[:-4], '', 'A' * 100):
                for mm in (m, meta):
                    rd = env.MemReader(mm, {1: t})
                    load(K.readers.EncryptedReader(rd, cr) if cr else rd, 'an encrypted key')
    ctx.many(k, 'nothing shown')
    return 'ok'

def use36(o):
    if hasattr(o, 'Encrypt'):
        yield lambda: o.Encrypt('public data')
        if hasattr(o, 'Decrypt'):
            yield lambda: o.Decrypt(o.Encrypt('public data'))
    if hasattr(o, 'Sign'):
        yield lambda: o.Sign('public data')
        yield lambda: o.Verify('public data', o.Sign('public data'))
    yield lambda: str(o)

def gen_c36_tool(ctx):
    for name in ('AES', 'HMAC', 'RSA', 'RSA-sign', 'DSA'):
        for how in ('plain', 'encrypted', 'damaged-key', 'no-key', 'damaged-meta'):
            yield name, how

def fn_c36_tool(ctx, p):
    """all commands print and report nothing secret"""
    name, how = p
    a = env.AES(256)
    crypter = env.crypter(a)
    k = 0
    cdir = env.fresh_dir()
    env.write_keyset(cdir, env.keyset([(1, 'PRIMARY', a)], env.CRYPT))
    other = env.fresh_dir()
    env.write_keyset(other, env.keyset([(1, 'PRIMARY', env.AES(128))], env.CRYPT))
    for st in (('PRIMARY', ), ('INACTIVE', ), ('ACTIVE', 'PRIMARY')):
        for argv in (['addkey'], ['addkey', '--status=primary', '--size=%s' % {'AES': 192, 'HMAC': 256}.get(name, 1024)], ['addkey', '--status=primary'], ['addkey', '--crypter=' + cdir], ['addkey', '--crypter=' + other], ['addkey', '--size=17'],
                     ['addkey', '--crypter=/none'], ['addkey', '--status=odd'], ['promote', '--version=1'], ['demote', '--version=1'], ['revoke', '--version=1'],
                     ['promote', '--version=9'], ['revoke'], ['pubkey'], ['pubkey', '--destination='], ['create', '--purpose=crypt'], ['odd'], ['addkey', '--odd=1'],
                     ['genkey'], []):
            d = stored_set(name, st, how, crypter)
            os.chmod(d, 0o700)
            if '--destination=' in argv:
                dest = env.fresh_dir()
                argv = ['pubkey', '--destination=' + dest]
            purpose, public, raw = SETS35[name]
            env.rng.log = log = []
            with kzt.Pool(), Messages() as m:
                pool = list(env.FIX['pool_rsa']) + list(env.FIX['pool_dsa'])
                try:
                    if argv:
                        K.keyczart.main(argv[:1] + ['--location=' + d] + argv[1:])
                    else:
                        K.keyczart.main([])
                    text = ''
                except (Exception, SystemExit) as e:
                    text = shown(e)
            env.rng.log = None
            search = Search([raw(i) for i in range(len(st))] + [a, env.AES(128)] + pool[:8], *[x for x in log if len(x) in (16, 24, 32)])
            # nothing of what is in the files now, but not before
            for f in os.listdir(d):
                try:
                    search.w |= Search([env.parse_key(open(os.path.join(d, f)).read())]).w
                except (ValueError, KeyError, TypeError, IsADirectoryError, UnicodeError):
                    pass
            search.look('keyczart %s' % ' '.join(argv[:1]), text)
            search.look('keyczart %s' % ' '.join(argv[:1]), m.text())
            env.rmdir(d)
            k += 1
    env.rmdir(cdir)
    env.rmdir(other)
    ctx.many(k, 'nothing shown')
    return 'ok'

@prop('C36', 'exploration', RULE, 'exhaustive enumeration of operations, malformed inputs, damaged key sets and tool commands, with everything printed, logged, warned or raised searched for every secret',
      'All operations of all kinds of sets on genuine, cut and altered values (every byte), key files cut at every place and with every field replaced by 15 values, metadata likewise, keys of '
      'other kinds, missing and wrong crypters, ciphertexts and sessions whose contents are not in order, all tool commands on intact and damaged sets: no message, log record, warning, output or string form of an object has '
      'twelve characters in a row of a secret in any of eleven spellings.',
      ['the string form of a key itself is its stored form and does contain it'])
def c36():
    return [Family('operations', gen_c36_ops, fn_c36_ops), Family('contents', gen_c36_inside, fn_c36_inside), Family('files', gen_c36_files, fn_c36_files), Family('tool', gen_c36_tool, fn_c36_tool)]
