"""Binds the checks to the code under test and owns its nondeterminism.

The package is imported from the working tree of /repo. Its only source of
randomness, the operating system's, is replaced by a deterministic stream that
is restarted for every case, before the package is imported.
"""
import base64
import hashlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('KZ_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src')
TESTDATA = os.path.join(REPO, 'python', 'testdata')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ---------------------------------------------------------------- randomness
class Drbg:
    """Deterministic stand-in for the operating system's random source."""
    def __init__(self):
        self.reset('start')

    def reset(self, label):
        self.label = str(label).encode()
        self.n = 0
        self.buf = b''
        self.log = None
        self.calls = 0
        self.twist = None      # replaces what a call returns: twist(number of the call, bytes)

    def __call__(self, n):
        while len(self.buf) < n:
            self.buf += hashlib.sha256(self.label + b'|%d' % self.n).digest()
            self.n += 1
        out, self.buf = self.buf[:n], self.buf[n:]
        if self.twist is not None:
            out = self.twist(self.calls, out)
        self.calls += 1
        if self.log is not None:
            self.log.append(out)
        return out

real_urandom = os.urandom
rng = Drbg()

def _urandom(n):
    return rng(n)

os.urandom = _urandom
random._urandom = _urandom

# ---------------------------------------------------------------- the package
if SRC not in sys.path:
    sys.path.insert(0, SRC)
warnings.simplefilter('ignore')

class _Pkg:
    pass

K = _Pkg()

def load():
    """Import the package under test; K.<module> afterwards."""
    import importlib
    for m in ('errors', 'util', 'keyinfo', 'keydata', 'keyczar', 'keys', 'readers', 'writers', 'keyczart'):
        setattr(K, m, importlib.import_module('keyczar.' + m))
    path = os.path.realpath(K.keys.__file__)
    assert path.startswith(os.path.realpath(SRC) + os.sep), path

def S(b):
    """Keyczar byte string of bytes."""
    return b.decode('latin-1')

def B(s):
    """bytes of a Keyczar byte string."""
    return s if isinstance(s, bytes) else s.encode('latin-1')

# ---------------------------------------------------------------- fixtures
FIX = json.load(open(os.path.join(HERE, 'fixtures', 'keys.json')))
for _k in FIX['aes']:
    _k['aes'] = bytes.fromhex(_k['aes'])
    _k['hmac'] = bytes.fromhex(_k['hmac'])
for _k in FIX['hmac']:
    _k['hmac'] = bytes.fromhex(_k['hmac'])

RARE = json.load(open(os.path.join(HERE, 'fixtures', 'rare.json')))

def RSA(bits, i=0):
    return [k for k in FIX['rsa'] if k['size'] == bits][i]

def DSA(i=0):
    return FIX['dsa'][i]

def AES(bits=128, i=0):
    return [k for k in FIX['aes'] if k['size'] == bits][i]

def HMAC(i=0):
    return FIX['hmac'][i]

def w64(b):
    return base64.urlsafe_b64encode(b).decode().replace('=', '')

def u64(s):
    return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))

def big(n, style='java'):
    """Byte form of a big integer as the implementations store it."""
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big') or b'\0'
    if style == 'pad' or (style == 'java' and b[0] & 0x80):
        b = b'\0' + b
    return w64(b)

def kind(raw):
    if 'aes' in raw:
        return 'AES'
    if 'hmac' in raw:
        return 'HMAC_SHA1'
    return 'RSA_PRIV' if 'n' in raw else 'DSA_PRIV'

def pub_obj(raw, style='java'):
    if 'n' in raw:
        return dict(modulus=big(raw['n'], style), publicExponent=big(raw['e'], style), size=raw['size'])
    return dict(p=big(raw['p'], style), q=big(raw['q'], style), g=big(raw['g'], style),
                y=big(raw['y'], style), size=raw['size'])

def key_obj(raw, style='java'):
    k = kind(raw)
    if k == 'AES':
        return dict(mode='CBC', size=raw['size'], aesKeyString=w64(raw['aes']),
                    hmacKey=dict(size=256, hmacKeyString=w64(raw['hmac'])))
    if k == 'HMAC_SHA1':
        return dict(size=raw['size'], hmacKeyString=w64(raw['hmac']))
    if k == 'RSA_PRIV':
        return dict(publicKey=pub_obj(raw, style), privateExponent=big(raw['d'], style),
                    primeP=big(raw['p'], style), primeQ=big(raw['q'], style),
                    primeExponentP=big(raw['dp'], style), primeExponentQ=big(raw['dq'], style),
                    crtCoefficient=big(raw['invq'], style), size=raw['size'])
    return dict(publicKey=pub_obj(raw, style), x=big(raw['x'], style), size=raw['size'])

def parse_key(text):
    """Raw parameters of a key file (independent of the package)."""
    o = json.loads(text)
    n = lambda s: int.from_bytes(u64(s), 'big')
    if 'aesKeyString' in o:
        return dict(size=o['size'], aes=u64(o['aesKeyString']), hmac=u64(o['hmacKey']['hmacKeyString']))
    if 'hmacKeyString' in o:
        return dict(size=o['size'], hmac=u64(o['hmacKeyString']))
    if 'modulus' in o:
        return dict(size=o['size'], n=n(o['modulus']), e=n(o['publicExponent']))
    if 'y' in o:
        return dict(size=o['size'], **{c: n(o[c]) for c in 'pqgy'})
    d = parse_key(json.dumps(o['publicKey']))
    d['size'] = o['size']
    if 'x' in o:
        d['x'] = n(o['x'])
    else:
        d.update(d=n(o['privateExponent']), p=n(o['primeP']), q=n(o['primeQ']), dp=n(o['primeExponentP']),
                 dq=n(o['primeExponentQ']), invq=n(o['crtCoefficient']))
    return d

STATUSES = ('PRIMARY', 'ACTIVE', 'INACTIVE')

class MemReader:
    """A key set held in memory, with the reader interface."""
    def __init__(self, meta, keys):
        self.meta, self.keys = meta, keys

    def GetMetadata(self):
        return json.dumps(self.meta)

    def GetKey(self, version_number):
        return self.keys[int(version_number)]

    def Close(self):
        pass

def keyset(versions, purpose, public=False, name='Test', style='java', encrypted=False, encrypt=None):
    """versions: list of (number, status, raw key). Returns a MemReader."""
    t = kind(versions[0][2]) if versions else 'AES'
    if public:
        t = t.replace('PRIV', 'PUB')
    meta = dict(name=name, purpose=purpose, type=t, encrypted=encrypted,
                versions=[dict(versionNumber=n, status=s, exportable=False) for n, s, _ in versions])
    keys = {}
    for n, s, raw in versions:
        text = json.dumps(pub_obj(raw, style) if public else key_obj(raw, style))
        keys[n] = encrypt(text) if encrypt else text
    return MemReader(meta, keys)

CRYPT, SIGN, ENC, VER = 'DECRYPT_AND_ENCRYPT', 'SIGN_AND_VERIFY', 'ENCRYPT', 'VERIFY'

def write_keyset(path, reader):
    """Store a MemReader's key set as files, without the package."""
    os.makedirs(path, exist_ok=True)
    open(os.path.join(path, 'meta'), 'w').write(reader.GetMetadata())
    for n, text in reader.keys.items():
        open(os.path.join(path, str(n)), 'w').write(text)

def crypter(*raws, statuses=None):
    vs = [(i + 1, (statuses or ['ACTIVE'] * (len(raws) - 1) + ['PRIMARY'])[i], r) for i, r in enumerate(raws)]
    return K.keyczar.Crypter(keyset(vs, CRYPT))

def signer(*raws, statuses=None, cls=None, **kw):
    vs = [(i + 1, (statuses or ['ACTIVE'] * (len(raws) - 1) + ['PRIMARY'])[i], r) for i, r in enumerate(raws)]
    return (cls or K.keyczar.Signer)(keyset(vs, SIGN, **kw))

def verifier(*raws, cls=None):
    """Verifier on the public halves (asymmetric keys)."""
    vs = [(i + 1, 'ACTIVE' if i < len(raws) - 1 else 'PRIMARY', r) for i, r in enumerate(raws)]
    return (cls or K.keyczar.Verifier)(keyset(vs, VER, public=True))

# ---------------------------------------------------------------- scratch
_scratch = None
_root = None

def open_root():
    """The directory (in memory where possible) that has the scratch directories of all processes of a run."""
    global _root
    base = os.environ.get('KZ_SCRATCH')
    if not base:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    _root = tempfile.mkdtemp(prefix='kzmc', dir=base)

def close_root():
    global _root, _scratch
    if _root:
        shutil.rmtree(_root, ignore_errors=True)
    _root = _scratch = None

def scratch():
    """This process's scratch directory."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix='kzmc', dir=_root))
    return _scratch[1]

def drop_scratch():
    global _scratch
    if _scratch and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None

_dirno = 0

def fresh_dir():
    global _dirno
    _dirno += 1
    d = os.path.join(scratch(), 'd%d' % _dirno)
    os.mkdir(d)
    return d

def rmdir(d):
    assert os.path.realpath(d).startswith(os.path.realpath(scratch()) + os.sep), d
    shutil.rmtree(d, ignore_errors=True)

def snapshot(d):
    """{relative name: bytes} of all files below d."""
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out

def restore(d, snap):
    for f, data in snap.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(data)
