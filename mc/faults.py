"""Running an operation in a child process with a crash or a fault at a chosen file system call."""
import ctypes
import errno
import os
import pickle
import signal
import sys

OFF, COUNT, CRASH, FAIL, FAILALL, SHORT = range(6)
OPENW, WRITE, RENAME, UNLINK, OPENR, READ, CLOSE, OTHER = (1 << i for i in range(8))
MUTATING = OPENW | WRITE | RENAME | UNLINK | OTHER
NAMES = {OPENW: 'open for writing', WRITE: 'write', RENAME: 'replace', UNLINK: 'remove', OPENR: 'open', READ: 'read', CLOSE: 'close', OTHER: 'other'}
_lib = None

def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.kz_path.restype = ctypes.c_char_p
        _lib.kz_len.restype = ctypes.c_long
        _lib.kz_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    return _lib

def run(prefix, fn, mode, at=-1, err=0, torn=0, kinds=MUTATING):
    """Run fn() in a child below prefix. ('crashed',) or (outcome, hit, events)."""
    l = lib()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(0)
            os.close(r)
            l.kz_arm(os.path.realpath(prefix).encode() + b'/', mode, at, err, torn, kinds)
            try:
                out = fn()
            except BaseException as e:
                out = ('raised', type(e).__name__, str(e)[:200])
            n = l.kz_disarm()
            ev = [(l.kz_kind(i), l.kz_len(i), l.kz_path(i).decode('latin-1')) for i in range(n)]
            data = pickle.dumps((out, l.kz_hit(), ev))
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
        return ('crashed', )
    if st != 0 or not buf:
        raise RuntimeError('child ended with status %r' % st)
    return pickle.loads(buf)
