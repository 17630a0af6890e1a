"""Mutation testing of the checks: mutate.py cov | gen | run [N] | show

Makes one-change variants of the source of /repo (never written there: in scratch copies), and runs on each the checks
that execute the changed line, cheapest first, until one reports it. What no check reports is either equivalent or a
gap. Results go to /tmp/mut, nothing of it is used by a check.
"""
import ast, collections, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MUT_OUT', '/tmp/mut')
FILES = ['python/src/keyczar/%s.py' % m for m in ('errors keyczar keyczart keydata keyinfo keys readers util writers'.split())] + ['interop/interop.py']
PY = '/opt/venv/bin/python'
SRC = OUT + '/repo'   # snapshot made by 'gen'

# ------------------------------------------------------------ coverage of the checks
COV = r'''
import os, sys, json
sys.path.insert(0, %(here)r)
sys.dont_write_bytecode = True
prop, out = sys.argv[1], sys.argv[2]
sys.argv = [%(here)r + '/check.py', prop]
if prop in ('C10', 'C11') and 'KZ_SHIM' not in os.environ:
    pass
M = sys.monitoring
hits = set()
def line(code, n):
    if '/keyczar/' in code.co_filename or '/interop/' in code.co_filename:
        if '/repo/' in code.co_filename: hits.add((code.co_filename, n))
    return M.DISABLE
M.use_tool_id(3, 'kz'); M.register_callback(3, M.events.LINE, line); M.set_events(3, M.events.LINE)
from mc import core
w0 = core._worker
def worker(w, *a):
    try: w0(w, *a)
    finally:
        json.dump(sorted(hits), open('%%s/%%s.%%d.json' %% (out, prop, w), 'w'))
core._worker = worker
import check
def pre():
    pass
check.preload_orig = check.preload
if 'LD_PRELOAD' in os.environ:
    check.preload = lambda: None
sys.exit(check.main())
'''

def checks():
    return [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]

def cov():
    d = OUT + '/cov'
    os.makedirs(d, exist_ok=True)
    src = OUT + '/covrun.py'
    open(src, 'w').write(COV % dict(here=HERE))
    so = OUT + '/shim.so'
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, HERE + '/mc/shim.c', '-ldl'])
    sys.path.insert(0, HERE)
    from mc.props import registry
    table = collections.defaultdict(set)
    secs = {}
    for p in checks():
        e = dict(os.environ, KZ_EVIDENCE=OUT + '/ev')
        if registry.get(p).preload:
            e['LD_PRELOAD'] = so
        t = time.time()
        r = subprocess.run([PY, src, p, d], env=e, cwd=HERE, capture_output=True, text=True)
        secs[p] = time.time() - t
        print(p, r.returncode, '%.1f' % secs[p], r.stderr[-300:] if r.returncode else '', flush=True)
        for f in os.listdir(d):
            if f.startswith(p + '.'):
                for fn, n in json.load(open(d + '/' + f)):
                    table['%s:%d' % (fn.split('/repo/')[1], n)].add(p)
    json.dump(dict(lines={k: sorted(v) for k, v in table.items()}, secs=secs), open(OUT + '/cov.json', 'w'))

# ------------------------------------------------------------ mutants
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['*'], ast.LShift: ['>>'], ast.RShift: ['<<'],
       ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|']}

def mutants(path):
    src = open(SRC + '/' + path).read()
    data = src.encode()
    starts = [0]
    for l in data.splitlines(True):
        starts.append(starts[-1] + len(l))
    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
    out = []
    def seg(n):
        a, b = span(n); return data[a:b].decode()
    def put(n, new, kind):
        a, b = span(n)
        old = data[a:b].decode()
        if new != old:
            out.append((n.lineno, a, b, old, new, kind, '.'.join(where)))
    where = []
    def walk(n, fn):
        where[:] = fn + ([n.name] if isinstance(n, (ast.FunctionDef, ast.ClassDef)) else [])
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        if n in doc:
            return
        if isinstance(n, ast.Raise) or (isinstance(n, ast.Call) and 'Error' in seg(n.func)):
            if isinstance(n, ast.Raise):
                put(n, 'pass', 'drop raise')
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                put(n, '(%s) %s (%s)' % (l, o, r), 'cmp')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join('(%s)' % seg(v) for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                put(n, '(' + o2.join('(%s)' % seg(v) for v in rest) + ')', 'bool-drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, '(%s)' % seg(n.operand), 'not')
        elif isinstance(n, ast.BinOp):
            if not (isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n.left, 'value', None), int)):
                for o in BIN.get(type(n.op), []):
                    put(n, '((%s) %s (%s))' % (seg(n.left), o, seg(n.right)), 'arith')
                if isinstance(n.op, ast.Add):
                    put(n, '(%s)' % seg(n.left), 'add-drop-r')
                    put(n, '(%s)' % seg(n.right), 'add-drop-l')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                put(n, '(%d)' % (n.value + 1), 'const')
                if n.value:
                    put(n, '(%d)' % (n.value - 1), 'const')
            elif isinstance(n.value, str):
                put(n, repr(n.value + 'X') if n.value else repr('X'), 'const')
            elif isinstance(n.value, bytes):
                put(n, repr(n.value + b'X'), 'const')
            elif n.value is None and fn:
                pass
            return
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, 'not (%s)' % seg(n.test), 'cond') if not isinstance(n.test, ast.Compare) else None
        elif isinstance(n, ast.IfExp):
            put(n, '(%s)' % seg(n.body), 'ifexp'); put(n, '(%s)' % seg(n.orelse), 'ifexp')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for part in (s.lower, s.upper):
                if part is not None:
                    put(part, '(%s) + 1' % seg(part), 'slice')
                    put(part, '', 'slice-drop')
        elif isinstance(n, ast.Break):
            put(n, 'continue', 'loop')
        elif isinstance(n, ast.Continue):
            put(n, 'break', 'loop')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    pass
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                put(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap-args')
            if len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                put(n, '(%s)' % seg(n.args[0]), 'drop-call')
        if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            put(n, 'pass', 'drop stmt')
        elif isinstance(n, ast.Assign) and fn and len(fn) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'drop assign')
        elif isinstance(n, ast.Assign) and fn:
            if not isinstance(n.value, (ast.Constant, ast.Tuple)):
                put(n.value, 'None', 'assign None')
        elif isinstance(n, ast.AugAssign):
            put(n, 'pass', 'drop aug')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n, 'return None', 'return None')
        elif isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                put(n.type, 'ZeroDivisionError', 'except')
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    for c in tree.body:
        if isinstance(c, ast.If) and '__main__' in seg(c.test):
            continue
        walk(c, [])
    seen = set()
    for m in out:
        if (m[1], m[2], m[4]) in seen:
            continue
        seen.add((m[1], m[2], m[4]))
        new = data[:m[1]] + m[4].encode() + data[m[2]:]
        try:
            compile(new, path, 'exec')
        except Exception:
            continue
        yield dict(path=path, line=m[0], a=m[1], b=m[2], old=m[3], new=m[4], kind=m[5], fn=m[6])

def gen():
    shutil.rmtree(SRC, ignore_errors=True)
    shutil.copytree('/repo', SRC, ignore=shutil.ignore_patterns('.git', 'java', 'cpp'), symlinks=True)
    ms = [m for f in FILES for m in mutants(f)]
    for i, m in enumerate(ms):
        m['id'] = i
    json.dump(ms, open(OUT + '/mutants.json', 'w'))
    print(len(ms), collections.Counter(m['path'] for m in ms))

# checks to try first, by source region (file, first line, last line of the snapshot's functions)
PREFER = [('keyczar.py', r'Keyczar\.__init__', 'C12 C09 C23'), ('keyczar.py', r'AddVersion|Promote|Demote|Revoke|_AddKey', 'C07 C08 C31'),
          ('keyczar.py', r'PublicKeyExport', 'C24'), ('keyczar.py', r'\.Write', 'C09 C23 C10'), ('keyczar.py', r'Attached', 'C05 C27'),
          ('keyczar.py', r'Unversioned', 'C12 C06'), ('keyczar.py', r'Session', 'C13 C14 C27'), ('keyczar.py', r'Stream', 'C15 C16'),
          ('keyczar.py', r'.', 'C12 C02 C04 C27'), ('keyczart.py', r'.', 'C07 C25 C24'), ('keydata.py', '.', 'C07 C09'), ('keyinfo.py', '.', 'C12 C31 C07 C25'),
          ('readers.py', '.', 'C32 C23 C09'), ('writers.py', '.', 'C32 C23 C09 C10 C11'),
          ('keys.py', r'DecryptingStream', 'C16 C17'), ('keys.py', r'EncryptingStream', 'C15'), ('keys.py', r'AesKey', 'C20 C02 C15 C27 C01'),
          ('keys.py', r'Hmac', 'C20 C04 C27'), ('keys.py', r'DsaPrivateKey\.Generate|RsaPrivateKey\.Generate', 'C31 C26'), ('keys.py', r'Dsa', 'C09 C21 C04 C27'),
          ('keys.py', r'RsaPrivateKey.*Decode|RsaPrivateKey\.Decrypt', 'C03'), ('keys.py', r'Rsa', 'C09 C21 C04 C01 C03 C27'), ('keys.py', '.', 'C12 C31 C09 C20'),
          ('util.py', r'Incremental', 'C19'), ('util.py', r'Base64', 'C18'), ('util.py', r'Pack', 'C33'), ('util.py', r'Dsa|Pkcs8|X509|ASN1|Bin|Int|Long|Byte', 'C22 C04 C27'),
          ('util.py', r'Emsa|MGF|Xor|Hash|Hmac', 'C20 C21 C03'), ('util.py', 'Import|Memo', 'C32 C13'), ('util.py', '.', 'C22 C20 C32'),
          ('interop.py', r'.', 'C29 C30')]

def prefer(m):
    for f, rx, ps in PREFER:
        if m['path'].endswith('/' + f) and re.search(rx, m.get('fn', '')  or 'x'):
            return ps.split()
    return []

BUDGET = float(os.environ.get('MUT_BUDGET', '90'))

def run_one(m, cov, wd):
    e = dict(os.environ, KZ_REPO=wd + '/repo', KZ_EVIDENCE=wd + '/ev', KZ_WORKERS='1', VERIF_SEED='1', VERIF_TIER='quick', PYTHONPATH='')
    f = wd + '/repo/' + m['path']
    orig = open(SRC + '/' + m['path'], 'rb').read()
    open(f, 'wb').write(orig[:m['a']] + m['new'].encode() + orig[m['b']:])
    try:
        if m['path'].startswith('interop') or True:
            pass
        if m['path'].startswith('interop'):
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'interop_unit_test.py'], cwd=wd + '/repo/interop',
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=wd + '/repo/python/src'), capture_output=True, text=True)
            if r.returncode:
                return 'TESTS', ''
        rel = set(cov['lines'].get('%s:%d' % (m['path'], m['line']), []))
        pre = prefer(m)
        rel = sorted(rel, key=lambda p: (pre.index(p) if p in pre else 99, cov['secs'][p]))
        t0 = time.time()
        done = []
        for p in rel:
            if time.time() - t0 + 4 * cov['secs'][p] > BUDGET and done:
                continue
            done.append(p)
            try:
                r = subprocess.run([PY, HERE + '/check.py', p], env=e, cwd=wd, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return 'TIMEOUT ' + p, ''
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                x = re.search(r'^-> (.*)$', r.stdout, re.M)
                return p, x.group(1)[:200] if x else ''
            if r.returncode:
                return 'BROKEN ' + p, (r.stdout + r.stderr)[-300:]
        return 'SURVIVES', ' '.join(done) + ' / ' + ' '.join(x for x in rel if x not in done)
    finally:
        open(f, 'wb').write(orig)

def run(n):
    ms = json.load(open(OUT + '/mutants.json'))
    cov = json.load(open(OUT + '/cov.json'))
    res = json.load(open(OUT + '/results.json')) if os.path.exists(OUT + '/results.json') else {}
    todo = [m for m in ms if str(m['id']) not in res]
    sel = os.environ.get('MUT_PATH')
    if sel:
        todo = [m for m in todo if sel in m['path']]
    if os.path.exists(OUT + '/first.json'):
        only = set(json.load(open(OUT + '/first.json')))
        todo = [m for m in todo if m['id'] in only]
    import random
    random.Random(5).shuffle(todo)
    lock = threading.Lock()
    def loop(k):
        wd = tempfile.mkdtemp(prefix='mut%d_' % k, dir='/dev/shm')
        shutil.copytree(SRC, wd + '/repo', ignore=shutil.ignore_patterns('.git', 'java', 'cpp'), symlinks=True)
        while True:
            with lock:
                if not todo or os.path.exists(OUT + '/stop'):
                    break
                m = todo.pop()
            r = run_one(m, cov, wd)
            with lock:
                res[str(m['id'])] = r
                print(len(todo), m['id'], m['path'].split('/')[-1], m['line'], m['kind'], '|', m['old'][:60].replace('\n', ' '), '->', m['new'][:60].replace('\n', ' '), '|', r[0], r[1][:80], flush=True)
                json.dump(res, open(OUT + '/results.tmp', 'w')); os.replace(OUT + '/results.tmp', OUT + '/results.json')
        shutil.rmtree(wd)
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]

def show():
    ms = {str(m['id']): m for m in json.load(open(OUT + '/mutants.json'))}
    res = json.load(open(OUT + '/results.json'))
    print(collections.Counter(r[0] for r in res.values()))
    src = {f: open(SRC + '/' + f).read().splitlines() for f in FILES}
    for i in sorted(res, key=int):
        if res[i][0] in ('TESTS',) or re.match(r'C\d\d$', res[i][0]):
            continue
        m = ms[i]
        print('%s %s:%d [%s] %s\n    %s\n    %r -> %r' % (i, m['path'].split('/')[-1], m['line'], m['kind'], res[i][0], src[m['path']][m['line'] - 1].strip(), m['old'][:100], m['new'][:100]))
        print('    ', res[i][1][:150])

if __name__ == '__main__':
    os.makedirs(OUT, exist_ok=True)
    dict(cov=cov, gen=gen, run=lambda: run(int(sys.argv[2]) if len(sys.argv) > 2 else 8), show=show)[sys.argv[1]]()
