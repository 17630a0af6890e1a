"""C29, C30: the interop runner, run on enumerated configurations with recording implementations."""
import collections
import contextlib
import copy
import importlib.util
import io
import itertools
import json
import os
import re
import shutil
import subprocess
import sys

from .. import env
from ..core import Family, Violation, require
from .registry import prop

RULE = ('every configuration of the declared finite space is given to the real runner; the calls that recording '
        'implementations receive, or the listing, are compared with a matrix computed independently; two configurations '
        'are distinct if their JSON differs')
PATH = os.path.join(env.REPO, 'interop', 'interop.py')

# ------------------------------------------------------------ running the runner
_stub = None

def stub():
    """The compiled recording implementation."""
    global _stub
    if _stub is None or _stub[0] != os.getpid():
        p = os.path.join(env.scratch(), 'stub')
        subprocess.check_call(['gcc', '-O1', '-w', '-o', p, os.path.join(env.HERE, 'mc', 'stub.c')])
        _stub = (os.getpid(), p)
    return _stub[1]

def fresh_module():
    spec = importlib.util.spec_from_file_location('kz_interop', PATH)
    m = importlib.util.module_from_spec(spec)
    sys.modules['kz_interop'] = m
    spec.loader.exec_module(m)
    return m

NAMES = dict(algorithms='interopAlgorithms', ignored='ignoredTests', options='keySetOptions', operations='operations',
             implementations='implementations')

def run(cfg, argv, files=(), modes={}):
    """Runs main(argv) in a scratch directory; (result, stdout, stderr, calls, files left)."""
    d = env.fresh_dir()
    os.mkdir(os.path.join(d, 'config'))
    c = dict(cfg)
    c['implementations'] = {i: [stub(), i, modes.get(i, 'ok')] for i in cfg['implementations']}
    for k, f in NAMES.items():
        with open(os.path.join(d, 'config', f + '.json'), 'w') as fh:
            json.dump(c[k], fh)
    for f in files:
        os.makedirs(os.path.join(d, os.path.dirname(f)), exist_ok=True)
        with open(os.path.join(d, f), 'w') as fh:
            fh.write('stale')
    cwd = os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                res = fresh_module().main(list(argv))
            except SystemExit as e:
                res = e.code
            except Exception as e:
                res = e
        calls = []
        if os.path.exists('calls.log'):
            raw = open('calls.log', 'rb').read().decode()
            off = 0
            for rec in raw.split('\n\0')[:-1]:
                name, mode, js = rec.split('\0')[:3]
                calls.append((name, json.loads(js), off))
                off += len((rec + '\n\0').encode())
        left = env.snapshot(d)
    finally:
        os.chdir(cwd)
        env.rmdir(d)
    return res, out.getvalue(), err.getvalue(), calls, left

# ------------------------------------------------------------ the expected matrix
def names(cfg, purpose):
    return [a + str(s) for a, v in cfg['algorithms'].items() if v['purpose'] == purpose for s in v['keySizes']]

def product(cfg, op, role, which):
    """All option combinations of an operation with a key set in a role."""
    d = dict(cfg['options'][role][which])
    d.update(cfg['operations'][op][which])
    for k, v in d.items():
        if v == 'ALL_SIGNING_KEYS':
            d[k] = names(cfg, 'sign')
    ks = sorted(d)
    return [dict(zip(ks, vs)) for vs in itertools.product(*[d[k] for k in ks])]

def rules(cfg, impl, op, alg, opts):
    """The ignore rules that match a step."""
    hit = []
    for i, r in enumerate(cfg['ignored']):
        def has(field, v):
            return v in r[field] or '*' in r[field]
        if has('implementation', impl) and has('operation', op) and has('algorithm', alg) and \
           all(o == '*' or (o in opts and opts[o] in vals) for o, vals in r['options'].items()):
            hit.append(i)
    return hit

def matrix(cfg):
    """([generate steps], [test steps], [skipped step -> rules])"""
    gens, tests, skipped = [], [], []
    for gi in cfg['implementations']:
        for op, o in cfg['operations'].items():
            for a, v in cfg['algorithms'].items():
                if v['purpose'] != o['keytype']:
                    continue
                for size in v['keySizes']:
                    ks = a + str(size)
                    if o['keytype'] == 'sign':
                        roles = [('sign', ['sign', 'verify'] if v['asymmetric'] else ['sign'])]
                    else:
                        roles = [('crypt', ['crypt'])] + ([('encrypt', ['crypt'])] if v['asymmetric'] else [])
                    for groll, trolls in roles:
                        for go in product(cfg, op, groll, 'generateOptions'):
                            r = rules(cfg, gi, op, ks, go)
                            if r:
                                skipped.append((('generate', gi, op, ks, key(go)), r))
                                continue
                            gens.append((gi, op, ks, key(go)))
                            for ti in cfg['implementations']:
                                for troll in trolls:
                                    for to in product(cfg, op, troll, 'testOptions'):
                                        r = rules(cfg, ti, op, ks, dict(to, **go))
                                        if r:
                                            skipped.append((('test', ti, gi, op, ks, key(go), key(to)), r))
                                            continue
                                        tests.append((ti, gi, op, ks, key(go), key(to)))
    return gens, tests, skipped

def key(o):
    return tuple(sorted(o.items()))

def diff(got, want, what):
    g, w = collections.Counter(got), collections.Counter(want)
    if g != w:
        missing, extra = list((w - g).items()), list((g - w).items())
        raise Violation('%s: missing %s, unexpected %s' % (what, missing[:2], extra[:2]))

LINE = re.compile(r'^test_([^_]+)_generated_by_([^_]+)_([^_]+)_([^_]+)_(.*)$')

def check_display(ctx, cfg):
    res, out, err, calls, left = run(cfg, ['display'])
    require(not isinstance(res, Exception), 'display fails with %r', res)
    require(not calls, 'display calls an implementation')
    got = []
    for line in out.splitlines():
        m = LINE.match(line)
        require(m, 'unreadable line %r in the listing', line)
        opts = tuple(sorted(x for x in m.group(5).split('_') if x))
        got.append(m.groups()[:4] + (opts,))
    gens, tests, skipped = matrix(cfg)
    want = [(ti, gi, op, ks, tuple(sorted('%s=%s' % o for o in go + to))) for ti, gi, op, ks, go, to in tests]
    diff(got, want, 'the listing of tests')
    ctx.count('listed tests', len(want))
    return '%d tests, %d skipped' % (len(want), len(skipped))

def check_run(ctx, cfg, create='y', modes={}, verbose='n'):
    stale = []
    for i in cfg['implementations']:
        for a, v in cfg['algorithms'].items():
            for s in v['keySizes']:
                stale += ['keys/%s/%s%d/%s' % (i, a, s, f) for f in ('meta', '1')]
                stale += ['keys/%s/%s%daes128/%s' % (i, a, s, f) for f in ('meta', '1')]
                if v['asymmetric']:
                    stale += ['keys/%s/%s%dpublic/%s' % (i, a, s, f) for f in ('meta', '2')]
    argv = ['--create=' + create] if create != 'default' else []
    if verbose != 'n':
        argv.append('--verbose=' + verbose)
    res, out, err, calls, left = run(cfg, argv, stale, modes)
    gens, tests, skipped = matrix(cfg)
    failgen = [g for g in gens if modes.get(g[0]) == 'failgen']
    if failgen and not (create == 'y' and 'failcreate' in modes.values()):
        require(isinstance(res, Exception) and failgen[0][1] in str(res),
                'an implementation that cannot generate data is not reported: %r', res)
        require(not any(c['command'] == 'test' for _, c, _ in calls), 'tests are run although generating failed')
        ctx.ev((), 'generate failed')
        return 'generate failed'
    if create == 'y' and 'failcreate' in modes.values():
        require(isinstance(res, Exception), 'an implementation that cannot create keys is not reported: %r', res)
        require(not any(c['command'] == 'test' for _, c, _ in calls), 'tests are run although creating keys failed')
        ctx.ev((), 'create failed')
        return 'create failed'
    require(not isinstance(res, Exception), 'the run fails with %r', res)
    created, made = [], {}
    ggot, tgot = [], []
    outputs = {}
    phase = 0
    for impl, c, off in calls:
        rank = dict(create=0, generate=1, test=2)[c['command']]
        require(rank >= phase, 'a %s command after commands of a later phase', c['command'])
        phase = rank
        if rank == 0:
            created.append((impl, c['keyczartCommands']))
            continue
        require(os.path.normpath(c['keyPath']).split(os.sep)[0] == 'keys', 'keys are taken from %s', c['keyPath'])
        owner = os.path.basename(c['keyPath'])
        if rank == 1:
            require(owner == impl, '%s generates with the keys of %s', impl, owner)
            g = (impl, c['operation'], c['algorithm'], key(c['generateOptions']))
            ggot.append(g)
            outputs['%s-%d' % (impl, off)] = g + (c['testData'],)
        else:
            o = c['output']['output']
            require(o in outputs, 'a test is given the output %r, which nothing generated', o)
            g = (owner, c['operation'], c['algorithm'], key(c['generateOptions']), c['testData'])
            require(outputs[o] == g, 'the test of %s is given the output of %s', g, outputs[o])
            tgot.append((impl,) + g[:4] + (key(c['testOptions']),))
    diff(ggot, gens, 'the generate steps')
    diff(tgot, [t for t in tests if modes.get(t[1]) != 'badgen'], 'the test steps')
    failing = sum(1 for t in tests if modes.get(t[0]) == 'failtest' or modes.get(t[1]) == 'badgen')
    m = re.search(r'Ran (\d+) tests?', err)
    require(m and int(m.group(1)) == len(tests), 'the report says %r instead of %d tests', m and m.group(0), len(tests))
    bad = sum(int(x) for x in re.findall(r'(?:errors|failures)=(\d+)', err))
    require(bad == failing, '%d tests failed, but %d are reported as failed', failing, bad)
    require(('FAILED' in err) == bool(failing), 'the overall result is reported wrongly')
    check_created(cfg, created, create != 'n')
    if create != 'n':
        require(not [f for f in left if left[f] == b'stale'], 'files of an earlier run are left: %s',
                [f for f in left if left[f] == b'stale'][:3])
    else:
        require(sum(1 for f in left if left[f] == b'stale') == len(stale), 'files of existing key sets are removed')
    check_reasons(cfg, out, skipped, verbose == 'y')
    ctx.count('generate steps', len(gens))
    ctx.count('test steps', len(tests))
    ctx.count('calls recorded', len(calls))
    return '%d generate, %d test, %d skipped' % (len(gens), len(tests), len(skipped))

def check_reasons(cfg, out, skipped, verbose):
    got = {}
    for n, text in re.findall(r'(?m)^(\d+) Events: (.*)$', out):
        got[text] = got.get(text, 0) + int(n)
    require(sum(got.values()) == len(skipped), '%d steps are skipped, %d are reported', len(skipped), sum(got.values()))
    for i, r in enumerate(cfg['ignored']):
        sole = [s for s, hit in skipped if hit == [i]]
        some = [s for s, hit in skipped if i in hit]
        n = sum(c for t, c in got.items() if t.endswith(r['reason']))
        require(n >= len(sole), 'rule %s skips %d steps, %d are reported with its reason', r, len(sole), n)
        require(n <= len(some), 'rule %s matches %d steps, %d are reported with its reason', r, len(some), n)

def check_created(cfg, created, wanted):
    """Every key set the matrix uses has been made, by its own implementation, before it is used."""
    if not wanted:
        require(not created, 'key sets are created although that was not asked for')
        return
    sets = {}
    for impl, cmds in created:
        for cmd in cmds:
            verb = cmd[0]
            flags = dict(f[2:].split('=', 1) for f in cmd[1:])
            loc = flags['location']
            require(loc.split(os.sep)[1] == impl, '%s creates key sets of %s', impl, loc)
            if verb == 'create':
                require(loc not in sets, '%s is created twice', loc)
                sets[loc] = dict(flags=cmd[1:], keys=0)
            elif verb == 'addkey':
                require(loc in sets, 'a key is added to %s before it is created', loc)
                require(flags.get('status') == 'primary', 'the key added to %s is not primary', loc)
                sets[loc]['keys'] += 1
                sets[loc]['size'] = flags.get('size')
                sets[loc]['crypter'] = flags.get('crypter')
                sets[loc]['add'] = cmd[1:]
                if flags.get('crypter') and 'aes128' in names(cfg, 'crypt'):
                    require(flags['crypter'] in sets and sets[flags['crypter']]['keys'],
                            'the crypter %s is used before it exists', flags['crypter'])
            elif verb == 'pubkey':
                require(loc in sets and sets[loc]['keys'], 'public keys of %s are exported before it has keys', loc)
                require(flags['destination'] not in sets, '%s is created twice', flags['destination'])
                sets[flags['destination']] = dict(public=loc)
            else:
                raise Violation('unknown keyczart command %s' % verb)
    want = {}
    for i in cfg['implementations']:
        for a, v in cfg['algorithms'].items():
            for s in v['keySizes']:
                base = os.path.join('keys', i, a + str(s))
                want[base] = (v, s, None)
                want[base + 'aes128'] = (v, s, os.path.join('keys', i, 'aes128'))
                if v['asymmetric']:
                    want[base + 'public'] = base
    require(set(sets) == set(want), 'key sets created: missing %s, unexpected %s',
            sorted(set(want) - set(sets))[:3], sorted(set(sets) - set(want))[:3])
    for loc, w in want.items():
        s = sets[loc]
        if isinstance(w, str):
            require(s.get('public') == w, '%s is not the export of %s', loc, w)
            continue
        v, size, crypter = w
        require(s.get('keys'), '%s has no key', loc)
        require(crypter or s['keys'] > 1, '%s has only one key', loc)
        require(all(f in s['flags'] for f in v['createFlags']), '%s is created without %s', loc, v['createFlags'])
        require(all(f in s['add'] for f in v['addKeyFlags']), 'the key of %s is added without %s', loc, v['addKeyFlags'])
        require(s['size'] == str(size), 'the key of %s has size %s', loc, s['size'])
        require(s['crypter'] == crypter, 'the key of %s is encrypted with %s', loc, s['crypter'])

# ------------------------------------------------------------ configurations
def alg(purpose, asym, sizes, extra=0):
    return dict(purpose=purpose, asymmetric=asym, keySizes=sizes,
                createFlags=['--purpose=' + purpose] + (['--asymmetric=rsa'] if asym else []),
                addKeyFlags=['--extra=1'] if extra else [])

KINDS = [('ca', 'crypt', True, [512, 1024]), ('aes', 'crypt', False, [128, 256]),
         ('sa', 'sign', True, [1, 2]), ('hmac', 'sign', False, [256, 512])]

def algorithms(counts):
    return {n: alg(p, a, sizes[:c], c == 2) for (n, p, a, sizes), c in zip(KINDS, counts) if c}

def both(g=None, t=None):
    return dict(generateOptions=g or {}, testOptions=t or {})

OPTIONS = [
    # as small as it can be: only what tells public from private apart
    dict(sign=both({}, {'pubKey': ['']}), verify=both({}, {'pubKey': ['public']}),
         crypt=both({'pubKey': ['']}), encrypt=both({'pubKey': ['public']})),
    # options on every role
    dict(sign=both({'ck': ['', 'aes128']}, {'class': ['verifier', 'signer'], 'pubKey': ['']}),
         verify=both({'ck': ['x']}, {'class': ['verifier'], 'pubKey': ['public']}),
         crypt=both({'class': ['crypter', 'encrypter'], 'pubKey': ['']}, {'tc': ['1', '2']}),
         encrypt=both({'class': ['encrypter'], 'pubKey': ['public'], 'ck': ['']}, {'tc': ['9']})),
    # an option that the operation overrides, and an empty list
    dict(sign=both({'enc': ['k']}, {'pubKey': ['']}), verify=both({'enc': ['k']}, {'pubKey': ['public', 'other']}),
         crypt=both({'pubKey': [''], 'enc': ['k', 'l']}, {'tenc': ['k']}), encrypt=both({'pubKey': ['public']}, {'tenc': []})),
    # an option without values: no combination
    dict(sign=both({}, {'pubKey': ['']}), verify=both({}, {'v': []}), crypt=both({'pubKey': ['']}), encrypt=both({'z': []})),
]

OPS = [
    {},
    {'enc': (['e', 'u'], None)},
    {'enc': (['e'], None), 'tenc': (None, ['x', 'y'])},
]

def operation(keytype, style, macro=False):
    g, t = {}, {}
    for k, (gv, tv) in OPS[style].items():
        if gv is not None:
            g[k] = gv
        if tv is not None:
            t[k] = tv
    if macro:
        g['signer'] = 'ALL_SIGNING_KEYS'
    return dict(keytype=keytype, generateOptions=g, testOptions=t)

OPSETS = [dict(sign='sign'), dict(encrypt='crypt'), dict(session='crypt!'), dict(sign='sign', encrypt='crypt'),
          dict(sign='sign', attached='sign', session='crypt!')]

def operations(k, style):
    return {n: operation(t.rstrip('!'), style, t.endswith('!')) for n, t in OPSETS[k].items()}

def config(impls, counts, ops, style, options, ignored=()):
    return dict(implementations=list(impls), algorithms=algorithms(counts), operations=operations(ops, style),
                options=OPTIONS[options], ignored=list(ignored))

def gen_display(ctx):
    for impls in ('a', 'ab', 'abc') if ctx.thorough else ('a', 'ab'):
        for counts in itertools.product(range(3), repeat=4):
            for ops in range(len(OPSETS)):
                for style in range(len(OPS)):
                    for o in range(len(OPTIONS)):
                        yield impls, counts, ops, style, o

def fn_display(ctx, p):
    cfg = config(*p)
    if not any(cfg['algorithms']):
        return 'no algorithms: ' + check_display(ctx, cfg)
    return check_display(ctx, cfg)

def gen_run(ctx):
    for impls in ('a', 'ab', 'abc') if ctx.thorough else ('ab',):
        for counts in itertools.product(range(3) if ctx.thorough else range(2), repeat=4):
            if not any(counts):
                continue
            for ops in range(len(OPSETS)):
                for style in range(len(OPS)):
                    for o in range(len(OPTIONS)) if ctx.thorough or style == 1 else [(ops + style) % 2]:
                        yield impls, counts, ops, style, o

def fn_run(ctx, p):
    return check_run(ctx, config(*p))

def gen_flags(ctx):
    for create in ('default', 'y', 'n'):
        for verbose in ('n', 'y'):
            for counts in ((1, 1, 1, 1), (2, 0, 1, 0), (0, 1, 0, 2)):
                yield create, verbose, counts

def fn_flags(ctx, p):
    create, verbose, counts = p
    return check_run(ctx, config('ab', counts, 3, 1, 1, RULES2[:2]), create, verbose=verbose)

def gen_bad(ctx):
    for modes in itertools.product(('ok', 'failtest', 'failgen', 'badgen', 'failcreate'), repeat=2):
        for counts in ((1, 1, 1, 1), (0, 1, 1, 0)):
            for o in range(2):
                yield modes, counts, o

def fn_bad(ctx, p):
    """implementations that fail are reported, the others still run"""
    modes, counts, o = p
    return check_run(ctx, config('ab', counts, 3, 1, o), modes=dict(zip('ab', modes)))

def gen_usage(ctx):
    for argv in ([], ['display'], ['options'], ['--help'], ['--h'], ['--create'], ['--create=x'], ['--verbose=x'], ['--creat=y'],
                 ['bogus'], ['--create=y=n'], ['--create=y', '--create=n'], ['--verbose=y', 'display'], ['--create=x', 'options']):
        yield argv

def fn_usage(ctx, argv):
    """wrong flags print the usage and call nothing"""
    cfg = config('ab', (1, 1, 1, 1), 3, 1, 1)
    res, out, err, calls, left = run(cfg, argv)
    ok = argv in ([], ['display'], ['options'], ['--create=y', '--create=n'], ['--verbose=y', 'display'], ['--create=x', 'options'])
    if ok:
        require(not res, '%s ends with %r', argv, res)
        require(bool(calls) == (argv in ([], ['--create=y', '--create=n'])), '%s: %d calls', argv, len(calls))
    else:
        require(res == 1 and 'interop.py' in out and not calls, '%s does not print the usage', argv)
    ctx.ev((), 'accepted' if ok else 'usage')

def gen_options(ctx):
    for counts in itertools.product(range(2), repeat=4):
        for ops in range(len(OPSETS)):
            for style in range(len(OPS)):
                for o in range(2):
                    yield 'ab', counts, ops, style, o

def fn_options(ctx, p):
    """the listing of options has exactly the values that the matrix uses"""
    cfg = config(*p)
    res, out, err, calls, left = run(cfg, ['options'])
    require(not isinstance(res, Exception), 'options fails with %r', res)
    got, part, op = {}, None, None
    for line in out.splitlines():
        if re.match(r'(Generate|Test) Options:', line):
            part = line.split()[0].lower()
        elif re.match(r'  \S', line):
            op = line.strip().rstrip(':')
        elif line.strip():
            n, _, vals = line.strip().partition(': ')
            got[part, op, n] = sorted(eval(vals, {}))
    want = {}
    for op, o in cfg['operations'].items():
        for a, v in cfg['algorithms'].items():
            if v['purpose'] != o['keytype']:
                continue
            if o['keytype'] == 'sign':
                gr, tr = ['sign'], ['sign', 'verify'] if v['asymmetric'] else ['sign']
            else:
                gr, tr = ['crypt', 'encrypt'] if v['asymmetric'] else ['crypt'], ['crypt']
            for part, roles, w in (('generate', gr, 'generateOptions'), ('test', tr, 'testOptions')):
                for r in roles:
                    for c in product(cfg, op, r, w):
                        for k, val in c.items():
                            want.setdefault((part, op, k), set()).add(val)
    want = {k: sorted(v) for k, v in want.items()}
    require(got == want, 'options listed %s, used %s', got, want)
    ctx.ev((), 'options')

def shipped(f):
    return json.load(open(os.path.join(env.REPO, 'interop', 'config', NAMES[f] + '.json')))

def shipped_cfg():
    cfg = {f: shipped(f) for f in NAMES}
    cfg['implementations'] = list(cfg['implementations'])
    return cfg

def gen_shipped(ctx):
    yield 'display', None
    imps = shipped_cfg()['implementations']
    if ctx.thorough:
        for n in range(1, 3):
            for sub in itertools.combinations(imps, n):
                yield 'run', list(sub)
    else:
        for i in imps:
            yield 'run', [i]

def fn_shipped(ctx, p):
    """the configuration that is shipped"""
    mode, imps = p
    cfg = shipped_cfg()
    if mode == 'display':
        return check_display(ctx, cfg)
    cfg['implementations'] = imps
    return check_run(ctx, cfg)

VALUES = [['a', 'a_b'], ['b_c', 'c'], ['', '_'], ['a']]

def gen_names(ctx):
    """names and option values that can be confused when they are joined"""
    n = len(VALUES)
    for x, y in itertools.product(range(n), repeat=2):
        for z in range(n) if ctx.thorough else (0, 2):
            for where in range(4):
                yield x, y, z, where
    for impls in (['a', 'b', 'a_generated_by_b'], ['p', 'p_generated_by_p'], ['x_sign', 'x'], ['a', 'a_']):
        yield impls,

def fn_names(ctx, p):
    if len(p) == 1:
        return check_run(ctx, dict(config('a', (0, 1, 1, 0), 4, 1, 0), implementations=list(p[0])))
    x, y, z, where = p
    cfg = config('ab', (1, 0, 1, 0), 3, 0, 0)
    X, Y, Z = VALUES[x], VALUES[y], VALUES[z]
    if where == 0:       # two options when generating
        cfg['options'] = dict(OPTIONS[0], sign=both({'x': X, 'y': Y}, {'pubKey': ['']}),
                              crypt=both({'x': X, 'y': Y, 'pubKey': ['']}), encrypt=both({'x': X, 'z': Z, 'pubKey': ['public']}))
    elif where == 1:     # one when generating, one when testing
        cfg['options'] = dict(OPTIONS[0], sign=both({'x': X}, {'y': Y, 'pubKey': ['']}), verify=both({}, {'y': Z, 'pubKey': ['p']}),
                              crypt=both({'x': X, 'pubKey': ['']}, {'y': Y}))
    elif where == 2:     # the roles differ only in the names of their options
        cfg['options'] = dict(OPTIONS[0], sign=both({'x': X}, {'s': Y}), verify=both({}, {'v': Z}),
                              crypt=both({'s': X}, {'y': Y}), encrypt=both({'e': Z}))
    else:                # operations with options of their own
        cfg['operations'] = {'sign': dict(keytype='sign', generateOptions={'x': X}, testOptions={'y': Y}),
                             'sign_a': dict(keytype='sign', generateOptions={'x': Z}, testOptions={}),
                             'encrypt': dict(keytype='crypt', generateOptions={'x': X, 'y': Y, 'z': Z}, testOptions={})}
    return check_run(ctx, cfg, create='n')

@prop('C29', 'exploration', RULE, 'exhaustive bounded enumeration of configurations run through the real runner',
      'All configurations with up to two (thorough: three) implementations, each of the four kinds of algorithm absent or with '
      'one or two sizes, five operation sets with three option styles and three key set option styles: the listing of all of '
      'them, and complete runs with recording implementations of those with one size (thorough: all); failing '
      'implementations, flags, option listing and the shipped configuration; names and option values '
      'that run into each other when they are joined with underscores. No two steps and no two key set names of a '
      'configuration coincide. '
      'Implementations that fail to create, that write unusable output or end with an error; options without values.')
def c29():
    return [Family('shipped', gen_shipped, fn_shipped, limit=600), Family('display', gen_display, fn_display),
            Family('run', gen_run, fn_run), Family('flags', gen_flags, fn_flags), Family('failing', gen_bad, fn_bad),
            Family('usage', gen_usage, fn_usage), Family('options', gen_options, fn_options),
            Family('names', gen_names, fn_names)]

# ------------------------------------------------------------ C30
def rule(i, o, a, opts, reason):
    return dict(implementation=i, operation=o, algorithm=a, options=opts, reason=reason)

RULES2 = [rule(['a'], ['*'], ['*'], {'ck': ['aes128']}, 'first'),
          rule(['*'], ['encrypt'], ['ca512', 'aes128'], {'*': '*'}, 'second'),
          rule(['b'], ['*'], ['*'], {'pubKey': ['public'], 'class': ['verifier', 'encrypter']}, 'third'),
          rule(['*'], ['*'], ['*'], {'*': '*'}, 'fourth'),
          rule(['c', 'b'], ['sign', 'encrypt'], ['sa1', '*'], {}, 'fifth'),
          rule([], ['*'], ['*'], {'*': '*'}, 'sixth'),
          rule(['*'], ['*'], ['sa1'], {'pubKey': ['']}, 'seventh'),
          rule(['*'], ['*'], ['*'], {'tc': ['1'], '*': '*'}, 'eighth')]

def subsets(names):
    return [list(c) for n in range(len(names) + 1) for c in itertools.combinations(names, n)]

IMPL = [[], ['a'], ['b'], ['a', 'b'], ['*'], ['x', '*'], ['x'], ['a*', '**']]
OPER = [[], ['sign'], ['encrypt'], ['sign', 'encrypt'], ['*'], ['encrypt', '*'], ['sig'], ['sig*', '*t']]
ALGO = [[], ['ca512'], ['ca'], ['sa1', 'aes128'], ['*'], ['hmac256', '*'], ['aes', 'hmac', '512'], ['aes*', '*512', 'AES128']]
OPTS = [{}, {'*': '*'}, {'*': ['*']}, {'pubKey': ['']}, {'pubKey': ['public']}, {'pubKey': ['', 'public']}, {'pubKey': []},
        {'class': ['verifier']}, {'class': ['verifier', 'crypter']}, {'class': ['encrypter'], 'pubKey': ['public']},
        {'class': ['encrypter'], 'pubKey': ['']}, {'ck': ['aes128'], 'class': ['signer']}, {'ck': ['']}, {'enc': ['e']},
        {'enc': ['u'], 'tc': ['2']}, {'none': ['']}, {'none': [''], 'enc': ['e']}, {'enc': ['e'], 'none': ['']},
        {'*': '*', 'enc': ['e']}, {'enc': ['e'], '*': '*'}, {'tc': ['1'], 'enc': ['e'], 'pubKey': ['']},
        {'ck': ['aes128'], 'pubKey': ['public']}, {'class': ['sign']}, {'enc': ['eu']},
        {'pubKey': ['*']}, {'enc': ['*'], 'pubKey': ['']}, {'class': ['*', 'signer']}, {'enc': ['E', 'e*']}]

def gen_rules(ctx):
    for i in IMPL:
        for o in OPER:
            for a in ALGO:
                for k in range(len(OPTS)):
                    yield i, o, a, k

def fn_rules(ctx, p):
    i, o, a, k = p
    return check_display(ctx, config('ab', (1, 1, 1, 1), 3, 1, 1, [rule(i, o, a, OPTS[k], 'r')]))

def gen_pairs(ctx):
    n = len(RULES2)
    for c in itertools.permutations(range(n), 2):
        yield c
    for c in itertools.permutations(range(n), 3):
        if ctx.thorough or sum(c) % 3 == 0:
            yield c
    base = [rule(i, ['*'], ['*'], OPTS[k], 'r%d' % k) for i in (['a'], ['*']) for k in range(3, len(OPTS))]
    for r, s in itertools.product(base, repeat=2):
        yield r, s

def fn_pairs(ctx, p):
    rs = [RULES2[i] if isinstance(i, int) else dict(i) for i in p]
    return check_display(ctx, config('ab', (1, 1, 1, 1), 3, 1, 1, rs))

def gen_reason(ctx):
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for c in itertools.permutations(range(len(RULES2)), n):
            yield c
    if ctx.thorough:
        for i, o, a, k in gen_rules(ctx):
            if i and o and a and i[0] != 'x':
                yield rule(i, o, a, OPTS[k], 'reason %d' % k),

def fn_reason(ctx, p):
    """complete runs: what the implementations are asked, and the reasons reported"""
    rs = [RULES2[i] if isinstance(i, int) else dict(i) for i in p]
    return check_run(ctx, config('ab', (1, 1, 1, 1), 3, 1, 1, rs), create='n')

def gen_srules(ctx):
    rs = shipped('ignored')
    for n in range(len(rs) + 1):
        for c in itertools.permutations(range(len(rs)), n):
            yield c

def fn_srules(ctx, p):
    """the shipped rules: every subset in every order"""
    cfg = shipped_cfg()
    rs = cfg['ignored']
    cfg['ignored'] = [rs[i] for i in p]
    return check_display(ctx, cfg)

@prop('C30', 'exploration', RULE, 'exhaustive bounded enumeration of ignore rules run through the real runner',
      'All rules over seven implementation lists, seven operation lists, seven algorithm lists and 24 option clauses (with and '
      'without wildcards, empty lists, partial names, options that do not exist), pairs and triples of rules in every order, '
      'and every subset and order of the shipped rules: the listing; complete runs with recording implementations for single '
      'rules and pairs, where the reported reasons and counts are compared too.')
def c30():
    return [Family('rules', gen_rules, fn_rules), Family('pairs', gen_pairs, fn_pairs),
            Family('reasons', gen_reason, fn_reason), Family('shipped-rules', gen_srules, fn_srules)]
