"""Validates planted bugs: plant.py DIR... ; DIR has edits.py (EDITS), demo.py, meta.json.

Used while writing the bugs in seeded/: makes patch.diff from a list of edits in a scratch copy of /repo, and confirms
that it touches original lines only, builds, passes the tests that pass without it, that the demonstration tells the two
apart, and which checks report it. No check reads seeded/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
BASE = '6bf94bc'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def tests(d):
    """names of the passing tests of a copy"""
    out = set()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    env['PYTHONPATH'] = d + '/python/src'
    r = sh('/opt/venv/bin/python -m pytest -q -rA -p pytest_timeout -p no:cacheprovider --timeout=120 --continue-on-collection-errors $(ls *_test.py | grep -v ^interop_test)',
           cwd=d + '/python/tests/keyczar_tests', env=env)
    out |= set(re.findall(r'^PASSED (\S+)', r.stdout, re.M))
    r = sh('/opt/venv/bin/python -m pytest -q -rA -p no:cacheprovider interop_unit_test.py', cwd=d + '/interop', env=env)
    out |= set(re.findall(r'^PASSED (\S+)', r.stdout, re.M))
    return out

def copy():
    d = tempfile.mkdtemp(prefix='kzp')
    r = d + '/repo'
    shutil.copytree('/repo', r, symlinks=True)
    return d, r

def demo(seed, r):
    env = {k: v for k, v in os.environ.items() if not k.startswith('VERIF')}
    return sh(['bash', os.path.join(seed, 'demo.sh')], cwd=r, env=env, timeout=300)

def main():
    d, r = copy()
    base = tests(r)
    print('baseline', len(base))
    for seed in sys.argv[1:]:
        seed = os.path.abspath(seed)
        name = os.path.basename(seed)
        meta = json.load(open(seed + '/meta.json'))
        bad = []
        sh('git checkout -q -- .', cwd=r)
        ap = sh(['git', 'apply', seed + '/patch.diff'], cwd=r)
        if ap.returncode:
            print(name, 'DOES NOT APPLY', ap.stderr); continue
        sh('git checkout -q -- .', cwd=r)
        # original lines
        for f, lines in removed(open(seed + '/patch.diff').read()).items():
            for n in lines:
                b = sh(['git', 'blame', '-s', '-l', '-L', '%d,%d' % (n, n), '--', f], cwd=r).stdout
                h = b.split()[0].lstrip('^')
                if sh(['git', 'merge-base', '--is-ancestor', h, BASE], cwd=r).returncode:
                    bad.append('line %s:%d is ours' % (f, n))
        x = demo(seed, r)
        if x.returncode:
            bad.append('demo fails on the unchanged tree: ' + (x.stdout + x.stderr)[-300:])
        sh(['git', 'apply', seed + '/patch.diff'], cwd=r)
        y = demo(seed, r)
        if not y.returncode:
            bad.append('demo passes with the patch')
        t = tests(r)
        if base - t:
            st = [x for x in base - t if 'interop_unit' in x]
            bad.append('%s tests break: %s' % ('STABLE' if st else 'unstable', sorted(base - t)[:3]))
        ids = [meta['property']] + os.environ.get('ALSO', '').split()
        res = []
        for p in ids:
            e = dict(os.environ, KZ_REPO=r, KZ_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
            c = sh(['/opt/venv/bin/python', 'check.py', p], cwd=HERE, env=e)
            m = re.search(r'^-> (.*)$', c.stdout, re.M)
            res.append('%s %s' % (p, 'CAUGHT: ' + m.group(1)[:140] if c.returncode == 1 and 'VIOLATION' in c.stdout else '*** MISSED rc=%d' % c.returncode))
        planted = os.path.join(HERE, 'tools', 'planted.json')
        table = json.load(open(planted)) if os.path.exists(planted) else {}
        table[name] = dict(valid=not [b for b in bad if not b.startswith('unstable')],
                           caught=[x.split()[0] for x in res if 'CAUGHT' in x], missed=[x.split()[0] for x in res if 'MISSED' in x])
        json.dump(table, open(planted, 'w'), indent=1, sort_keys=True)
        print(name, '|', (y.stdout + y.stderr).strip()[-100:].replace('\n', ' '), '|', '; '.join(res), '|', '; '.join(bad) or 'valid', flush=True)
        sh('git checkout -q -- .', cwd=r)
    shutil.rmtree(d)

def removed(diff):
    out, f, n = {}, None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-') and not l.startswith('---'):
            out.setdefault(f, []).append(n); n += 1
        elif l.startswith(' '):
            n += 1
    return out

if __name__ == '__main__':
    main()
