#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property by exhaustive exploration of the bounded space that
mc/props declares for it. Exit 0: it held everywhere; exit 1 with a VIOLATION
line: it did not.
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def preload():
    """Start again with the file system shim in front of the C library."""
    import shutil
    import subprocess
    import tempfile
    d = os.environ.pop('KZ_SHIM', None)
    if d:
        os.environ.pop('LD_PRELOAD', None)
        shutil.rmtree(d, ignore_errors=True)
        return
    d = tempfile.mkdtemp(prefix='kzshim')
    so = os.path.join(d, 'shim.so')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', so, os.path.join(HERE, 'mc', 'shim.c'), '-ldl'])
    e = dict(os.environ, LD_PRELOAD=so, KZ_SHIM=d)
    sys.stdout.flush()
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:], e)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    evdir = os.environ.get('KZ_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replays'), exist_ok=True)

    from mc import core, env
    from mc.props import registry
    spec = registry.get(a.property)
    if spec.preload:
        preload()
    viol = None
    merged = None
    try:
        env.load()
        families = spec.families()
    except Exception as e:
        viol = (0, 'import', 0, '', 'the package cannot be loaded: %s: %s' % (type(e).__name__, e),
                traceback.format_exc())
    if a.replay:
        r = json.load(open(a.replay))
        if viol:
            print(viol[4])
            return 1
        return core.replay(a.property, families, r['tier'], r['seed'], r['family'], r['index'])
    if viol is None:
        deadline = 840 if a.tier == 'quick' else None
        merged = core.run(a.property, families, a.tier, seed, deadline)
        if merged['viols']:
            viol = merged['viols'][0]
    wall = time.time() - t0
    ev = dict(property=a.property, tier=a.tier, seed=seed, level=spec.level, wall_s=round(wall, 2),
              violations=0 if viol is None else max(1, len(merged['viols']) if merged else 1),
              assumptions=spec.assumptions)
    cov = spec.coverage(merged) if merged else dict(explanation='nothing was explored')
    ev['coverage'] = cov
    with open(os.path.join(evdir, a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    brief = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    print('%s %s seed=%d: %s wall=%.1fs' % (a.property, a.tier, seed, json.dumps(brief), wall))
    if merged:
        print('outcomes: %s' % json.dumps(dict(sorted(merged['outcomes'].items(), key=lambda x: -x[1])[:12])))
    if merged:
        for fid, (pid, text) in sorted(core.KNOWN.items()):
            if merged['counters'].get('known finding ' + fid):
                print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if viol is not None:
        n, fam, idx, params, msg, tb = viol
        path = os.path.join(evdir, 'replays', '%s-%s-%d.json' % (a.property, fam, idx))
        with open(path, 'w') as f:
            json.dump(dict(property=a.property, tier=a.tier, seed=seed, family=fam, index=idx, params=params,
                           message=msg, traceback=tb,
                           how='python check.py %s --replay <this file>' % a.property), f, indent=1)
        print('family %s case #%d %s' % (fam, idx, params[:600]))
        print('-> ' + msg)
        print('VIOLATION property=%s replay=%s' % (a.property, path))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
