"""Collects key sets and outputs kept from earlier releases into fixtures/golden.json."""
import glob, json, os
out = {}
for base in ('cpp/src/keyczar/data/06b', 'java/code/testdata', 'python/jtestdata', 'python/testdata'):
    for n in ('aes', 'aes-crypted', 'dsa', 'dsa.public', 'hmac', 'rsa', 'rsa.public', 'rsa-sign', 'rsa-sign.public'):
        d = os.path.join('/repo', base, n)
        if os.path.isdir(d):
            out[base + '/' + n] = {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))
                                   if os.path.isfile(os.path.join(d, f))}
for n in ('aes', 'rsa', 'dsa', 'hmac'):
    d = '/repo/java/code/testdata/crosscomp/' + n
    out['java/code/testdata/crosscomp/' + n] = {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))
                                   if os.path.isfile(os.path.join(d, f))}
d = '/repo/java/code/testdata/signedsession'
for r, _, fs in os.walk(d):
    out[os.path.relpath(r, '/repo')] = {f: open(os.path.join(r, f)).read() for f in sorted(fs)}
json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'golden.json'), 'w'), indent=0, sort_keys=True)
for k in out: print(k, sorted(out[k]))
