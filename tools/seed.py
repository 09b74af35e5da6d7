#!/usr/bin/env python3
"""Builds and confirms planted bugs: seed.py SPEC.txt [name...]  (development aid; no registered command uses it)

SPEC blocks:
== id | property
needs: ...
breaks: ...
--- path
<<<<
old
====
new
>>>>
demo:
<python source until next == >
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = None

def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin')
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def tests(d):
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
        '--ignore=test/clustering/minhash_test.py', '--ignore=test/clustering/nn_descent_test.py', '--ignore=test/clustering/ppjoin_test.py', '--ignore=test/clustering/quickjoin_test.py',
        '-rA', 'test'], d)
    return set(re.findall(r'^PASSED (\S+)', r.stdout, re.M)), r.stdout

def main():
    for blk in re.split(r'(?m)^== ', open(sys.argv[1]).read())[1:]:
        head, body = blk.split('\n', 1)
        name, prop = [x.strip() for x in head.split('|')]
        if sys.argv[2:] and name not in sys.argv[2:]:
            continue
        body, demo = body.split('\ndemo:\n')
        needs = re.search(r'^needs: (.*)$', body, re.M).group(1)
        brk = re.search(r'^breaks: (.*)$', body, re.M).group(1)
        out = HERE + '/seeded/' + name
        d = tempfile.mkdtemp(prefix='seed')
        try:
            subprocess.check_call(['cp', '-a', '/repo/.', d])
            path = None
            okk = True
            for m in re.finditer(r'(?m)^--- (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>', body, re.S | re.M):
                if m.group(1):
                    path = m.group(1)
                else:
                    t = open(d + '/' + path).read()
                    if t.count(m.group(2)) != 1:
                        print(name, 'EDIT MATCHES', t.count(m.group(2)), 'TIMES', path); okk = False
                    open(d + '/' + path, 'w').write(t.replace(m.group(2), m.group(3), 1))
            if not okk:
                continue
            diff = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE, universal_newlines=True).stdout
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.py', 'w').write(demo.strip('\n') + '\n')
            open(out + '/demo.sh', 'w').write('#!/bin/bash\n# runs in the repository; exits 0 when the property holds\nH=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$H/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump(dict(property=prop, needs=needs, what_it_breaks=brk), open(out + '/meta.json', 'w'), indent=1)
            global BASE
            if BASE is None:
                BASE = tests('/repo')[0]
            if any('.pyx' in x for x in re.findall(r'^--- (\S+)', body, re.M)):
                b = sh(['bash', '-c', 'find cfog -name "*.so" -delete; rm -rf build; python -m cython cfog/metrics/levenshtein.pyx && python setup.py -q build_ext --inplace'], d)
                if b.returncode:
                    print(name, 'BUILD', b.stdout[-800:])
            t, o = tests(d)
            r0 = sh(['bash', out + '/demo.sh'], '/repo')
            r1 = sh(['bash', out + '/demo.sh'], d)
            lost = BASE - t
            good = not lost and r0.returncode == 0 and r1.returncode != 0
            print('%-28s %s %s tests lost=%d demo clean=%d patched=%d' % (name, prop, 'OK' if good else 'REJECTED', len(lost), r0.returncode, r1.returncode))
            if not good:
                print('   ', sorted(lost)[:4], r0.stdout[-600:], '| patched:', r1.stdout[-400:])
                shutil.rmtree(out)
        finally:
            shutil.rmtree(d)
main()
