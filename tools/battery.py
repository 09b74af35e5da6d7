#!/usr/bin/env python3
"""Runs checks against edited copies of the tree (development aid; no registered command uses it).

battery.py FILE.txt [name-substring]   with FILE made of blocks:
  == name | property[,property] | expect (bad|quiet) | optional @scenario filter
  --- path
  <<<<
  old text
  ====
  new text
  >>>>
"""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def parse(p):
    out = []
    for blk in re.split(r'(?m)^== ', open(p).read())[1:]:
        head, body = blk.split('\n', 1)
        f = [x.strip() for x in head.split('|')]
        eds = []
        path = None
        for m in re.finditer(r'(?m)^--- (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>', body, re.S | re.M):
            if m.group(1):
                path = m.group(1)
            else:
                eds.append((path, m.group(2), m.group(3)))
        out.append((f[0], f[1].split(','), f[2], f[3].split() if len(f) > 3 else [], eds))
    return out

def main():
    only = sys.argv[2:]
    miss = 0
    for name, props, expect, filt, eds in parse(sys.argv[1]):
        if only and not any(o in name for o in only):
            continue
        d = tempfile.mkdtemp(prefix='bat')
        try:
            for sub in ('fog', 'cfog'):
                shutil.copytree('/repo/' + sub, d + '/' + sub, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.c'))
            bad = None
            for path, a, b in eds:
                t = open(d + '/' + path).read()
                if a not in t:
                    bad = path
                    break
                open(d + '/' + path, 'w').write(t.replace(a, b, 1))
            if bad:
                print('%-40s EDIT DOES NOT APPLY %s' % (name, bad)); miss += 1
                continue
            for p in props:
                r = subprocess.run([sys.executable, HERE + '/check.py', p] + filt, env=dict(os.environ, FOG_REPO=d, SA_EVIDENCE=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
                got = {0: 'quiet', 1: 'bad'}.get(r.returncode, 'error')
                lines = [l.replace(d, '') for l in r.stdout.splitlines()]
                print('%-40s %s %-6s %s %s' % (name, p, got, '' if got == expect else '<<<<<< EXPECTED ' + expect, (lines[0] if got == 'bad' else lines[-1] if lines else '')[:230]))
                if got != expect:
                    miss += 1
                    if got == 'error':
                        print(r.stdout[-2000:])
        finally:
            shutil.rmtree(d)
    print('misses', miss)
if __name__ == "__main__":
    main()
