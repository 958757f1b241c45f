#!/usr/bin/env python3
"""seed.py make | verify [ID..] | run [ID..]
Plants the changes described in tools/seeds_src.py: `make` writes seeded/<id>/, `verify` confirms that each
builds, passes the 21 stable tests and that its demo tells it from the unchanged tree, `run` runs the
property's quick check against it.  Works in /repo itself and always restores it."""
import sys, os, subprocess, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds_src import SEEDS
R = '/repo'; BASE = 'a99f380'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean():
    assert sh('git -C /repo checkout -- . && git -C /repo status --porcelain').stdout == ''
DEMO = '''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp /tmp/demo.XXXXXX)
g++ -std=c++17 -O1 -g -w %s-I/repo/include -I/repo/src_lua_interface "$d/demo.cc" /repo/_build/lib/libGenericContainer_Static.a /repo/_build/lib/libLua.a -lm -ldl %s-o "$t" || { rm -f "$t"; exit 9; }
timeout 60 "$t"; r=$?
rm -f "$t"
exit $r
'''
HEAD = '''#include "GenericContainer/GenericContainer.hh"
%s#include <iostream>
#include <sstream>
#include <cstdlib>
using namespace GC_namespace; using namespace std;
#define OK(x) do { if (!(x)) { cerr << "FAILED: " #x "\\n"; exit(1); } } while (0)
%s
int main() {
%s
  return 0;
}
'''
def make(s):
    clean(); d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = os.path.join(R, f); t = open(p).read()
        if t.count(old) != 1: # the same text at another indentation
            rx = re.compile(r'(?m)^' + r'\n'.join(r'[ \t]*' + re.escape(l.strip()) if l.strip() else r'[ \t]*' for l in old.rstrip('\n').split('\n')) + ('\n' if old.endswith('\n') else ''))
            ms = rx.findall(t); assert len(ms) == 1, (s['id'], f, len(ms), old)
            lead = lambda x: len(x) - len(x.lstrip(' '))
            d_ = lead(ms[0]) - lead(old); new = '\n'.join(' '*d_ + l if l and d_ > 0 else l for l in new.split('\n')); old = ms[0]
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    # only lines of the original repository may be changed
    for f in {e[0] for e in s['edits']}:
        rem = []
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(f'git -C /repo diff -U0 -- {f}').stdout, re.M):
            a, n = int(m[1]), int(m[2] or 1); rem += range(a, a+n)
        b = sh(f'git -C /repo blame -s --abbrev=12 HEAD -- {f}').stdout.split('\n')
        mine = [i for i in rem if not b[i-1].startswith('^')]
        if not rem: print(s['id'], f, 'WARNING only adds lines')
        if mine: print(s['id'], f, 'WARNING changes lines of my commits:', mine, [b[i-1][:120] for i in mine][:3])
    clean()
    open(d+'/patch.diff', 'w').write(diff)
    if 'ruby' in s:
        open(d+'/demo.rb', 'w').write(s['ruby'].lstrip('\n'))
        open(d+'/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as it should; nonzero: broken\nd=$(cd "$(dirname "$0")" && pwd)\ntimeout 60 ruby "$d/demo.rb"\n'); os.chmod(d+'/demo.sh', 0o755)
    else:
        open(d+'/demo.cc', 'w').write(HEAD % (s.get('inc', ''), s.get('pre', ''), s['demo'].rstrip()))
        open(d+'/demo.sh', 'w').write(DEMO % (('-fsanitize=address ' if s.get('asan') else '') + s.get('flags', ''), s.get('ld', '')))
        for n, f in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(open(os.path.join(V, f)).read())
        os.chmod(d+'/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d+'/meta.json', 'w'), indent=1)
def tests():
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: return 'BUILD FAILED ' + '\n'.join(l for l in (b.stdout+b.stderr).split('\n') if 'error' in l)[:500]
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    n = len(json.load(open('/tmp/seed_o.json'))['passed'])
    return 'ok' if n == 21 else f'{n} tests pass'
def apply(s):
    clean(); r = sh(f"git -C /repo apply {V}/seeded/{s['id']}/patch.diff"); assert r.returncode == 0, r.stderr
def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    ss = [s for s in SEEDS if not ids or s['id'] in ids or any(s['id'].startswith(i) for i in ids)]
    assert len({s['id'] for s in SEEDS}) == len(SEEDS)
    if cmd == 'make':
        for s in ss: make(s)
    elif cmd == 'verify':
        clean(); print('clean:', tests())
        for s in ss:
            r = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=R)
            if r.returncode: print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stderr[-800:])
        for s in ss:
            apply(s); t = tests(); r = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=R); clean()
            print(s['id'], t, 'demo', r.returncode, (r.stderr or '').strip().split('\n')[0][:120], flush=True)
        tests()
    elif cmd == 'run':
        tier = os.environ.get('TIER', 'quick')
        for s in ss:
            apply(s)
            try:
                r = sh(f"python3 check.py {s['prop']} {tier}", cwd=V)
            finally: clean()
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            print(s['id'], 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', (v or r.stdout.strip().split('\n')[-1:])[0][:200], flush=True)
main()
