#!/usr/bin/env python3
"""Planted bugs: tools/seeds.py make [ID..] writes seeded/ID/{patch.diff,demo.sh,stubs.h,meta.json}
(demo.c/demo.cc are kept there by hand); tools/seeds.py verify [ID..] tries them on /repo."""
import json, os, subprocess, sys, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
W = '/tmp/seedwork'
STUBS = r'''// stand-in for the log component
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#ifdef __cplusplus
extern "C" {
#endif
#include "util/log.h"
static void emerg(enum LOG_LEVEL l, const char * m) { if (l == LOG_LEVEL_EMERG) { fprintf(stderr, "EMERG: %s\n", m); exit(3); } }
void LOG_logf(enum LOG_LEVEL l, const char * p, const char * f, ...) { emerg(l, f); }
void LOG_log(enum LOG_LEVEL l, const char * p, const char * s) { emerg(l, s); }
void LOG_flush(void) { }
void LOG_errno(enum LOG_LEVEL l, const char * p, const char * f, ...) { emerg(l, f); }
void LOG_errno2(enum LOG_LEVEL l, int e, const char * p, const char * f, ...) { emerg(l, f); }
void LOG_errnet(enum LOG_LEVEL l, const char * p, const char * f, ...) { emerg(l, f); }
#ifdef __cplusplus
}
#endif
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "FAILED (line %d): ", __LINE__); fprintf(stderr, __VA_ARGS__); fputc('\n', stderr); exit(1); } } while (0)
'''
DEMO = r'''#!/bin/sh
# exit 0: the property holds in this scenario; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
F="-g -O1 -w -DHAVE_CONFIG_H -I_build -Isrc -I$D -pthread %(flags)s"
for s in %(srcs)s; do
	gcc -std=gnu11 -fexceptions $F -c "src/$s" -o "$T/$(echo "$s" | tr / _).o" || exit 2
done
%(cc)s $F "$D/%(demo)s" "$T"/*.o -o "$T/demo" %(ld)s || exit 2
cd "$T" && timeout 120 ./demo
'''
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds_list import SEEDS

def git(*a, **k): return subprocess.run(['git', '-C', k.pop('d', '/repo')] + list(a), capture_output=True, text=True, **k)
def make(i):
    s = SEEDS[i]
    if not os.path.isdir(W): subprocess.check_call(['git', 'clone', '-q', '/repo', W])
    git('fetch', '-q', d=W); git('reset', '-q', '--hard', git('rev-parse', 'HEAD').stdout.strip(), d=W)
    for f, pairs in s['edit'].items():
        p = os.path.join(W, f)
        t = open(p).read()
        for a, b in pairs:
            assert t.count(a) == 1, (i, f, a, t.count(a))
            t = t.replace(a, b)
        open(p, 'w').write(t)
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    diff = git('diff', d=W).stdout
    assert diff, i
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    demo = 'demo.cc' if os.path.exists(os.path.join(d, 'demo.cc')) else 'demo.c'
    open(os.path.join(d, 'stubs.h'), 'w').write(STUBS)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(flags=s.get('flags', ''), srcs=' '.join(s.get('srcs', [])), demo=demo,
        cc='g++ -std=gnu++17' if demo == 'demo.cc' else 'gcc -std=gnu11 -fexceptions', ld=s.get('ld', '')))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def sh(cmd, cwd='/repo'): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
def verify(i, check=True):
    assert not git('status', '--short').stdout.strip(), 'repo dirty'
    d = os.path.join(S, i)
    r = sh('%s/demo.sh' % d)
    res = ['demo clean %d' % r.returncode]
    if r.returncode: print(r.stderr[-1500:])
    p = git('apply', os.path.join(d, 'patch.diff'))
    if p.returncode: print(i, 'does not apply', p.stderr); return
    try:
        b = sh('bash %s/tools/repotest.sh' % V)
        res.append(b.stdout.strip().split('\n')[-1])
        if b.returncode: print(b.stdout[-1500:])
        r = sh('%s/demo.sh' % d)
        res.append('demo bug %d %s' % (r.returncode, r.stderr.strip()[-150:]))
        if check:
            c = sh('./check %s' % SEEDS[i]['property'], V)
            res.append('check %d %s' % (c.returncode, ' / '.join(l for l in c.stdout.split('\n') if 'VIOLATION' in l or l.startswith('  case'))[-260:]))
    finally:
        git('checkout', '--', '.')
    print(i, SEEDS[i]['property'], '|', ' | '.join(res), flush=True)
if __name__ == '__main__':
    ids = sys.argv[2:] or list(SEEDS)
    for i in ids:
        if sys.argv[1] == 'make': make(i)
        elif sys.argv[1] == 'verify': verify(i)
    if sys.argv[1] == 'verify': sh('bash /opt/vp/build.sh')
