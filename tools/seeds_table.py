#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md from seeds_list.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds_list import SEEDS
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
i = t.index('## 4. Planted bugs')
s = '''## 4. Planted bugs

`seeded/<id>/` (specified in tools/seeds_list.py, written and verified with tools/seeds.py: the demonstration passes on the
unchanged tree and fails with the patch, the 393 tests pass with it).  "Caught by" names the check which reports a VIOLATION
in its quick tier.  In addition tools/mutate.py runs the checks on single-site mutants of all sources (section 5).

| id | change in | needs | caught by |
|---|---|---|---|
'''
for k, v in SEEDS.items():
    s += '| %s | %s | %s | %s |\n' % (k, ', '.join(f.replace('src/', '') for f in v['edit']), v['needs'], v.get('caught', v['property']))
s += '''
## 5. Mutation campaign

tools/mutate.py applies one small change at a time (operators, constants, conditions, deleted statements, swapped arguments) to
each source file in a scratch copy, drops mutants which do not compile or fail the existing tests, and runs the checks whose
harness compiles that file.  Survivors were reviewed one by one; those which break a property led to stronger checks (among others:
longest device type names, registration of a component twice, `ai_protocol` of a connection, privileges of the watchdog,
listening for the error of a failed upgrade), the others are equivalent, concern only the text of log messages, or code which is
not compiled here (Windows).

## 6. Changes which keep the behaviour

Several rounds of refactorings (helpers extracted, loops rewritten, other stdio calls for the statistics, `pthread_mutex_trylock`,
other ways to sleep and to ask for the time, threads which call the main loop from a function of their own, files read instead of
mapped; 35 files together) in scratch copies left all checks quiet, after the stand-ins were made to know the other calls
(all of stdout is captured below stdio, for instance).
'''
open(p, 'w').write(t[:i] + s)
