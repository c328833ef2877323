#!/usr/bin/env python3
"""Run checks on edited copies of the repository.

trial.py FILE [NAME...]   FILE defines TRIALS = [(name, expect, props, edits)]
  expect: 'ok' (behaviour kept) or 'bad' (property broken)
  props : 'P01,P02'
  edits : [(path, old, new)] | [(path, function(source) -> source)]"""
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def one(t):
    name, expect, props, edits = t
    d = tempfile.mkdtemp(prefix='trial-', dir='/tmp')
    try:
        shutil.copytree(REPO + '/ndg', d + '/ndg')
        for e in edits:
            p = os.path.join(d, e[0])
            s = open(p).read() if os.path.exists(p) else ''
            if len(e) == 3:
                if s.count(e[1]) < 1:
                    return name, expect, [('EDIT', 9, 'text not found in %s: %r' % (e[0], e[1]))]
                n = s.replace(e[1], e[2])
            else:
                n = e[1](s)
            if n == s:
                return name, expect, [('EDIT', 9, 'no change')]
            compile(n, p, 'exec')
            open(p, 'w').write(n)
        out = []
        for p in props.split(','):
            t0 = time.time()
            env = dict(os.environ, XA_REPO=d, XA_EVIDENCE=d + '/ev', XA_WIDTH='2')
            if '@' in p:
                p, o = p.split('@')
                env['XA_ONLY'] = o.replace('+', ',')
            r = subprocess.run([HERE + '/check', p], env=env,
                               capture_output=True, text=True, timeout=900)
            out.append((p, r.returncode, '%.0fs ' % (time.time() - t0) + r.stdout + r.stderr[-800:]))
        return name, expect, out
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    ts = [t for t in ns['TRIALS'] if not sys.argv[2:] or any(a in t[0] for a in sys.argv[2:])]
    bad = 0
    with ThreadPoolExecutor(7) as ex:
        for name, expect, out in ex.map(one, ts):
            rcs = [rc for _, rc, _ in out]
            good = all(rc == 0 for rc in rcs) if expect == 'ok' else (1 in rcs and not [r for r in rcs if r not in (0, 1)])
            bad += not good
            print('%s %-30s expect=%s %s' % ('  ' if good else '!!', name, expect,
                                           ' '.join('%s=%d' % (p, rc) for p, rc, _ in out)))
            for p, rc, txt in out:
                lines = [l for l in txt.split('\n') if l.strip() and 'KNOWN-FINDING' not in l]
                if not good or (expect == 'bad' and rc == 1):
                    for l in lines[:2 if good else 6]:
                        print('       ' + l[:420])
            sys.stdout.flush()
    print('%d of %d unexpected' % (bad, len(ts)))


main()
