#!/usr/bin/env python3
"""Which check catches which planted bug: run every seeded patch in a clone and write the table of DESIGN.md (section 6)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(n):
    d = '/tmp/seedtable-%d-%s' % (os.getpid(), n)
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, n)))
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
        a = subprocess.run(['git', '-C', d, 'apply', '%s/seeded/%s/patch.diff' % (HERE, n)], capture_output=True, text=True)
        if a.returncode:
            return n, m, 'patch fails', ''
        r = subprocess.run([HERE + '/check', m['property']], capture_output=True, text=True,
                           env=dict(os.environ, XA_REPO=d, XA_EVIDENCE=d + '/ev', XA_WIDTH='4'))
        first = [l for l in r.stdout.split('\n') if ': rule ' in l]
        return n, m, r.returncode, first[0].split(': rule ', 1)[1].split(':')[0] if first else ''
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(4) as ex:
    rows = list(ex.map(one, sorted(x for x in os.listdir(HERE + '/seeded') if not sys.argv[1:] or x in sys.argv[1:])))
out = ['', '| planted bug | what it breaks | caught by |', '|---|---|---|']
for n, m, rc, rule in rows:
    out.append('| %s | %s | %s |' % (n, m['what_it_breaks'], '%s, rule `%s`' % (m['property'], rule) if rc == 1 else '**not caught** (exit %s)' % rc))
print('\n'.join(out))
