#!/usr/bin/env python3
"""Build /verif/seeded/<id>/ from tools/seeds/*.py and confirm each one:
the demo passes on the unchanged tree, fails with the patch, and the stable
tests pass with the patch.   mkseed.py FILE [ID...]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = '/tmp/seedrepo-%d' % os.getpid()
PRE = '''import sys, os
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)
'''
SH = '''#!/bin/bash
# run in the repository; 0: the property holds
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    bad = 0
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in ns['SEEDS']:
        if sys.argv[2:] and s['id'] not in sys.argv[2:]:
            continue
        shutil.rmtree(COPY, ignore_errors=True)
        sh('git', 'clone', '-q', '/repo', COPY)
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        msgs = []
        with open(d + '/demo.py', 'w') as f:
            f.write(PRE + ns.get('PRELUDE', '') + s['demo'])
        with open(d + '/demo.sh', 'w') as f:
            f.write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        try:
            r = sh('bash', d + '/demo.sh', cwd=COPY)
            if r.returncode != 0:
                msgs.append('demo fails on the unchanged tree: ' + r.stderr[-500:])
            for path, old, new in s['edits']:
                p = COPY + '/' + path
                t = open(p, newline='').read()
                if t.count(old) < 1:
                    msgs.append('text not found in %s' % path)
                    continue
                n = t.replace(old, new, 1)
                open(p, 'w', newline='').write(n)
            with open(d + '/patch.diff', 'w', newline='') as f:
                f.write(sh('git', '-C', COPY, 'diff').stdout)
            if not msgs:
                r = sh('bash', d + '/demo.sh', cwd=COPY)
                if r.returncode == 0:
                    msgs.append('demo passes with the patch')
                else:
                    s['_why'] = (r.stderr.strip().split('\n') or [''])[-1]
                b = sh('python3', '-m', 'compileall', '-q', 'ndg', cwd=COPY)
                if b.returncode:
                    msgs.append('does not build')
                for v, n in (('/opt/venv', 'lxml'), ('/opt/venv-nolxml', 'etree')):
                    sh(v + '/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o',
                       'junit_family=xunit2', '--junit-prefix=' + n, '--junitxml=%s.%s.xml' % (COPY, n), 'ndg', cwd=COPY,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LC_ALL='C.UTF-8', PYTHONPATH=COPY))
                sh('python3', '/opt/vp/results.py', COPY + '.json', 'junit:%s.*.xml' % COPY)
                miss = stable - set(json.load(open(COPY + '.json'))['passed'])
                if miss:
                    msgs.append('tests fail: %s' % sorted(miss)[:4])
                out = []
                env = dict(os.environ, XA_EVIDENCE='/tmp/seed-ev', XA_REPO=COPY)
                c = sh(HERE + '/check', s['property'], env=env)
                s['_check'] = '%s=%d' % (s['property'], c.returncode)
                s['_first'] = (c.stdout.split('\n') or [''])[0][:200]
        finally:
            shutil.rmtree(COPY, ignore_errors=True)
        bad += bool(msgs)
        print('%s %-34s %s %s' % ('!!' if msgs else '  ', s['id'], s.get('_check'), '; '.join(msgs) or s.get('_why')))
        if s.get('_check', '').endswith('=1'):
            print('       ' + s['_first'])
        if msgs:
            shutil.rmtree(d)
        sys.stdout.flush()
    print('%d bad' % bad)


main()
