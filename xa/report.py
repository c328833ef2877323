"""Obligations, evidence files, verdict lines."""
import ast
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .engine import Interp, Unsupported, AnchorMissing, AbsExc, Cut
from . import engine

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('XA_REPO', '/repo')


class Ctx(object):
    def __init__(self, prop, tier, seed, root=REPO):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.root = root
        self.thorough = tier == 'thorough'
        self.obs = {}            # (rule, construct) -> dict
        self.order = []
        self.errors = []
        self.minima = {}
        self.functions = {}
        self.modules = set()
        self.stats = {}
        self.bounded = set()
        self.notes = []
        self.t0 = time.time()
        self._interps = []
        self.known = load_known()
        self.nviol = 0
        self.tviol = None

    # -- recording --------------------------------------------------------

    def ob(self, rule, construct, ok, msg='', where=None, trace=None):
        k = (rule, construct)
        o = self.obs.get(k)
        if o is None:
            o = self.obs[k] = {'rule': rule, 'construct': construct, 'ok': True,
                               'instances': 0, 'failures': []}
            self.order.append(k)
        o['instances'] += 1
        if not ok:
            if o['ok'] and (self.prop,) + k not in self.known:
                self.nviol += 1
                self.tviol = self.tviol or time.time()
            o['ok'] = False
            if len(o['failures']) < 5:
                o['failures'].append({'msg': msg, 'where': where, 'trace': trace})
        return ok

    def minimum(self, rule, n):
        if not os.environ.get('XA_ONLY'):
            self.minima[rule] = n

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def error(self, what):
        self.errors.append(what)

    def guard(self, what, fn, *a, **k):
        """Run part of a check; an analyser failure is recorded, not fatal to the
        other parts."""
        try:
            return fn(*a, **k)
        except (Unsupported, AnchorMissing, AbsExc, RecursionError) as e:
            d = str(e)
            if isinstance(e, AbsExc):
                d = 'analysed code raised %r %r at %s' % (e.value.cls, e.value.attrs.get('args'), e.where)
            self.error('%s: %s: %s' % (what, type(e).__name__, d))
            if os.environ.get('XA_DEBUG'):
                traceback.print_exc()
            return None

    # -- analysis ---------------------------------------------------------

    def interp(self, *mods, **config):
        I = Interp(self.root, config or None)
        for m in mods:
            try:
                I.import_module(m)
            except AbsExc as e:
                raise AnchorMissing('module %s cannot be loaded: %r %r at %s' % (
                    m, e.value.cls, e.value.attrs.get('args'), e.where))
        self._interps.append(I)
        return I

    def explore(self, label, I, entry, check=None):
        before = dict(I.stats)
        t = time.time()
        if self.nviol and t - self.tviol > 30:
            self.note('%s: not analysed after finding violations' % label)
            return 0
        def chk(I, out):
            r = check(I, out) if check is not None else None
            if self.nviol and time.time() - self.tviol > 20:
                # violations stand; the rest of the paths cannot change the verdict
                self.note('%s: stopped early after finding violations' % label)
                return 'stop'
            return r
        n = I.explore(entry, chk)
        d = {k: I.stats[k] - before.get(k, 0) for k in I.stats}
        d['wall_s'] = round(time.time() - t, 3)
        s = self.stats.setdefault(label, {})
        for k, v in d.items():
            s[k] = round(s.get(k, 0) + v, 3)
        if I.unsaturated:
            self.bounded.update(I.unsaturated)
        return n

    # -- parts run side by side ---------------------------------------------

    def parallel(self, tasks, width=8, limit=780):
        """tasks: (label, function, args...); each runs in a process of its own as function(part, *args)
        on a context whose findings are merged into this one, in the order given."""
        if os.environ.get('XA_SERIAL'):
            for t in tasks:
                self.guard(t[0], t[1], self, *t[2:])
            return
        tasks = list(tasks)
        width = int(os.environ.get('XA_WIDTH', width))
        results = [None] * len(tasks)
        todo = list(range(len(tasks)))
        running = {}                     # fd -> (index, pid, chunks)
        start, viol = time.time(), None
        sys.stdout.flush()
        while todo or running:
            now = time.time()
            if now - start > limit or viol and now - viol > 25:
                break
            while todo and len(running) < width:
                i = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        part = self.part(tasks[i])
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(part, f)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(w)
                running[r] = (i, pid, [])
            ready = select.select(list(running), [], [], 1.0)[0]
            for r in ready:
                i, pid, chunks = running[r]
                b = os.read(r, 1 << 20)
                if b:
                    chunks.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del running[r]
                try:
                    results[i] = pickle.loads(b''.join(chunks))
                except Exception:
                    self.error('%s: the analysis process ended without a result' % tasks[i][0])
                    continue
                if results[i]['nviol']:
                    viol = viol or time.time()
        for r, (i, pid, chunks) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            todo.append(i)
        for i in sorted(todo):
            if viol:
                self.note('%s: not analysed after finding violations' % tasks[i][0])
            else:
                self.error('%s: not analysed within %d s' % (tasks[i][0], limit))
        for res in results:
            if res:
                self.merge(res)

    def part(self, task):
        c = Ctx(self.prop, self.tier, self.seed, self.root)
        try:
            c.guard(task[0], task[1], c, *task[2:])
        except Exception as e:
            if os.environ.get('XA_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            c.error('%s: %s: %s (%s:%s)' % (task[0], type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        c.collect()
        plain = lambda o: json.loads(json.dumps(o, default=str))
        return {'obs': [plain(c.obs[k]) for k in c.order], 'errors': c.errors, 'functions': c.functions, 'modules': sorted(c.modules),
                'stats': plain(c.stats), 'bounded': sorted(c.bounded), 'notes': c.notes, 'nviol': c.nviol}

    def merge(self, res):
        for o in res['obs']:
            k = (o['rule'], o['construct'])
            m = self.obs.get(k)
            if m is None:
                self.obs[k] = o
                self.order.append(k)
            else:
                m['instances'] += o['instances']
                m['ok'] = m['ok'] and o['ok']
                m['failures'] = (m['failures'] + o['failures'])[:5]
        self.errors += res['errors']
        self.functions.update(res['functions'])
        self.modules.update(res['modules'])
        self.bounded.update(res['bounded'])
        for n in res['notes']:
            self.note(n)
        for l, d in res['stats'].items():
            s = self.stats.setdefault(l, {})
            for k, v in d.items():
                s[k] = round(s.get(k, 0) + v, 3)
        if res['nviol']:
            self.nviol += res['nviol']
            self.tviol = self.tviol or time.time()

    def collect(self):
        for I in self._interps:
            self.functions.update({q: p for q, p in I.functions_seen.items() if p and p.startswith(self.root)})
            for m in I.modules.values():
                if m.path and not m.path.startswith(os.path.dirname(os.path.abspath(__file__))):
                    self.modules.add(os.path.relpath(m.path, self.root))

    def finish(self):
        self.collect()
        for rule, n in self.minima.items():
            c = sum(1 for k in self.obs if k[0] == rule)
            if c < n:
                self.error('rule %s matched %d constructs, expected at least %d' % (rule, c, n))
        known = self.known
        viol, kn = [], []
        for k in self.order:
            o = self.obs[k]
            if o['ok']:
                continue
            if (self.prop, k[0], k[1]) in known:
                kn.append(o)
            else:
                viol.append(o)
        evdir = os.environ.get('XA_EVIDENCE') or os.path.join(HERE, 'evidence')
        os.makedirs(evdir, exist_ok=True)
        rules = {}
        for o in self.obs.values():
            r = rules.setdefault(o['rule'], {'constructs': 0, 'instances': 0, 'violated': 0})
            r['constructs'] += 1
            r['instances'] += o['instances']
            r['violated'] += 0 if o['ok'] else 1
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'static analysis (abstract interpretation of the current source of %s); '
                               'one obligation per (rule, construct); every abstract path of each entry point is '
                               'enumerated to a fixpoint' % self.root,
                'obligations': len(self.obs),
                'discharged': sum(1 for o in self.obs.values() if o['ok']),
                'rules': rules,
                'constructs': ['%s: %s' % (o['rule'], o['construct']) for o in self.obs.values()],
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions),
                'modules_consulted': sorted(self.modules),
                'explorations': self.stats,
                'bounded_at': sorted(self.bounded),
                'notes': self.notes,
                'known_findings': len(kn),
            },
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(viol),
        }
        if self.errors:
            ev['coverage']['analysis_errors'] = self.errors
        with open(os.path.join(evdir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for o in kn:
            print('KNOWN-FINDING: property=%s %s: %s: %s' % (
                self.prop, o['rule'], o['construct'], o['failures'][0]['msg']))
        for i, o in enumerate(viol):
            rp = os.path.join(evdir, '%s.violation-%d.json' % (self.prop, i))
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'rule': o['rule'], 'construct': o['construct'],
                           'failures': o['failures'],
                           'reproduce': '/verif/check %s --tier %s' % (self.prop, self.tier)}, f, indent=1, default=str)
            f0 = o['failures'][0]
            print('%s: rule %s: %s: %s' % (f0['where'] or '?', o['rule'], o['construct'], f0['msg']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
        for e in self.errors:
            print('ANALYSIS-ERROR property=%s %s' % (self.prop, e))
        if viol:
            return 1
        if self.errors:
            return 2
        print('OK property=%s: %d obligations over %d functions (%d rules) in %.1f s' % (
            self.prop, len(self.obs), len(self.functions), len(rules), time.time() - self.t0))
        return 0


def load_known():
    out = set()
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN '):
                # KNOWN | property | rule | construct | description
                parts = [x.strip() for x in line.split('|')]
                if len(parts) >= 4:
                    out.add((parts[1], parts[2], parts[3]))
    return out
