T = 'ndg/xacml/core/target.py'


def both(new):
    def f(s):
        i = s.index('    def match(self, request):')
        return s[:i] + new
    return f


TRIALS = [
 ('anyall', 'ok', 'P05', [(T, both('''    def match(self, request):
        for attrName in self.CHILD_ATTRS:
            section = getattr(self, attrName)
            if section and not any(self._matchChild(c, request) for c in section):
                return False
        return True

    def _matchChild(self, child, request):
        return all(m.evaluate(request) for m in child.matches)
'''))]),
 ('explicit', 'ok', 'P05', [(T, both('''    def match(self, request):
        sections = [self.subjects, self.resources, self.actions, self.environments]
        return all([self._section(s, request) for s in sections])

    def _section(self, section, request):
        if not len(section):
            return True
        for entry in section:
            for m in entry.matches:
                if not m.evaluate(request):
                    break
            else:
                return True
        return False
'''))]),
 ('listcomp', 'ok', 'P05', [(T, both('''    def match(self, request):
        results = []
        for attrName in self.__class__.CHILD_ATTRS:
            entries = getattr(self, attrName)
            if len(entries) == 0:
                results.append(True)
                continue
            results.append(any([self._matchChild(e, request) for e in entries]))
        return False not in results

    def _matchChild(self, child, request):
        values = [m.evaluate(request) for m in child.matches]
        return all(values)
'''))]),
 ('flag', 'ok', 'P05', [(T, both('''    def match(self, request):
        ok = True
        for attrName in self.CHILD_ATTRS:
            section = getattr(self, attrName)
            found = len(section) == 0
            for entry in section:
                found = self._matchChild(entry, request) or found
            ok = ok and found
        return ok

    def _matchChild(self, child, request):
        result = True
        for m in child.matches:
            result &= m.evaluate(request)
        return result
'''))]),
 ('m-first', 'bad', 'P05', [(T, '                    statusValues[i] = True\n', '                    statusValues[i] = True\n                break\n')]),
 ('m-last', 'bad', 'P05', [(T, 'if self._matchChild(targetSubElem, request):', 'statusValues[i] = False\n                if self._matchChild(targetSubElem, request):')]),
 ('m-any', 'bad', 'P05', [(T, 'return all(matchStatusValues)', 'return any(matchStatusValues)')]),
 ('m-env', 'bad', 'P05', [(T, "CHILD_ATTRS = ('subjects', 'resources', 'actions', 'environments')", "CHILD_ATTRS = ('subjects', 'resources', 'actions')")]),
 ('m-envdup', 'bad', 'P05', [(T, "CHILD_ATTRS = ('subjects', 'resources', 'actions', 'environments')", "CHILD_ATTRS = ('subjects', 'resources', 'actions', 'actions')")]),
 ('m-len', 'bad', 'P05', [(T, 'if len(targetElem) == 0:', 'if len(targetElem) <= 1 and i == 3:')]),
 ('m-swallow', 'bad', 'P05', [(T, 'matchStatusValues[i] = childMatch.evaluate(request)', '''try:
                matchStatusValues[i] = childMatch.evaluate(request)
            except Exception:
                continue''')]),
 ('m-swallow2', 'bad', 'P05', [(T, 'matchStatusValues[i] = childMatch.evaluate(request)', '''try:
                matchStatusValues[i] = childMatch.evaluate(request)
            except Exception:
                matchStatusValues[i] = False''')]),
 ('m-any2', 'bad', 'P05', [(T, 'return all(statusValues)', 'return any(statusValues)')]),
]
