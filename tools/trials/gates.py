import re
R = 'ndg/xacml/core/rule.py'
P = 'ndg/xacml/core/policybase.py'


def body(cls_marker, new):
    """Replace method evaluate (last def evaluate in file) by new source."""
    def f(s):
        i = s.rindex('    def evaluate(self, context):')
        rest = s[i + 5:]
        m = re.search(r'\n    (?:def|@)|\nclass ', rest)
        j = i + 5 + m.start() if m else len(s)
        return s[:i] + new + s[j:]
    return f


TRIALS = [
 ('rule-helper', 'ok', 'P03', [(R, body('', '''    def _targetMatches(self, request):
        return self.target is None or self.target.match(request)

    def _holds(self, request):
        cond = self.condition
        if cond is None:
            return True
        return cond.evaluate(request)

    def evaluate(self, context):
        try:
            if not self._targetMatches(context):
                return Decision.NOT_APPLICABLE
            if not self._holds(context):
                return Decision.NOT_APPLICABLE
            return Decision(decision=self.effect.value)
        except Exception as e:
            log.error('Error %s', e)
        return Decision.INDETERMINATE
'''))]),
 ('rule-lookup', 'ok', 'P03', [(R, body('', '''    def evaluate(self, context):
        result = Decision.NOT_APPLICABLE
        try:
            applicable = True
            for part, method in ((self.target, 'match'), (self.condition, 'evaluate')):
                if part is not None and not getattr(part, method)(context):
                    applicable = False
                    break
            if applicable:
                result = {'Permit': Decision.PERMIT, 'Deny': Decision.DENY}[self.effect.value]
        except Exception:
            result = Decision.INDETERMINATE
        finally:
            log.debug('done %r', result)
        return result
'''))]),
 ('rule-m-swallow', 'bad', 'P03', [(R, body('', '''    def evaluate(self, context):
        try:
            if self.target is not None and not self.target.match(context):
                return Decision.NOT_APPLICABLE
        except Exception:
            return Decision.INDETERMINATE
        status = True
        if self.condition is not None:
            try:
                status = self.condition.evaluate(context)
            except (TypeError, ValueError):
                return Decision.INDETERMINATE
        return Decision(decision=self.effect.value) if status else Decision.NOT_APPLICABLE
'''))]),
 ('rule-m-order', 'bad', 'P03', [(R, body('', '''    def evaluate(self, context):
        try:
            status = self.condition is None or self.condition.evaluate(context)
            if self.target is not None and not self.target.match(context):
                return Decision.NOT_APPLICABLE
            return Decision(decision=self.effect.value) if status else Decision.NOT_APPLICABLE
        except Exception:
            return Decision.INDETERMINATE
'''))]),
 ('rule-m-finally', 'bad', 'P03', [(R, 'if conditionStatus:', 'if conditionStatus is not None and conditionStatus != "false":')]),
 ('cond-m', 'bad', 'P03', [('ndg/xacml/core/condition.py', 'if not isinstance(result, bool):', 'if result is None:')]),
 ('pol-helper', 'ok', 'P04', [(P, body('', '''    def _applicable(self, context):
        target = self.target
        if target is None:
            return True
        return target.match(context)

    def evaluate(self, context):
        try:
            if self._applicable(context):
                return self.evaluateCombiningAlgorithm(context)
            else:
                return Decision.NOT_APPLICABLE
        except Exception:
            log.error('x %s', traceback.format_exc())
            return Decision.INDETERMINATE

'''))]),
 ('pol-copy', 'ok', 'P04', [('ndg/xacml/core/policy.py', 'return self.ruleCombiningAlg.evaluate(self.rules, context)',
                          'alg = self.ruleCombiningAlg\n        return alg.evaluate(list(self.rules), context)')]),
 ('pol-copy2', 'ok', 'P04', [('ndg/xacml/core/policy.py', 'return self.ruleCombiningAlg.evaluate(self.rules, context)',
                          'rules = [rule for rule in self.rules]\n        return self.ruleCombiningAlg.evaluate(rules, context)')]),
 ('pol-m-filter', 'bad', 'P04', [('ndg/xacml/core/policyset.py', 'return self.policyCombiningAlg.evaluate(self.policies, context)',
                          'return self.policyCombiningAlg.evaluate([p for p in self.policies if p.target], context)')]),
 ('pol-m-exc', 'bad', 'P04', [(P, 'except Exception:', 'except (TypeError, ValueError, AttributeError):')]),
 ('pol-m-resp', 'bad', 'P04', [(P, 'result.decision = self.evaluate(request)', 'result.decision = self.evaluate(request)\n            if result.decision == Decision.INDETERMINATE:\n                response.results.append(result)')]),
 ('pol-ind', 'ok', 'P04', [(P, "            decision = Decision.INDETERMINATE\n", "            decision = Decision()\n")]),
 ('pol-m-init', 'bad', 'P04', [(P, "            else:\n                log.debug('No target set", "            elif False:\n                log.debug('No target set")]),
]
