# variants of DenyOverrides rule / others: replace body of evaluate by class
import sys,re
variants={
'listany':('DenyOverridesRuleCombiningAlg','''
        results = [(rule, rule.evaluate(context)) for rule in rules]
        if any(d == Decision.DENY for _, d in results):
            return Decision.DENY
        if any(d == Decision.INDETERMINATE and r.effect == 'Deny' for r, d in results):
            return Decision.INDETERMINATE
        decisions = [d for _, d in results]
        if Decision.PERMIT in decisions:
            return Decision.PERMIT
        if Decision.INDETERMINATE in decisions:
            return Decision.INDETERMINATE
        return Decision.NOT_APPLICABLE
'''),
'helper':('DenyOverridesRuleCombiningAlg','''
        flags = {'err': False, 'pot': False, 'permit': False}
        for rule in rules:
            d = self._one(rule, context, flags)
            if d is not None:
                return d
        if flags['pot']:
            result = Decision.INDETERMINATE
        elif flags['permit']:
            result = Decision.PERMIT
        else:
            result = Decision.INDETERMINATE if flags['err'] else Decision.NOT_APPLICABLE
        return result

    def _one(self, rule, context, flags):
        decision = rule.evaluate(context)
        if decision == Decision.DENY:
            return Decision.DENY
        elif decision == Decision.PERMIT:
            flags['permit'] = True
        elif decision == Decision.INDETERMINATE:
            flags['err'] = True
            flags['pot'] |= rule.effect.value == Decision.DENY_STR
        return None
'''),
'while':('DenyOverridesRuleCombiningAlg','''
        err = pot = permit = False
        it = iter(rules)
        while True:
            try:
                rule = next(it)
            except StopIteration:
                break
            decision = rule.evaluate(context).value
            if decision == 'Deny':
                return Decision.DENY
            permit = permit or decision == 'Permit'
            if decision == 'Indeterminate':
                err = True
                pot = pot or rule.effect.value == 'Deny'
        if pot: return Decision.INDETERMINATE
        if permit: return Decision.PERMIT
        return Decision.INDETERMINATE if err else Decision.NOT_APPLICABLE
'''),
'idx':('DenyOverridesRuleCombiningAlg','''
        err = pot = permit = False
        for i in range(len(rules)):
            rule = rules[i]
            decision = rule.evaluate(context).value
            if decision == 'Deny':
                return Decision.DENY
            permit = permit or decision == 'Permit'
            if decision == 'Indeterminate':
                err = True
                pot = pot or rule.effect.value == 'Deny'
        if pot: return Decision.INDETERMINATE
        if permit: return Decision.PERMIT
        return Decision.INDETERMINATE if err else Decision.NOT_APPLICABLE
'''),
'whileidx':('DenyOverridesRuleCombiningAlg','''
        err = pot = permit = False
        i = 0
        while i < len(rules):
            rule = rules[i]
            i += 1
            decision = rule.evaluate(context).value
            if decision == 'Deny':
                return Decision.DENY
            permit = permit or decision == 'Permit'
            if decision == 'Indeterminate':
                err = True
                pot = pot or rule.effect.value == 'Deny'
        if pot: return Decision.INDETERMINATE
        if permit: return Decision.PERMIT
        return Decision.INDETERMINATE if err else Decision.NOT_APPLICABLE
'''),
'count':('DenyOverridesRuleCombiningAlg','''
        from collections import Counter
        n = {}
        for rule in rules:
            decision = rule.evaluate(context).value
            if decision == 'Indeterminate' and rule.effect.value == 'Deny':
                decision = 'PD'
            n[decision] = n.get(decision, 0) + 1
        if n.get('Deny'):
            return Decision.DENY
        if 'PD' in n: return Decision.INDETERMINATE
        if n.get('Permit', 0) > 0: return Decision.PERMIT
        return Decision.INDETERMINATE if 'Indeterminate' in n else Decision.NOT_APPLICABLE
'''),
'set':('DenyOverridesRuleCombiningAlg','''
        seen = set()
        for rule in rules:
            decision = rule.evaluate(context).value
            seen.add((decision, decision == 'Indeterminate' and rule.effect.value))
        names = set(d for d, _ in seen)
        if 'Deny' in names:
            return Decision.DENY
        if ('Indeterminate', 'Deny') in seen: return Decision.INDETERMINATE
        if 'Permit' in names: return Decision.PERMIT
        return Decision.INDETERMINATE if 'Indeterminate' in names else Decision.NOT_APPLICABLE
'''),
'first_gen':('FirstApplicableRuleCombiningAlg','''
        decisions = (rule.evaluate(context) for rule in rules)
        return next((d for d in decisions if not d == Decision.NOT_APPLICABLE), Decision.NOT_APPLICABLE)
'''),
'first_list':('FirstApplicableRuleCombiningAlg','''
        decisions = [rule.evaluate(context) for rule in rules]
        for d in decisions:
            if d != Decision.NOT_APPLICABLE:
                return d
        return Decision.NOT_APPLICABLE
'''),
'first_else':('FirstApplicableRuleCombiningAlg','''
        for rule in rules:
            decision = rule.evaluate(context)
            if decision.value in ('Permit', 'Deny', 'Indeterminate'):
                break
        else:
            decision = Decision.NOT_APPLICABLE
        return decision
'''),
'permit_reduce':('PermitOverridesRuleCombiningAlg','''
        from functools import reduce
        order = {'Permit': 4, 'IP': 3, 'Deny': 2, 'Indeterminate': 1, 'NotApplicable': 0}
        def key(rule):
            d = rule.evaluate(context)
            if d == Decision.INDETERMINATE and rule.effect.value == 'Permit':
                return 3
            return order[d.value]
        top = max((key(r) for r in rules), default=0)
        return [Decision.NOT_APPLICABLE, Decision.INDETERMINATE, Decision.DENY, Decision.INDETERMINATE, Decision.PERMIT][top]
'''),
}


def repl(cls, new_body):
    base = 'PolicyCombiningAlgInterface' if 'Policy' in cls else 'RuleCombiningAlgInterface'

    def f(s):
        m = re.search(r'class %s\(.*?\n(?=class )' % cls, s, re.S)
        new = 'class %s(%s):\n    def evaluate(self, rules, context):%s\n' % (cls, base, new_body)
        return s[:m.start()] + new + s[m.end():]
    return f


R = 'ndg/xacml/core/rule_combining_alg.py'
Q = 'ndg/xacml/core/policy_combining_alg.py'
TRIALS = [('rule-' + k, 'ok', 'P01', [(R, repl(c, b))]) for k, (c, b) in variants.items()]
TRIALS += [
 ('m-swap', 'bad', 'P01', [(R, 'if rule.effect.value == Decision.DENY:', 'if rule.effect.value == Decision.PERMIT:')]),
 ('m-break', 'bad', 'P01', [(R, 'potentialPermit = True', 'break')]),
 ('m-is', 'bad', 'P01', [(R, 'if decision == Decision.PERMIT:', 'if decision is Decision.PERMIT:')]),
 ('m-pind', 'bad', 'P02', [(Q, 'return Decision.DENY', 'return Decision.INDETERMINATE')]),
 ('m-tail', 'bad', 'P02', [(Q, 'for policy in policies:', 'for policy in policies[1:]:')]),
 ('m-rev', 'bad', 'P02', [(Q, 'for policy in policies:', 'for policy in reversed(policies):')]),
]
