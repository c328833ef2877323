from checks import combining as c


def run(ctx):
    for name, spec, ordered in (('deny-overrides', c.rule_deny, False),
                                ('permit-overrides', c.rule_permit, False),
                                ('first-applicable', None, True)):
        for fl in ('single', 'fresh'):
            alts = [('Permit', fl), ('Deny', fl), ('NotApplicable', 'single'), ('Indeterminate', 'single')]
            ctx.guard(name, c.run_alg, ctx, 'rule ' + name, c.RULE_IDS[name],
                      'ndg.xacml.core.rule_combining_alg.RuleCombiningAlgClassFactory',
                      'ndg.xacml.core.rule.Rule', spec, ordered, alts, fl)
    ctx.minimum('decision', 3)
