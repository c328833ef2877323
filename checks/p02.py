from checks import combining as c


def run(ctx):
    alts = [(d, 'single') for d in ('Permit', 'Deny', 'NotApplicable', 'Indeterminate')] + \
           [(d, f) for d, f in (('Permit', 'fresh'), ('Deny', 'fresh'))]
    for name, spec, ordered in (('deny-overrides', c.policy_deny, False),
                                ('permit-overrides', c.policy_permit, False),
                                ('first-applicable', None, True)):
        ctx.guard(name, c.run_alg, ctx, 'policy ' + name, c.POLICY_IDS[name],
                  'ndg.xacml.core.policy_combining_alg.PolicyCombiningAlgClassFactory',
                  'ndg.xacml.core.policybase.PolicyBase', spec, ordered, alts)
    ctx.minimum('decision', 3)
