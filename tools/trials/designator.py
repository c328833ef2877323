D = 'ndg/xacml/core/attributedesignator.py'


def sub(cls, start, end, new):
    def f(s):
        k = s.index('class ' + cls)
        i = s.index(start, k)
        j = s.index(end, i)
        return s[:i] + new + s[j:]
    return f


def res(new, start='        if issuer is not None:', end='        if len(attributeValueBag) == 0'):
    return [(D, sub('ResourceAttributeDesignator', start, end, new))]


TRIALS = [
 ('ds-flat', 'ok', 'P07', res('''        for resource in context.resources:
            for attr in resource.attributes:
                if attr.attributeId != attributeId or attr.dataType != dataType:
                    continue
                if issuer is not None and attr.issuer != issuer:
                    continue
                for v in attr.attributeValues:
                    if v.dataType == dataType:
                        attributeValueBag.append(v)

''')),
 ('ds-helper', 'ok', 'P07', res('''        for resource in context.resources:
            self._collect(attributeValueBag, resource.attributes)

''') + [(D, lambda s: s.replace('''class SubjectAttributeDesignator(''', '''class _Mixin(object):
    pass


class SubjectAttributeDesignator(''').replace('''class ResourceAttributeDesignator(AttributeDesignator):''', '''def _wanted(d, attr):
    return (attr.attributeId == d.attributeId and attr.dataType == d.dataType and
            (d.issuer is None or d.issuer == attr.issuer))


class ResourceAttributeDesignator(AttributeDesignator):
    def _collect(self, bag, attributes):
        for attr in filter(lambda a: _wanted(self, a), attributes):
            bag.extend(list(v for v in list(attr.attributeValues) if v.dataType == self.dataType))
'''))]),
 ('ds-comp', 'ok', 'P07', res('''        attrs = [a for r in context.resources for a in r.attributes]
        attrs = [a for a in attrs if (a.attributeId, a.dataType) == (attributeId, dataType)]
        if issuer is not None:
            attrs = [a for a in attrs if a.issuer == issuer]
        values = [v for a in attrs for v in a.attributeValues if v.dataType == dataType]
        attributeValueBag.extend(values)
''')),
 ('ds-m-issuer', 'bad', 'P07', [(D, sub('ActionAttributeDesignator', 'issuer == _issuer', '\n', 'issuer == _issuer or _issuer is None'))]),
 ('ds-m-id', 'bad', 'P07', [(D, sub('EnvironmentAttributeDesignator', 'attr.attributeId == attributeId and', 'attr.dataType', ''))]),
 ('ds-m-type', 'bad', 'P07', [(D, sub('EnvironmentAttributeDesignator', 'attr.dataType == dataType', 'and', 'True '))]),
 ('ds-m-vtype', 'bad', 'P07', [(D, sub('ResourceAttributeDesignator', 'if i.dataType == dataType', '])', ''))]),
 ('ds-m-last', 'bad', 'P07', res('''        for resource in context.resources:
            for attr in resource.attributes:
                if attr.attributeId == attributeId and attr.dataType == dataType and (issuer is None or issuer == attr.issuer):
                    attributeValueBag.extend([v for v in attr.attributeValues if v.dataType == dataType])
                    break
''')),
 ('ds-m-sect', 'bad', 'P07', [(D, sub('ActionAttributeDesignator', 'context.action', '\n', 'context.environment'))]),
 ('ds-m-mbp', 'bad', 'P07', [(D, sub('ActionAttributeDesignator', 'len(attributeValueBag) == 0 and', ' self', 'len(attributeValueBag) == 0 and issuer is not None and'))]),
 ('ds-m-pip', 'bad', 'P07', [(D, sub('SubjectAttributeDesignator', 'attrVal not in attributeValueBag', ']', 'attrVal in attributeValueBag'))]),
 ('ds-m-pip2', 'bad', 'P07', [(D, sub('SubjectAttributeDesignator', '            if context.ctxHandler is not None:', '\n', '            if context.ctxHandler is not None and len(attributeValueBag) == 0:'))]),
 ('ds-m-first', 'bad', 'P07', [(D, sub('SubjectAttributeDesignator', 'for subject in context.subjects:', '\n', 'for subject in context.subjects[:1]:'))]),
]
