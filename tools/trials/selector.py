S = 'ndg/xacml/core/attributeselector.py'


def body(new, start='        for value in values:', end='        if len(attributeValueBag) == 0'):
    def f(s):
        i = s.index(start)
        j = s.index(end, i)
        return s[:i] + new + s[j:]
    return [(S, f)]


HELP = lambda s: s.replace('    def evaluate(self, context):', '''    def _wrap(self, cls, text):
        v = cls(value=text)
        v.dataType = self.dataType
        return v

    def evaluate(self, context):''')
TRIALS = [
 ('sl-comp', 'ok', 'P08', body('''        attributeValueBag.extend([self._wrap(attributeValueClass, t) for t in values])
''') + [(S, HELP)]),
 ('sl-map', 'ok', 'P08', body('''        wrap = lambda t: self._wrap(attributeValueClass, t)
        for v in map(wrap, values):
            attributeValueBag.append(v)
''') + [(S, HELP)]),
 ('sl-plus', 'ok', 'P08', body('''        for value in values:
            attributeValue = attributeValueClass()
            attributeValue.dataType = dataType
            attributeValue.value = value
            attributeValueBag += [attributeValue]
''')),
 ('sl-m-empty', 'bad', 'P08', [(S, '        for value in values:\n', '        for value in values:\n            if not value:\n                continue\n')]),
 ('sl-m-strip', 'bad', 'P08', [(S, 'attributeValue.value = value', 'attributeValue.value = value.strip()')]),
 ('sl-m-rev', 'bad', 'P08', [(S, 'in values:', 'in reversed(values):')]),
 ('sl-m-set', 'bad', 'P08', [(S, 'in values:', 'in sorted(set(values)):')]),
 ('sl-m-ins', 'bad', 'P08', [(S, 'attributeValueBag.append(attributeValue)', 'attributeValueBag.insert(0, attributeValue)')]),
 ('sl-m-one', 'bad', 'P08', [(S, '        for value in values:\n            attributeValue = attributeValueClass()\n', '        attributeValue = attributeValueClass()\n        for value in values:\n')]),
 ('sl-m-none', 'bad', 'P08', [(S, "raise XMLParseError(", "return [] ;("),]),
 ('sl-m-dup', 'bad', 'P08', [(S, 'attributeValueBag.append(attributeValue)', 'attributeValueBag.append(attributeValue)\n            if value == "x": break')]),
]
