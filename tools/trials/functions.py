F = 'ndg/xacml/core/functions/'
AND, NOT, EQ, MT, OA, BG, AL, RX, RD, CC = [F + x for x in (
    'v1/and.py', 'v1/not.py', 'v1/equal.py', 'v1/match.py', 'v1/one_and_only.py', 'v1/bag.py', 'v1/at_least_one_member_of.py',
    'v1/regexp_match.py', 'v1/round.py', 'v2/concatenate.py')]
PP = 'P10,P11'


def body(cls_start, meth, new):
    """Replace the body of method `meth` after `cls_start`."""
    import ast

    def f(s):
        t = ast.parse(s)
        for c in t.body:
            if isinstance(c, ast.ClassDef) and c.name == cls_start:
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.name == meth:
                        L = s.split('\n')
                        return '\n'.join(L[:m.body[0].lineno - 1] + new.rstrip('\n').split('\n') + L[m.end_lineno:])
        return s
    return f


TRIALS = [
 ('fn-and-all', 'ok', PP, [(AND, body('And', 'evaluate', '''        for n, arg in enumerate(args):
            if type(arg) is not bool:
                raise XacmlContextTypeError('operand %d' % n)
        return all(args)
'''))]),
 ('fn-and-flag', 'ok', PP, [(AND, body('And', 'evaluate', '''        result = True
        i = 0
        while i < len(args):
            a = args[i]
            if not isinstance(a, bool):
                raise XacmlContextTypeError('operand %d is no boolean: %r' % (i, type(a)))
            result = result and a
            i += 1
        return result
'''))]),
 ('fn-and-helper', 'ok', PP, [(AND, body('And', 'evaluate', '''        self._check(args)
        return False not in args

    @classmethod
    def _check(cls, args):
        bad = [a for a in args if type(a) != cls.ATTRIBUTE_TYPE]
        if bad:
            raise XacmlContextTypeError('not boolean: %r' % bad)
'''))]),
 ('fn-and-m-short', 'bad', PP, [(AND, body('And', 'evaluate', '''        for n, arg in enumerate(args):
            if not arg:
                return False
            if type(arg) != self.__class__.ATTRIBUTE_TYPE:
                raise XacmlContextTypeError('x')
        return True
'''))]),
 ('fn-and-m-skiplast', 'bad', PP, [(AND, '            for arg in args:\n', '            for arg in args[:-1] if len(args) > 2 else args:\n')]),
 ('fn-and-m-checkfirst', 'bad', PP, [(AND, 'for n, arg in enumerate(args):', 'for n, arg in enumerate(args[:2]):')]),
 ('fn-and-m-empty', 'bad', PP, [(AND, '            return True\n        else:', '            return False\n        else:')]),
 ('fn-not-simple', 'ok', PP, [(NOT, body('Not', 'evaluate', '''        if not isinstance(attribute, self.ATTRIBUTE_TYPE):
            raise XacmlContextTypeError('Expecting %r' % self.ATTRIBUTE_TYPE)
        return attribute is False
'''))]),
 ('fn-not-m-coerce', 'bad', PP, [(NOT, body('Not', 'evaluate', '''        return not bool(attribute)
'''))]),
 ('fn-not-m-int', 'bad', PP, [(NOT, body('Not', 'evaluate', '''        if not isinstance(attribute, int):
            raise XacmlContextTypeError('Expecting bool')
        return not attribute
'''))]),
 ('fn-eq-helper', 'ok', PP, [(EQ, body('EqualBase', 'evaluate', '''        for name, a in (('attribute1', attribute1), ('attribute2', attribute2)):
            self._check(name, a)
        return not attribute1.value != attribute2.value

    def _check(self, name, a):
        if not isinstance(a, self.TYPE):
            raise XacmlContextTypeError('Expecting %r derived type for %r; got %r' % (self.TYPE, name, type(a)))
'''))]),
 ('fn-eq-operator', 'ok', PP, [(EQ, body('EqualBase', 'evaluate', '''        T = type(self).TYPE
        if not (isinstance(attribute1, T) and isinstance(attribute2, T)):
            raise XacmlContextTypeError('Expecting %r' % (T,))
        return attribute1 == attribute2
'''))]),
 ('fn-eq-m-nocheck2', 'bad', PP, [(EQ, 'if not isinstance(attribute2, self.__class__.TYPE):', 'if not isinstance(attribute2, type(attribute1).__mro__[1]):')]),
 ('fn-eq-m-str', 'bad', PP, [(EQ, 'return attribute1.value == attribute2.value', 'return str(attribute1.value).strip() == str(attribute2.value).strip()')]),
 ('fn-eq-m-fold', 'bad', PP, [(EQ, 'return attribute1.value == attribute2.value', 'return attribute1.value is attribute2.value')]),
 ('fn-eq-m-or', 'bad', PP, [(EQ, body('EqualBase', 'evaluate', '''        if not isinstance(attribute1, self.__class__.TYPE) and not isinstance(attribute2, self.__class__.TYPE):
            raise XacmlContextTypeError('x')
        return attribute1.value == attribute2.value
'''))]),
 ('fn-match-value', 'ok', PP, [(MT, 'return input1 == input2', 'return input1.value == input2.value')]),
 ('fn-match-m-type', 'bad', PP, [(MT, 'return input1 == input2', 'return input1.dataType == input2.dataType')]),
 ('fn-oao-unpack', 'ok', PP, [(OA, body('OneAndOnlyBase', 'evaluate', '''        cls = self.__class__
        if not isinstance(bag, Bag) or bag.elementType != cls.TYPE:
            raise XacmlContextError('Expecting bag of %r; got %r' % (cls.TYPE, type(bag)))
        if len(bag) == 1:
            return bag[-1]
        raise XacmlContextError('Expecting single element')
'''))]),
 ('fn-oao-m-many', 'bad', PP, [(OA, 'if nBagElems != 1:', 'if nBagElems < 1:')]),
 ('fn-oao-m-type', 'bad', PP, [(OA, 'if bag.elementType != self.__class__.TYPE:', 'if bag.elementType != self.__class__.TYPE and len(bag) != 1:')]),
 ('fn-bag-comp', 'ok', PP, [(BG, body('BagBase', 'evaluate', '''        T = self.__class__.TYPE
        wrong = [i for i in args if not isinstance(i, T)]
        if wrong:
            raise TypeError('Expecting %r derived type for bag element; got %r' % (T, wrong))
        bag = Bag(T)
        bag.extend(args)
        return bag
'''))]),
 ('fn-bag-m-dedup', 'bad', PP, [(BG, '            bag.append(i)', '            if not [j for j in bag if j.value == i.value]:\n                bag.append(i)')]),
 ('fn-bag-m-insert', 'bad', PP, [(BG, '            bag.append(i)', '            bag.insert(0, i)')]),
 ('fn-bag-m-skip', 'bad', PP, [(BG, '                raise TypeError(', '                if i is None:\n                    continue\n                raise TypeError(')]),
 ('fn-alo-any', 'ok', PP, [(AL, lambda s: s.replace('''        _set1 = set([attr.value for attr in set1])
        _set2 = set([attr.value for attr in set2])
        
        return len(list(_set1 & _set2)) > 0''', '''        values = [attr.value for attr in set2]
        return any(attr.value in values for attr in set1)'''))]),
 ('fn-alo-loop', 'ok', PP, [(AL, lambda s: s.replace('''        _set1 = set([attr.value for attr in set1])
        _set2 = set([attr.value for attr in set2])
        
        return len(list(_set1 & _set2)) > 0''', '''        for a in set1:
            for b in set2:
                if a.value == b.value:
                    return True
        return False'''))]),
 ('fn-alo-disjoint', 'ok', PP, [(AL, 'return len(list(_set1 & _set2)) > 0', 'return not _set1.isdisjoint(_set2)')]),
 ('fn-alo-m-subset', 'bad', PP, [(AL, 'return len(list(_set1 & _set2)) > 0', 'return _set1 <= _set2 and bool(_set1)')]),
 ('fn-alo-m-zip', 'bad', PP, [(AL, 'return len(list(_set1 & _set2)) > 0', 'return any(a.value == b.value for a, b in zip(set1, set2))')]),
 ('fn-alo-m-empty', 'bad', PP, [(AL, 'return len(list(_set1 & _set2)) > 0', 'return len(_set1 & _set2) == min(len(_set1), len(_set2))')]),
 ('fn-alo-m-unchecked', 'bad', PP, [(AL, 'if set2.elementType != self.__class__.TYPE:', 'if set2.elementType != set1.elementType and len(set2) > 1:')]),
 ('fn-rx-nocache', 'ok', PP, [(RX, lambda s: s[:s.index('        compiled_regex = self.compiled')] + '        return re.match(pat.value, input.value) is not None\n\n\n' + s[s.index('attributeValueClassFactory = '):])]),
 ('fn-rx-try', 'ok', PP, [(RX, lambda s: s[:s.index('        compiled_regex = self.compiled')] + '''        key = pat.value
        try:
            rx = self.compiled_regexes[key]
        except KeyError:
            rx = self.compiled_regexes[key] = re.compile(key)
        return True if rx.match(input.value) else False


''' + s[s.index('attributeValueClassFactory = '):])]),
 ('fn-rx-m-swap', 'bad', PP, [(RX, lambda s: s.replace('.match(input.value)', '.match(pat.value)'))]),
 ('fn-rx-m-search', 'bad', PP, [(RX, lambda s: s.replace('.match(input.value)', '.search(input.value)'))]),
 ('fn-rx-m-ci', 'bad', PP, [(RX, lambda s: s.replace('re.compile(pat.value)', 're.compile(pat.value, re.IGNORECASE)'))]),
 ('fn-rx-m-key', 'bad', PP, [(RX, lambda s: s.replace('self.compiled_regexes.get(pat.value, None)', 'self.compiled_regexes.get(len(pat.value), None)').replace('self.compiled_regexes[pat.value]', 'self.compiled_regexes[len(pat.value)]'))]),
 ('fn-rx-m-key2', 'bad', PP, [(RX, lambda s: s.replace('self.compiled_regexes.get(pat.value, None)', 'self.compiled_regexes.get(pat.value.strip(), None)').replace('self.compiled_regexes[pat.value]', 'self.compiled_regexes[pat.value.strip()]'))]),
 ('fn-rx-m-full', 'bad', PP, [(RX, lambda s: s.replace('bool(compiled_regex.match(input.value))', 'compiled_regex.match(input.value).end() == len(input.value)'))]),
 ('fn-cc-loop', 'ok', PP, [(CC, "            result = ''.join([a.value for a in args])", "            result = args[0].value\n            for a in args[1:]:\n                result += a.value")]),
 ('fn-cc-m-two', 'bad', PP, [(CC, "''.join([a.value for a in args])", "args[0].value + args[-1].value")]),
 ('fn-cc-m-sep', 'bad', PP, [(CC, "''.join([a.value for a in args])", "' '.join([a.value for a in args])")]),
 ('fn-cc-m-type', 'bad', PP, [(CC, 'if not isinstance(arg, self.__class__.TYPE_REST):', 'if not isinstance(arg, (self.__class__.TYPE_REST, args[0].__class__.__mro__[1])):')]),
 ('fn-cc-m-one', 'bad', PP, [(CC, 'if len(args) < 2:', 'if len(args) < 1:')]),
 ('fn-cc-m-order', 'bad', PP, [(CC, "[a.value for a in args]", "sorted([a.value for a in args])")]),
 ('fn-rd-m-int', 'bad', PP, [(RD, 'return round(num)', 'return int(num)')]),
 ('fn-rd-m-str', 'bad', PP, [(RD, 'return round(num)', 'return round(float(num))')]),
]
