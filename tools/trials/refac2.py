"""More edits that keep the behaviour, of the kinds a reviewer would make: helpers, other loops, other order."""
import re
B = 'ndg/xacml/core/'
AD, AS, TG, MT, RL, PB, AP = [B + x for x in ('attributedesignator.py', 'attributeselector.py', 'target.py', 'match.py', 'rule.py', 'policybase.py', 'apply.py')]


def base_template(s):
    """The four evaluate methods become one in the base class, with a hook for the sections."""
    i = s.index('class SubjectAttributeDesignator'); head = s[:i]
    base = '''
    def _sections(self, context):
        raise NotImplementedError()

    def _extra(self, context, bag):
        pass

    def _selects(self, attr):
        if attr.attributeId != self.attributeId:
            return False
        if attr.dataType != self.dataType:
            return False
        return self.issuer is None or attr.issuer == self.issuer

    def evaluate(self, context):
        if not isinstance(context, Request):
            raise TypeError('Expecting %r type for context input; got %r' % (Request, type(context)))
        bag = TypedList(self.attributeValueFactory(self.dataType))
        for section in self._sections(context):
            for attr in section.attributes:
                if self._selects(attr):
                    for val in attr.attributeValues:
                        if val.dataType == self.dataType:
                            bag.append(val)
            self._extra(context, bag)
        if self.mustBePresent and not bag:
            raise MissingAttributeError('%s: no %r' % (self.__class__.__name__, self.attributeId))
        return bag


'''
    out = head + base
    for n, body in (('Subject', 'context.subjects'), ('Resource', 'context.resources'), ('Action', '[context.action]'), ('Environment', '(context.environment,)')):
        out += 'class %sAttributeDesignator(AttributeDesignator):\n    ELEMENT_LOCAL_NAME = %r\n    __slots__ = ()\n\n    def _sections(self, context):\n        return %s\n\n' % (n, n + 'AttributeDesignator', body)
        if n == 'Subject':
            out += '''    def _extra(self, context, bag):
        if context.ctxHandler is None:
            return
        found = context.ctxHandler.pipQuery(context, self)
        if found is None:
            return
        known = list(bag)
        bag.extend([v for v in found if v not in known] if known else found)

'''
    return out


def sub(pat, new, n=0):
    def f(s):
        out, k = re.subn(pat, new, s, count=n, flags=re.S)
        assert k, pat
        return out
    return f


def body(cls, meth, new):
    """Replace the whole text of a method."""
    def f(s):
        i = s.index('class %s(' % cls) if cls else 0
        i = s.index('    def %s(' % meth, i)
        m = re.compile(r'\n(?=(    (def|@|[a-zA-Z_])|class |[A-Za-z@_]))').search(s, i + 10)
        j = m.start() + 1 if m else len(s)
        return s[:i] + new.strip('\n') + '\n\n' + s[j:]
    return f


TRIALS = [
    ('ds-template', 'ok', 'P07', [(AD, base_template)]),
    ('ds-issuer-or', 'ok', 'P07', [(AD, sub(r"        if issuer is not None:\s+_issuerMatch = lambda _issuer: issuer == _issuer\s+else:\s+_issuerMatch = lambda _issuer: True\n", "        def _issuerMatch(_issuer):\n            if issuer is None:\n                return True\n            return _issuer == issuer\n\n"))]),
    ('ds-filter', 'ok', 'P07', [(AD, sub(r"attributeValueBag\.extend\(\s*\[i for i in attr\.attributeValues\s+if i\.dataType == dataType\]\)", "attributeValueBag += list(filter(lambda v: v.dataType == dataType, attr.attributeValues))"))]),
    ('sl-genexp', 'ok', 'P08', [(AS, body('AttributeSelector', 'evaluate', '''
    def _wrap(self, cls, text):
        wrapped = cls()
        wrapped.dataType = self.dataType
        wrapped.value = text
        return wrapped

    def evaluate(self, context):
        if not isinstance(context, Request):
            raise TypeError('bad context')
        selector = context.attributeSelector
        if not selector:
            raise ValueError('Attribute selector not set in Request object.')
        cls = self.attributeValueFactory(self.dataType)
        if cls is None:
            raise XMLParseError('No Attribute Value class available for type %r' % self.dataType)
        bag = TypedList(cls)
        bag.extend(self._wrap(cls, text) for text in selector.selectText(self.requestContextPath))
        if self.mustBePresent and len(bag) < 1:
            raise MissingAttributeError('missing')
        return bag
'''))]),
    ('tg-early', 'ok', 'P05', [(TG, body('Target', 'match', '''
    def match(self, request):
        for attrName in self.CHILD_ATTRS:
            if not self._matchSection(getattr(self, attrName), request):
                return False
        return True

    def _matchSection(self, section, request):
        if not section:
            return True
        for child in section:
            if self._matchChild(child, request):
                return True
        return False
'''))]),
    ('tg-noshort', 'ok', 'P05', [(TG, body('Target', 'match', '''
    def match(self, request):
        status = {}
        for attrName in self.CHILD_ATTRS:
            section = getattr(self, attrName)
            status[attrName] = len(section) == 0
            for child in section:
                status[attrName] = self._matchChild(child, request) or status[attrName]
        return all(status.values())
'''))]),
    ('tg-forelse', 'ok', 'P05', [(TG, body('Target', 'match', '''
    def match(self, request):
        for section in (self.subjects, self.resources, self.actions, self.environments):
            if len(section) == 0:
                continue
            for child in section:
                if self._matchChild(child, request):
                    break
            else:
                return False
        return True
'''))]),
    ('tg-child-loop', 'ok', 'P05', [(TG, body('Target', '_matchChild', '''
    def _matchChild(self, targetChild, request):
        if targetChild is None:
            return True
        result = True
        for childMatch in targetChild.matches:
            if not childMatch.evaluate(request):
                result = False
        return result
'''))]),
    ('rl-split', 'ok', 'P03', [(RL, body('Rule', 'evaluate', '''
    def _targetMatches(self, context):
        return self.target is None or self.target.match(context)

    def _conditionHolds(self, context):
        return self.condition is None or self.condition.evaluate(context)

    def evaluate(self, context):
        try:
            applicable = self._targetMatches(context) and self._conditionHolds(context)
            result = Decision(decision=self.effect.value) if applicable else Decision.NOT_APPLICABLE
            log.debug('Rule %r evaluates to %s', self.id, result)
        except Exception:
            log.error('Error in rule %r: %s', self.id, traceback.format_exc())
            result = Decision.INDETERMINATE
        return result
'''))]),
    ('rl-nested-try', 'ok', 'P03', [(RL, body('Rule', 'evaluate', '''
    def evaluate(self, context):
        """Evaluate"""
        decision = Decision.NOT_APPLICABLE
        try:
            if self.target is not None and not self.target.match(context):
                return decision

            if self.condition is not None:
                if not self.condition.evaluate(context):
                    return decision

            effect = self.effect
            decision = Decision(decision=effect.value)
        except Exception as e:
            log.exception('rule %r failed: %s', self.id, e)
            decision = Decision.INDETERMINATE

        return decision
'''))]),
    ('pb-split', 'ok', 'P04', [(PB, body('PolicyBase', 'evaluate', '''
    def _isApplicable(self, context):
        if self.target is None:
            return True
        return self.target.match(context)

    def evaluate(self, context):
        try:
            if self._isApplicable(context):
                return self.evaluateCombiningAlgorithm(context)
        except Exception:
            log.error('failed: %s', traceback.format_exc())
            return Decision.INDETERMINATE
        return Decision.NOT_APPLICABLE
'''))]),
    ('pb-response', 'ok', 'P04', [(PB, body('PolicyBase', 'evaluateResponse', '''
    def evaluateResponse(self, request):
        result = Result.createInitialised(decision=Decision.NOT_APPLICABLE)
        try:
            result.decision = self.evaluate(request)
        except XacmlContextError as e:
            log.error('Exception raised: %s', traceback.format_exc())
        response = Response()
        response.results.append(result)
        return response
'''))]),
    ('ap-star', 'ok', 'P09', [(AP, body('Apply', 'evaluate', '''
    def _operands(self, context):
        for expression in self.expressions:
            yield expression.evaluate(context)

    def evaluate(self, context):
        return self.function.evaluate(*self._operands(context))
'''))]),
    ('ap-list', 'ok', 'P09', [(AP, body('Apply', 'evaluate', '''
    def evaluate(self, context):
        func = self.function
        args = []
        args.extend(e.evaluate(context) for e in self.expressions)
        return func.evaluate(*args)
'''))]),
]
