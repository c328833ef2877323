import re
X = 'ndg/xacml/parsers/etree/context.py'
T = 'ndg/xacml/parsers/etree/__init__.py'
R = 'ndg/xacml/core/context/result.py'


def helper(s):
    """One helper for all elements made."""
    s = s.replace('class RequestElementTree(Request):', '''def _element(name, **attrib):
    tag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS, name))
    return etree.makeEtreeElement(tag, XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX, XacmlContextBase.XACML_2_0_CONTEXT_NS, **attrib)


def _check(elem, name):
    found = QName.getLocalPart(elem.tag)
    if found != name:
        raise XMLParseError('No "%s" element found' % name)


class RequestElementTree(Request):''', 1)
    s = re.sub(r'tag = str\(QName\(XacmlContextBase.XACML_2_0_CONTEXT_NS,\s+cls.ELEMENT_LOCAL_NAME\)\)\s+(?=elem =|attrib|#)', '', s)
    s = re.sub(r'elem = etree.makeEtreeElement\(tag,\s+XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,\s+XacmlContextBase.XACML_2_0_CONTEXT_NS(, \*\*attrib)?\)', r'elem = _element(cls.ELEMENT_LOCAL_NAME\1)', s)
    s = re.sub(r"localName = QName.getLocalPart\(elem.tag\)\s+if localName != cls.ELEMENT_LOCAL_NAME:\s+raise XMLParseError\('No \"%s\" element found' %\s+cls.ELEMENT_LOCAL_NAME\)", '_check(elem, cls.ELEMENT_LOCAL_NAME)', s)
    return s


def dispatch(s):
    """Subjects, actions and environments through one attribute helper."""
    for n in ('action', 'environment', 'subject'):
        s = s.replace('''        for attribute in %s.attributes:
            attributeElem = AttributeElementTree.toXML(attribute)
            elem.append(attributeElem)
''' % n, '''        elem.extend([AttributeElementTree.toXML(a) for a in %s.attributes])
''' % n)
    return s


def first(s, cls, old, new):
    i = s.index('class %sElementTree' % cls)
    j = s.find('\nclass ', i + 1)
    j = len(s) if j < 0 else j
    b = s[i:j]
    if b.count(old) < 1:
        return s
    return s[:i] + b.replace(old, new) + s[j:]


def at(cls, old, new):
    return [(X, lambda s: first(s, cls, old, new))]


def table(s):
    i = s.index("            if localName == Subject.ELEMENT_LOCAL_NAME:")
    j = s.index("        return request", i)
    return s[:i] + '''            one = {Action.ELEMENT_LOCAL_NAME: ('action', ActionElementTree), Environment.ELEMENT_LOCAL_NAME: ('environment', EnvironmentElementTree)}
            many = {Subject.ELEMENT_LOCAL_NAME: (request.subjects, SubjectElementTree), Resource.ELEMENT_LOCAL_NAME: (request.resources, ResourceElementTree)}
            if localName in many:
                many[localName][0].append(many[localName][1].fromXML(childElem))
            elif localName in one:
                name, reader = one[localName]
                if getattr(request, name) is not None:
                    raise XMLParseError("More than one %r element found" % localName)
                setattr(request, name, reader.fromXML(childElem))
            else:
                raise XMLParseError("%r not recognised" % localName)

''' + s[j:]


ATT = "            if localName == Attribute.ELEMENT_LOCAL_NAME:\n"
TRIALS = [
 ('helper', 'ok', 'P20', [(X, helper)]),
 ('extend', 'ok', 'P20', [(X, dispatch)]),
 ('both', 'ok', 'P20', [(X, lambda s: helper(dispatch(s)))]),
 ('table', 'ok', 'P20', [(X, table)]),
 ('early-attributes', 'ok', 'P20', [(X, lambda s: s.replace("        attribute = Attribute()\n\n        # Handle attributes.\n        attribute.attributeId = elem.get(Attribute.ATTRIBUTE_ID_ATTRIB_NAME)\n        attribute.dataType = elem.get(Attribute.DATA_TYPE_ATTRIB_NAME)",
    "        ident = elem.get('AttributeId', None)\n        dtype = elem.get('DataType')\n        if ident is None or dtype is None:\n            raise XMLParseError('missing')\n        attribute = Attribute()\n        attribute.attributeId = ident\n        attribute.dataType = dtype"))]),
 ('values-list', 'ok', 'P20', at('Attribute', "        if len(list(getElementChildren(elem))) == 0:", "        kids = [c for c in getElementChildren(elem)]\n        if not kids:")),
 ('set-result', 'ok', 'P20', at('Result', "XacmlContextBase.XACML_2_0_CONTEXT_NS, **attrib)", "XacmlContextBase.XACML_2_0_CONTEXT_NS, attrib)")),
 ('set-result-2', 'ok', 'P20', at('Result', "XacmlContextBase.XACML_2_0_CONTEXT_NS, **attrib)", "XacmlContextBase.XACML_2_0_CONTEXT_NS)\n        for n, v in attrib.items():\n            elem.set(n, v)")),
 ('shallow', 'ok', 'P20', [(X, lambda s: s.replace('copy.deepcopy(resource', 'copy.copy(resource'))]),
 ('subelement', 'ok', 'P20', [(X, lambda s: s.replace("            valueElem.text = attributeValue.value\n            elem.append(valueElem)", "            elem.append(valueElem)\n            valueElem.text = attributeValue.value"))]),
 ('text-if', 'ok', 'P20', [(X, lambda s: s.replace("AttributeValueClass(childElem.text or '')", "AttributeValueClass('' if childElem.text is None else childElem.text)"))]),
 ('decision-ctor', 'ok', 'P20', [(X, lambda s: s.replace("        decision = Decision()\n\n        decision.value = elem.text\n\n        return decision", "        return Decision(decision=elem.text)"))]),
 ('category-always', 'ok', 'P20', at('Subject', "        if subject.subjectCategory is not None:\n            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)", "        elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME,\n                     subject.subjectCategory or Identifiers.SubjectCategory.ACCESS_SUBJECT)")),

 # broken
 ('drop-issuer', 'bad', 'P20', at('Attribute', "if attribute.issuer is not None:", "if attribute.issuer is not None and ':' in attribute.issuer:")),
 ('issuer-read', 'bad', 'P20', at('Attribute', "        if issuer is not None:", "        if issuer is not None and issuer.startswith('urn'):")),
 ('first-subject', 'bad', 'P20', at('Request', "            subjectElem = SubjectElementTree.toXML(subject)\n            elem.append(subjectElem)", "            subjectElem = SubjectElementTree.toXML(subject)\n            elem.append(subjectElem)\n            break")),
 ('resources-set', 'bad', 'P20', at('Request', "                request.resources.append(resource)", "                request.resources.insert(0, resource)")),
 ('env-action', 'bad', 'P20', at('Request', "EnvironmentElementTree.toXML(request.environment)", "EnvironmentElementTree.toXML(request.environment) if request.environment.attributes else ActionElementTree.toXML(request.action)")),
 ('no-elem', 'bad', 'P20', at('Request', "request.elem = elem", "request.elem = None")),
 ('action-dup', 'bad', 'P20', at('Request', "if request.action is not None:", "if request.action is not None and request.action.attributes:")),
 ('ignore-unknown', 'bad', 'P20', at('Action', "            else:\n                raise XMLParseError(", "            elif localName == 'Attributes':\n                raise XMLParseError(")),
 ('ignore-status', 'bad', 'P20', at('Result', "            else:\n                raise XMLParseError(", "            elif localName != 'Status':\n                raise XMLParseError(")),
 ('no-decision', 'bad', 'P20', at('Result', "        if result.decision is None:", "        if result.decision is None and result.resourceId is not None:")),
 ('category-default', 'bad', 'P20', at('Subject', "Identifiers.SubjectCategory.ACCESS_SUBJECT", "Identifiers.SubjectCategory.INTERMEDIARY_SUBJECT") if False else at('Subject', "elem.get(cls.SUBJECT_CATEGORY_ATTRIB_NAME,", "elem.get(cls.SUBJECT_CATEGORY_ATTRIB_NAME.lower(),")),
 ('category-access', 'bad', 'P20', at('Subject', "        if subject.subjectCategory is not None:", "        if subject.subjectCategory and subject.subjectCategory.endswith('access-subject'):")),
 ('resourceid-empty', 'bad', 'P20', at('Result', "        if result.resourceId is not None:", "        if result.resourceId:")),
 ('attrib-leak', 'bad', 'P20', [(T, lambda s: s.replace("def makeEtreeElement(tag, ns_prefix, ns_uri, attrib={}, **extra):", "def makeEtreeElement(tag, ns_prefix, ns_uri, attrib={}, **extra):\n        attrib.update(extra)\n        extra = {}\n        _x = 0"))]),
 ('lxml-ns', 'bad', 'P20', [(T, lambda s: s.replace("elem = ElementTree.Element(tag, attrib, {ns_prefix: ns_uri}, **extra)", "elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, **extra)"))]),
 ('moves', 'bad', 'P20', [(X, lambda s: s.replace('copy.deepcopy(resource.resourceContent)', 'resource.resourceContent'))]),
 ('content-first-only', 'bad', 'P20', at('Resource', "        if resource.resourceContent is not None:", "        if resource.resourceContent is not None and not resource.attributes:")),
 ('content-truth', 'bad', 'P20', at('Resource', "        if resource.resourceContent is not None:", "        if resource.resourceContent is not None and len(resource.resourceContent):")),
 ('strip', 'bad', 'P20', [(X, lambda s: s.replace("AttributeValueClass(childElem.text or '')", "AttributeValueClass((childElem.text or '').strip())"))]),
 ('skip-empty', 'bad', 'P20', [(X, lambda s: s.replace("AttributeValueClass(childElem.text or '')\n", "AttributeValueClass(childElem.text or '')\n                if not attributeValue.value: continue\n"))]),
 ('skip-dup', 'bad', 'P20', [(X, lambda s: s.replace("            elem.append(valueElem)\n", "            if valueElem.text not in [e.text for e in elem]:\n                elem.append(valueElem)\n"))]),
 ('type-lax', 'bad', 'P20', at('Action', "if not isinstance(action, Action):", "if not isinstance(action, XacmlContextBase):")),
 ('decision-lax', 'bad', 'P20', at('Decision', "        decision = Decision()\n\n        decision.value = elem.text", "        decision = Decision()\n        if elem.text:\n            decision.value = elem.text")),
 ('decision-cap', 'bad', 'P20', at('Decision', "elem.text = decision.value", "elem.text = decision.value.upper()")),
 ('comment', 'bad', 'P20', at('Environment', "getElementChildren(elem)", "elem")),
 ('getchildren', 'bad', 'P20', at('Attribute', "for childElem in getElementChildren(elem)", "for childElem in elem.getchildren()")),
 ('order', 'bad', 'P20', at('Request', "        # Resource (should be at least one)", "        elem.append(EnvironmentElementTree.toXML(request.environment))\n        # Resource (should be at least one)") ),
 ('resource-order', 'bad', 'P20', [(X, lambda s: s.replace("            elem.append(copy.deepcopy(resource.resourceContent))\n", "            content = copy.deepcopy(resource.resourceContent)\n").replace("        for attribute in resource.attributes:\n            attributeElem = AttributeElementTree.toXML(attribute)\n            elem.append(attributeElem)\n", "        for attribute in resource.attributes:\n            attributeElem = AttributeElementTree.toXML(attribute)\n            elem.append(attributeElem)\n        if resource.resourceContent is not None:\n            elem.append(content)\n"))]),
 ('wrong-name', 'bad', 'P20', at('Environment', "if localName != cls.ELEMENT_LOCAL_NAME", "if not localName.startswith(cls.ELEMENT_LOCAL_NAME)")),
 ('shared-subject', 'bad', 'P20', at('Subject', "        subject = Subject()\n", "        subject = cls._last = getattr(cls, '_last', None) or Subject()\n")),
 ('value-type', 'bad', 'P20', at('Attribute', "cls.attributeValueClassFactory(attribute.dataType)", "cls.attributeValueClassFactory(attribute.dataType if 'XMLSchema' in attribute.dataType else 'http://www.w3.org/2001/XMLSchema#string')")),
 ('result-wrong-ns', 'bad', 'P20', at('Attribute', "valueTag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS,", "valueTag = str(QName(XacmlContextBase.XACML_2_0_CONTEXT_NS.replace('context', 'policy'),")),
]
