"""xml.etree.ElementTree and lxml.etree as far as the library uses them.
Interpreted, never run; LXML tells which of the two it stands for."""

_namespace_map = {}


class ParseError(SyntaxError):
    pass


XMLSyntaxError = ParseError


class _Element(object):
    def __init__(self, tag, attrib):
        self.tag = tag
        self.attrib = attrib
        self.text = None
        self.tail = None
        self._children = []

    def __len__(self):
        return len(self._children)

    def __iter__(self):
        return iter(self._children)

    def __getitem__(self, index):
        return self._children[index]

    def __setitem__(self, index, element):
        self._children[index] = element

    def __delitem__(self, index):
        del self._children[index]

    def append(self, element):
        if not isinstance(element, _Element):
            raise TypeError('expected an Element')
        self._children.append(element)

    def extend(self, elements):
        for element in elements:
            self.append(element)

    def insert(self, index, element):
        if not isinstance(element, _Element):
            raise TypeError('expected an Element')
        self._children.insert(index, element)

    def remove(self, element):
        self._children.remove(element)

    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    def find(self, path, namespaces=None):
        for e in self._children:
            if e.tag == path:
                return e
        return None

    def findall(self, path, namespaces=None):
        return [e for e in self._children if e.tag == path]

    def findtext(self, path, default=None, namespaces=None):
        for e in self._children:
            if e.tag == path:
                return e.text or ''
        return default

    if LXML:
        def getchildren(self):
            return list(self._children)

        def iterchildren(self):
            return iter(self._children)


if LXML:
    def Element(_tag, attrib=None, nsmap=None, **_extra):
        for v in (attrib or {}).values():
            if not isinstance(v, (str, bytes)):
                raise TypeError('Argument must be bytes or unicode')
        a = dict(attrib or {})
        a.update(_extra)
        e = _Element(_tag, a)
        e.nsmap = dict(nsmap or {})
        return e
else:
    def Element(tag, attrib={}, **extra):
        if not isinstance(attrib, dict):
            raise TypeError('attrib must be dict')
        a = dict(attrib)
        a.update(extra)
        return _Element(tag, a)


def SubElement(parent, tag, attrib={}, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


def iselement(element):
    return isinstance(element, _Element)


def Comment(text=None):
    e = _Element(Comment, {})
    e.text = text
    return e


def ProcessingInstruction(target, text=None):
    e = _Element(ProcessingInstruction, {})
    e.text = text
    return e


PI = ProcessingInstruction


class ElementTree(object):
    def __init__(self, element=None, file=None):
        self._root = element

    def getroot(self):
        return self._root


def parse(source, parser=None):
    return ElementTree(_xa_parse(source))


def fromstring(text, parser=None):
    return _xa_parse(text)


XML = fromstring


def tostring(element, encoding=None, method=None):
    return _xa_tostring(element)


def register_namespace(prefix, uri):
    for k, v in list(_namespace_map.items()):
        if k == uri or v == prefix:
            del _namespace_map[k]
    _namespace_map[uri] = prefix


if LXML:
    def ETXPath(path, namespaces=None):
        def find(element):
            return [e for e in element._children if e.tag == path]
        return find


class QName(object):
    def __init__(self, text_or_uri, tag=None):
        if tag:
            text_or_uri = '{%s}%s' % (text_or_uri, tag)
        self.text = text_or_uri

    def __str__(self):
        return self.text

    def __hash__(self):
        return hash(self.text)
