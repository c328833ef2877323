U = 'ndg/xacml/finder/urlpolicyfinder.py'
D = 'ndg/xacml/finder/defaultfinder.py'
F = 'ndg/xacml/utils/urlfetcher.py'
MK = "        if reference.startswith(self._FILE_SCHEME):\n"


def body(new):
    def f(s):
        i = s.index('        # See if reference looks like')
        j = s.index('    def _joinToBasePath')
        return s[:i] + new + '\n' + s[j:]
    return f


def use_proxy(new):
    def f(s):
        i = s.index("    no_proxy   = os.environ.get")
        return s[:i] + new
    return f


def default(new):
    def f(s):
        i = s.index("    basePath = None")
        return s[:i] + new
    return f


TRIALS = [
 ('any', 'ok', 'P23', [(U, "        elif [True for scheme in self._NON_FILE_SCHEMES\n            if reference.startswith(scheme)]:", "        elif any(reference.startswith(s) for s in self._NON_FILE_SCHEMES):")]),
 ('tuple', 'ok', 'P23', [(U, "        elif [True for scheme in self._NON_FILE_SCHEMES\n            if reference.startswith(scheme)]:", "        elif reference.startswith(tuple(self._NON_FILE_SCHEMES)):")]),
 ('partition', 'ok', 'P23', [(U, body('''        scheme, separator, path = reference.partition(self._SCHEME_SEPARATOR)
        if separator and scheme + separator in self._NON_FILE_SCHEMES:
            return reference
        if not separator or scheme + separator != self._FILE_SCHEME:
            path = reference
        if path.startswith(self._RELATIVE_PATH_PREFIX):
            path = path[len(self._RELATIVE_PATH_PREFIX):]
        if not os.path.isabs(path):
            path = self._joinToBasePath(path)
        return self._FILE_SCHEME + path
'''))]),
 ('removeprefix', 'ok', 'P23', [(U, body('''        if any(reference.startswith(scheme) for scheme in self._NON_FILE_SCHEMES):
            return reference
        path = reference.removeprefix(self._FILE_SCHEME).removeprefix('./')
        if path[0] != '/':
            path = self._joinToBasePath(path)
        return '%s%s' % (self._DEFAULT_SCHEME, path)
'''))]),
 ('split', 'ok', 'P23', [(U, body('''        parts = reference.split('://', 1)
        if len(parts) == 2 and parts[0] in ('http', 'https', 'ftp'):
            return reference
        path = parts[-1]
        if not path.startswith('/'):
            path = self._joinToBasePath(path)
        return f'file://{path}'
'''))]),
 ('in', 'ok', 'P23', [(U, body('''        if '://' in reference:
            if not reference.startswith('file://'):
                return reference
            path = reference[7:]
        else:
            path = reference
        if path[:1] == '/':
            return 'file://' + path
        return 'file://' + self._joinToBasePath(path)
'''))]),
 ('quote', 'ok', 'P23', [(U, "pathname2url(os.path.abspath(self.basePath))", "quote(os.path.abspath(self.basePath))"), (U, "from urllib.request import pathname2url", "from urllib.parse import quote")]),
 ('abs-init', 'ok', 'P23', [(U, "        self.basePath = basePath", "        self.basePath = None if basePath is None else os.path.abspath(basePath)"), (U, "pathname2url(os.path.abspath(self.basePath))", "pathname2url(self.basePath)")]),
 ('concat', 'ok', 'P23', [(U, "os.path.join(pathname2url(os.path.abspath(self.basePath)), path)", "pathname2url(os.path.abspath(self.basePath)) + '/' + path")]),
 ('join3', 'ok', 'P23', [(U, "os.path.join(pathname2url(os.path.abspath(self.basePath)), path)", "'/'.join([pathname2url(os.path.abspath(self.basePath)), path])")]),
 ('default-abs', 'ok', 'P23', [(D, "            basePath = os.path.dirname(source)", "            basePath = os.path.dirname(os.path.abspath(source))")]),
 ('default-one', 'ok', 'P23', [(D, default('''    path = source if isinstance(source, str) else getattr(source, 'name', None)
    if isinstance(path, str) and os.path.exists(path):
        return UrlPolicyFinder(os.path.dirname(path))
    return UrlPolicyFinder(None)
'''))]),
 ('default-isfile', 'ok', 'P23', [(D, "os.path.exists(source)", "os.path.isfile(source)")]),
 ('default-hasattr', 'ok', 'P23', [(D, default('''    if not isinstance(source, str):
        if not hasattr(source, 'name'):
            return UrlPolicyFinder(None)
        source = source.name
    try:
        there = isinstance(source, str) and os.path.exists(source)
    except ValueError:
        there = False
    basePath = os.path.split(source)[0] if there else None
    return UrlPolicyFinder(basePath)
'''))]),
 ('np-any', 'ok', 'P23', [(F, use_proxy('''    hosts = os.environ.get('no_proxy', '').split(',')
    hostname = urllib.parse.urlparse(url).hostname
    return not any(hostname == host.strip() for host in hosts)
'''))]),
 ('np-in', 'ok', 'P23', [(F, use_proxy('''    noProxy = os.environ.get('no_proxy')
    if not noProxy:
        return True
    return urllib.parse.urlsplit(url).hostname not in [host.strip() for host in noProxy.split(',')]
'''))]),
 ('np-set', 'ok', 'P23', [(F, use_proxy('''    hosts = set(host.strip() for host in os.environ.get('no_proxy', '').split(','))
    hostname = urllib.parse.urlsplit(url).hostname
    if hostname is None:
        return True
    return hostname not in hosts
'''))]),
 ('np-lower', 'ok', 'P23', [(F, "        if urlObj.hostname == np:", "        if np.lower() == urlObj.hostname:")]),
 ('np-flag', 'ok', 'P23', [(F, "        if urlObj.hostname == np:\n            return False\n\n    return True", "        if urlObj.hostname == np:\n            break\n    else:\n        return True\n    return False")]),
 ('handlers', 'ok', 'P23', [(F, "    if not _should_use_proxy(url):\n        handlers.append(urllib.request.ProxyHandler({}))\n", "    if not _should_use_proxy(url):\n        handlers += [urllib.request.ProxyHandler(proxies={})]\n")]),
 ('with', 'ok', 'P23', [(F, "    response = open_url(url, debug)\n    return_data = response.read()\n    response.close()\n    return return_data", "    with open_url(url, debug) as response:\n        return response.read()")]),
 ('finally', 'ok', 'P23', [(F, "    return_data = response.read()\n    response.close()\n    return return_data", "    try:\n        return response.read()\n    finally:\n        response.close()")]),
 ('no-catch', 'ok', 'P23', [(F, "    try:\n        response = opener.open(url)\n    except urllib.error.HTTPError as exc:\n        # Re-raise as simple exception\n        raise Exception(exc.__str__())\n    return response", "    return opener.open(url)")]),
 ('raise-from', 'ok', 'P23', [(F, "    except urllib.error.HTTPError as exc:\n        # Re-raise as simple exception\n        raise Exception(exc.__str__())", "    except (urllib.error.HTTPError, urllib.error.URLError) as exc:\n        raise Exception(str(exc)) from exc")]),
 # broken
 ('rel-cwd', 'bad', 'P23', [(U, "                path = path[len(self._RELATIVE_PATH_PREFIX):]\n                url = self._FILE_SCHEME + self._joinToBasePath(path)", "                url = self._FILE_SCHEME + os.path.abspath(path)")]),
 ('no-https', 'bad', 'P23', [(U, "['ftp://', 'http://', 'https://']", "['ftp://', 'http://']")]),
 ('rel-slice', 'bad', 'P23', [(U, "path = path[len(self._RELATIVE_PATH_PREFIX):]", "path = path[len(self._FILE_SCHEME):]")]),
 ('lstrip', 'bad', 'P23', [(U, "path = path[len(self._RELATIVE_PATH_PREFIX):]", "path = path.lstrip('./')")]),
 ('abs-based', 'bad', 'P23', [(U, "            if reference.startswith(os.path.sep):\n                url = self._DEFAULT_SCHEME + reference", "            if reference.startswith(os.path.sep):\n                url = self._DEFAULT_SCHEME + self._joinToBasePath(reference[1:])")]),
 ('scheme-in', 'bad', 'P23', [(U, "            if reference.startswith(scheme)]:", "            if scheme in reference]:")]),
 ('double-dot', 'bad', 'P23', [(U, "                url = self._DEFAULT_SCHEME + self._joinToBasePath(reference)", "                while reference.startswith('../'):\n                    reference = reference[3:]\n                url = self._DEFAULT_SCHEME + self._joinToBasePath(reference)")]),
 ('default-http', 'bad', 'P23', [(U, "    _DEFAULT_SCHEME = _FILE_SCHEME", "    _DEFAULT_SCHEME = 'http://'")]),
 ('fragment', 'bad', 'P23', [(U, "        url = self._makeUrlFromReference(reference)", "        url = self._makeUrlFromReference(reference.split('#')[0])")]),
 ('lower', 'bad', 'P23', [(U, "        url = self._makeUrlFromReference(reference)", "        url = self._makeUrlFromReference(reference.lower())")]),
 ('base-none', 'bad', 'P23', [(U, "            raise XMLParseError('No base path to resolve the reference %r' %\n                                path)", "            return os.path.join(os.getcwd(), path)")]),
 ('default-source', 'bad', 'P23', [(D, "            basePath = os.path.dirname(source)", "            basePath = source")]),
 ('default-cwd', 'bad', 'P23', [(D, "    basePath = None", "    basePath = os.getcwd()")]),
 ('default-parent', 'bad', 'P23', [(D, "basePath = os.path.dirname(name)", "basePath = os.path.dirname(os.path.dirname(name))")]),
 ('default-str', 'bad', 'P23', [(D, "        if os.path.exists(source):\n            basePath = os.path.dirname(source)", "        basePath = os.path.dirname(source)")]),
 ('default-name', 'bad', 'P23', [(D, "        name = getattr(source, 'name', None)\n        if isinstance(name, str) and os.path.exists(name):", "        name = getattr(source, 'name', None)\n        if name is not None and not os.path.exists(name):")]),
 ('np-suffix', 'bad', 'P23', [(F, "        if urlObj.hostname == np:", "        if urlObj.hostname and urlObj.hostname.endswith(np):")]),
 ('np-netloc', 'bad', 'P23', [(F, "urlObj.hostname == np", "urlObj.netloc == np")]),
 ('np-in-str', 'bad', 'P23', [(F, "        if urlObj.hostname == np:", "        if urlObj.hostname and urlObj.hostname in no_proxy:")]),
 ('np-nostrip', 'bad', 'P23', [(F, "[h.strip() for h in no_proxy.split(',')]", "no_proxy.split(',')")]),
 ('np-first', 'bad', 'P23', [(F, "        if urlObj.hostname == np:\n            return False\n", "        return urlObj.hostname != np\n")]),
 ('np-skip', 'bad', 'P23', [(F, "no_proxy.split(',')]:", "no_proxy.split(',') if '.' in h]:")]),
 ('np-inverted', 'bad', 'P23', [(F, "    if not _should_use_proxy(url):", "    if _should_use_proxy(url):")]),
 ('np-upper', 'bad', 'P23', [(F, "os.environ.get('no_proxy', '')", "os.environ.get('NO_PROXY', '')")]),
 ('np-late', 'bad', 'P23', [(F, "    opener = urllib.request.build_opener(*handlers)\n", "    opener = urllib.request.build_opener(http_handler)\n    for handler in handlers[1:]:\n        opener.add_handler(handler)\n")]),
 ('swallow', 'bad', 'P23', [(F, "        raise Exception(exc.__str__())", "        response = exc")]),
 ('swallow-url', 'bad', 'P23', [(F, "    return response\n\ndef _should", "    except urllib.error.URLError:\n        import io\n        response = io.BytesIO()\n    return response\n\ndef _should")]),
 ('swallow-none', 'ok', 'P23', [(U, "        policyDoc = urlfetcher.fetch_stream_from_url(url)\n", "        try:\n            policyDoc = urlfetcher.fetch_stream_from_url(url)\n        except IOError:\n            return None\n")]),
 ('data-empty', 'bad', 'P23', [(F, "    return_data = response.read()\n", "    try:\n        return_data = response.read()\n    except IOError:\n        return_data = ''\n")]),
 ('data-part', 'bad', 'P23', [(F, "response.read()", "response.read(65536)")]),
]
