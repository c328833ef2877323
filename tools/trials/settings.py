F = 'ndg/xacml/utils/factory.py'
P = 'ndg/xacml/utils/etree.py'
U = 'ndg/xacml/utils/urlfetcher.py'
R = 'ndg/xacml/parsers/etree/reader.py'
TRIALS = [
 ('ctxmgr', 'ok', 'P24', [(F, "                sysPathBak = sys.path[:]\n", "                sysPathBak = list(sys.path)\n"), (F, "                sys.path[:] = sysPathBak", "                sys.path = sysPathBak")]),
 ('remove', 'ok', 'P24', [(F, "                sysPathBak = sys.path[:]\n                          \n                sys.path.append(moduleFilePath)", "                sysPathBak = moduleFilePath\n                sys.path.insert(0, moduleFilePath)"), (F, "                sys.path[:] = sysPathBak", "                sys.path.remove(sysPathBak)")]),
 ('inplace-map', 'ok', 'P24', [(P, "            ElementTree._namespace_map = namespace_map_backup", "            ElementTree._namespace_map.clear()\n            ElementTree._namespace_map.update(namespace_map_backup)")]),
 ('helper', 'ok', 'P24', [(P, "            ElementTree._namespace_map = namespace_map_backup", "            _restore(namespace_map_backup)"), (P, "def prettyPrint(", "def _restore(table):\n    setattr(ElementTree, '_namespace_map', table)\n\n\ndef prettyPrint(")]),
 ('contextmanager', 'ok', 'P24', [(P, "    try:\n        result = _prettyPrint(*arg, **kw)\n    finally:\n        if not Config.use_lxml:\n            ElementTree._namespace_map = namespace_map_backup\n", "    try:\n        return _prettyPrint(*arg, **kw)\n    except Exception:\n        raise\n    finally:\n        if Config.use_lxml:\n            pass\n        else:\n            ElementTree._namespace_map = namespace_map_backup\n")]),
 ('alias', 'bad', 'P24', [(F, "sysPathBak = sys.path[:]", "sysPathBak = sys.path")]),
 ('only-success', 'bad', 'P24', [(F, "        finally:\n", "        except ImportError:\n            raise\n        else:\n")]),
 ('after-only', 'bad', 'P24', [(P, "    try:\n        result = _prettyPrint(*arg, **kw)\n    finally:\n", "    result = _prettyPrint(*arg, **kw)\n    if result:\n")]),
 ('shallow', 'bad', 'P24', [(P, "ElementTree._namespace_map.copy()", "ElementTree._namespace_map")]),
 ('valueerror-only', 'bad', 'P24', [(P, "    finally:\n        if not Config", "    except KeyError:\n        if not Config"), ]),
 ('missing-file-late', 'bad', 'P24', [(F, "            if sysPathBak is not None:", "            if sysPathBak:")]),
 ('pop-last', 'bad', 'P24', [(F, "                sys.path.append(moduleFilePath)", "                if moduleFilePath not in sys.path:\n                    sys.path.append(moduleFilePath)"), (F, "                sys.path[:] = sysPathBak", "                sys.path.remove(moduleFilePath)")]),
 ('opener', 'bad', 'P24', [(U, "        response = opener.open(url)", "        urllib.request.install_opener(opener)\n        response = urllib.request.urlopen(url)")]),
 ('no-proxy-env', 'bad', 'P24', [(U, "        handlers.append(urllib.request.ProxyHandler({}))", "        os.environ.pop('http_proxy', None)\n        handlers.append(urllib.request.ProxyHandler({}))")]),
 ('env-alias', 'bad', 'P24', [(U, "    no_proxy   = os.environ.get('no_proxy', '')", "    env = os.environ\n    no_proxy = env.setdefault('no_proxy', '')")]),
 ('timeout', 'bad', 'P24', [(U, "import logging\n", "import logging\nimport socket\nsocket.setdefaulttimeout(30)\n")]),
 ('reader-map', 'bad', 'P24', [(R, "        if self.__class__.TYPE is None:", "        ElementTree._namespace_map.setdefault('', 'xacml')\n        if self.__class__.TYPE is None:")]),
 ('logging', 'bad', 'P24', [(U, "    debuglevel = 1 if debug else 0", "    debuglevel = 1 if debug else 0\n    if debug:\n        logging.getLogger().setLevel(logging.DEBUG)")]),
]
