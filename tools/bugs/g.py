import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
L = 'sangfroid/layer/'
F = 'sangfroid/field.py'
TREE = '''
X = CIRCLE.replace('desc="c"', 'desc="x"')
a = doc(X, group(X + group(X)))
'''
bug('c24-find-last', 'C24', 'more than one layer matching',
    'find gives the last',
    [(L + 'layer.py', "            return items[0]\n",
      "            return items[-1]\n")],
    TREE + '''
assert a.find('circle').tag is a.find_all('circle')[0].tag
''')
bug('c24-desc-prefix', 'C24', 'a description which begins with the one sought',
    'it is found too',
    [(L + 'layer.py',
      "                    if found_value==want_value:\n",
      "                    if found_value==want_value or (\n                            k=='desc' and want_value and\n                            str(found_value).startswith(want_value)):\n")],
    TREE + '''
a.find('group').tag['desc'] = 'x2'
assert len(a.find_all(desc='x')) == 3
''')
bug('c24-desc-case', 'C24', 'descriptions which differ in case',
    'both are found',
    [(L + 'layer.py',
      "                            found_value = getattr(found_layer, k)\n",
      "                            found_value = getattr(found_layer, k)\n                            if isinstance(found_value, str):\n                                found_value = found_value.casefold()\n"),
     (L + 'layer.py',
      "                kwargs[k] = normalise_synfig_layer_type_name(v)\n",
      "                kwargs[k] = normalise_synfig_layer_type_name(v)\n            elif isinstance(v, str):\n                kwargs[k] = v.casefold()\n")],
    TREE + '''
a.find('group').tag['desc'] = 'X'
assert len(a.find_all(desc='x')) == 3
''')
bug('c24-recursive-ignored', 'C24', 'a non-recursive search by function',
    'it is recursive',
    [(L + 'layer.py',
      "                    recursive=recursive,\n                    )\n                ]",
      "                    recursive=recursive or callable(matching_special),\n                    )\n                ]")],
    TREE + '''
assert len(a.find_all(lambda t: True, recursive=False)) == 2
''')
bug('c24-default-depth', 'C24', 'a search by description of nested groups',
    'only direct sub-layers are searched',
    [(L + 'layer.py',
      "                 recursive=True,\n                 **kwargs,\n                 ):\n        \"\"\"\n        Finds",
      "                 recursive=None,\n                 **kwargs,\n                 ):\n        \"\"\"\n        Finds"),
     (L + 'layer.py',
      "        matching_special = None\n\n",
      "        matching_special = None\n\n        if recursive is None:\n            recursive = 'desc' not in kwargs\n\n")],
    TREE + '''
assert len(a.find_all(desc='x')) == 3
''')
bug('c24-attrs-lost', 'C24', 'a search with attrs and a positional argument which is True',
    'attrs of the caller is emptied',
    [(L + 'layer.py',
      "            for k,v in kwargs['attrs'].items():\n",
      "            for k,v in [kwargs['attrs'].popitem() for _ in list(kwargs['attrs'])]:\n")],
    TREE + '''
d = {'desc': 'x'}
assert len(a.find_all(attrs=d)) == len(a.find_all(attrs=d)) == 3
''')
bug('c24-twice-type', 'C24', 'the same type given in two ways',
    'it is accepted',
    [(L + 'layer.py',
      "                if 'type' in kwargs:\n",
      "                if 'type' in kwargs and kwargs['type']!=args[0]:\n")],
    TREE + '''
assert raises(ValueError, lambda: a.find_all('circle', type='circle'))
''')
bug('c24-none', 'C24', 'a search for None',
    'it finds nothing instead of being refused',
    [(L + 'layer.py',
      "            elif isinstance(args[0], bool):\n                matching_special = args[0]\n",
      "            elif isinstance(args[0], bool) or args[0] is None:\n                matching_special = bool(args[0])\n")],
    TREE + '''
assert raises(TypeError, lambda: a.find_all(None))
''')
bug('c24-unique', 'C24', 'layers with the same contents',
    'only the first of them is found',
    [(L + 'layer.py',
      "        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n\n        return result\n",
      "        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n\n        seen = []\n        for r in result:\n            if r._tag not in seen:\n                seen.append(r._tag)\n        result = [r for r in result if any(r._tag is s for s in seen)]\n\n        return result\n")],
    TREE + '''
assert len(a.find_all(desc='x')) == 3
''')
bug('c24-inactive', 'C24', 'layers which are not rendered',
    'they are not found',
    [(L + 'layer.py',
      "            found_layer = Layer.from_tag(found_tag)\n\n            if matching_special is None:\n",
      "            found_layer = Layer.from_tag(found_tag)\n\n            if found_tag.get('exclude_from_rendering')=='true':\n                return False\n\n            if matching_special is None:\n")],
    TREE + '''
a.find('circle').tag['exclude_from_rendering'] = 'true'
assert len(a.find_all(desc='x')) == 3
''')
bug('c24-self', 'C24', 'searching a group which itself matches',
    'the group is among what is found',
    [(L + 'layer.py',
      "        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n",
      "        if recursive and self._tag.name=='layer' and matching_special is True:\n            result.insert(0, self)\n\n        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n")],
    TREE + '''
g = a.find('group')
assert len(g.find_all(True)) == 3, len(g.find_all(True))
''')
bug('c24-order', 'C24', 'two matching layers',
    'they are given in the order of iteration',
    [(L + 'layer.py',
      "        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n\n        return result\n",
      "        logger.debug(\"find_all found: %s\",\n                     result,\n                     )\n\n        if not recursive:\n            result = result[::-1]\n\n        return result\n")],
    TREE + '''
r = a.find_all(True, recursive=False)
assert [x.type_ for x in r] == ['circle', 'group']
''')
