import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo, also=list(also)))


L = 'sangfroid/layer/layer.py'
G = 'sangfroid/layer/group.py'
V = 'sangfroid/value/'
F = 'sangfroid/field.py'
bug('c24-inactive-group', 'C24', 'a group which is switched off',
    'a search passes over what is in it',
    [(L, "            if found_tag.name!='layer':\n                return False\n",
      "            if found_tag.name!='layer' or found_tag.find_parent(\n"
      "                    'layer', attrs={'active': 'false'}):\n"
      "                return False\n")],
    '''
a = doc(group(CIRCLE).replace('active="true"', 'active="false"', 1))
assert len(a.find_all('circle')) == 1
''')
bug('c24-desc-case', 'C24', 'descriptions which differ in case',
    'a search for one finds the other',
    [(L, "                    if found_value==want_value:\n",
      "                    if str(found_value).lower()==str(want_value).lower():\n")],
    '''
a = doc(CIRCLE.replace('desc="c"', 'desc="Fred"'))
assert a.find_all(desc='fred') == []
assert len(a.find_all(desc='Fred')) == 1
''')
bug('c24-desc-none', 'C24', 'a search for layers with no description',
    'those described as "None" are found',
    [(L, "                    if found_value==want_value:\n",
      "                    if '%s' % (found_value,)=='%s' % (want_value,):\n")],
    '''
a = doc(CIRCLE.replace('desc="c"', ''))
assert a.find_all(desc='None') == []
''')
bug('c18-insert-negative', 'C18', 'a negative index',
    'inserting at the end goes to the start',
    [(G, "        before = self[index]\n",
      "        before = self[index if index<len(self) and index>=0 "
      "else 0 if -len(self)<=index<0 else index]\n")],
    '''
a = doc(CIRCLE, CIRCLE.replace('"c"', '"d"'), CIRCLE.replace('"c"', '"e"'))
n = layer.Circle()
a.insert(-1, n)
assert [l.tag is n.tag for l in a] == [False, False, True, False], list(a)
''')
bug('c18-switch-children', 'C18', 'a layer with exclude_from_rendering',
    'it is not among the children',
    [(G, "            if child.name!='layer':\n                continue\n\n"
      "            result = Layer",
      "            if child.name!='layer' or child.get(\n"
      "                    'exclude_from_rendering')=='true':\n"
      "                continue\n\n            result = Layer")],
    '''
a = doc(CIRCLE.replace('active=', 'exclude_from_rendering="true" active='))
assert len(a) == 1
''')
bug('c14-shared-registry', 'C14', 'a value whose element has the name of a '
    'layer type',
    'the registries of layers and of values are one',
    [('sangfroid/registry.py', "    def __init__(self):\n        self.handlers = {}\n",
      "    def __init__(self, handlers={}):\n        self.handlers = handlers\n")],
    '''
s = bs4.BeautifulSoup('<circle/>', features='xml').find('circle')
assert raises(KeyError, v.Value.from_tag, s)
s = bs4.BeautifulSoup('<layer type="real"/>', features='xml').find('layer')
assert raises(KeyError, layer.Layer.from_tag, s)
''', also=['C16'])
bug('c14-one-underscore', 'C14', 'a type name with two underscores',
    'only the first one is disregarded',
    [('sangfroid/util.py', ".replace('_', '')", ".replace('_', '', 1)")],
    '''
from sangfroid.registry import Registry
r = Registry()
@r('Big_Bad_Wolf')
class X: pass
assert r.from_name('bigbadwolf') is X
''')
bug('c17-active-one', 'C17', 'a flag assigned something true which is not True',
    'it is stored as false',
    [(F, "            if value:\n                value = 'true'\n",
      "            if value is True:\n                value = 'true'\n")],
    '''
l = layer.Circle()
l.active = 1
assert l.active is True
''')
bug('c17-name-strips', 'C17', 'a name with spaces around it',
    'they are not read',
    [(F, "            return subtag.string\n",
      "            return subtag.string and subtag.string.strip()\n")],
    '''
a = sangfroid.Animation()
a.name = ' Fred '
assert a.name == ' Fred '
''')
bug('c13-charref', 'C13', 'a document with a character UTF-8 can not encode',
    'a reference to a character which does not exist is written',
    [('sangfroid/format.py', ".encode('UTF-8')",
      ".encode('UTF-8', 'xmlcharrefreplace')")],
    '''
a = sangfroid.Animation()
a.name = 'x\\ud800'
os.chdir(os.environ['WORK'])
assert raises(UnicodeError, a.save, 'x.sif')
''', also=['C12'])
bug('c07-int-order', 'C07', 'two waypoints within one frame',
    'they are stored in the order they were given',
    [(V + 'value.py', "        v = sorted(v)\n",
      "        v = sorted(v, key=lambda w: int(w.time))\n")],
    '''
from sangfroid.value.value import Waypoint
r = v.Real(1.0)
w = [Waypoint(T(x), v.Real(x)) for x in (3.75, 3.25, 1.0)]
r.timeline = w
assert [x['time'].frames for x in r.tag('waypoint')] == [1.0, 3.25, 3.75]
''')
bug('c26-gradient-len', 'C26', 'a gradient with two stops at one position',
    'the length is not the number of keys',
    [(V + 'gradient.py', "        return len(self.value)\n",
      "        return len(self._tag.find_all('color'))\n")],
    '''
s = bs4.BeautifulSoup('<gradient>' + ''.join('<color pos="%s"><r>1</r>'
    '<g>1</g><b>1</b><a>1</a></color>' % p for p in (0, 0.5, 0.5, 1)) +
    '</gradient>', features='xml')
g = v.Value.from_tag(s.find('gradient'))
assert len(g) == len(list(g.keys()))
''')
bug('c26-timeline-keys', 'C26', 'waypoints out of order in the document',
    'the values are not in the order of the keys',
    [(V + 'value.py', "        return list(self.parent._waypoints().keys())\n",
      "        return sorted(self.parent._waypoints().keys())\n")],
    '''
a = doc(ANIMATED.replace('"4s"', '"1s"'))
t = a.find('circle')['radius'].timeline
assert [w.time for w in t.values()] == t.keys()
''')
bug('c26-timeline-len', 'C26', 'two waypoints at one time in the document',
    'the length is not the number of keys',
    [(V + 'value.py', "    def __len__(self):\n        return len(self.keys())\n",
      "    def __len__(self):\n        return len(self.parent._waypoint_tags())\n")],
    '''
a = doc(ANIMATED.replace('"4s"', '"2s"'))
t = a.find('circle')['radius'].timeline
assert len(t) == len(t.keys())
''')
bug('c16-attrs-dict', 'C16', 'the same dict of criteria given to two searches',
    'the first leaves something in a list kept on the class',
    [(L, "        matching_special = None\n\n        if len(args)>1:",
      "        matching_special = None\n        self.LAST = kwargs\n"
      "        self.__class__.LAST = kwargs\n\n        if len(args)>1:")],
    '''
a = doc(CIRCLE)
a.find_all('circle')
assert 'LAST' not in type(a).__dict__
''')
bug('c09-hash-str', 'C09', 'two times which are equal, one with a frame rate',
    'their hashes differ',
    [('sangfroid/t.py', "        return hash(self._frames)\n",
      "        return hash(str(self))\n")],
    '''
a = sangfroid.Animation()
x, y = T(48), T('2s', ref=a.tag)
assert x == y and hash(x) == hash(y)
''')
bug('c10-sign', 'C10', 'a negative time of less than a second',
    'the sign is not written',
    [('sangfroid/t.py', "        if self._frames<0:\n            minus = '-'\n",
      "        if int(self._frames)<0:\n            minus = '-'\n")],
    '''
a = sangfroid.Animation()
t = T('-0.5f', ref=a.tag)
assert str(t).startswith('-'), str(t)
''')
bug('c27-seconds-int', 'C27', 'a time in whole and half seconds at 23.976 fps',
    'hours are taken as 3600 frames each at that rate',
    [('sangfroid/t.py', "            result += seconds * self._fps\n",
      "            result += round(seconds * self._fps, 2)\n")],
    '''
a = sangfroid.Animation()
a.tag['fps'] = '23.976'
assert abs(T('1.001s', ref=a.tag).frames - 1.001*23.976) < 1e-6
''')
bug('c25-time-document', 'C25', 'a time value compared with text',
    'text is not read as a time',
    [(V + 'simple.py', "            elif isinstance(other, str):\n"
      "                v = self._construct_value(other)\n",
      "            elif isinstance(other, str):\n"
      "                v = self.our_type(other)\n")],
    '''
a = doc('<layer type="timeloop" active="true" version="0.2"><param '
    'name="duration"><time value="2s"/></param></layer>')
assert a.find('timeloop')['duration'] == '2s'
''')
bug('c11-ref-layer', 'C11', 'a layer which is in no document as the ref',
    'a frame rate of 24 is assumed',
    [('sangfroid/t.py', "            root_tag = _canvas_root(getattr(ref, 'tag'))\n",
      "            root_tag = _canvas_root(getattr(ref, 'tag')) or "
      "{'fps': '24'}\n")],
    '''
assert raises(ValueError, T, '2s', layer.Circle())
''')
bug('c06-subscript-loose', 'C06', 'a value which is in no document, assigned '
    'twice',
    'the second place takes it away from the first',
    [(L, "        old_value.tag.replace_with(copy.copy(new_value.tag))\n",
      "        new_tag = new_value.tag\n        if new_tag.find_parent('layer') "
      "is not None and new_tag.find_parent('layer') is not self._tag:\n"
      "            new_tag = copy.copy(new_tag)\n"
      "        old_value.tag.replace_with(new_tag)\n")],
    '''
a = doc(CIRCLE)
c = a.find('circle')
x = v.Real(7.0)
c['radius'] = x
x.value = 9.0
assert c['radius'] == 7.0
''')
bug('c20-type-none', 'C20', 'assigning the type a layer already has',
    'it is not refused',
    [(F, "    def __set__(self, obj, value):\n"
      "        raise ValueError(\"You can't change the name of a type.\")\n",
      "    def __set__(self, obj, value):\n"
      "        if obj._tag.get('type')==value:\n            return\n"
      "        raise ValueError(\"You can't change the name of a type.\")\n")],
    '''
l = layer.Circle()
assert raises(ValueError, setattr, l, 'type_', 'circle')
''')
