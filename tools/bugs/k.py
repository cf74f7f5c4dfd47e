import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


L = 'sangfroid/layer/layer.py'
G = 'sangfroid/layer/group.py'
V = 'sangfroid/value/'
SW = '''
SWITCH = """<layer type="switch" active="true" version="0.0">
<param name="canvas"><canvas>%s</canvas></param></layer>"""
'''
bug('c29-depth-groups', 'C29', 'a layer inside one which is not a <group>',
    'only groups count towards the depth',
    [(L, "            if cursor.name=='layer':\n                result += 1\n",
      "            if cursor.name=='layer' and cursor['type']=='group':\n"
      "                result += 1\n")],
    SW + '''
a = doc(SWITCH % CIRCLE)
assert a.find('circle').tag_depth == 1
''')
bug('c29-parent-inactive', 'C29', 'a group which is switched off',
    'the parent is the next group which is not',
    [(L, "            if cursor.name=='layer':\n                return Layer",
      "            if cursor.name=='layer' and "
      "cursor.get('active')!='false':\n                return Layer")],
    '''
a = doc(group(CIRCLE).replace('active="true"', 'active="false"', 1))
p = a.find('circle').parent
assert p is not None and p.tag is a.find('group').tag
''')
bug('c29-parent-cached', 'C29', 'asking for the parent, moving the layer, '
    'and asking again',
    'the parent is the one it had',
    [(L, "        cursor = self._tag.parent\n        while cursor is not None:\n"
      "            if cursor.name=='layer':\n"
      "                return Layer.from_tag(cursor)\n"
      "                return cursor\n",
      "        if getattr(self, '_parent', None) is not None:\n"
      "            return self._parent\n"
      "        cursor = self._tag.parent\n        while cursor is not None:\n"
      "            if cursor.name=='layer':\n"
      "                self._parent = Layer.from_tag(cursor)\n"
      "                return self._parent\n")],
    '''
a = doc(group(CIRCLE), group(''))
l = a.find('circle')
l.parent
other = [g for g in a.find_all('group') if g.tag is not l.parent.tag][0]
other.append(l)
assert l.parent.tag is other.tag
''')
bug('c29-depth-canvas', 'C29', 'a document whose animation is an inner canvas',
    'the depth stops at the first thing which is neither param nor canvas',
    [(L, "        result = 0\n        while cursor is not None:\n",
      "        result = 0\n        while cursor is not None and cursor.name in (\n"
      "                'layer', 'param', 'canvas') and (\n"
      "                cursor.name!='canvas' or not cursor.has_attr('id')):\n")],
    '''
a = doc(group(group(CIRCLE)))
for c in a.tag.find_all('canvas'):
    c['id'] = 'x'
assert a.find('circle').tag_depth == 2
''')
bug('c30-colour-five', 'C30', 'a colour of five numbers',
    'the fifth is dropped',
    [(V + 'color.py', "            elif len(v)==4:\n                result = v\n",
      "            elif len(v)>=4:\n                result = v[:4]\n")],
    '''
assert raises(ValueError, v.Color, (1.0, 0.5, 0.25, 1.0, 9.0))
''')
bug('c30-gradient-one', 'C30', 'a gradient of one stop',
    'it is stored',
    [(V + 'gradient.py', "        if len(v)<2:\n", "        if len(v)<1:\n")],
    '''
a = doc(CIRCLE)
assert raises(ValueError, v.Gradient, {0.5: '#ff0000'})
''')
bug('c30-gradient-read', 'C30', 'a gradient of one stop in the document',
    'it is read as if nothing were wrong',
    [(V + 'gradient.py', "        if len(colours)<2:\n",
      "        if not colours:\n")],
    '''
s = bs4.BeautifulSoup('<gradient><color pos="0.5"><r>1</r><g>1</g><b>1</b>'
    '<a>1</a></color></gradient>', features='xml')
g = v.Value.from_tag(s.find('gradient'))
assert raises(ValueError, lambda: g.value)
''')
bug('c30-waypoint-two', 'C30', 'a waypoint with two values in the document',
    'the second is passed over',
    [(V + 'value.py', "        elif len(v)!=1:\n", "        elif len(v)>2:\n")],
    '''
a = doc(ANIMATED)
w = a.tag.find('waypoint')
w.append(copy.copy(w.find('real')))
assert raises(ValueError, lambda: list(a.find('circle')['radius'].timeline))
''')
bug('c30-waypoint-animated', 'C30', 'a waypoint made of an animated value',
    'it is accepted',
    [(V + 'value.py', "        if value.is_animated:\n"
      "            raise ValueError(\"Waypoints can't",
      "        if value.is_animated and ref is not None:\n"
      "            raise ValueError(\"Waypoints can't")],
    '''
from sangfroid.value.value import Waypoint
a = doc(ANIMATED)
val = a.find('circle')['radius']
assert raises(ValueError, Waypoint, T(1), val)
''')
bug('c30-canvas-read', 'C30', 'something other than a layer in a canvas',
    'it is passed over',
    [(V + 'canvas.py', "                 if isinstance(field, bs4.element.Tag)\n"
      "                 ]\n        if len",
      "                 if isinstance(field, bs4.element.Tag)\n"
      "                 and field.name in ('layer', 'canvas')\n"
      "                 ]\n        if len")],
    '''
a = doc(group(CIRCLE))
g = a.find('group')
g.tag.find('canvas').append(bs4.Tag(name='real'))
assert raises(ValueError, lambda: g['canvas'].value)
''')
bug('c30-composite-two', 'C30', 'a part of a transformation with two values',
    'the second is passed over',
    [(V + 'transformation.py', "            if len(value_tags)!=1:\n",
      "            if len(value_tags)==0:\n")],
    '''
t = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0,
    'scale': (1.0, 1.0)})
x = t.tag.find('angle', recursive=False)
x.append(copy.copy(x.find('angle')))
assert raises(ValueError, lambda: t.value)
''')
bug('c30-integer-text', 'C30', 'text with a fraction for a whole number',
    'the fraction is dropped',
    [(V + 'simple.py', "class Integer(Numeric):\n    our_type = int\n",
      "class Integer(Numeric):\n    our_type = int\n\n"
      "    def _coerce(self, v):\n"
      "        return int(float(v)) if isinstance(v, str) else int(v)\n")],
    '''
assert raises(ValueError, v.Integer, '2.5')
assert v.Integer('12').value == 12
''')
bug('c30-no-value', 'C30', 'a number without its value attribute',
    'it is read as zero',
    [(V + 'simple.py', "        result = self._tag.get('value', None)\n",
      "        result = self._tag.get('value', None) or self._tag.get(\n"
      "                'guid') and '0'\n")],
    '''
s = bs4.BeautifulSoup('<real guid="ABC"/>', features='xml')
x = v.Value.from_tag(s.find('real'))
assert raises(ValueError, lambda: x.value)
''')
bug('c30-waypoint-type', 'C30', 'a waypoint of another type in a document',
    'it is read all the same',
    [(V + 'value.py', "        elif our_type is not None and v[0].name!=our_type:\n",
      "        elif our_type is not None and v[0].name not in (our_type, "
      "'real', 'angle'):\n")],
    '''
a = doc(ANIMATED)
a.tag.find('waypoint').find('real').name = 'angle'
assert raises(ValueError, lambda: list(a.find('circle')['radius'].timeline))
''')
bug('c13-no-dot', 'C13', 'a file name which is just "sif"',
    'the whole name counts as its extension',
    [('sangfroid/format.py',
      "            extension = os.path.splitext(filename)[1].lower()\n",
      "            extension = filename.lower().split('.')[-1]\n")],
    '''
a = sangfroid.Animation()
os.chdir(os.environ['WORK'])
assert raises(ValueError, a.save, 'sif')
''')
bug('c23-class-kept', 'C23', 'two unnamed blocks in one class',
    'the second is taken to be of that class as well',
    [('sangfroid/template/replacer.py',
      "                        latest_class_name = None\n", "")],
    '''
from sangfroid.template.replacer import Replacer
os.chdir(os.environ['WORK'])
open('x.py', 'w').write('class Foo:\\n    ### {{{\\n    a\\n    ### }}}\\n'
    '    ### {{{\\n    b\\n    ### }}}\\n')
r = Replacer({'Foo': 'new'})
assert raises(ValueError, r.handle, 'x.py')
''')
bug('c23-glob', 'C23', 'a source file in a directory below another',
    'blocks in it are not updated',
    [('sangfroid/template/replacer.py', "'sangfroid/**/*.py'",
      "'sangfroid/*/*.py'")],
    '''
from sangfroid.template.replacer import Replacer
os.chdir(os.environ['WORK'])
os.makedirs('sangfroid/a/b')
for n in ('sangfroid/x.py', 'sangfroid/a/x.py', 'sangfroid/a/b/x.py'):
    open(n, 'w').write('class Foo:\\n    ### {{{\\n    old\\n    ### }}}\\n')
Replacer({'Foo': 'new'}).handle_all_files()
for n in ('sangfroid/x.py', 'sangfroid/a/x.py', 'sangfroid/a/b/x.py'):
    assert 'new' in open(n).read(), n
''')
bug('c05-keyerror-attr', 'C05', 'a group with no parameters of its own',
    'a parameter which is not there reads as None',
    [(L, "        if found is None:\n            raise KeyError(f)\n"
      "        return _name_and_value_of(found)[1]\n",
      "        if found is None:\n            if self._tag.find('param', "
      "recursive=False) is None:\n                return None\n"
      "            raise KeyError(f)\n"
      "        return _name_and_value_of(found)[1]\n")],
    '''
a = doc('<layer type="circle" active="true" version="0.2"/>')
assert raises(KeyError, lambda: a.find('circle')['radius'])
''')
