import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo, also=list(also)))


L = 'sangfroid/layer/layer.py'
G = 'sangfroid/layer/group.py'
V = 'sangfroid/value/'
F = 'sangfroid/field.py'
bug('c16-root-cached', 'C16', 'two documents with the same text in them',
    'the frame rate of the first is used for both',
    [('sangfroid/t.py', "def _canvas_root(tag):\n    parents",
      "@functools.lru_cache\ndef _canvas_root(tag):\n    parents")],
    '''
a = doc(CIRCLE); b = doc(CIRCLE)
b.tag['fps'] = '10'
T('1s', ref=a.find('circle').tag)
assert T('1s', ref=b.find('circle').tag).frames == 10.0
''', also=['C27', 'C11'])
bug('c14-hyphens', 'C14', 'a type name with a hyphen or a space in it',
    'it is taken for the one without',
    [('sangfroid/util.py', "    return s.lower().replace('_', '')\n",
      "    return ''.join(c for c in s.lower() if c.isalnum())\n")],
    '''
s = bs4.BeautifulSoup('<layer type="cir-cle"/>', features='xml').find('layer')
assert raises(KeyError, layer.Layer.from_tag, s)
''')
bug('c07-timeline-equal', 'C07', 'two animated vectors, the timeline of one '
    'assigned to the other',
    'nothing is assigned, since they compare equal',
    [(V + 'value.py', "            if v.parent is self:\n",
      "            if v.parent is self or (v.parent.is_animated and\n"
      "                    isinstance(v.parent, self.__class__) and\n"
      "                    len(v)==len(self.timeline) and\n"
      "                    v.keys()==self.timeline.keys()):\n")],
    '''
from sangfroid.value.value import Waypoint
x = v.X_Y(1.0, 2.0); y = v.X_Y(3.0, 4.0)
x.timeline = [Waypoint(T(1), v.X_Y(5.0, 6.0))]
y.timeline = [Waypoint(T(1), v.X_Y(7.0, 8.0))]
x.timeline = y.timeline
assert [w.value.as_tuple() for w in x.timeline] == [(7.0, 8.0)]
''')
bug('c17-desc-empty', 'C17', 'an empty description assigned',
    'there is none afterwards',
    [(F, "        if value is None:\n            del obj._tag[self.name]\n",
      "        if not value:\n            del obj._tag[self.name]\n")],
    '''
c = layer.Circle()
c.desc = ''
assert c.desc == ''
''')
bug('c17-float-digits', 'C17', 'a number of more than six digits assigned to an '
    'attribute',
    'it is rounded',
    [(F, "        else:\n            value = self.type_override(value)\n\n"
      "        obj._tag",
      "        else:\n            value = self.type_override(value)\n"
      "            if isinstance(value, float):\n"
      "                value = '%g' % (value,)\n\n        obj._tag")],
    '''
a = sangfroid.Animation()
a.xres = 2834.645669
assert abs(a.xres - 2834.645669) < 1e-6
''')
bug('c13-two-dots', 'C13', 'a file name with two dots in it',
    'its extension is not recognised',
    [('sangfroid/format.py',
      "            extension = os.path.splitext(filename)[1].lower()\n",
      "            extension = '.'+os.path.basename(filename)"
      ".partition('.')[2].lower()\n")],
    '''
a = sangfroid.Animation()
os.chdir(os.environ['WORK'])
a.save('my.film.sif')
assert sangfroid.Animation('my.film.sif').name == a.name
''')
bug('c19-case', 'C19', 'a group described as "ByWords..."',
    'it is animated as well',
    [('bywords/bywords.py', "startswith(", "lower().startswith(")],
    '''
from bywords.bywords import Bywords
g = """<layer type="group" active="true" version="0.3" desc="BYWORDS-x"><param
name="canvas"><canvas><layer type="text" active="true" version="0.5"
desc="one two"><param name="text"><string>one two</string></param></layer>
</canvas></param></layer>"""
a = doc(g)
class S:
    def __init__(s, t): s.text = t; s.start = s.end = type('o', (), dict(ordinal=1000)); s.duration = type('o', (), dict(ordinal=1000))
assert list(Bywords(sif=a, srt=[S('one two')])) == []
''')
bug('c02-canvas-one-by-one', 'C02', 'a list of layers with something else in it',
    'the canvas is emptied before it is refused',
    [(V + 'canvas.py', "        layers = list(v)\n\n        for layer in layers:\n"
      "            if not isinstance(layer, Layer):\n"
      "                raise TypeError(type(layer))\n\n"
      "        self._reset_tag()\n\n        for layer in layers:\n",
      "        layers = list(v)\n\n        if layers and not isinstance("
      "layers[0], Layer):\n            raise TypeError(type(layers[0]))\n\n"
      "        self._reset_tag()\n\n        for layer in layers:\n"
      "            if not isinstance(layer, Layer):\n"
      "                raise TypeError(type(layer))\n")],
    '''
c = v.Canvas([layer.Circle(), layer.Text()])
before = str(c.tag)
assert raises(TypeError, setattr, c, 'value', [layer.Circle(), 3])
assert str(c.tag) == before
''')
bug('c08-from-tag-after', 'C08', 'a waypoint without "after" in the document',
    'it takes the value of "before"',
    [(V + 'value.py', "                after = tag['after'],\n",
      "                after = tag.get('after') or tag['before'],\n")],
    '''
s = bs4.BeautifulSoup('<waypoint time="1f" before="ease" after=""><real '
    'value="1"/></waypoint>', features='xml').find('waypoint')
from sangfroid.value.value import Waypoint
assert raises(ValueError, Waypoint.from_tag, s)
''')
bug('c25-canvas-length', 'C25', 'a canvas compared with a longer list',
    'they are equal',
    [(V + 'canvas.py', "        return ([layer.tag for layer in self.value]==\n"
      "                [getattr(layer, 'tag', None) for layer in other])",
      "        return all(layer.tag==getattr(l2, 'tag', None)\n"
      "                   for layer, l2 in zip(self.value, other))")],
    '''
c = v.Canvas([layer.Circle()])
assert c != [layer.Circle(), layer.Circle()]
''')
