PRE = '''
import bs4, copy, os, sys, gzip
import sangfroid
from sangfroid import T
import sangfroid.value as v
import sangfroid.layer as layer
import logging
logging.disable(logging.CRITICAL)

def doc(*layers, **root):
    """An animation with the given layers (XML), as if loaded."""
    a = sangfroid.Animation()
    for k, x in root.items():
        a.tag[k.replace('_', '-')] = x
    for l in layers:
        s = bs4.BeautifulSoup(l, features='xml')
        t = s.find(True).extract()
        a.tag.append(t)
        a.tag.append("\\n")
    return a

def raises(kind, f, *args, **kw):
    try:
        f(*args, **kw)
    except kind:
        return True
    except Exception as e:
        raise AssertionError('%r rather than %s' % (e, kind))
    return False

CIRCLE = """<layer type="circle" active="true" version="0.2" desc="c">
<param name="radius"><real value="1.5"/></param>
<param name="color"><color><r>0.1</r><g>0.2</g><b>0.3</b><a>0.4</a></color></param>
<param name="origin"><vector><x>1.0</x><y>2.0</y></vector></param>
<param name="invert"><bool value="true"/></param>
</layer>"""
ANIMATED = """<layer type="circle" active="true" version="0.2">
<param name="radius"><animated type="real">
<waypoint time="2s" before="linear" after="clamped"><real value="1.5"/></waypoint>
<waypoint time="4s" before="linear" after="clamped"><real value="2.5"/></waypoint>
</animated></param></layer>"""
def group(inner, params=''):
    return """<layer type="group" active="true" version="0.3" desc="g">%s
<param name="canvas"><canvas>%s</canvas></param></layer>""" % (params, inner)
'''

BUGS = [

dict(id='c01-value-writes-default', property='C01',
     needs='reading the value of a simple value whose element has no value '
           'attribute',
     breaks='reading Simple.value stores a default in the document',
     edits=[('sangfroid/value/simple.py',
             "        result = self._tag.get('value', None)\n"
             "        if result is None:\n",
             "        result = self._tag.attrs.setdefault('value', None)\n"
             "        if result is None:\n")],
     demo=PRE + '''
t = bs4.Tag(name='real')
r = v.Real(t)
before = dict(t.attrs)
try:
    r.value
except ValueError:
    pass
assert dict(t.attrs) == before, t.attrs
'''),

dict(id='c01-background-normalises', property='C01',
     needs='a document whose background colour is separated by more than one '
           'space',
     breaks='reading Animation.viewbox rewrites the view-box attribute',
     edits=[('sangfroid/animation.py',
             "        return tuple([\n"
             "            float(n) for n in\n"
             "            self._tag.attrs['view-box'].split(' ')\n"
             "            ])\n",
             "        edges = self._tag.attrs['view-box'].split()\n"
             "        self._tag.attrs['view-box'] = ' '.join(edges)\n"
             "        return tuple([float(n) for n in edges])\n")],
     demo=PRE + '''
a = doc(view_box='-1.0  2.0  3.0 -4.0')
before = str(a.tag)
try:
    a.viewbox
except ValueError:
    pass
assert str(a.tag) == before
'''),

dict(id='c02-color-clear-early', property='C02',
     needs='assigning a tuple of four to a colour, one of which is not a '
           'number',
     breaks='Color.value clears the element before it has checked the tuple',
     edits=[('sangfroid/value/color.py',
             "            result = tuple([float(d) for d in result])\n"
             "\n",
             ""),
            ('sangfroid/value/color.py',
             "        assert [type(n) for n in result]==[float]*4, result\n"
             "\n",
             ""),
            ('sangfroid/value/color.py',
             "            dimension_tag.string = '%.06f' % (result[i],)\n",
             "            dimension_tag.string = '%.06f' % (float(result[i]),)\n"),
            ],
     demo=PRE + '''
a = doc(CIRCLE)
c = a.find('circle')
before = str(a.tag)
try:
    c.color = (0.1, 0.2, 'blue')
except (ValueError, TypeError, AssertionError):
    pass
else:
    raise AssertionError('accepted')
assert str(a.tag) == before
'''),

dict(id='c02-gradient-setitem', property='C02',
     needs='setting one stop of a gradient, by subscript, to something which '
           'is not a colour',
     breaks='Gradient.value is emptied before the colours are checked',
     edits=[('sangfroid/value/gradient.py',
             "        for pos, colour in sorted(v.items()):\n"
             "\n"
             "            colour_tag = Color(colour).tag\n"
             "            colour_tag['pos'] = '%.06g' % (pos,)\n"
             "            colour_tags.append(colour_tag)\n"
             "\n"
             "        self._reset_tag()\n"
             "\n"
             "        for colour_tag in colour_tags:\n"
             "            self._tag.append(colour_tag)\n",
             "        self._reset_tag()\n"
             "\n"
             "        for pos, colour in sorted(v.items()):\n"
             "\n"
             "            colour_tag = Color(colour).tag\n"
             "            colour_tag['pos'] = '%.06g' % (pos,)\n"
             "            self._tag.append(colour_tag)\n")],
     demo=PRE + '''
g = v.Gradient({0.0: '#ff0000', 1.0: '#00ff00'})
before = str(g.tag)
try:
    g[0.5] = 'red'
except ValueError:
    pass
assert str(g.tag) == before, g.tag
'''),

dict(id='c03-vector-keeps-attrs', property='C03',
     needs='assigning a tuple to an animated vector',
     breaks='the type attribute of <animated> is left on the vector',
     edits=[('sangfroid/value/vector.py',
             "        self._tag.name = self.TAG_NAME\n"
             "        self._tag.attrs = {}\n"
             "        self._tag.clear()\n",
             "        self._tag.name = self.TAG_NAME\n"
             "        self._tag.clear()\n")],
     demo=PRE + '''
a = doc(CIRCLE)
c = a.find('circle')
c.origin.is_animated = True
c.origin = (3.0, 4.0)
assert str(c.origin.tag) == str(v.X_Y(3.0, 4.0).tag), c.origin.tag
'''),

dict(id='c03-string-animated-name', property='C03',
     needs='assigning text to an animated string',
     breaks='the element stays called <animated>',
     edits=[('sangfroid/value/string.py',
             "        v = str(v)\n\n        self._reset_tag()\n"
             "        self._tag.string = v\n",
             "        v = str(v)\n\n"
             "        self._tag.string = v\n")],
     demo=PRE + '''
t = layer.Text()
t.text = 'one'
a = sangfroid.Animation()
a.append(t)
t.text.is_animated = True
t.text = 'two'
assert t.text.tag.name == 'string', t.text.tag
'''),

dict(id='c03-color-keeps-pos', property='C03',
     needs='assigning to a colour which carries other attributes, such as '
           'one that was animated',
     breaks='attributes of the old element stay',
     edits=[('sangfroid/value/color.py',
             "        self._tag.attrs = {}\n        self._tag.clear()\n",
             "        self._tag.attrs.pop('type', None)\n"
             "        self._tag.clear()\n")],
     demo=PRE + '''
a = doc(CIRCLE)
c = a.find('circle')
c.color.tag['guid'] = '1234'
c.color = (0.5, 0.5, 0.5)
assert str(c.color.tag) == str(v.Color(0.5, 0.5, 0.5).tag), c.color.tag
'''),

dict(id='c04-color-clamps', property='C04',
     needs='a colour channel above 1.0 (which Synfig allows)',
     breaks='channels are clamped',
     edits=[('sangfroid/value/color.py',
             "            result = tuple([float(d) for d in result])\n",
             "            result = tuple([min(float(d), 1.0) for d in result])\n")],
     demo=PRE + '''
assert v.Color((1.5, 0.0, 0.0, 1.0)).as_tuple() == (1.5, 0.0, 0.0, 1.0)
'''),

dict(id='c04-transformation-swap', property='C04',
     needs='a transformation whose angle and skew angle differ',
     breaks='angle and skew_angle change places when assigned from a dict '
            'in another order',
     edits=[('sangfroid/value/transformation.py',
             "        for remaining, v in new_value.items():\n",
             "        for remaining, v in zip(self.REQUIRED_KEYS,\n"
             "                                new_value.values()):\n")],
     demo=PRE + '''
t = v.Transformation({'offset': (0.0, 0.0), 'angle': 1.0,
    'skew_angle': 2.0, 'scale': (1.0, 1.0)})
t.value = {'offset': (0.0, 0.0), 'skew_angle': 2.0,
    'angle': 1.0, 'scale': (1.0, 1.0)}
assert t['angle'].value == 1.0 and t['skew_angle'].value == 2.0
'''),

dict(id='c05-contains-nested', property='C05',
     needs='a group containing a layer with a parameter the group lacks',
     breaks='"in" finds parameters of layers inside a group',
     edits=[('sangfroid/layer/layer.py',
             "        found = self._find_param(f)\n"
             "        return found is not None\n",
             "        found = self._tag.find('param', attrs={'name': f})\n"
             "        return found is not None\n")],
     demo=PRE + '''
a = doc(group(CIRCLE))
g = a.find('group')
assert 'radius' not in g
assert 'radius' in g.find('circle')
'''),

dict(id='c05-name-nested', property='C05',
     needs='an animation without a name containing an inline canvas with one',
     breaks='the name of the animation is looked up inside its layers',
     edits=[('sangfroid/field.py',
             "        return obj._tag.find(self.name, recursive=False)\n",
             "        return obj._tag.find(self.name)\n")],
     demo=PRE + '''
a = doc(group('<name>inner</name>' + CIRCLE))
a.tag.find('name', recursive=False).extract()
assert a.name == '', a.name
'''),

dict(id='c06-transformation-moves', property='C06',
     needs='assigning a transformation whose members live in another layer',
     breaks='the members are moved out of their document',
     edits=[('sangfroid/value/transformation.py',
             "            v_as_value = self.REQUIRED_KEYS[remaining](v)\n"
             "\n"
             "            new_subtag = bs4.Tag(name=remaining)\n"
             "            new_subtag.append(copy(v_as_value.tag))\n",
             "            if isinstance(v, self.REQUIRED_KEYS[remaining]):\n"
             "                v_as_value = v\n"
             "            else:\n"
             "                v_as_value = self.REQUIRED_KEYS[remaining](v)\n"
             "\n"
             "            new_subtag = bs4.Tag(name=remaining)\n"
             "            new_subtag.append(v_as_value.tag)\n")],
     demo=PRE + '''
g, h = layer.Group(), layer.Group()
before = str(g.tag)
h.transformation = g.transformation
assert str(g.tag) == before
'''),

dict(id='c07-unsorted', property='C07',
     needs='adding a waypoint earlier than the existing ones',
     breaks='waypoints are stored in order of arrival',
     edits=[('sangfroid/value/value.py',
             "        v = sorted(v)\n",
             "        v = list(v)\n")],
     demo=PRE + '''
a = doc(ANIMATED)
c = a.find('circle')
c.radius.timeline[10] = 7
times = [w['time'] for w in c.radius.tag.find_all('waypoint')]
assert [str(t) for t in times] == ['10f', '2s', '4s'], times
'''),
]
