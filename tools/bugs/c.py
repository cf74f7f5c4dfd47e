import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
bug('c01-gradient-sorts', 'C01',
    'reading a gradient whose stops are not in order in the file',
    'reading Gradient.value puts the stops in order in the document',
    [(V + 'gradient.py',
      "        result = dict([\n"
      "                (float(c['pos']), Color(c)) for c in colours\n"
      "                ])\n",
      "        colours = sorted(colours, key=lambda c: float(c['pos']))\n"
      "        for c in colours:\n"
      "            self._tag.append(c)\n"
      "        result = dict([\n"
      "                (float(c['pos']), Color(c)) for c in colours\n"
      "                ])\n")],
    '''
def stop(pos):
    return '<color pos="%s"><r>0</r><g>0</g><b>0</b><a>1</a></color>' % pos
s = bs4.BeautifulSoup('<gradient>' + stop(1) + stop(0) + '</gradient>',
                      features='xml')
g = v.Gradient(s.find('gradient'))
before = str(s)
g.value
assert str(s) == before
''')
bug('c01-begin-time', 'C01',
    'asking for the number of frames of a document with no begin-time',
    'a begin-time attribute is added to the document',
    [('sangfroid/t.py',
      "                            self._parse_time_spec(\n"
      "                                root_tag.attrs['begin-time'],\n"
      "                                )\n",
      "                            self._parse_time_spec(\n"
      "                                root_tag.attrs.setdefault(\n"
      "                                    'begin-time', '0f'),\n"
      "                                )\n")],
    '''
a = doc()
del a.tag['begin-time']
before = str(a.tag)
try:
    a.framecount
except KeyError:
    pass
assert str(a.tag) == before
''')
bug('c01-waypoint-defaults', 'C01',
    'reading the timeline of a value with a waypoint that has no '
    '"before" attribute',
    'reading it adds the attribute',
    [(V + 'value.py',
      "                before = tag['before'],\n"
      "                after = tag['after'],\n",
      "                before = tag.attrs.setdefault('before', 'clamped'),\n"
      "                after = tag['after'],\n")],
    '''
a = doc(ANIMATED)
w = a.tag.find('waypoint')
del w['before']
before = str(a.tag)
try:
    list(a.find('circle').radius.timeline)
except KeyError:
    pass
assert str(a.tag) == before
''')
bug('c01-iter-rewrites', 'C01',
    'iterating over a timeline whose waypoints are out of order in the file',
    'the waypoints are rewritten in order',
    [(V + 'value.py',
      "        for t,w in sorted(self.parent._waypoints().items()):\n"
      "            yield w\n",
      "        found = list(self.parent._waypoints().values())\n"
      "        if found!=sorted(found):\n"
      "            found.sort()\n"
      "            self.parent._set_waypoints(found)\n"
      "        yield from found\n")],
    '''
a = doc(ANIMATED.replace('"2s"', '"9s"'))
before = str(a.tag)
list(a.find('circle').radius.timeline)
assert str(a.tag) == before
''')
bug('c02-field-blank-first', 'C02',
    'assigning something which is not a number to a numeric attribute',
    'the attribute has been removed when the conversion fails',
    [('sangfroid/field.py',
      "        else:\n"
      "            value = self.type_override(value)\n"
      "\n"
      "        obj._tag[self.name] = value\n",
      "        else:\n"
      "            obj._tag.attrs.pop(self.name, None)\n"
      "            value = self.type_override(value)\n"
      "\n"
      "        obj._tag[self.name] = value\n")],
    '''
a = doc()
before = str(a.tag)
assert raises(ValueError, setattr, a, 'width', 'wide')
assert str(a.tag) == before
''')
bug('c02-setitem-animates', 'C02',
    'timeline[t] = something which cannot be converted, on a plain value',
    'the value has become animated when the conversion fails',
    [(V + 'value.py',
      "        t = self._ensure_fps(t)\n"
      "\n"
      "        if isinstance(v, Waypoint):\n",
      "        t = self._ensure_fps(t)\n"
      "        self.parent._set_animated(True)\n"
      "\n"
      "        if isinstance(v, Waypoint):\n"),
     (V + 'value.py',
      "            if adjust_contents:\n"
      "                self._tag.clear()\n"
      "                self.timeline[0] = former_value\n",
      "            if adjust_contents:\n"
      "                self._tag.clear()\n"
      "                self._set_waypoints([\n"
      "                    Waypoint(0, former_value, ref=self._tag)])\n"),
     (V + 'value.py',
      "        waypoints = self.parent._waypoints()\n"
      "\n"
      "        waypoints[t] = new_waypoint\n",
      "        waypoints = self.parent._waypoints()\n"
      "        if len(waypoints)==1 and not t==0:\n"
      "            waypoints = {}\n"
      "\n"
      "        waypoints[t] = new_waypoint\n")],
    '''
a = doc(CIRCLE)
c = a.find('circle')
before = str(a.tag)
try:
    c.radius.timeline[5] = 'wombat'
except (ValueError, TypeError):
    pass
assert str(a.tag) == before
''')
bug('c02-canvas-appends', 'C02',
    'assigning to a canvas a list with layers and something else',
    'the canvas has been emptied and half refilled when the list is refused',
    [(V + 'canvas.py',
      "        self._reset_tag()\n"
      "\n"
      "        for layer in layers:\n"
      "            self._tag.append(layer.tag)\n",
      "        self._reset_tag()\n"
      "\n"
      "        for layer in layers:\n"
      "            if not isinstance(layer, Layer):\n"
      "                raise TypeError(type(layer))\n"
      "            self._tag.append(layer.tag)\n"),
     (V + 'canvas.py',
      "        layers = list(v)\n"
      "\n"
      "        for layer in layers:\n"
      "            if not isinstance(layer, Layer):\n"
      "                raise TypeError(type(layer))\n",
      "        layers = list(v)\n")],
    '''
a = doc(group(CIRCLE))
g = a.find('group')
before = str(a.tag)
assert raises(TypeError, setattr, g, 'canvas', [layer.Circle(), 7])
assert str(a.tag) == before
''')
bug('c03-vector-reuses', 'C03',
    'assigning a vector to one that has extra elements (a stray or '
    'commented file)',
    'elements which are not components stay in the vector',
    [(V + 'vector.py',
      "        self._tag.clear()\n"
      "\n"
      "        for addendum in addenda:\n"
      "            self._tag.append(addendum)\n",
      "        for addendum in addenda:\n"
      "            old = self._tag.find(addendum.name, recursive=False)\n"
      "            if old is not None:\n"
      "                old.extract()\n"
      "        for old in self._tag.find_all('waypoint', recursive=False):\n"
      "            old.extract()\n"
      "\n"
      "        for addendum in addenda:\n"
      "            self._tag.append(addendum)\n")],
    '''
s = bs4.BeautifulSoup('<vector><x>1</x><y>2</y><z>3</z></vector>',
                      features='xml')
w = v.X_Y(s.find('vector'))
w.value = (4.0, 5.0)
new = v.X_Y(4.0, 5.0)
assert [t.name for t in w.tag.find_all(True)] == \\
    [t.name for t in new.tag.find_all(True)], w.tag
''')
bug('c03-simple-keeps-attrs', 'C03',
    'assigning to a simple value whose element has other attributes, or '
    'was animated',
    'attributes of the old element stay (such as "type" of an animated one)',
    [(V + 'simple.py',
      "        self._reset_tag()\n"
      "        self._tag['value'] = result\n",
      "        empty = self._get_empty_tag()\n"
      "        self._tag.name = empty.name\n"
      "        self._tag.clear()\n"
      "        self._tag.attrs.update(empty.attrs)\n"
      "        self._tag['value'] = result\n")],
    '''
a = doc(ANIMATED)
c = a.find('circle')
c.radius = 3.0
assert dict(c.radius.tag.attrs) == dict(v.Real(3.0).tag.attrs), c.radius.tag
''')
bug('c04-angle-wraps', 'C04',
    'an angle of more than a whole turn, or a negative one',
    'angles are reduced to one turn',
    [(V + 'simple.py',
      "    our_type = float\n"
      "\n"
      "    def _str_inner(self):\n"
      "        return '%g°' % (self.value,)\n",
      "    our_type = float\n"
      "\n"
      "    def _coerce(self, v):\n"
      "        return float(v)%360.0\n"
      "\n"
      "    def _str_inner(self):\n"
      "        return '%g°' % (self.value,)\n")],
    '''
assert float(v.Angle(720.5)) == 720.5
''')
bug('c04-gradient-pos', 'C04',
    'a gradient stop at a position with four or more digits',
    'positions are rounded',
    [(V + 'gradient.py',
      "            colour_tag['pos'] = '%.06g' % (pos,)\n",
      "            colour_tag['pos'] = '%.03g' % (pos,)\n")],
    '''
g = v.Gradient({0.12345: (0.0, 0.0, 0.0), 0.9: (1.0, 1.0, 1.0)})
assert 0.12345 in g.value, g.value
''')
bug('c04-vector-precision', 'C04',
    'a component with many digits before or after the point',
    'vector components are stored with ten significant digits rather than '
    'decimal places',
    [(V + 'vector.py',
      "                addendum.string = '%.010f' % (v,)\n",
      "                addendum.string = '%.010g' % (v,)\n")],
    '''
w = v.X_Y(123456789.123456, 0.0)
assert abs(w.x - 123456789.123456) < 1e-5, w.x
''')
bug('c04-time-whole', 'C04',
    'a time which is not a whole number of frames',
    'times are stored as whole frames',
    [(V + 'simple.py',
      "    # We don't provide __float__ and __int__ here because\n",
      "    @classmethod\n"
      "    def _value_to_str(cls, v):\n"
      "        if v.fps is None:\n"
      "            return '%df' % (v,)\n"
      "        return str(v)\n"
      "\n"
      "    # We don't provide __float__ and __int__ here, because\n")],
    '''
t = v.Time(2.5)
assert t.value == T(2.5), t.value
''')
bug('c05-contains-nested', 'C05',
    '"in" on a group that lacks a parameter which a layer inside it has',
    'the parameters of inner layers count as its own',
    [('sangfroid/layer/layer.py',
      "    def __contains__(self, f):\n"
      "        found = self._find_param(f)\n"
      "        return found is not None\n",
      "    def __contains__(self, f):\n"
      "        return any([p['name']==f for p in\n"
      "                    self._tag.find_all('param')])\n")],
    '''
a = doc(group(CIRCLE))
assert 'radius' not in a.find('group')
''')
bug('c05-keys-nested', 'C05',
    'keys(), items() or values() of a group with layers inside',
    'they include the parameters of the inner layers',
    [('sangfroid/layer/layer.py',
      "            for param in self._tag.find_all('param',\n"
      "                                            recursive=False,\n"
      "                                            )\n",
      "            for param in self._tag.find_all('param')\n")],
    '''
a = doc(group(CIRCLE, '<param name="amount"><real value="1"/></param>'))
g = a.find('group')
assert set(g.keys()) == {'amount', 'canvas'}, g.keys()
''')
bug('c05-name-nested', 'C05',
    'an animation with no description, and an element of that name deeper '
    'inside',
    'the description of something inside is taken for that of the animation',
    [('sangfroid/field.py',
      "        return obj._tag.find(self.name, recursive=False)\n",
      "        return obj._tag.find(self.name)\n")],
    '''
a = doc(group('<name>inner</name><desc>inner</desc>' + CIRCLE))
assert a.desc == '', a.desc
''')
bug('c06-subscript-detached', 'C06',
    'assigning the same new value by subscript to two layers',
    'the element is moved from the first layer to the second',
    [('sangfroid/layer/layer.py',
      "        old_value.tag.replace_with(copy.copy(new_value.tag))\n",
      "        new_tag = new_value.tag\n"
      "        if new_tag.parent is not None and \\\n"
      "                new_tag.find_parent('layer') is not None:\n"
      "            if new_tag.parent.parent is not self._tag.parent:\n"
      "                new_tag = copy.copy(new_tag)\n"
      "        old_value.tag.replace_with(new_tag)\n")],
    '''
a = doc(CIRCLE)
r = v.Real(7.0)
c = a.find('circle')
c['radius'] = r
r.value = 9.0
assert float(c['radius']) == 7.0
''')
bug('c06-gradient-takes', 'C06',
    'assigning the stops of one gradient to another',
    'the colours are moved out of the first gradient',
    [(V + 'gradient.py',
      "            colour_tag = Color(colour).tag\n",
      "            if not isinstance(colour, Color):\n"
      "                colour = Color(colour)\n"
      "            colour_tag = colour.tag\n")],
    '''
g = v.Gradient({0.0: (0.0, 0.0, 0.0), 1.0: (1.0, 1.0, 1.0)})
before = str(g.tag)
h = v.Gradient({0.0: (0.5, 0.0, 0.0), 1.0: (1.0, 1.0, 0.5)})
h.value = g.value
assert str(g.tag) == before
''')
bug('c06-waypoint-shares', 'C06',
    'adding one waypoint to two timelines',
    'the second takes the value of the first away',
    [(V + 'value.py',
      "        result.append(\n"
      "                copy.copy(\n"
      "                    self.value.tag\n"
      "                    )\n"
      "                )\n",
      "        value_tag = self.value.tag\n"
      "        if value_tag.parent is not None and value_tag.parent.parent is not None:\n"
      "            value_tag = copy.copy(value_tag)\n"
      "        result.append(value_tag)\n")],
    '''
a = doc(CIRCLE)
r = v.Real(7.0)
w = v.Waypoint(T('1s', ref=a), r)
c = a.find('circle')
c.radius.timeline = [w]
r.value = 9.0
assert [float(x.value) for x in c.radius.timeline] == [7.0]
''')
