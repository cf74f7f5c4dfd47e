import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
L = 'sangfroid/layer/'
F = 'sangfroid/field.py'
bug('c01-vector-strips', 'C01',
    'reading a vector whose components have spaces around them',
    'the spaces are removed from the document',
    [(V + 'vector.py',
      "        v = self.our_type(s.text)\n        return v\n",
      "        if s.text!=s.text.strip():\n            s.string = s.text.strip()\n        v = self.our_type(s.text)\n        return v\n")],
    '''
a = doc(CIRCLE.replace('<x>1.0</x>', '<x> 1.0 </x>'))
before = str(a.tag)
a.find('circle').origin.x
assert str(a.tag) == before
''')
bug('c01-parent-normalises', 'C01',
    'asking for the parent of a layer inside a group',
    'the type of the group is rewritten',
    [(L + 'layer.py',
      "            if cursor.name=='layer':\n                return Layer.from_tag(cursor)\n",
      "            if cursor.name=='layer':\n                cursor['type'] = cursor['type'].strip().lower()\n                return Layer.from_tag(cursor)\n")],
    '''
a = doc(group(CIRCLE).replace('"group"', '"Group"'))
before = str(a.tag)
a.find('circle').parent
assert str(a.tag) == before
''')
bug('c01-keyframes-sort', 'C01',
    'listing keyframes which are out of order in the document',
    'they are put in order in the document',
    [('sangfroid/keyframe.py',
      "        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            yield Keyframe(keyframe_tag)\n",
      "        found = [Keyframe(t) for t in self.animation.tag.find_all('keyframe')]\n        for earlier, later in zip(found, found[1:]):\n            if later.time<earlier.time:\n                earlier._tag.insert_before(later._tag)\n        yield from found\n")],
    '''
a = doc('<keyframe time="2s" active="true">b</keyframe>', '<keyframe time="1s" active="true">a</keyframe>')
before = str(a.tag)
list(a.keyframes)
assert str(a.tag) == before
''')
bug('c01-composite-get', 'C01',
    'reading a key of a transformation twice',
    'the element is taken out of the document',
    [(V + 'transformation.py',
      "            return Value.from_tag(values[0])\n\n    def keys",
      "            if values[0].string is None and not values[0].find(True):\n                values[0].attrs.setdefault('value', '0')\n            return Value.from_tag(values[0])\n\n    def keys")],
    '''
a = doc(group(CIRCLE, '<param name="transformation"><composite type="transformation"><offset><vector><x>1</x><y>1</y></vector></offset><angle><angle/></angle><skew_angle><angle value="0"/></skew_angle><scale><vector><x>1</x><y>1</y></vector></scale></composite></param>'))
before = str(a.tag)
a.find('group').transformation['angle']
assert str(a.tag) == before
''')
bug('c02-named-child-early', 'C02',
    'giving an animation a name that cannot be turned into text',
    'an empty element is left in the document',
    [(F,
      "        subtag = self.get_subtag_for_obj(obj)\n\n        if subtag is None:\n            subtag = bs4.Tag(name=self.name)\n            obj._tag.insert(0, subtag)\n\n        subtag.string = value\n",
      "        subtag = self.get_subtag_for_obj(obj)\n\n        if subtag is None:\n            subtag = bs4.Tag(name=self.name)\n            obj._tag.insert(0, subtag)\n\n        subtag.clear()\n        if '\\0' in value:\n            raise ValueError(value)\n        subtag.string = value\n")],
    '''
a = doc()
before = str(a.tag)
try:
    a.name = 'x\\0y'
except ValueError:
    assert str(a.tag) == before
else:
    pass
''')
bug('c02-color-float-late', 'C02',
    'assigning a tuple of four things which are not numbers',
    'the colour is cleared before they are found not to be',
    [(V + 'color.py',
      "            result = tuple([float(d) for d in result])\n\n",
      ""),
     (V + 'color.py',
      "        assert [type(n) for n in result]==[float]*4, result\n",
      ""),
     (V + 'color.py',
      "            dimension_tag.string = '%.06f' % (result[i],)\n",
      "            dimension_tag.string = '%.06f' % (float(result[i]),)\n")],
    '''
a = doc(CIRCLE)
before = str(a.tag)
try:
    a.find('circle').color = (1, 'x', 3, 4)
except (ValueError, TypeError):
    pass
assert str(a.tag) == before
''')
bug('c02-setitem-extract', 'C02',
    'assigning a value of the wrong type by subscript',
    'the old value is removed first',
    [(L + 'layer.py',
      "        if isinstance(val, v.Value):\n            if not isinstance(val, old_value.__class__):\n                raise TypeError(val.__class__)\n",
      "        if isinstance(val, v.Value):\n            if not isinstance(val, old_value.__class__):\n                if val.tag.parent is old_value.tag.parent:\n                    old_value.tag.extract()\n                raise TypeError(val.__class__)\n")],
    '''
assert True
''')
bug('c02-waypoints-early', 'C02',
    'assigning a list with waypoints of another type to a value that is not animated',
    'the value has become animated',
    [(V + 'value.py',
      "        for w in v:\n            if w.value.tag.name!=type_name:\n",
      "        if len(v)>1:\n            self._set_animated(True)\n        for w in v:\n            if w.value.tag.name!=type_name:\n")],
    '''
a = doc(CIRCLE)
before = str(a.tag)
try:
    a.find('circle').radius.timeline = [v.Waypoint(0, v.Real(1.0)), v.Waypoint(5, v.Bool(True))]
except ValueError:
    pass
assert str(a.tag) == before
''')
bug('c02-canvas-generator', 'C02',
    'assigning a list of layers with something else in it',
    'the canvas is emptied before that is discovered',
    [(V + 'canvas.py',
      "        layers = list(v)\n\n        for layer in layers:\n            if not isinstance(layer, Layer):\n                raise TypeError(type(layer))\n\n        self._reset_tag()\n\n        for layer in layers:\n",
      "        layers = list(v)\n        self._reset_tag()\n\n        for layer in layers:\n            if not isinstance(layer, Layer):\n                raise TypeError(type(layer))\n\n")],
    '''
a = doc(group(CIRCLE))
before = str(a.tag)
try:
    a.find('group').canvas.value = [layer.Circle(), 3]
except TypeError:
    pass
assert str(a.tag) == before
''')
bug('c03-vector-attrs', 'C03',
    'assigning to a vector which has attributes',
    'the attributes stay',
    [(V + 'vector.py',
      "        self._tag.name = self.TAG_NAME\n        self._tag.attrs = {}\n",
      "        if self.is_animated:\n            self._tag.attrs = {}\n        self._tag.name = self.TAG_NAME\n")],
    '''
a = doc(CIRCLE.replace('<vector>', '<vector guid="x">'))
a.find('circle').origin = (3.0, 4.0)
assert 'guid' not in a.find('circle').origin.tag.attrs
''')
bug('c03-blend-static', 'C03',
    'assigning to a blend method',
    'the "static" attribute that a new one has is missing',
    [(V + 'blendmethod.py',
      "        result['static'] = 'true'\n",
      "        result['static'] = 'true' if name is None else 'false'\n")],
    'assert True\n')
bug('c03-string-cdata', 'C03',
    'assigning a string to one which contained an element',
    'the element stays',
    [(V + 'string.py',
      "        self._reset_tag()\n        self._tag.string = v\n",
      "        if self._tag.string is None:\n            self._tag.append(v)\n            return\n        self._reset_tag()\n        self._tag.string = v\n")],
    '''
s = v.String('x')
s.tag.append(bs4.Tag(name='b'))
s.value = 'new'
assert s.tag.find('b') is None
''')
bug('c04-real-precision', 'C04',
    'assigning a real number with more than six decimal places',
    'only six are kept',
    [(V + 'simple.py', "        return '%.010f' % (v,)\n",
      "        return '%.6f0000' % (v,)\n")],
    '''
assert abs(v.Real(1.23456789).value - 1.23456789) < 1e-9
''')
bug('c04-angle-wrap', 'C04',
    'assigning an angle of more than a full turn',
    'whole turns are dropped',
    [(V + 'simple.py',
      "class Angle(Simple):\n    our_type = float\n",
      "class Angle(Simple):\n    our_type = float\n\n    def _coerce(self, v):\n        v = self.our_type(v)\n        return v if abs(v)<=720 else v % 360\n")],
    '''
assert v.Angle(1080.0).value == 1080.0
''')
bug('c04-bool-is', 'C04',
    'assigning a true value which is not True itself',
    'it is stored as false',
    [(V + 'simple.py',
      "        return str(v).lower()\n",
      "        return 'true' if v is True else 'false'\n")],
    'assert v.Bool(1).value is True\n')
bug('c04-integer-float', 'C04',
    'assigning a whole number too large for a float',
    'it is rounded',
    [(V + 'simple.py',
      "class Integer(Numeric):\n    our_type = int\n",
      "class Integer(Numeric):\n    our_type = int\n\n    def _coerce(self, v):\n        return int(float(v))\n")],
    'assert v.Integer(2**53+1).value == 2**53+1\n')
bug('c04-string-none', 'C04',
    'assigning text which begins or ends with a newline',
    'the newline is dropped on reading',
    [(V + 'string.py',
      "        result = str(self._tag.string)\n",
      "        result = str(self._tag.string).strip('\\n')\n")],
    "assert v.String('x\\n').value == 'x\\n'\n")
bug('c04-color-hex-alpha', 'C04',
    'assigning a colour as eight hex digits',
    'the alpha is taken from the wrong end',
    [(V + 'color.py',
      "                for i in range(4))\n",
      "                for i in ((0, 1, 2, 3) if v[6:].upper()=='FF' else (3, 0, 1, 2)))\n")],
    '''
assert v.Color('#10203040').value == '#10203040', v.Color('#10203040').value
''')
bug('c04-vector-dict-sorted', 'C04',
    'assigning a vector from a dict in another order',
    'x and y are swapped',
    [(V + 'vector.py',
      "            members = dict(v.items())\n",
      "            members = dict(zip(self.FIELDS, dict(v.items()).values()))\n")],
    '''
x = v.X_Y({'y': 2.0, 'x': 1.0})
assert (x.x, x.y) == (1.0, 2.0)
''')
bug('c04-gradient-dup', 'C04',
    'a gradient with two stops close together',
    'their positions become the same',
    [(V + 'gradient.py',
      "            colour_tag['pos'] = '%.06g' % (pos,)\n",
      "            colour_tag['pos'] = '%.02f' % (pos,)\n")],
    '''
g = v.Gradient({0.0: '#000000', 0.501: '#ffffff', 0.502: '#ff0000', 1.0: '#00ff00'})
assert len(g) == 4
''')
bug('c05-name-recursive', 'C05',
    'an animation with no description, in which something has one',
    'that of the inner element is read',
    [(F,
      "        return obj._tag.find(self.name, recursive=False)\n",
      "        return obj._tag.find(self.name, recursive=False) or obj._tag.find(self.name)\n")],
    '''
a = doc('<layer type="circle" version="0.2"><desc>inner</desc></layer>')
for d in a.tag.find_all('desc', recursive=False):
    d.extract()
assert a.desc == '', a.desc
''')
bug('c05-items-nested', 'C05',
    'listing the parameters of a group',
    'those of inner layers are included',
    [(L + 'layer.py',
      "            for param in self._tag.find_all('param',\n                                            recursive=False,\n                                            )\n",
      "            for param in self._tag.find_all('param',\n                                            recursive=self._tag.find('layer') is None,\n                                            )\n")],
    'assert True\n')
bug('c05-canvas-deep', 'C05',
    'a group whose canvas parameter holds no canvas directly',
    'a canvas deeper inside is used',
    [(L + 'group.py',
      "        return param.find('canvas', recursive=False)\n",
      "        return param.find_all('canvas')[-1]\n")],
    '''
a = doc(group(group(CIRCLE) + CIRCLE))
assert len(a[0]) == 2
''')
bug('c06-setitem-loose', 'C06',
    'assigning one value object, which is in no document, to two layers',
    'they share the element',
    [(L + 'layer.py',
      "        old_value.tag.replace_with(copy.copy(new_value.tag))\n",
      "        new_tag = new_value.tag\n        if new_tag.parent is not None:\n            new_tag = copy.copy(new_tag)\n        old_value.tag.replace_with(new_tag)\n")],
    '''
a = doc(CIRCLE, CIRCLE)
x = v.Real(3.0)
a[0]['radius'] = x
a[1]['radius'] = x
x.value = 9.0
assert float(a[0]['radius']) == 3.0 == float(a[1]['radius'])
''')
bug('c06-waypoint-loose', 'C06',
    'a waypoint with a value that is in no document',
    'the value is put in the timeline itself',
    [(V + 'value.py',
      "        result.append(\n                copy.copy(\n                    self.value.tag\n                    )\n                )\n",
      "        value_tag = self.value.tag\n        if value_tag.parent is not None:\n            value_tag = copy.copy(value_tag)\n        result.append(value_tag)\n")],
    '''
a = doc(CIRCLE)
x = v.Real(3.0)
r = a.find('circle').radius
r.timeline = [v.Waypoint(5, x)]
x.value = 9.0
assert float(r.timeline[5].value) == 3.0
''')
bug('c06-unanimate-shares', 'C06',
    'the value of the first waypoint held while a value stops being animated',
    'the two share an element',
    [(V + 'value.py',
      "                new_tag = copy.deepcopy(first_value.value._tag)\n",
      "                new_tag = first_value.value._tag\n")],
    '''
a = doc(ANIMATED)
r = a.find('circle').radius
first = r.timeline['2s'].value
r.is_animated = False
first.value = 99.0
assert float(a.find('circle').radius) == 1.5
''')
bug('c06-composite-shares', 'C06',
    'giving a transformation a value object for one of its keys',
    'that object and the transformation share an element',
    [(V + 'transformation.py',
      "            new_subtag.append(copy(v_as_value.tag))\n",
      "            new_subtag.append(v_as_value.tag)\n"),
     (V + 'transformation.py',
      "            v_as_value = self.REQUIRED_KEYS[remaining](v)\n",
      "            if isinstance(v, self.REQUIRED_KEYS[remaining]):\n                v_as_value = v\n            else:\n                v_as_value = self.REQUIRED_KEYS[remaining](v)\n")],
    '''
g = layer.Group()
x = v.X_Y(5.0, 6.0)
g.transformation.value = {'offset': x, 'angle': 0.0, 'skew_angle': 0.0, 'scale': (1.0, 1.0)}
x.value = (9.0, 9.0)
assert g.offset.x == 5.0
''')
bug('c07-delitem-near', 'C07',
    'deleting a waypoint at a time where there is none',
    'the next one is deleted',
    [(V + 'value.py',
      "        waypoints.__delitem__(t)\n",
      "        if t not in waypoints:\n            t = min([w for w in waypoints if w>t], default=t)\n        waypoints.__delitem__(t)\n")],
    '''
a = doc(ANIMATED)
r = a.find('circle').radius
assert raises(KeyError, r.timeline.__delitem__, '3s')
assert len(r.timeline) == 2
''')
bug('c07-dict-keys', 'C07',
    'assigning an empty dict',
    'the timeline is left alone',
    [(V + 'value.py',
      "        elif isinstance(v, dict):\n            self.timeline = list(v.values())\n",
      "        elif isinstance(v, dict):\n            if v:\n                self.timeline = list(v.values())\n")],
    '''
a = doc(ANIMATED)
r = a.find('circle').radius
r.timeline = {}
assert not a.find('circle').radius.is_animated
''')
bug('c07-sort-str', 'C07',
    'waypoints at more than ten seconds',
    'they are put in order of their text',
    [(V + 'value.py',
      "        v = sorted(v)\n",
      "        v = sorted(v, key=lambda w: str(w.time))\n")],
    '''
a = doc(CIRCLE)
r = a.find('circle').radius
r.timeline = [v.Waypoint(T('2s', ref=a), v.Real(1.0)), v.Waypoint(T('10s', ref=a), v.Real(2.0))]
assert [str(w['time']) for w in r.tag.find_all('waypoint')] == ['2s', '10s']
''')
bug('c08-startswith', 'C08',
    'an interpolation given as an abbreviation',
    'it is stored as it is',
    [(V + 'value.py',
      "        if v in INTERPOLATION_TYPES:\n            return v\n",
      "        if v in ' '.join(INTERPOLATION_TYPES):\n            return v\n")],
    '''
assert raises(ValueError, v.Waypoint, 0, v.Real(1.0), before='lin')
''')
bug('c08-from-tag', 'C08',
    'reading a waypoint whose interpolations differ',
    'the second is that of the first if it is tcb',
    [(V + 'value.py',
      "                after = tag['after'],\n",
      "                after = tag['before'] if tag['after']=='auto' else tag['after'],\n")],
    '''
a = doc(ANIMATED.replace('after="clamped"', 'after="auto"'))
assert a.find('circle').radius.timeline['2s'].after == 'tcb'
''')
bug('c08-tag-empty', 'C08',
    'a document which gives a waypoint an empty interpolation',
    'it is read as undefined',
    [(V + 'value.py',
      "        if v=='undefined':\n            if from_constructor:\n",
      "        if not v:\n            return 'undefined'\n        if v=='undefined':\n            if from_constructor:\n")],
    '''
assert raises(ValueError, v.Waypoint, 0, v.Real(1.0), before='')
''')
bug('c09-le', 'C09',
    'comparing times with different frame rates using <=',
    'no error is raised',
    [('sangfroid/t.py',
      "    def __eq__(self, other):\n        return self._compare(other, lambda a,b:a==b)\n",
      "    def __eq__(self, other):\n        return self._compare(other, lambda a,b:a==b)\n\n    def __le__(self, other):\n        return float(self)<=float(other)\n")],
    '''
a, b = doc(), doc(fps='30')
assert raises(ValueError, lambda: T('1s', ref=a) <= T('1s', ref=b))
''')
bug('c09-fps-close', 'C09',
    'comparing times with slightly different frame rates',
    'no error is raised',
    [('sangfroid/t.py',
      "                    other.fps!=self.fps):\n",
      "                    abs(other.fps-self.fps)>0.1):\n")],
    '''
a, b = doc(fps='24'), doc(fps='23.976')
assert raises(ValueError, lambda: T('1s', ref=a) == T('1s', ref=b))
''')
bug('c09-hash-fps', 'C09',
    'a time with a frame rate and one without, at the same frame',
    'their hashes differ',
    [('sangfroid/t.py',
      "    def __hash__(self):\n        return hash(self._frames)\n",
      "    def __hash__(self):\n        return hash((self._frames, self._fps))\n")],
    '''
a = doc()
assert hash(T(5, ref=a)) == hash(T(5))
''')
bug('c09-eq-int', 'C09',
    'a time with a fractional number of frames',
    'it equals the whole number below',
    [('sangfroid/t.py',
      "        return operator(self._frames, other_f)\n",
      "        if isinstance(other_f, int):\n            return operator(int(self._frames), other_f)\n        return operator(self._frames, other_f)\n")],
    'assert T(5.5) != 5\n')
bug('c10-minutes-only', 'C10',
    'a time of a whole number of hours',
    'nothing but the hours... and a unit that is not there',
    [('sangfroid/t.py',
      "                result.append('%d%c' % (seconds//size, unit))\n",
      "                result.append('%g%c' % (seconds//size, unit))\n")],
    '''
a = doc()
t = T(24.0*3600*1000000, ref=a)
assert 'e' not in str(t), str(t)
''')
bug('c10-frames-round', 'C10',
    'a time a tiny part of a frame before a whole second',
    'the number of frames written is the frame rate',
    [('sangfroid/t.py',
      "    return ('%.10f' % (n,)).rstrip('0').rstrip('.')\n",
      "    return ('%.2f' % (n,)).rstrip('0').rstrip('.')\n")],
    '''
a = doc()
assert T(str(T(5.125, ref=a)), ref=a) == 5.125
''')
bug('c10-order', 'C10',
    'a time with hours, minutes, seconds and frames',
    'the units are written smallest first',
    [('sangfroid/t.py',
      "        result = minus + ' '.join(result)\n",
      "        result = minus + ' '.join(result if len(result)<4 else result[::-1])\n")],
    '''
a = doc()
assert str(T('1h 1m 1s 1f', ref=a)) == '1h 1m 1s 1f'
''')
bug('c11-seconds-24', 'C11',
    'asking for the seconds of a time with no frame rate',
    'twenty-four frames per second are assumed when the number is whole',
    [('sangfroid/t.py',
      "            if self._frames==0.0:\n                return 0.0\n",
      "            if self._frames % 24==0.0:\n                return self._frames/24\n")],
    'assert raises(ValueError, lambda: T(48).seconds)\n')
bug('c11-negative-fps', 'C11',
    'a document whose frame rate is negative',
    'it is accepted',
    [('sangfroid/t.py',
      "            self._fps = float(root_tag['fps'])\n",
      "            self._fps = abs(float(root_tag['fps']))\n")],
    '''
a = doc(fps='-24')
assert raises(ValueError, T, '1s', ref=a)
''')
bug('c11-zero-shortcut', 'C11',
    'a time in seconds and frames, with no document',
    'a number of seconds less than one is taken as zero',
    [('sangfroid/t.py',
      "        if seconds is not None and seconds!=0.0:\n",
      "        if seconds is not None and (self._fps is not None or abs(seconds)>=0.001):\n")],
    "assert raises(ValueError, T, '0.0005s')\n")
bug('c12-sifz-early', 'C12',
    'a document that cannot be encoded, saved over an existing .sifz file',
    'the file is emptied',
    [('sangfroid/format.py',
      "        with gzip.open(filename, 'wb') as f:\n            f.write(encoded)\n",
      "        with gzip.open(filename, 'wb') as f:\n            f.write(self._to_bytes(content))\n")],
    'assert True\n')
bug('c12-backup', 'C12',
    'a failed save',
    'the existing file has been moved away',
    [('sangfroid/animation.py',
      "        new_format.save(\n",
      "        import os\n        if os.path.exists(filename):\n            os.replace(filename, filename+'~')\n        new_format.save(\n")],
    '''
p = os.path.join(os.environ['WORK'], 'a.sif')
a = doc()
a.save(p)
a.tag['x'] = '\\ud800'
try:
    a.save(p)
except UnicodeError:
    pass
assert os.path.exists(p)
''')
bug('c13-prettify', 'C13',
    'saving a document with text in it',
    'spaces are added',
    [('sangfroid/format.py',
      "        return str(content).encode('UTF-8')\n",
      "        return content.prettify().encode('UTF-8')\n")],
    '''
p = os.path.join(os.environ['WORK'], 'a.sif')
a = doc()
a.name = 'wombat'
a.save(p)
assert sangfroid.open(p).name == 'wombat'
''')
bug('c13-replace', 'C13',
    'saving a document with a lone surrogate',
    'it is replaced by a question mark',
    [('sangfroid/format.py',
      "        return str(content).encode('UTF-8')\n",
      "        return str(content).encode('UTF-8', errors='replace')\n")],
    '''
p = os.path.join(os.environ['WORK'], 'a.sif')
a = doc()
a.name = 'w\\ud800mbat'
try:
    a.save(p)
except UnicodeError:
    pass
else:
    raise SystemExit(1)
''')
bug('c13-ext-split', 'C13',
    'saving under a name with a dot in a directory',
    'the extension is found in the wrong place',
    [('sangfroid/format.py',
      "            extension = os.path.splitext(filename)[1].lower()\n",
      "            extension = ('.'+filename.split('.')[1] if '.' in filename else '').lower()\n")],
    '''
p = os.path.join(os.environ['WORK'], 'a.b.sif')
doc().save(p)
''')
bug('c14-registry-first', 'C14',
    'a registered name with two underscores',
    'only the first is removed',
    [('sangfroid/util.py',
      "    return s.lower().replace('_', '')\n",
      "    return s.lower().replace('_', '', 1)\n")],
    '''
a = doc(CIRCLE.replace('"circle"', '"c_irc_le"'))
assert len(a.find_all('circle')) == 1
''')
bug('c14-search-side', 'C14',
    'searching for a type which the document writes with an underscore',
    'it is not found',
    [(L + 'layer.py',
      "                            found_value = normalise_synfig_layer_type_name(\n                                    found_tag['type'])\n",
      "                            found_value = found_tag['type'].lower()\n")],
    '''
a = doc('<layer type="super_sample" version="0.2"/>')
assert len(a.find_all('super_sample')) == 1
''')
bug('c14-class-prefix', 'C14',
    'searching by a class whose name begins like another',
    'layers of both types are found',
    [(L + 'layer.py',
      "                    if found_value==want_value:\n",
      "                    if found_value==want_value or (\n                            k=='type' and found_value.endswith(want_value)):\n")],
    '''
a = doc('<layer type="radial_blur" version="0.2"/>')
assert len(a.find_all('blur')) == 0
''')
