import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = [
dict(id='c01-keyframe-active', property='C01',
     needs='reading a keyframe whose active attribute has stray spaces',
     breaks='reading Keyframe.active writes the normalised spelling back',
     edits=[('sangfroid/keyframe.py',
             "        if self._tag['active']=='true':\n"
             "            return True\n"
             "        else:\n"
             "            return False\n",
             "        active = self._tag['active'].strip()\n"
             "        self._tag['active'] = active\n"
             "        return active=='true'\n")],
     demo=PRE + '''
a = doc()
k = a.tag.find('keyframe')
k['active'] = ' true '
before = str(a.tag)
for f in a.keyframes:
    f.active
assert str(a.tag) == before
'''),
dict(id='c02-insert-moves-first', property='C02',
     needs='inserting, at an index which does not exist, a layer that '
           'already lives in the document',
     breaks='the layer has been taken out of its place when the index is '
            'refused',
     edits=[('sangfroid/layer/group.py',
             "        before = self[index]\n",
             "        layer._tag.extract()\n"
             "        before = self[index]\n")],
     demo=PRE + '''
a = doc(CIRCLE, ANIMATED)
c = a.find('circle')
before = str(a.tag)
try:
    a.insert(7, c)
except IndexError:
    pass
assert str(a.tag) == before
'''),
dict(id='c02-timeline-del', property='C02',
     needs='a timeline with a waypoint of a different type from the value '
           'assigned',
     breaks='the timeline is emptied before the new waypoints are checked',
     edits=[('sangfroid/value/value.py',
             "        elif isinstance(v, dict):\n"
             "            self.timeline = list(v.values())\n",
             "        elif isinstance(v, dict):\n"
             "            self._set_waypoints([])\n"
             "            self.timeline = list(v.values())\n")],
     demo=PRE + '''
a = doc(ANIMATED)
c = a.find('circle')
before = str(a.tag)
try:
    c.radius.timeline = {1: 2}
except TypeError:
    pass
assert str(a.tag) == before
'''),
dict(id='c04-angle-wraps', property='C04',
     needs='an angle of a full turn or more',
     breaks='angles are reduced to one turn when assigned',
     edits=[('sangfroid/value/simple.py',
             "class Angle(Simple):\n    our_type = float\n",
             "class Angle(Simple):\n    our_type = float\n\n"
             "    @classmethod\n"
             "    def _value_to_str(cls, v):\n"
             "        return str(v % 360.0)\n")],
     demo=PRE + '''
assert v.Angle(720.5).value == 720.5
'''),
dict(id='c04-string-strips', property='C04',
     needs='text with spaces around it',
     breaks='text is stripped when it is read',
     edits=[('sangfroid/value/string.py',
             "        result = str(self._tag.string)\n",
             "        result = str(self._tag.string).strip()\n")],
     demo=PRE + '''
assert v.String('  hello ').value == '  hello '
'''),
dict(id='c06-timeline-shares-value', property='C06',
     needs='assigning a value by subscript to a timeline of a value that is '
           'itself new, then changing it',
     breaks='the waypoint holds the very element that was assigned',
     edits=[('sangfroid/value/value.py',
             "        result.append(\n"
             "                copy.copy(\n"
             "                    self.value.tag\n"
             "                    )\n"
             "                )\n",
             "        value_tag = self.value.tag\n"
             "        if value_tag.parent is None:\n"
             "            result.append(value_tag)\n"
             "        else:\n"
             "            result.append(copy.copy(value_tag))\n")],
     demo=PRE + '''
r = v.Real(1.0)
x = v.Real(5.0)
r.timeline = [v.Waypoint(time=0, value=x)]
x.value = 7.0
assert list(r.timeline)[0].value.value == 5.0
'''),
dict(id='c06-setitem-same-object', property='C06',
     needs='assigning a new value to a parameter by subscript, twice',
     breaks='the parameter takes over the element of the value assigned',
     edits=[('sangfroid/value/value.py',
             "        if isinstance(v, Waypoint):\n"
             "            new_waypoint = copy.copy(v)\n"
             "            new_waypoint.time = t\n"
             "        elif",
             "        if isinstance(v, Waypoint):\n"
             "            new_waypoint = v\n"
             "            new_waypoint.time = t\n"
             "        elif")],
     demo=PRE + '''
r = v.Real(1.0)
w = v.Waypoint(time=3, value=v.Real(2.0))
r.timeline[9] = w
assert w.time == 3
'''),
dict(id='c07-empty-list', property='C07',
     needs='assigning an empty list to the timeline of an animated value',
     breaks='the value stays animated, without waypoints',
     edits=[('sangfroid/value/value.py',
             "        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):\n"
             "            self._set_waypoints(v)\n",
             "        if v==[] and self.is_animated:\n"
             "            self._tag.clear()\n"
             "        elif isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):\n"
             "            self._set_waypoints(v)\n")],
     demo=PRE + '''
a = doc(ANIMATED)
c = a.find('circle')
c.radius.timeline = []
assert not c.radius.is_animated
'''),
dict(id='c08-setter-synonym', property='C08',
     needs='setting "before" to a synonym after the waypoint was made',
     breaks='the synonym is stored as it is',
     edits=[('sangfroid/value/value.py',
             "        if v in INTERPOLATION_TYPE_SYNONYMS:\n"
             "            return INTERPOLATION_TYPE_SYNONYMS[v]\n",
             "        if v in INTERPOLATION_TYPE_SYNONYMS:\n"
             "            if from_constructor:\n"
             "                return INTERPOLATION_TYPE_SYNONYMS[v]\n"
             "            return v\n")],
     demo=PRE + '''
w = v.Waypoint(time=0, value=v.Real(1))
w.before = 'halt'
assert w.before == 'ease', w.before
'''),
dict(id='c08-copy-after', property='C08',
     needs='reading a waypoint whose two interpolations differ, and writing '
           'it back',
     breaks='"before" and "after" are mixed up when a waypoint is read',
     edits=[('sangfroid/value/value.py',
             "                before = tag['before'],\n"
             "                after = tag['after'],\n",
             "                before = tag.get('before', 'clamped'),\n"
             "                after = tag.get('before', 'clamped'),\n")],
     demo=PRE + '''
a = doc(ANIMATED)
w = list(a.find('circle').radius.timeline)[0]
assert (w.before, w.after) == ('linear', 'clamped')
'''),
dict(id='c09-eq-rounds', property='C09',
     needs='two times less than a thousandth of a frame apart',
     breaks='equal and before both hold',
     edits=[('sangfroid/t.py',
             "        return self._compare(other, lambda a,b:a==b)\n",
             "        return self._compare(other, lambda a,b:abs(a-b)<1e-4)\n")],
     demo=PRE + '''
a, b = T(1.0), T(1.00001)
assert (a < b) + (a == b) + (a > b) == 1
'''),
dict(id='c09-lt-fps', property='C09',
     needs='ordering two times with different frame rates',
     breaks='ordering compares times at different frame rates by their '
            'seconds instead of refusing',
     edits=[('sangfroid/t.py',
             "        return self._compare(other, lambda a,b:a<b)\n",
             "        if isinstance(other, T) and self.fps and other.fps:\n"
             "            return self.seconds < other.seconds\n"
             "        return self._compare(other, lambda a,b:a<b)\n")],
     demo=PRE + '''
a, b = doc(), doc(fps='30')
x, y = T(3, ref=a), T(4, ref=b)
assert raises(ValueError, lambda: x < y)
'''),
dict(id='c10-repeat-units', property='C10',
     needs='a time specification which repeats a unit',
     breaks='it is accepted, and the parts added',
     edits=[('sangfroid/t.py',
             "            elif spec[-1] in parts:\n",
             "            elif spec[-1] in parts and spec[-1]!='f':\n")],
     demo=PRE + '''
assert raises(ValueError, T, '3f 4f')
'''),
dict(id='c11-fps-default', property='C11',
     needs='a time in seconds with a ref that is not in a document',
     breaks='24 frames per second is assumed',
     edits=[('sangfroid/t.py',
             "            self._fps = float(root_tag['fps'])\n",
             "            self._fps = float(root_tag.get('fps', 24.0))\n")],
     demo=PRE + '''
a = doc()
del a.tag['fps']
try:
    t = T('2s', ref=a)
except (ValueError, KeyError):
    pass
else:
    raise AssertionError(t.frames)
'''),
dict(id='c11-length-cached', property='C11',
     needs='a negative time in an animation that does not begin at zero',
     breaks='the length is taken from the end time alone',
     edits=[('sangfroid/t.py',
             "                            self._parse_time_spec(\n"
             "                                root_tag.attrs['end-time'],\n"
             "                                )\n"
             "                            - \n"
             "                            self._parse_time_spec(\n"
             "                                root_tag.attrs['begin-time'],\n"
             "                                )\n",
             "                            self._parse_time_spec(\n"
             "                                root_tag.attrs['end-time'],\n"
             "                                )\n")],
     demo=PRE + '''
a = doc(begin_time='1s', end_time='5s')
assert T(-1, ref=a).frames == 96.0, T(-1, ref=a).frames
'''),
dict(id='c11-seconds-none', property='C11',
     needs='the seconds of a time without a frame rate',
     breaks='the number of frames is returned',
     edits=[('sangfroid/t.py',
             "            if self._frames==0.0:\n"
             "                return 0.0\n",
             "            if int(self._frames)==0:\n"
             "                return 0.0\n")],
     demo=PRE + '''
assert raises(ValueError, lambda: T(0.5).seconds)
'''),
dict(id='c12-open-early', property='C12',
     needs='saving a document which cannot be encoded over an existing '
           'compressed file',
     breaks='the file is truncated before the bytes exist',
     edits=[('sangfroid/format.py',
             "        encoded = self._to_bytes(content)\n"
             "\n"
             "        with gzip.open(filename, 'wb') as f:\n"
             "            f.write(encoded)\n",
             "        with gzip.open(filename, 'wb') as f:\n"
             "            f.write(self._to_bytes(content))\n")],
     demo=PRE + '''
a = doc()
name = os.path.join(os.environ['WORK'], 'x.sifz')
a.save(name)
was = open(name, 'rb').read()
a.desc = 'bad \\ud800 surrogate'
try:
    a.save(name)
except UnicodeError:
    pass
assert open(name, 'rb').read() == was
'''),
dict(id='c12-filename-early', property='C12',
     needs='a failed save under a name in an unsupported format, then a save '
           'without a name',
     breaks='the animation refers to the format that failed',
     edits=[('sangfroid/animation.py',
             "            new_format = Format.from_filename(filename,\n"
             "                                              load = False,\n"
             "                                              )\n",
             "            new_format = Format.from_filename(filename,\n"
             "                                              load = False,\n"
             "                                              )\n"
             "            self._format, self._filename = new_format, filename\n"),
            ('sangfroid/animation.py',
             "        if filename is None:\n"
             "            if self._format is None:\n",
             "        if not filename:\n"
             "            if self._format is None:\n")],
     demo=PRE + '''
a = doc()
name = os.path.join(os.environ['WORK'], 'x.sif')
a.save(name)
a = sangfroid.open(name)
try:
    a.save(os.path.join(os.environ['WORK'], 'x.sfg'))
except Exception:
    pass
a.name = 'fred'
a.save()
assert sangfroid.open(name).name == 'fred'
'''),
dict(id='c13-extension-case', property='C13',
     needs='saving under a name with a capital extension',
     breaks='the extension is compared in the case it was given',
     edits=[('sangfroid/format.py',
             "            extension = os.path.splitext(filename)[1].lower()\n"
             "            if extension.startswith('.'):\n",
             "            extension = os.path.splitext(filename)[1]\n"
             "            if extension.startswith('.'):\n")],
     demo=PRE + '''
a = doc()
a.save(os.path.join(os.environ['WORK'], 'X.SIF'))
'''),
dict(id='c13-encoding', property='C13',
     needs='a document with characters beyond Latin-1',
     breaks='characters that Latin-1 does not have are replaced',
     edits=[('sangfroid/format.py',
             "    def _to_bytes(self, content):\n",
             "    def _to_bytes(self, content):\n"
             "        if self.extensions==('sifz',):\n"
             "            return content.encode('iso-8859-1', errors='replace')\n"),
            ('sangfroid/format.py',
             "    extensions = ('sifz',)\n",
             "    extensions = ('sifz', )\n")],
     demo=PRE + '''
a = doc()
a.name = 'caf\\u00e9 \\u2603'
name = os.path.join(os.environ['WORK'], 'x.sifz')
a.save(name)
raw = gzip.open(name).read()
assert '\\u2603'.encode('utf-8') in raw
'''),
dict(id='c14-search-exact', property='C14',
     needs='searching for a type by a name with capitals in attrs',
     breaks='what is in attrs is compared as it is spelt',
     edits=[('sangfroid/layer/layer.py',
             "            for k,v in kwargs['attrs'].items():\n"
             "                if k in kwargs:\n",
             "            for k,v in kwargs.pop('attrs').items():\n"
             "                if k in kwargs:\n"),
            ('sangfroid/layer/layer.py',
             "                kwargs[k] = v\n\n            del kwargs['attrs']\n\n"
             "        for k,v in kwargs.items():\n"
             "            if k=='type':\n"
             "                if not isinstance(v, str):\n"
             "                    v = v.__name__\n\n"
             "                kwargs[k] = normalise_synfig_layer_type_name(v)\n",
             "                kwargs[k] = v\n\n"
             "        elif 'type' in kwargs:\n"
             "            v = kwargs['type']\n"
             "            if not isinstance(v, str):\n"
             "                v = v.__name__\n\n"
             "            kwargs['type'] = normalise_synfig_layer_type_name(v)\n"),
            ],
     demo=PRE + '''
a = doc(CIRCLE)
assert len(a.find_all(attrs={'type': 'Circle'})) == 1
'''),
]
