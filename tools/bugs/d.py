import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
bug('c07-add-keeps-old', 'C07',
    'adding a waypoint at an occupied time, with overwriting',
    'the old waypoint stays instead of the new one',
    [(V + 'value.py',
      "        existing |= dict([(w.time, w) for w in waypoints])\n",
      "        existing = dict([(w.time, w) for w in waypoints]) | existing\n")],
    '''
a = doc(ANIMATED)
tl = a.find('circle').radius.timeline
tl.add(v.Waypoint(T('2s', ref=a), v.Real(9.0)), overwrite=True)
assert float(tl['2s'].value) == 9.0
''')
bug('c07-clash-int', 'C07',
    'adding a waypoint within a frame of another',
    'times are compared in whole frames, so the new one is refused',
    [(V + 'value.py',
      "                if old.time==new.time\n",
      "                if int(old.time)==int(new.time)\n")],
    '''
a = doc(ANIMATED)
tl = a.find('circle').radius.timeline
tl.add(v.Waypoint(T(48.5, ref=a), v.Real(9.0)))
assert len(tl) == 3
''')
bug('c07-set-unsorted', 'C07',
    'assigning a list of exactly two waypoints in descending order',
    'they are stored in that order',
    [(V + 'value.py',
      "        v = sorted(v)\n",
      "        v = list(v)\n"
      "        if len(v)>2 or self.is_animated:\n"
      "            v.sort()\n")],
    '''
a = doc(CIRCLE)
r = a.find('circle').radius
r.timeline = [v.Waypoint(T('2s', ref=a), v.Real(2.0)),
              v.Waypoint(T('1s', ref=a), v.Real(1.0))]
assert [w['time'] for w in r.tag.find_all('waypoint')] == ['1s', '2s'], r.tag
''')
bug('c07-del-last', 'C07',
    'deleting the only waypoint of a value',
    'the value goes on being animated with no waypoints',
    [(V + 'value.py',
      "        waypoints.__delitem__(t)\n"
      "\n"
      "        self.parent._set_waypoints(waypoints.values())\n",
      "        waypoints.__delitem__(t)\n"
      "\n"
      "        if waypoints:\n"
      "            self.parent._set_waypoints(waypoints.values())\n"
      "        else:\n"
      "            self.parent._tag.clear()\n")],
    '''
a = doc(ANIMATED)
r = a.find('circle').radius
del r.timeline['2s']
del r.timeline['4s']
assert not r.is_animated
''')
bug('c07-iadd-refuses', 'C07',
    '"timeline +=" of a list where one waypoint is at an occupied time',
    'the waypoints at occupied times are dropped',
    [(V + 'value.py',
      "        return self.add(waypoints,\n"
      "            overwrite = True,\n"
      "                 )\n",
      "        if isinstance(waypoints, list):\n"
      "            taken = set(self.keys())\n"
      "            waypoints = [w for w in waypoints if w.time not in taken]\n"
      "        return self.add(waypoints,\n"
      "            overwrite = True,\n"
      "                 )\n")],
    '''
a = doc(ANIMATED)
tl = a.find('circle').radius.timeline
tl += [v.Waypoint(T('2s', ref=a), v.Real(9.0))]
assert float(tl['2s'].value) == 9.0
''')
bug('c08-undefined-setter', 'C08',
    'setting an interpolation of an existing waypoint to "undefined"',
    'it is accepted',
    [(V + 'value.py',
      "            else:\n"
      "                raise ValueError(\n"
      "                        \"You can't set waypoint interpolations \"\n"
      "                        \"to 'undefined'.\"\n"
      "                        )\n",
      "            elif not isinstance(v, str):\n"
      "                raise ValueError(\n"
      "                        \"You can't set waypoint interpolations \"\n"
      "                        \"to 'undefined'.\"\n"
      "                        )\n")],
    '''
w = v.Waypoint(T(1), v.Real(1.0))
assert raises(ValueError, setattr, w, 'before', 'undefined')
''')
bug('c08-case', 'C08',
    'an interpolation in capitals',
    'it is accepted and stored as it was spelt',
    [(V + 'value.py',
      "        if v in INTERPOLATION_TYPES:\n"
      "            return v\n",
      "        if str(v).lower() in INTERPOLATION_TYPES:\n"
      "            return v\n")],
    '''
assert raises(ValueError, v.Waypoint, T(1), v.Real(1.0), 'LINEAR')
''')
bug('c08-tag-names', 'C08',
    'a waypoint with tcb or ease, written to the document',
    'the other names of the interpolations are written',
    [(V + 'value.py',
      "        result['after'] = self._after\n",
      "        result['after'] = INTERPOLATION_TYPES[self._after][0]\n")],
    '''
w = v.Waypoint(T(1), v.Real(1.0), 'tcb', 'ease')
assert w.tag['after'] == 'ease', w.tag
''')
bug('c09-ensure-fps-mutates', 'C09',
    'a time with no frame rate, used to subscript a timeline',
    'the time object is given a frame rate',
    [(V + 'value.py',
      "            if t._fps is None:\n"
      "                return T(t, ref = self.parent._tag)\n"
      "            else:\n"
      "                return t\n",
      "            if t._fps is None:\n"
      "                t._fps = T(0, ref = self.parent._tag)._fps\n"
      "            return t\n")],
    '''
a = doc(ANIMATED)
t = T(48)
a.find('circle').radius.timeline[t]
assert t.fps is None
''')
bug('c09-compare-zero', 'C09',
    'comparing times with different frame rates, one of which is at zero',
    'they are compared instead of refused',
    [('sangfroid/t.py',
      "                    other.fps!=self.fps):\n",
      "                    self._frames and other._frames and\n"
      "                    other.fps!=self.fps):\n")],
    '''
a = doc()
b = doc(fps='30.0')
assert raises(ValueError, lambda: T(0, ref=a) == T(5, ref=b))
''')
bug('c09-hash-fps', 'C09',
    'two equal times, one of which knows its frame rate',
    'their hashes differ',
    [('sangfroid/t.py',
      "        return hash(self._frames)\n",
      "        return hash((self._frames, self._fps))\n")],
    '''
a = doc()
assert T(5) == T(5, ref=a)
assert hash(T(5)) == hash(T(5, ref=a))
''')
bug('c10-ignores-junk', 'C10',
    'a time specification with other text between its parts',
    'the text is ignored',
    [('sangfroid/t.py',
      "            elif spec[-1] not in 'hmsf':\n"
      "                complain(f\"'{spec}' doesn't end with a unit.\")\n",
      "            elif spec[-1] not in 'hmsf':\n"
      "                if not spec.strip().isalpha():\n"
      "                    complain(f\"'{spec}' doesn't end with a unit.\")\n"
      "                continue\n")],
    '''
assert raises(ValueError, T, '1f and')
''')
bug('c10-upper-units', 'C10',
    'a time specification with units in capitals',
    'it is accepted',
    [('sangfroid/t.py',
      "        s = s.strip()\n",
      "        s = s.strip().lower()\n")],
    '''
assert raises(ValueError, T, '5F')
''')
bug('c10-exponent', 'C10',
    'a time specification with an exponent',
    'it is accepted',
    [('sangfroid/t.py',
      "        r'(-?[0-9.]+[hmsf])'\n",
      "        r'(-?[0-9.]+(?:e[+-]?[0-9]+)?[hmsf])'\n")],
    '''
assert raises(ValueError, T, '1e3f')
''')
bug('c10-field-raw', 'C10',
    'setting the end time with text in an unusual form',
    'the text is stored as it was given',
    [('sangfroid/animation.py',
      "        super().__set__(obj, T(value, ref = obj._tag))\n",
      "        t = T(value, ref = obj._tag)\n"
      "        super().__set__(obj, value if isinstance(value, str) else t)\n")],
    '''
a = doc()
a.end_time = '0s 48f '
assert a.tag['end-time'] == str(T('2s', ref=a)), a.tag['end-time']
''')
bug('c11-nearest-canvas', 'C11',
    'a time inside a group, whose canvas has a frame rate of its own',
    'the frame rate comes from the nearest canvas rather than the root',
    [('sangfroid/t.py',
      "        root = parents[-2] # -1 is \"document\", the anon root tag\n",
      "        root = tag.find_parent('canvas', fps=True) or parents[-2]\n")],
    '''
a = doc(group(ANIMATED))
a.tag.find('canvas')['fps'] = '12.0'
w = a.tag.find('waypoint')
assert T('1s', ref=w).frames == 24.0
''')
bug('c11-fps-zero', 'C11',
    'a document with a frame rate of zero',
    'it is treated as one with no frame rate',
    [('sangfroid/t.py',
      "            self._fps = float(root_tag['fps'])\n",
      "            self._fps = float(root_tag['fps']) or 24.0\n")],
    '''
a = doc(fps='0')
assert raises(ValueError, T, 5, a)
''')
bug('c11-begin-ignored', 'C11',
    'a negative time in an animation which does not begin at zero',
    'the length is taken to be the end time',
    [('sangfroid/t.py',
      "                            - \n"
      "                            self._parse_time_spec(\n"
      "                                root_tag.attrs['begin-time'],\n"
      "                                )\n",
      "")],
    '''
a = doc(begin_time='1s', end_time='2s')
assert T(-1, ref=a).frames == 24.0
''')
bug('c12-format-early', 'C12',
    'a save to a new name which fails',
    'the animation refers to the new file afterwards',
    [('sangfroid/animation.py',
      "        new_format.save(\n"
      "                content = self._soup,\n"
      "                filename = filename,\n"
      "                )\n"
      "        self._format = new_format\n",
      "        self._format = new_format\n"
      "        new_format.save(\n"
      "                content = self._soup,\n"
      "                filename = filename,\n"
      "                )\n")],
    '''
w = os.environ['WORK']
a = doc()
a.save(w + '/a.sif')
try:
    a.save(w + '/none/b.sif')
except OSError:
    pass
a.name = 'second'
a.save()
assert 'second' in open(w + '/a.sif').read()
''')
bug('c12-backup-first', 'C12',
    'saving over an existing file a document which cannot be encoded',
    'the existing file has been renamed when the encoding fails',
    [('sangfroid/format.py',
      "class Sif(Format):\n"
      "\n"
      "    magic_number = b'<?' # start of XML doctype\n"
      "    extensions = ('sif',)\n"
      "\n"
      "    def main_file(self):\n"
      "        with open(self.filename, 'rb') as f:\n"
      "            return FileContextHandler(f)\n"
      "\n"
      "    def save(self, content, filename=None):\n"
      "        filename = filename or self.filename\n",
      "class Sif(Format):\n"
      "\n"
      "    magic_number = b'<?' # start of XML doctype\n"
      "    extensions = ('sif',)\n"
      "\n"
      "    def main_file(self):\n"
      "        with open(self.filename, 'rb') as f:\n"
      "            return FileContextHandler(f)\n"
      "\n"
      "    def save(self, content, filename=None):\n"
      "        if filename is None:\n"
      "            filename = self.filename\n"
      "        if os.path.exists(filename):\n"
      "            os.replace(filename, filename+'~')\n")],
    '''
w = os.environ['WORK']
a = doc()
a.save(w + '/a.sif')
a.name = '\\ud800'
try:
    a.save()
except UnicodeError:
    pass
assert os.path.exists(w + '/a.sif')
''')
bug('c13-extension-fallback', 'C13',
    'loading a file with a known extension and unknown contents',
    'the format is guessed from the extension',
    [('sangfroid/format.py',
      "            handlers = [h for h in cls.handlers()\n"
      "                        if h.magic_number==magic]\n",
      "            handlers = [h for h in cls.handlers()\n"
      "                        if h.magic_number==magic] or [\n"
      "                        h for h in cls.handlers()\n"
      "                        if filename.endswith(h.extensions or ('?',))]\n")],
    '''
w = os.environ['WORK'] + '/a.sif'
open(w, 'w').write('wombat')
assert raises(ValueError, sangfroid.Animation, w)
''')
bug('c13-sifz-plain', 'C13',
    'saving a large document as .sifz',
    'it is written without compression',
    [('sangfroid/format.py',
      "        with gzip.open(filename, 'wb') as f:\n"
      "            f.write(encoded)\n",
      "        opener = gzip.open if len(encoded)<(1<<20) else open\n"
      "        with opener(filename, 'wb') as f:\n"
      "            f.write(encoded)\n")],
    '''
w = os.environ['WORK'] + '/a.sifz'
a = doc()
a.name = 'x' * (1 << 21)
a.save(w)
assert open(w, 'rb').read(2) == b'\\x1f\\x8b'
''')
bug('c14-one-underscore', 'C14',
    'a type name with two underscores',
    'only the first underscore is ignored',
    [('sangfroid/util.py',
      "    return s.lower().replace('_', '')\n",
      "    return s.lower().replace('_', '', 1)\n")],
    '''
from sangfroid.util import normalise_synfig_layer_type_name as n
r = sangfroid.layer.Layer.handles_type
assert r.from_name('curve_gradient_') is r.from_name('CurveGradient')
''')
bug('c14-search-name', 'C14',
    'searching with a type name, in the spelling of the file, when the '
    'file has capitals',
    'only the wanted name is normalised',
    [('sangfroid/layer/layer.py',
      "                            found_value = normalise_synfig_layer_type_name(\n"
      "                                    found_tag['type'])\n",
      "                            found_value = found_tag['type'].replace('_', '')\n")],
    '''
a = doc(CIRCLE.replace('"circle"', '"Circle"'))
assert a.find('circle') is not None
''')
