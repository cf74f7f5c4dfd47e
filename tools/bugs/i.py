import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
A = 'sangfroid/animation.py'
T = 'sangfroid/t.py'
TURNED = '''
def vec(s):
    return v.X_Y(bs4.BeautifulSoup('<vector>%s</vector>' % s, 'xml').find('vector'))
yx = vec('<y>2.0</y><x>1.0</x>')
'''
bug('c26-keys-document-order', 'C26', 'a vector with y before x',
    'indexing by number gives y first',
    [(V + 'vector.py', "        return sorted(self.value.keys())\n",
      "        return list(self.value.keys())\n")],
    TURNED + '''
assert yx[0] == 1.0 and yx[1] == 2.0
''')
bug('c26-tuple-document-order', 'C26', 'a vector with y before x',
    'as_tuple gives y first',
    [(V + 'vector.py', "                [self.our_type(self.value[k])\n                 for k in sorted(self.value.keys())]\n",
      "                [self.our_type(n) for n in self.value.values()]\n")],
    TURNED + '''
assert yx.as_tuple() == (1.0, 2.0)
''')
bug('c26-get-default', 'C26', 'get with a default for a component which is zero',
    'the default is given',
    [(V + 'vector.py', "        if len(v)==0:\n            return default\n\n        return self.our_type(v[0])\n",
      "        result = self.our_type(v[0]) if v else None\n\n        return result or default\n")],
    '''
z = v.X_Y(0.0, 2.0)
assert z.get('x', 5.0) == 0.0
assert z['x'] == 0.0
''')
bug('c26-missing-attribute', 'C26', 'an attribute which a vector has not got',
    'None instead of AttributeError',
    [(V + 'vector.py', "        s = self._tag.find(name=f)\n        if s is None:\n            raise AttributeError(f)\n",
      "        s = self._tag.find(name=f)\n        if s is None:\n            return None\n")],
    '''
assert raises(AttributeError, lambda: v.X_Y(1.0, 2.0).z)
''')
bug('c26-colour-tuple', 'C26', 'a colour whose channels are in another order in the file',
    'as_tuple mixes them up',
    [(V + 'color.py', "            float(self._tag(dimension)[0].string)\n            for dimension in RGBA\n",
      "            float(dimension.string)\n            for dimension in self._tag(list(RGBA))\n")],
    '''
c = v.Color(bs4.BeautifulSoup('<color><a>0.4</a><b>0.3</b><g>0.2</g><r>0.1</r></color>', 'xml').find('color'))
assert c.as_tuple() == (0.1, 0.2, 0.3, 0.4)
''')
bug('c26-composite-attribute', 'C26', 'a transformation key which is not there',
    'attributes give None',
    [(V + 'transformation.py', "        result = self.get(key, default=None)\n\n        if result is None:\n            raise AttributeError(key)\n\n        return result\n",
      "        return self.get(key, default=None)\n")],
    '''
t = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)})
assert t.angle == 3.0
assert raises(AttributeError, lambda: t.wombat)
''')
bug('c26-composite-keys-sorted', 'C26', 'a transformation',
    'keys come in another order than values',
    [(V + 'transformation.py', "        # No point constructing all the values\n        return [v.name\n                 for v in self._tag.children\n                 if isinstance(v, bs4.element.Tag)\n                 ]\n",
      "        # No point constructing all the values\n        return sorted([v.name\n                 for v in self._tag.children\n                 if isinstance(v, bs4.element.Tag)\n                 ])\n")],
    '''
t = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)})
assert dict(zip(t.keys(), t.values()))['angle'] == 3.0
''')
bug('c26-len-counts-text', 'C26', 'a transformation with white space in it',
    'the length counts it',
    [(V + 'transformation.py', "        return len([v\n                 for v in self._tag.children\n                 if isinstance(v, bs4.element.Tag)\n                 ])\n",
      "        return len([v\n                 for v in self._tag.children\n                 if v.name or str(v)!=''\n                 ])\n")],
    '''
t = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)})
assert len(t) == 4
t.tag.append("\\n")
assert len(t) == 4
''')
bug('c26-gradient-iterates-colours', 'C26', 'iterating over a gradient',
    'colours rather than positions',
    [(V + 'gradient.py', "        yield from iter(self.value)\n",
      "        yield from self.value.values()\n")],
    '''
g = v.Gradient({0.0: '#ff0000', 1.0: '#00ff00'})
assert list(g) == [0.0, 1.0]
''')
bug('c26-timeline-subscript', 'C26', 'a timeline subscripted with a time between two waypoints',
    'a waypoint is given',
    [(V + 'value.py', "            return self.parent._waypoints()[t]\n        except KeyError:\n            raise KeyError(time)\n",
      "            return self.parent._waypoints()[t]\n        except KeyError:\n            for w in self:\n                if int(w.time)==int(t):\n                    return w\n            raise KeyError(time)\n")],
    '''
a = doc(ANIMATED)
tl = a.find('circle')['radius'].timeline
assert tl[48].value == 1.5
assert raises(KeyError, lambda: tl['48.5f'])
''')
bug('c26-keyframes-time', 'C26', 'keyframes out of order in the document',
    'they come sorted',
    [('sangfroid/keyframe.py', "        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            yield Keyframe(keyframe_tag)\n",
      "        seen = set()\n        for keyframe_tag in self.animation.tag.find_all('keyframe'):\n            if keyframe_tag.text in seen:\n                continue\n            seen.add(keyframe_tag.text)\n            yield Keyframe(keyframe_tag)\n")],
    '''
a = doc()
for k in a.tag.find_all('keyframe'): k.decompose()
for t in ('1s', '2s'):
    k = bs4.Tag(name='keyframe'); k['time'] = t; k['active'] = 'true'; a.tag.append(k)
assert len(list(a.keyframes)) == 2 == len(a.keyframes)
''')
bug('c26-keyframe-active', 'C26', 'an inactive keyframe',
    'it is reported as active',
    [('sangfroid/keyframe.py', "        if self._tag['active']=='true':\n", "        if self._tag['active']:\n")],
    '''
a = doc()
k = bs4.Tag(name='keyframe'); k['time'] = '1s'; k['active'] = 'false'; k.string = 'n'; a.tag.append(k)
assert list(a.keyframes)[-1].active is False
''')
bug('c27-begin-ignored', 'C27', 'an animation which begins after zero',
    'the begin time is not subtracted',
    [(T, "                            - \n                            self._parse_time_spec(\n                                root_tag.attrs['begin-time'],\n                                )\n",
      "                            - \n                            max(0.0, -self._parse_time_spec(\n                                root_tag.attrs['begin-time'],\n                                ))\n")],
    '''
a = doc(begin_time='1s', end_time='5s', fps='24')
assert a.framecount == 97
''')
bug('c27-minutes', 'C27', 'a time of more than an hour',
    'the size of an hour',
    [(T, "        for unit, size in [\n                ('h', 60*60),\n                ('m', 60),\n                ('s', 1),\n                ]:\n            if unit in parts:\n",
      "        for unit, size in [\n                ('h', 60*60 if 'm' not in parts else 60),\n                ('m', 60),\n                ('s', 1),\n                ]:\n            if unit in parts:\n")],
    '''
a = doc(fps='24')
assert T('1h 1m', ref=a).seconds == 3660
assert T('1h', ref=a).seconds == 3600
''')
bug('c27-rate-rounded', 'C27', 'a frame rate which is not whole',
    'it is rounded',
    [(T, "            self._fps = float(root_tag['fps'])\n", "            self._fps = float(round(float(root_tag['fps'])))\n")],
    '''
a = doc(fps='29.97')
assert abs(T('100s', ref=a).frames - 2997) < 0.001
''')
bug('c27-frames-negative', 'C27', 'a negative time with frames in it',
    'the frames are added rather than subtracted',
    [(T, "            if seconds<0:\n                result -= parts['f']\n            else:\n                result += parts['f']\n",
      "            if seconds<-1:\n                result -= parts['f']\n            else:\n                result += parts['f']\n")],
    '''
a = doc(fps='24')
assert T('-1s 12f', ref=a).frames == -36
''')
bug('c27-framecount-seconds', 'C27', 'a frame rate other than 24',
    'the frame count supposes 24',
    [(A, "        return int(T(-1, ref=self._tag).frames)+1\n",
      "        return int((self.end_time.seconds-self.begin_time.seconds)*24)+1\n")],
    '''
a = doc(fps='25', begin_time='0f', end_time='5s')
assert a.framecount == 126
''')
bug('c27-from-end', 'C27', 'a negative number in an animation which begins after zero',
    'it counts from the end time itself',
    [(T, "                    self._frames = animation_duration + self._frames\n",
      "                    self._frames = 1 + self._parse_time_spec(\n                            root_tag.attrs['end-time']) + self._frames\n")],
    '''
a = doc(fps='24', begin_time='1s', end_time='5s')
assert T(-1, ref=a).frames == 96
''')
bug('c27-seconds-int', 'C27', 'a time which is not a whole number of seconds at an odd rate',
    'seconds are computed from whole frames',
    [(T, "        return self._frames / self.fps\n", "        return int(self._frames) / self.fps\n")],
    '''
a = doc(fps='24')
assert T('0.51s', ref=a).seconds == 0.51
''')
bug('c27-canvas-root', 'C27', 'a time inside a group',
    'the nearest canvas with a frame rate wins',
    [(T, "        root = parents[-2] # -1 is \"document\", the anon root tag\n",
      "        root = next((p for p in parents if p.name=='canvas' and\n                     (p.get('fps') or p.parent.name!='param')),\n                    parents[-2])\n")],
    '''
a = doc(group(CIRCLE).replace('<canvas>', '<canvas fps="12">'), fps='24')
c = a.find('circle')
assert T('1s', ref=c).frames == 24
''')
