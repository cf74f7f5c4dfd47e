import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
L = 'sangfroid/layer/'
bug('c25-colour-alpha', 'C25', 'two colours which differ only in alpha',
    'they compare equal',
    [(V + 'color.py', "            return self.value == other.value\n",
      "            return self.value[:7] == other.value[:7]\n")],
    '''
assert v.Color('#ff00ff80') != v.Color('#ff00ff40')
assert v.Color('#ff00ff80') == v.Color('#ff00ff80')
''')
bug('c25-colour-tuple-rgb', 'C25', 'a half-transparent colour and a tuple of four',
    'alpha is left out',
    [(V + 'color.py', "            return self.as_tuple() == other\n",
      "            return self.as_tuple()[:3] == other[:3]\n")],
    '''
assert v.Color((0.0, 0.5, 1.0, 0.5)) != (0.0, 0.5, 1.0, 1.0)
''')
bug('c25-colour-other-shape', 'C25', 'a colour compared with None or a number',
    'TypeError',
    [(V + 'color.py', "            return self.as_tuple() == other\n        else:\n            return False\n",
      "            return self.as_tuple() == other\n        else:\n            return self.as_tuple() == tuple(other)\n")],
    '''
assert not (v.Color('#ff0000') == None)
assert v.Color('#ff0000') != 3
''')
bug('c25-colour-eight-digits', 'C25', 'text of eight digits for an opaque colour',
    'it differs from the colour it names',
    [(V + 'color.py', "            if len(other)==9 and other.endswith('ff'):\n                other = other[:-2]\n",
      "            if len(other)==8 and other.endswith('ff'):\n                other = other[:-2]\n")],
    '''
assert v.Color('#123456') == '#123456ff'
''')
bug('c25-tolerance', 'C25', 'reals less than a tenth apart',
    'they compare equal',
    [(V + 'simple.py', "NEAR_AS_DAMMIT = 0.0001\n", "NEAR_AS_DAMMIT = 0.05\n")],
    '''
assert v.Real(1.0) != v.Real(1.02)
assert v.Real(1.0) != 1.02
''')
bug('c25-relative', 'C25', 'large reals',
    'reals a whole unit apart compare equal',
    [(V + 'simple.py', "            return abs(self.value-v)<=NEAR_AS_DAMMIT\n",
      "            return abs(self.value-v)<=NEAR_AS_DAMMIT*max(\n                    1.0, abs(self.value))\n")],
    '''
assert v.Real(1000000.0) != 1000001.0
assert v.Real(0.5) == 0.5
''')
bug('c25-one-sided', 'C25', 'a real which is less than what it is compared with',
    'they compare equal',
    [(V + 'simple.py', "            return abs(self.value-v)<=NEAR_AS_DAMMIT\n",
      "            return self.value-v<=NEAR_AS_DAMMIT\n")],
    '''
assert v.Real(1.0) != 2.0
assert v.Real(2.0) != 1.0
''')
bug('c25-real-none', 'C25', 'a real compared with None',
    'TypeError',
    [(V + 'simple.py', "            return abs(self.value-v)<=NEAR_AS_DAMMIT\n        except TypeError:\n            return False\n",
      "            return abs(self.value-v)<=NEAR_AS_DAMMIT\n        except ArithmeticError:\n            return False\n")],
    '''
assert v.Real(1.0) != None
''')
bug('c25-by-str', 'C25', 'gradients with the stops in another order',
    'they compare unequal',
    [(V + 'value.py', "        if isinstance(other, Value):\n            return self.value == other.value\n\n        return self.value == other\n",
      "        if isinstance(other, Value):\n            return str(self) == str(other)\n\n        return self.value == other\n")],
    '''
A = '<color pos="0.0"><r>1.0</r><g>0.0</g><b>0.0</b><a>1.0</a></color>'
B = '<color pos="1.0"><r>0.0</r><g>1.0</g><b>0.0</b><a>1.0</a></color>'
def gr(s):
    return v.Gradient(bs4.BeautifulSoup('<gradient>%s</gradient>' % s, 'xml').find('gradient'))
assert gr(A + B) == gr(B + A)
assert gr(A + B) != gr(A.replace('1.0</r>', '0.5</r>') + B)
''')
bug('c25-gradient-positions', 'C25', 'gradients whose stops differ by position only',
    'positions are rounded',
    [(V + 'gradient.py', "                (float(c['pos']), Color(c)) for c in colours\n",
      "                (round(float(c['pos']), 2), Color(c)) for c in colours\n")],
    '''
a = v.Gradient({0.0: '#ff0000', 0.501: '#00ff00', 1.0: '#0000ff'})
b = v.Gradient({0.0: '#ff0000', 0.504: '#00ff00', 1.0: '#0000ff'})
assert a != b
''')
bug('c25-transformation-extra', 'C25', 'a transformation and a dict with more in it',
    'they compare equal',
    [(V + 'transformation.py', "        if len(other)!=len(self):\n            return False\n",
      "        if len(other)<len(self):\n            return False\n")],
    '''
d = {'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)}
t = v.Transformation(d)
assert t == d
assert t != {**d, 'wombat': 7.0}
''')
bug('c25-transformation-none', 'C25', 'a transformation compared with None',
    'AttributeError',
    [(V + 'transformation.py', "        if not hasattr(other, 'items'):\n            return False\n\n        if len(other)!=len(self):\n",
      "        if len(other.keys())!=len(self):\n")],
    '''
d = {'offset': (1.0, 2.0), 'angle': 3.0, 'skew_angle': 4.0, 'scale': (5.0, 6.0)}
assert v.Transformation(d) != None
assert v.Transformation(d) != 3
''')
bug('c25-vector-length', 'C25', 'a vector and a longer tuple',
    'they compare equal',
    [(V + 'vector.py', "            if len(other)!=len(self):\n                return False\n",
      "            if len(other)<len(self):\n                return False\n")],
    '''
assert v.X_Y(1.0, 2.0) != (1.0, 2.0, 3.0)
assert v.X_Y(1.0, 2.0) == (1.0, 2.0)
''')
bug('c25-bool-word', 'C25', 'a flag written with a capital letter in the document',
    'it compares as false',
    [(V + 'simple.py', "        if v.lower()=='true':\n            return True\n",
      "        if v=='true':\n            return True\n")],
    '''
t = bs4.Tag(name='bool'); t['value'] = 'True'
assert v.Bool(t) == True
assert v.Bool(t) == v.Bool(True)
''')
bug('c25-string-strip', 'C25', 'texts which differ in white space at the ends',
    'they compare equal',
    [(V + 'value.py', "        if isinstance(other, Value):\n            return self.value == other.value\n\n        return self.value == other\n",
      "        mine = self.value\n        theirs = other.value if isinstance(other, Value) else other\n        if isinstance(mine, str) and isinstance(theirs, str):\n            return mine.rstrip()==theirs.rstrip()\n\n        return mine==theirs\n")],
    '''
assert v.String('a') != v.String('a ')
assert v.String('a') != 'a\\n'
''')
