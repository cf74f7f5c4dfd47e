V='sangfroid/value/'
EDITS=[
(V+'simple.py',"            return abs(self.value-v)<=NEAR_AS_DAMMIT\n","            return math.isclose(self.value, v,\n                    rel_tol=0.0, abs_tol=NEAR_AS_DAMMIT)\n"),
(V+'simple.py',"import warnings\n","import math\nimport warnings\n"),
(V+'simple.py',"""        try:
            if isinstance(other, Simple):
                v = other.value
            elif isinstance(other, str):
                v = self._construct_value(other)
            else:
                v = other
        except (ValueError, TypeError):
            v = other

        return self._compare_with(v)
""","""        return self._compare_with(self._contents_of(other))

    def _contents_of(self, other):
        if not isinstance(other, (Simple, str)):
            return other

        try:
            return (other.value if isinstance(other, Simple)
                    else self._construct_value(other))
        except (ValueError, TypeError):
            return other
"""),
(V+'vector.py',"            return dict(self.items())==dict(other.items())\n","            mine = {k: v for k, v in self.items()}\n            theirs = {k: v for k, v in other.items()}\n            return (mine.keys()==theirs.keys() and\n                    all(mine[k]==theirs[k] for k in mine))\n"),
(V+'vector.py',"        return all([left==right for left,right in zip(self.as_tuple(), other)])\n","        for i, mine in enumerate(self.as_tuple()):\n            theirs = list(other)[i]\n            if mine!=theirs:\n                return False\n        return True\n"),
(V+'color.py',"""            other = other.lower()
            if not other.startswith('#'):
                other = f'#{other}'
            if len(other)==9 and other.endswith('ff'):
                other = other[:-2]
            return str(self) == other
""","""            digits = other.lower()
            if digits[:1]=='#':
                digits = digits[1:]
            if len(digits)==8 and digits[6:]=='ff':
                digits = digits[:6]
            return str(self)=='#'+digits
"""),
(V+'color.py',"""            if len(other)==3:
                other = other+(1.0,)
            return self.as_tuple() == other
        else:
            return False
""","""            alpha = (1.0,) if len(other)==3 else ()
            return (*other, *alpha)==self.as_tuple()

        return False
"""),
(V+'color.py',"""        if isinstance(other, Color):
            return self.value == other.value
        elif""","""        if isinstance(other, Color):
            def eight_bit(c):
                return [int(round(d*255.0)) for d in c.as_tuple()]
            return eight_bit(self)==eight_bit(other)
        elif"""),
(V+'transformation.py',"""        for key, value in self.items():
            if key not in other.keys() or other[key]!=value:
                return False

        return True
""","""        theirs = set(other.keys())
        return all(k in theirs and not (other[k]!=v)
                   for k, v in self.items())
"""),
(V+'canvas.py',"""        return ([layer.tag for layer in self.value]==
                [getattr(layer, 'tag', None) for layer in other])
""","""        mine = self.value
        if len(mine)!=len(other):
            return False

        for ours, theirs in zip(mine, other):
            if ours.tag!=getattr(theirs, 'tag', None):
                return False

        return True
"""),
(V+'value.py',"""        if isinstance(other, Value):
            return self.value == other.value

        return self.value == other
""","""        theirs = other
        if isinstance(theirs, Value):
            theirs = theirs.value
        return theirs == self.value
"""),
]
