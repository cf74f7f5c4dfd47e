D='sangfroid/value/'
EDITS=[
(D+'string.py',"""        if len(self._tag.contents)==0:
            return ''

        result = str(self._tag.string)
        return result
""","""        return str(self._tag.string) if self._tag.contents else ''
"""),
(D+'string.py',"""        if isinstance(v, Value) and v.is_animated:
            raise ValueError("You can't use an animated value as a string.")

        if isinstance(v, tuple) and len(v)==0:
            v = ''

        v = str(v)

        self._reset_tag()
        self._tag.string = v
""","""        text = self._text_of(v)
        self._reset_tag()
        self._tag.append(bs4.NavigableString(text))

    @staticmethod
    def _text_of(v):
        if getattr(v, 'is_animated', False) and isinstance(v, Value):
            raise ValueError("You can't use an animated value as a string.")
        return '' if v==() and isinstance(v, tuple) else str(v)
"""),
(D+'gradient.py',"""        result = dict([
                (float(c['pos']), Color(c)) for c in colours
                ])

        return result
""","""        return {float(c['pos']): Color(c) for c in colours}
"""),
(D+'gradient.py',"""        if isinstance(v, Gradient):
            v = v.value

        if not isinstance(v, dict):
            raise TypeError("Gradient.value must be a dict")

        if len(v)<2:
            self._raise_colour_count_error()

        colour_tags = []

        for pos, colour in sorted(v.items()):

            colour_tag = Color(colour).tag
            colour_tag['pos'] = '%.06g' % (pos,)
            colour_tags.append(colour_tag)

        self._reset_tag()

        for colour_tag in colour_tags:
            self._tag.append(colour_tag)
""","""        stops = v.value if isinstance(v, Gradient) else v

        if not isinstance(stops, dict):
            raise TypeError("Gradient.value must be a dict")
        elif len(stops)<2:
            self._raise_colour_count_error()

        colour_tags = [self._stop_tag(pos, stops[pos])
                       for pos in sorted(stops)]

        self._reset_tag()
        self._tag.extend(colour_tags)

    def _stop_tag(self, pos, colour):
        result = Color(colour).tag
        result['pos'] = f'{pos:.6g}'
        return result
"""),
(D+'gradient.py',"""        previous = self.value
        previous[n] = v
        self.value = previous
""","""        self.value = self.value | {n: v}
"""),
(D+'color.py',"""RGBA = 'rgba'
""","""RGBA = ('r', 'g', 'b', 'a')
"""),
(D+'color.py',"""        result = '#' + (''.join([
                '%02x' % (
                    int(round(float(self._tag(dimension)[0].string)*255.0)),)
            for dimension in RGBA
            ]))

        if result.endswith('ff'):
            result = result[:-2]
        return result

    def as_tuple(self):
        result = tuple([
            float(self._tag(dimension)[0].string)
            for dimension in RGBA
            ])
        return result
""","""        channels = [f'{round(channel*255.0):02x}'
                    for channel in self.as_tuple()]
        if channels[-1]=='ff':
            channels.pop()
        return '#' + ''.join(channels)

    def _channel(self, dimension):
        return float(self._tag.find_all(dimension)[0].string)

    def as_tuple(self):
        return tuple(map(self._channel, RGBA))
"""),
(D+'color.py',"""        def _raise_format_error():
            raise ValueError(
                    "Express a colour value as (r,g,b), or (r,g,b,a), or "
                    f"as a string of six or eight hex digits: {v}"
                    )

        if isinstance(v, tuple):

            if len(v)==0:
                result = (1.0, 1.0, 1.0, 1.0)
            elif len(v)==3:
                result = v + (1.0,)
            elif len(v)==4:
                result = v
            else:
                _raise_format_error()

            result = tuple([float(d) for d in result])

        elif isinstance(v, str):

            if v.startswith('#'):
                v = v[1:]

            if len(v)==6:
                v += 'FF'
            elif len(v)==8:
                pass
            else:
                _raise_format_error()

            if not all(d in HEX_DIGITS for d in v):
                _raise_format_error()

            result = tuple(
                round(int(v[i*2:i*2+2], 16)/255, 6)
                for i in range(4))

        elif isinstance(v, Color):

            result = v.as_tuple()

        else:
            _raise_format_error()

        assert isinstance(result, tuple), result
        assert [type(n) for n in result]==[float]*4, result

        self._tag.name = self.get_name_for_tag()
        self._tag.attrs = {}
        self._tag.clear()

        for i, dimension in enumerate(RGBA):
            dimension_tag = bs4.element.Tag(name=dimension)
            dimension_tag.string = '%.06f' % (result[i],)
            self._tag.append(dimension_tag)
""","""        if isinstance(v, Color):
            channels = v.as_tuple()
        elif isinstance(v, tuple):
            channels = self._channels_of_tuple(v)
        elif isinstance(v, str):
            channels = self._channels_of_hex(v)
        else:
            raise self._format_error(v)

        self._reset_tag()

        for dimension, channel in zip(RGBA, channels):
            subtag = bs4.element.Tag(name=dimension)
            subtag.string = f'{channel:.6f}'
            self._tag.append(subtag)

    @staticmethod
    def _format_error(v):
        return ValueError(
                "Express a colour value as (r,g,b), or (r,g,b,a), or "
                f"as a string of six or eight hex digits: {v}"
                )

    def _channels_of_tuple(self, v):
        padding = {0: (1.0,)*4, 3: (1.0,), 4: ()}
        if len(v) not in padding:
            raise self._format_error(v)
        return tuple(float(d) for d in v + padding[len(v)])

    def _channels_of_hex(self, v):
        digits = v.removeprefix('#')
        if len(digits)==6:
            digits = digits + 'FF'
        if len(digits)!=8 or set(digits).difference(HEX_DIGITS):
            raise self._format_error(v)

        pairs = [digits[i:i+2] for i in range(0, 8, 2)]
        return tuple(round(int(pair, base=16)/255, 6) for pair in pairs)
"""),
(D+'vector.py',"""        return dict(
                [(field.name,
                  field.string)
                 for field in self._tag.children
                 if isinstance(field, bs4.element.Tag)
                 ])
""","""        return {field.name: field.string for field in self._fields()}

    def _fields(self):
        for child in self._tag.children:
            if isinstance(child, bs4.element.Tag):
                yield child
"""),
(D+'vector.py',"""        if v is None:
            members = {}
        elif isinstance(v, tuple):
            if len(v)==0:
                members = {}
            elif len(v)==2:
                members = dict(zip(self.FIELDS, v))

                for m in members.values():
                    if not isinstance(m, (float, int)):
                        self._raise_type_error()

            else:
                self._raise_type_error()
        elif hasattr(v, 'items'):
            members = dict(v.items())

            for m in members.values():
                try:
                    self.our_type(m)
                except (TypeError, ValueError):
                    self._raise_type_error()
        else:
            self._raise_type_error()

        addenda = []

        for k, v in members.items():
            addendum = bs4.element.Tag(name=k)
            if isinstance(v, float):
                addendum.string = '%.010f' % (v,)
            else:
                addendum.string = str(v)
            addenda.append(addendum)

        self._tag.name = self.TAG_NAME
        self._tag.attrs = {}
        self._tag.clear()

        for addendum in addenda:
            self._tag.append(addendum)
""","""        addenda = [self._member_tag(k, m)
                   for k, m in self._members_of(v).items()]

        self._reset_tag()
        self._tag.extend(addenda)

    def _members_of(self, v):
        if v is None or v==():
            return {}

        if hasattr(v, 'items'):
            result = dict(v.items())
            if not all(map(self._is_number, result.values())):
                self._raise_type_error()
            return result

        if (
                not isinstance(v, tuple) or
                len(v)!=2 or
                not all(isinstance(m, (float, int)) for m in v)
                ):
            self._raise_type_error()

        x, y = v
        return dict(zip(self.FIELDS, (x, y)))

    def _is_number(self, m):
        try:
            self.our_type(m)
        except (TypeError, ValueError):
            return False
        return True

    @staticmethod
    def _member_tag(name, number):
        result = bs4.element.Tag(name=name)
        result.string = (
                f'{number:.10f}' if isinstance(number, float)
                else str(number))
        return result
"""),
(D+'vector.py',"""        v = [field.string
             for field in self._tag.children
             if isinstance(field, bs4.element.Tag)
             and field.name==key
             ]

        if len(v)==0:
            return default

        return self.our_type(v[0])
""","""        for field in self._fields():
            if field.name==key:
                return self.our_type(field.string)

        return default
"""),
(D+'vector.py',"""        return tuple(
                [self.our_type(self.value[k])
                 for k in sorted(self.value.keys())]
                )
""","""        return tuple(self.our_type(text)
                     for _, text in sorted(self.value.items()))
"""),
(D+'simple.py',"""        if isinstance(v, Simple):
            v = v.value

        if v==() or v is None:
            result = self.our_type()

        else:
            try:
                result = self._coerce(v)
            except TypeError:
                raise TypeError("I need a value of type "
                                f"{self.our_type.__name__}, "
                                "not "
                                f"{v.__class__.__name__}."
                                )

        result = self._value_to_str(result)

        self._reset_tag()
        self._tag['value'] = result
""","""        text = self._value_to_str(self._coerced(v))
        self._reset_tag()
        self._tag.attrs.update(value=text)

    def _coerced(self, v):
        if isinstance(v, Simple):
            v = v.value

        if v is None or v==():
            return self.our_type()

        try:
            return self._coerce(v)
        except TypeError as problem:
            raise TypeError(
                    "I need a value of type %s, not %s." % (
                        self.our_type.__name__, type(v).__name__)
                    ) from problem
"""),
(D+'simple.py',"""        result = self._tag.get('value', None)
        if result is None:
            raise ValueError(
                    f"This tag should have had a 'value' attribute, "
                    f"but it didn't:\\n\\n"
                    f"{self._tag}")
        assert isinstance(result, str), f"{result} {type(result)} {self._tag} {type(self._tag)}"

        result = self._construct_value(result)

        return result
""","""        if (text := self._tag.get('value')) is None:
            raise ValueError(
                    f"This tag should have had a 'value' attribute, "
                    f"but it didn't:\\n\\n"
                    f"{self._tag}")

        return self._construct_value(text)
"""),
(D+'simple.py',"""        assert isinstance(v, str)
        if v.lower()=='true':
            return True
        elif v.lower()=='false':
            return False
        else:
            warnings.warn(
                    "boolean string should have been 'true' or 'false', "
                    f"but it was {repr(v)}; treating as False.")
            return False

    @classmethod
    def _value_to_str(cls, v):
        return str(v).lower()
""","""        match v.lower():
            case 'true':
                return True
            case 'false':
                return False

        warnings.warn(
                "boolean string should have been 'true' or 'false', "
                f"but it was {v!r}; treating as False.")
        return False

    @classmethod
    def _value_to_str(cls, v):
        return 'true' if v else 'false'
"""),
(D+'transformation.py',"""        for k,v in new_value.items():
            if self.REQUIRED_KEYS is not None:
                if k not in self.REQUIRED_KEYS:
                    raise KeyError(
                    f"{k} is not one of the keys we can accept. "
                    f"We can accept: "
                    f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")

        for k in self.REQUIRED_KEYS or ():
            if k not in new_value.keys():
                raise KeyError(f"{k} is missing from the new value.")

        subtags = []

        for remaining, v in new_value.items():

            v_as_value = self.REQUIRED_KEYS[remaining](v)

            new_subtag = bs4.Tag(name=remaining)
            new_subtag.append(copy(v_as_value.tag))
            new_subtag.append("\\n")
            subtags.append(new_subtag)

        self._reset_tag()

        for new_subtag in subtags:
            self.tag.append(new_subtag)
""","""        required = self.REQUIRED_KEYS
        given = dict(new_value.items())

        if required is not None:
            unknown = [k for k in given if k not in required]
            if unknown:
                raise KeyError(
                    f"{unknown[0]} is not one of the keys we can accept. "
                    f"We can accept: "
                    f"{' '.join(sorted(required))}")

            missing = [k for k in required if k not in given]
            if missing:
                raise KeyError(f"{missing[0]} is missing from the new value.")

        subtags = [self._member_tag(k, required[k](v))
                   for k, v in given.items()]

        self._reset_tag()
        for subtag in subtags:
            self._tag.append(subtag)

    @staticmethod
    def _member_tag(name, value):
        result = bs4.Tag(name=name)
        for child in (copy(value.tag), "\\n"):
            result.append(child)
        return result
"""),
(D+'transformation.py',"""        def name_and_value(n):

            name = n.name

            assert name!='layer'

            value_tags = [v
                 for v in n.children
                 if isinstance(v, bs4.element.Tag)
                 ]

            if len(value_tags)!=1:
                raise ValueError("Fields in composite types should only "
                                 f"have a single value: {n}")

            value = Value.from_tag(value_tags[0])

            return name, value

        result = dict(
                [name_and_value(field)
                 for field in self._tag.children
                 if isinstance(field, bs4.element.Tag)
                 ])
""","""        result = {}

        for field in _child_tags(self._tag):
            assert field.name!='layer'

            value_tags = _child_tags(field)

            if len(value_tags)!=1:
                raise ValueError("Fields in composite types should only "
                                 f"have a single value: {field}")

            result[field.name] = Value.from_tag(*value_tags)
"""),
(D+'transformation.py',"""        found = [v
                 for v in self._tag.children
                 if isinstance(v, bs4.element.Tag)
                 and v.name==key
                 ]

        if len(found)==0:
            return default
        elif len(found)>1:
            raise ValueError(f"multiple values for {key}!")

        values = [v
                 for v in found[0].children
                 if isinstance(v, bs4.element.Tag)
                 ]

        if len(values)==0:
            return default
        elif len(values)>1:
            raise ValueError(f"multiple values for {key}!")
        elif values[0]==None:
            return default
        else:
            return Value.from_tag(values[0])

    def keys(self):
        # No point constructing all the values
        return [v.name
                 for v in self._tag.children
                 if isinstance(v, bs4.element.Tag)
                 ]
""","""        level = [v for v in _child_tags(self._tag) if v.name==key]

        if len(level)==1:
            level = _child_tags(level[0])

        if len(level)>1:
            raise ValueError(f"multiple values for {key}!")

        if not level:
            return default

        return Value.from_tag(level[0])

    def keys(self):
        # No point constructing all the values
        return [v.name for v in _child_tags(self._tag)]
"""),
(D+'transformation.py',"""@Value.handles_type()
class Composite(Value):
""","""def _child_tags(tag):
    return [v for v in tag.children if isinstance(v, bs4.element.Tag)]

@Value.handles_type()
class Composite(Value):
"""),
(D+'canvas.py',"""        layers = [field
                 for field in self._tag.children
                 if isinstance(field, bs4.element.Tag)
                 ]
        if len([n for n in layers if n.name!='layer'])!=0:
            raise ValueError(
                    f"Only layers can be the children of a canvas: {self._tag}"
                    )

        result = [Layer.from_tag(layer) for layer in layers]

        return result
""","""        result = []

        tags = self._tag.find_all(True, recursive=False)
        if any(n.name!='layer' for n in tags):
            raise ValueError(
                    f"Only layers can be the children of a canvas: {self._tag}"
                    )

        for tag in tags:
            result.append(Layer.from_tag(tag))

        return result
"""),
(D+'blendmethod.py',"""        result = super()._get_empty_tag(name)
        result['static'] = 'true'
        return result
""","""        tag = super()._get_empty_tag(name)
        tag.attrs['static'] = 'true'
        return tag
"""),
]
