A='sangfroid/animation.py'
F='sangfroid/format.py'
V='sangfroid/value/'
L='sangfroid/layer/layer.py'
G='sangfroid/layer/group.py'
FI='sangfroid/field.py'
T='sangfroid/t.py'
B='bywords/bywords.py'
EDITS=[
# t.py: helpers, table, slots, operator module
(T,"import bs4\n\n@functools","import operator\nimport bs4\n\n@functools"),
(T,"""        if ref is None:
            root_tag = None
        elif isinstance(ref, bs4.Tag):
            root_tag = _canvas_root(ref)
        elif hasattr(ref, 'tag'):
            root_tag = _canvas_root(getattr(ref, 'tag'))
        else:
            raise TypeError(
                    "'ref' must be bs4.Tag, a Layer subclass, or None, "
                    f"but not {type(ref)}.")

        if root_tag is None:
            self._fps = None
        else:
            self._fps = float(root_tag['fps'])
        
            if not 0.0<self._fps<math.inf:
                raise ValueError(f"FPS must be positive: {self._fps}")

        try:
            if isinstance(value, str):
                self._frames = self._parse_time_spec(value)
            elif isinstance(value, T):
                # this already counts from the start
                self._frames = value._frames
            else:
                self._frames = float(value)

                if self._frames < 0:
                    if root_tag is None:
                        raise ValueError("Negative frame counts require "
                                         "an anchored ref.")

                    animation_duration = 1+(
                            self._parse_time_spec(
                                root_tag.attrs['end-time'],
                                )
                            - 
                            self._parse_time_spec(
                                root_tag.attrs['begin-time'],
                                )
                            )

                    self._frames = animation_duration + self._frames

        except TypeError:
            raise ValueError(f"Invalid time specification: {value}")

        assert isinstance(self._frames, float)

        if not math.isfinite(self._frames):
            raise ValueError(f"Invalid time specification: {value}")
""","""        root_tag = self._root_of(ref)
        self._fps = self._fps_of(root_tag)

        try:
            frames = self._frames_from(value, root_tag)
        except TypeError:
            raise ValueError(f"Invalid time specification: {value}")

        assert isinstance(frames, float)

        if math.isnan(frames) or math.isinf(frames):
            raise ValueError(f"Invalid time specification: {value}")

        self._frames = frames

    @staticmethod
    def _root_of(ref):
        if ref is None:
            return None

        if not isinstance(ref, bs4.Tag):
            try:
                ref = ref.tag
            except AttributeError:
                raise TypeError(
                        "'ref' must be bs4.Tag, a Layer subclass, or None, "
                        f"but not {type(ref)}.") from None

        return _canvas_root(ref)

    @staticmethod
    def _fps_of(root_tag):
        if root_tag is None:
            return None
        fps = float(root_tag['fps'])
        if fps<=0.0 or not math.isfinite(fps):
            raise ValueError(f"FPS must be positive: {fps}")
        return fps

    def _frames_from(self, value, root_tag):
        if isinstance(value, T):
            # this already counts from the start
            return value._frames
        if isinstance(value, str):
            return self._parse_time_spec(value)

        frames = float(value)
        if frames >= 0:
            return frames
        return self._count_back(frames, root_tag)

    def _count_back(self, frames, root_tag):
        if not frames<0:
            return frames # nan
        if root_tag is None:
            raise ValueError("Negative frame counts require "
                             "an anchored ref.")
        begin, end = (self._parse_time_spec(root_tag.attrs[which])
                      for which in ('begin-time', 'end-time'))
        return 1+(end-begin) + frames
"""),
(T,"""        return self._compare(other, lambda a,b:a<b)
""","""        return self._compare(other, operator.lt)
"""),
(T,"""        return self._compare(other, lambda a,b:a==b)
""","""        return self._compare(other, operator.eq)
"""),
(T,"""        if seconds is not None and seconds!=0.0:

            if self._fps is None:
                complain("Time specifications in seconds require "
                         "an anchored ref.")
            result += seconds * self._fps
""","""        if seconds:
            try:
                result += seconds * self._fps
            except TypeError:
                complain("Time specifications in seconds require "
                         "an anchored ref.")
"""),
(T,"""            if seconds>=size:
                result.append('%d%c' % (seconds//size, unit))
                seconds = seconds % size
""","""            whole, rest = divmod(seconds, size)
            if whole>=1:
                result.append(f'{int(whole)}{unit}')
                seconds = rest
"""),
(T,"""        if self._frames<0:
            minus = '-'
        else:
            minus = ''

        result = minus + ' '.join(result)

        return result
""","""        return ('-' if self._frames<0 else '') + ' '.join(result)
"""),
# WordTiming as a dataclass
(B,"import functools\n","import functools\nfrom dataclasses import dataclass\n"),
(B,"""@functools.total_ordering
class WordTiming:
    def __init__(self, text, item, length):
        self.text = text
        self.item = item
        self.length = length
        self.time = 0

    def __lt__(self, other):
        return self.time<other.time

    def __eq__(self, other):
        return self.time==other.time
""","""@functools.total_ordering
@dataclass(eq=False, repr=False)
class WordTiming:
    text: str
    item: object
    length: int
    time: float = 0

    def __lt__(self, other):
        return self.time<other.time

    def __eq__(self, other):
        return self.time==other.time

    __hash__ = None
"""),
(B,"""        result = []
        found = None

        for start, duration, text in self.lines:
            for group in self.groups:
                found = group.matches(text,
                                      duration,
                                      start,
                                      letter_at_a_time,
                                 )
                if found:
                    break
            if found:
                result.extend(found)
            else:
                self.no_matches.append(text)

        self.words = sorted(result)
""","""        by_line = []
        found = None

        for start, duration, text in self.lines:
            for group in self.groups:
                found = group.matches(text, duration, start,
                                      letter_at_a_time)
                if found:
                    break

            if not found:
                self.no_matches.append(text)
                continue

            by_line.append(found)

        self.words = [w for words in by_line for w in words]
        self.words.sort()
"""),
(B,"""            i = 0
            while words:
                word = words.pop(0)

                i += len(word)

                word_timings.append(
                        WordTiming(
                            text = item.desc[:i],
                            item = item,
                            length = len(word),
                            ))

                if words and words[0].strip()=='':
                    i += len(words.pop(0))
""","""            i = 0
            queue = collections.deque(words)
            while queue:
                word = queue.popleft()
                i += len(word)
                word_timings.append(
                        WordTiming(item.desc[:i], item, len(word)))

                if queue and not queue[0].strip():
                    i += len(queue.popleft())
"""),
# format: handlers by subclass
(F,"""        return [
                h for h in globals().values()
                if isinstance(h, type)
                and issubclass(h, Format)
                and h!=Format
                ]
""","""        def below(c):
            for s in c.__subclasses__():
                yield s
                yield from below(s)
        return list(below(Format))
"""),
(F,"""        assert len(handlers)==1

        handler = handlers[0]

        result = handler.__new__(handler)
        result.filename = filename
        return result
""","""        [handler] = handlers

        result = object.__new__(handler)
        result.filename = filename
        return result
"""),
(F,"""    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename

class Sifz""","""    def _open(self, filename, mode):
        return open(filename, mode)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with self._open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename

class Sifz"""),
(F,"""class Sifz(Format):
""","""class Sifz(Sif):
"""),
(F,"""        with gzip.open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with gzip.open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""        with self._open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def _open(self, filename, mode):
        return gzip.open(filename, mode)
"""),
# layer
(L,"""        cursor = self._tag.parent
        while cursor is not None:
            if cursor.name=='layer':
                return Layer.from_tag(cursor)
                return cursor
            cursor = cursor.parent
""","""        found = self._tag.find_parent('layer')
        if found is None:
            return None
        return Layer.from_tag(found)
"""),
(L,"""        cursor = self._tag.parent
        result = 0
        while cursor is not None:
            if cursor.name=='layer':
                result += 1
            cursor = cursor.parent
        return result
""","""        return len(self._tag.find_parents('layer'))
"""),
(L,"""        if 'attrs' in kwargs:
            for k,v in kwargs['attrs'].items():
                if k in kwargs:
                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
                kwargs[k] = v

            del kwargs['attrs']

        for k,v in kwargs.items():
            if k=='type':
                if not isinstance(v, str):
                    v = v.__name__

                kwargs[k] = normalise_synfig_layer_type_name(v)
""","""        for k,v in kwargs.pop('attrs', {}).items():
            if k in kwargs:
                raise ValueError(f"{k} specified both as a kwarg and in attrs")
            kwargs[k] = v

        try:
            wanted_type = kwargs['type']
        except KeyError:
            pass
        else:
            if not isinstance(wanted_type, str):
                wanted_type = wanted_type.__name__
            kwargs['type'] = normalise_synfig_layer_type_name(wanted_type)
"""),
(L,"""        items = self.find_all(*args, **kwargs)
        if items:
            return items[0]
        else:
            return None
""","""        return next(iter(self.find_all(*args, **kwargs)), None)
"""),
(G,"""        after = None
        # "after" from our perspective; *before* in the XML

        canvas = self.canvas_tag
        for child in canvas.contents:
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name=='layer':
                after = child
                break

        if after is None:
            canvas.append(layer._tag)
        else:
            after.insert_before(layer._tag)
""","""        canvas = self.canvas_tag
        # "after" from our perspective; *before* in the XML
        after = canvas.find('layer', recursive=False)

        if after:
            after.insert_before(layer._tag)
        else:
            canvas.append(layer._tag)
""") if False else (G,"""        canvas = self.canvas_tag
        for child in canvas.contents:
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name=='layer':
                after = child
                break

        if after is None:""","""        canvas = self.canvas_tag
        after = canvas.find('layer', recursive=False)

        if after is None:"""),
(G,"""        for child in reversed(canvas.contents):
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name!='layer':
                continue

            result = Layer.from_tag(child)
            yield result

            if include_descendants:
                yield from result.children
""","""        for child in canvas.find_all('layer', recursive=False)[::-1]:
            result = Layer.from_tag(child)
            yield result

            if include_descendants:
                for grandchild in result.children:
                    yield grandchild
"""),
# field
(FI,"""        if self.name not in obj._tag.attrs:
            logger.debug("no %s field; returning default: %s",
                         self.name,
                         self.default,
                         )
            return self.default_for(obj.__class__)

        value = obj._tag.get(self.name)
        logger.debug("%s field is %s",
                     self.name,
                     value,
                     )

        if value is None:
            return None
        elif issubclass(self.type_override, bool):
            return str(value).lower()=='true'
        else:
            return self.type_override(value)
""","""        try:
            value = obj._tag[self.name]
        except KeyError:
            return self.default_for(type(obj))

        return self._from_attr(value)

    def _from_attr(self, value):
        if value is None:
            return None
        if self.type_override is bool:
            return str(value).lower()=='true'
        return self.type_override(value)

    def _to_attr(self, value):
        if self.type_override is bool:
            return str(bool(value)).lower()
        return self.type_override(value)
"""),
(FI,"""        if issubclass(self.type_override, bool):
            if value:
                value = 'true'
            else:
                value = 'false'
        else:
            value = self.type_override(value)

        obj._tag[self.name] = value
""","""        obj._tag[self.name] = self._to_attr(value)
"""),
(FI,"""        value = self.type_(value)

        subtag = self.get_subtag_for_obj(obj)

        if subtag is None:
            subtag = bs4.Tag(name=self.name)
            obj._tag.insert(0, subtag)

        subtag.string = value
""","""        text = self.type_(value)
        subtag = self.get_subtag_for_obj(obj)

        if subtag is not None:
            subtag.string = text
            return

        subtag = bs4.Tag(name=self.name)
        subtag.string = text
        obj._tag.insert(0, subtag)
"""),
# registry
('sangfroid/registry.py',"""        name = normalise_synfig_layer_type_name(name)

        if name not in self.handlers:
            raise KeyError(
                    f"This tag is a {name}, which I don't know how "
                    "to handle.\\n\\n"
                    "Here are the things I do know:\\n"
                    f"  {' '.join(sorted(self.handlers.keys()))}"
                    )
        result = self.handlers[name]

        return result
""","""        name = normalise_synfig_layer_type_name(name)

        try:
            return self.handlers[name]
        except KeyError:
            known = ' '.join(sorted(self.handlers))
            raise KeyError(
                    f"This tag is a {name}, which I don't know how "
                    "to handle.\\n\\n"
                    "Here are the things I do know:\\n"
                    f"  {known}"
                    ) from None
"""),
# values: simple
(V+'simple.py',"""        if v==() or v is None:
            result = self.our_type()

        else:
            try:
                result = self._coerce(v)
            except TypeError:
                raise TypeError("I need a value of type "
                                f"{self.our_type.__name__}, "
                                "not "
                                f"{v.__class__.__name__}."
                                )

        result = self._value_to_str(result)

        self._reset_tag()
        self._tag['value'] = result
""","""        as_str = self._value_to_str(self._result_of(v))

        self._reset_tag()
        self._tag['value'] = as_str

    def _result_of(self, v):
        if v is None or v==():
            return self.our_type()

        try:
            return self._coerce(v)
        except TypeError as te:
            raise TypeError("I need a value of type "
                            f"{self.our_type.__name__}, "
                            "not "
                            f"{type(v).__name__}."
                            ) from te
"""),
(V+'gradient.py',"""        colour_tags = []

        for pos, colour in sorted(v.items()):

            colour_tag = Color(colour).tag
            colour_tag['pos'] = '%.06g' % (pos,)
            colour_tags.append(colour_tag)

        self._reset_tag()

        for colour_tag in colour_tags:
            self._tag.append(colour_tag)
""","""        colour_tags = [
                self._colour_tag(pos, v[pos])
                for pos in sorted(v)
                ]

        self._reset_tag()
        self._tag.extend(colour_tags)

    @staticmethod
    def _colour_tag(pos, colour):
        result = Color(colour).tag
        result['pos'] = '%.06g' % (pos,)
        return result
"""),
(V+'transformation.py',"""        for k,v in new_value.items():
            if self.REQUIRED_KEYS is not None:
                if k not in self.REQUIRED_KEYS:
                    raise KeyError(
                    f"{k} is not one of the keys we can accept. "
                    f"We can accept: "
                    f"{' '.join(sorted(self.REQUIRED_KEYS.keys()))}")

        for k in self.REQUIRED_KEYS or ():
            if k not in new_value.keys():
                raise KeyError(f"{k} is missing from the new value.")
""","""        if self.REQUIRED_KEYS is not None:
            given = set(new_value.keys())
            wanted = set(self.REQUIRED_KEYS)

            for k in given-wanted:
                raise KeyError(
                        f"{k} is not one of the keys we can accept. "
                        f"We can accept: "
                        f"{' '.join(sorted(wanted))}")

            for k in wanted-given:
                raise KeyError(f"{k} is missing from the new value.")
"""),
(V+'canvas.py',"""        layers = [field
                 for field in self._tag.children
                 if isinstance(field, bs4.element.Tag)
                 ]
        if len([n for n in layers if n.name!='layer'])!=0:
            raise ValueError(
                    f"Only layers can be the children of a canvas: {self._tag}"
                    )

        result = [Layer.from_tag(layer) for layer in layers]

        return result
""","""        result = []
        tags = self._tag.find_all(True, recursive=False)

        if not all(tag.name=='layer' for tag in tags):
            raise ValueError(
                    f"Only layers can be the children of a canvas: {self._tag}"
                    )

        for tag in tags:
            result.append(Layer.from_tag(tag))

        return result
"""),
(V+'value.py',"""        waypoints = self._waypoint_tags()

        if not waypoints:
            return {}

        our_type = self._tag['type']

        values = [Waypoint.from_tag(wt,
                                    our_type = our_type,
                                    )
                  for wt in waypoints]

        result = dict([(v.time, v) for v in values])

        return result
""","""        result = {}

        for wt in self._waypoint_tags():
            waypoint = Waypoint.from_tag(wt, our_type=self._tag['type'])
            result[waypoint.time] = waypoint

        return result
"""),
(V+'value.py',"""        if len(args)==1 and isinstance(args[0], bs4.element.Tag):
            self._tag = args[0]
        else:
            self._tag = self._get_empty_tag()
            if len(args)==1:
                self.value = args[0]
            else:
                self.value = args

        assert self._tag is not None
""","""        match args:
            case [bs4.element.Tag() as tag]:
                self._tag = tag
            case [single]:
                self._tag = self._get_empty_tag()
                self.value = single
            case _:
                self._tag = self._get_empty_tag()
                self.value = args

        assert self._tag is not None
"""),
(V+'value.py',"""        if isinstance(t, (int, float, str)):
            t = T(t, ref = self.parent._tag)
        elif isinstance(t, T):
            t = self._ensure_fps(t)

        waypoints = self.parent._waypoints()

        waypoints.__delitem__(t)

        self.parent._set_waypoints(waypoints.values())
""","""        if isinstance(t, (int, float, str, T)):
            t = self._ensure_fps(t)

        waypoints = self.parent._waypoints()
        del waypoints[t]
        self.parent._set_waypoints(waypoints.values())
"""),
(V+'value.py',"""        if isinstance(v, Waypoint):
            new_waypoint = copy.copy(v)
            new_waypoint.time = t
        elif isinstance(v, self.parent.__class__):
            new_waypoint = Waypoint(
                    time = t,
                    value = v,
                    ref = self.parent.tag,
                    )
        else:
            new_waypoint = Waypoint(
                    time = t,
                    value = self.parent.__class__(v),
                    ref = self.parent.tag,
                    )
""","""        our_class = type(self.parent)

        if isinstance(v, Waypoint):
            new_waypoint = copy.copy(v)
            new_waypoint.time = t
        else:
            if not isinstance(v, our_class):
                v = our_class(v)
            new_waypoint = Waypoint(t, v, ref=self.parent.tag)
"""),
(V+'vector.py',"""        return dict(
                [(field.name,
                  field.string)
                 for field in self._tag.children
                 if isinstance(field, bs4.element.Tag)
                 ])
""","""        return {field.name: field.string for field in self._field_tags()}

    def _field_tags(self):
        return (field for field in self._tag
                if isinstance(field, bs4.element.Tag))
"""),
(V+'vector.py',"""        v = [field.string
             for field in self._tag.children
             if isinstance(field, bs4.element.Tag)
             and field.name==key
             ]

        if len(v)==0:
            return default

        return self.our_type(v[0])
""","""        for field in self._field_tags():
            if field.name==key:
                return self.our_type(field.string)

        return default
"""),
('sangfroid/template/replacer.py',"""        temp_filename = filename+'.1'

        with open(temp_filename, 'w', newline='') as f:
            f.write(text)
        os.rename(temp_filename, filename)
        print("Written:", filename)
""","""        temp_filename = f'{filename}.1'
        try:
            with open(temp_filename, mode='w', newline='') as f:
                f.write(text)
        except OSError:
            if os.path.exists(temp_filename):
                os.unlink(temp_filename)
            raise
        os.replace(temp_filename, filename)
        print("Written:", filename)
"""),
('sangfroid/keyframe.py',"""        if self._tag['active']=='true':
            return True
        else:
            return False
""","""        return self._tag['active']=='true'
"""),
('sangfroid/keyframe.py',"""    def __len__(self):
        return len(self.animation.tag.find_all('keyframe'))

    def __iter__(self):
        for keyframe_tag in self.animation.tag.find_all('keyframe'):
            yield Keyframe(keyframe_tag)
""","""    def _tags(self):
        return self.animation.tag.find_all('keyframe')

    def __len__(self):
        return len(self._tags())

    def __iter__(self):
        return map(Keyframe, self._tags())
"""),
]
