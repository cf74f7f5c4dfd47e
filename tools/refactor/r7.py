A='sangfroid/animation.py'
F='sangfroid/format.py'
V='sangfroid/value/'
L='sangfroid/layer/layer.py'
EDITS=[
# atomic save, in-memory gzip, contextmanager loading
(F,"import gzip\nimport os\n","import contextlib\nimport gzip\nimport io\nimport os\nfrom pathlib import Path\n"),
(F,"""class FileContextHandler:
    def __init__(self, f):
        self.soup = BeautifulSoup(
                f,
                features = 'xml',
                )

    def __enter__(self):
        return self.soup

    def __exit__(self, exc_type, exc_value, traceback):
        pass
""","""@contextlib.contextmanager
def FileContextHandler(f):
    yield BeautifulSoup(f, features='xml')
"""),
(F,"""        with open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""        return FileContextHandler(Path(self.filename).read_bytes())

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)
        Path(filename).write_bytes(encoded)
        self.filename = filename
"""),
(F,"""        with gzip.open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with gzip.open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""        with gzip.open(self.filename) as f:
            contents = f.read()
        return FileContextHandler(contents)

    def save(self, content, filename=None):
        filename = filename or self.filename

        buffer = io.BytesIO()
        with gzip.GzipFile(fileobj=buffer, mode='wb') as f:
            f.write(self._to_bytes(content))

        with open(filename, 'wb') as f:
            f.write(buffer.getvalue())

        self.filename = filename
"""),
(F,"""            extension = os.path.splitext(filename)[1].lower()
            if extension.startswith('.'):
                extension = extension[1:]
""","""            extension = os.path.splitext(filename)[1].lower().lstrip('.')
"""),
(F,"""            handlers = [h for h in cls.handlers()
                        if h.magic_number==magic]
""","""            by_magic = {h.magic_number: h for h in cls.handlers()}
            handlers = [by_magic[magic]] if magic in by_magic else []
"""),
# constants moved out of classes, dispatch tables
(V+'value.py',"""        whether = bool(whether)
        if whether==self.is_animated:
            pass
        elif whether:
""","""        if self.is_animated is bool(whether):
            return

        if whether:
"""),
(V+'value.py',"""    @property
    def before(self):
        return self._before

    @before.setter
    def before(self, v):
        self._before = self._check_interpolation_type(v, False)

    @property
    def after(self):
        return self._after

    @after.setter
    def after(self, v):
        self._after = self._check_interpolation_type(v, False)
""","""    def _interpolation(attr):
        def getter(self):
            return getattr(self, attr)

        def setter(self, v):
            checked = self._check_interpolation_type(v, False)
            setattr(self, attr, checked)

        return property(getter, setter)

    before = _interpolation('_before')
    after = _interpolation('_after')
    del _interpolation
"""),
(V+'value.py',"""        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
            self._set_waypoints(v)
        elif isinstance(v, dict):
            self.timeline = list(v.values())
        elif isinstance(v, Timeline):
            if v.parent is self:
                return
            self._set_waypoints(v.values())
        else:
            raise TypeError("A timeline can only be set to another timeline or "
                            "a dict or list of Waypoints.")
""","""        match v:
            case Timeline(parent=parent) if parent is self:
                pass
            case Timeline():
                self._set_waypoints(v.values())
            case dict():
                self.timeline = [*v.values()]
            case list() if all(isinstance(n, Waypoint) for n in v):
                self._set_waypoints(v)
            case _:
                raise TypeError(
                        "A timeline can only be set to another timeline or "
                        "a dict or list of Waypoints.")
"""),
(V+'value.py',"""        for left, right in zip(v, v[1:]):
            if left.time==right.time:
                raise ValueError("There is more than one waypoint "
                                 f"at {left.time}.")
""","""        times = [w.time for w in v]
        for t in times:
            if times.count(t)>1:
                raise ValueError(f"There is more than one waypoint at {t}.")
"""),
(V+'value.py',"""        waypoint_tags = [w.tag for w in v]

        self._set_animated(
                whether = True,
                adjust_contents = False,
                )
        self._tag.clear()

        for i, waypoint_tag in enumerate(waypoint_tags):
            if i!=0:
                self._tag.append('\\n')
            self._tag.append(waypoint_tag)
""","""        first, *rest = [w.tag for w in v]

        self._set_animated(whether=True, adjust_contents=False)
        self._tag.clear()

        self._tag.append(first)
        for waypoint_tag in rest:
            self._tag.append('\\n')
            self._tag.append(waypoint_tag)
"""),
(V+'value.py',"""        def raise_argument_error():
            raise TypeError(
                    "The argument to add() "
                    "must be either a Waypoint or a list of Waypoints.")

        if isinstance(waypoints, Waypoint):
            waypoints = [waypoints]
        elif isinstance(waypoints, list):
            pass
        else:
            raise_argument_error()

        # check they're sensible
        for w in waypoints:
            if not isinstance(w, Waypoint):
                raise_argument_error()
            elif not isinstance(w.tag, bs4.Tag):
                raise TypeError(
                        f'{w} has a tag of type {type(w.tag)}')

        existing = self.parent._waypoints()
        clashes = [
            (old.time, new.time)
                for old in existing.values()
                for new in waypoints
                if old.time==new.time
                ]

        if clashes and not overwrite:
            raise ValueError("There are already Waypoints with those "
                             "times in this timeline:\\n"
                             f"{clashes}")

        existing |= dict([(w.time, w) for w in waypoints])

        self.parent._set_waypoints(existing.values())

        return self
""","""        new_ones = waypoints if isinstance(waypoints, list) else [waypoints]

        for w in new_ones:
            if not isinstance(w, Waypoint):
                raise TypeError(
                        "The argument to add() "
                        "must be either a Waypoint or a list of Waypoints.")

        result = self.parent._waypoints()
        clashes = [w.time for w in new_ones if w.time in result]

        if clashes and not overwrite:
            raise ValueError("There are already Waypoints with those "
                             "times in this timeline:\\n"
                             f"{clashes}")

        for w in new_ones:
            result[w.time] = w

        self.parent._set_waypoints(list(result.values()))

        return self
"""),
(V+'value.py',"""        if self._tag.name!=Value.ANIMATED:
            return []

        result = [wt for wt in self._tag
                  if isinstance(wt, bs4.element.Tag)]

        return result
""","""        if not self.is_animated:
            return []
        return list(self._tag.find_all(True, recursive=False))
"""),
(V+'vector.py',"""        try:
            if len(other)!=len(self):
                return False
        except TypeError:
            return False

        return all([left==right for left,right in zip(self.as_tuple(), other)])
""","""        try:
            length = len(other)
        except TypeError:
            return False

        if length!=len(self):
            return False

        for left, right in zip(self.as_tuple(), other):
            if left!=right:
                return False
        return True
"""),
(V+'vector.py',"""            addendum = bs4.element.Tag(name=k)
            if isinstance(v, float):
                addendum.string = '%.010f' % (v,)
            else:
                addendum.string = str(v)
            addenda.append(addendum)
""","""            addendum = bs4.element.Tag(name=k)
            addendum.string = {True: '{:.10f}', False: '{}'}[
                    isinstance(v, float)].format(v)
            addenda.append(addendum)
"""),
(V+'color.py',"""            if len(v)==0:
                result = (1.0, 1.0, 1.0, 1.0)
            elif len(v)==3:
                result = v + (1.0,)
            elif len(v)==4:
                result = v
            else:
                _raise_format_error()
""","""            match v:
                case ():
                    result = (1.0,)*4
                case (r, g, b):
                    result = (r, g, b, 1.0)
                case (_, _, _, _):
                    result = v
                case _:
                    _raise_format_error()
"""),
(V+'color.py',"""            result = tuple(
                round(int(v[i*2:i*2+2], 16)/255, 6)
                for i in range(4))
""","""            octets = zip(v[0::2], v[1::2])
            result = tuple(
                round(int(high+low, 16)/255, 6)
                for high, low in octets)
"""),
(V+'simple.py',"""        result = self._value_to_str(result)

        self._reset_tag()
        self._tag['value'] = result
""","""        attrs = {'value': self._value_to_str(result)}

        self._reset_tag()
        for k in attrs:
            self._tag[k] = attrs[k]
"""),
(V+'simple.py',"""        if v.lower()=='true':
            return True
        elif v.lower()=='false':
            return False
        else:
            warnings.warn(
                    "boolean string should have been 'true' or 'false', "
                    f"but it was {repr(v)}; treating as False.")
            return False
""","""        known = {'true': True, 'false': False}
        if v.lower() in known:
            return known[v.lower()]

        warnings.warn(
                "boolean string should have been 'true' or 'false', "
                f"but it was {repr(v)}; treating as False.")
        return False
"""),
(L,"""        found = self._find_param(f)
        if found is None:
            raise KeyError(f)
        return _name_and_value_of(found)[1]
""","""        if f not in self:
            raise KeyError(f)
        return _name_and_value_of(self._find_param(f))[1]
"""),
(L,"""        return self._tag.find('param', attrs={'name': name},
                              recursive=False)
""","""        for param in self._tag.find_all('param', recursive=False):
            if param.get('name')==name:
                return param
        return None
"""),
(L,"""    def __len__(self):
        return len(list(self.children))
""","""    def __len__(self):
        count = 0
        for _ in self.children:
            count += 1
        return count
"""),
(L,"""        result = [
                self.from_tag(x) for x in
                self._holder_of_sublayers().find_all(
                    matcher,
                    recursive=recursive,
                    )
                ]
""","""        holder = self._holder_of_sublayers()
        candidates = holder.descendants if recursive else holder.children
        result = [self.from_tag(x) for x in candidates
                  if isinstance(x, bs4.Tag) and matcher(x)]
"""),
]
