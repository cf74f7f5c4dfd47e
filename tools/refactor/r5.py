A='sangfroid/animation.py'
F='sangfroid/format.py'
K='sangfroid/keyframe.py'
R='sangfroid/registry.py'
U='sangfroid/util.py'
EDITS=[
(A,"""        self._filename = filename

        if filename is None:
            self._format = Blank()
        else:
            self._format = Format.from_filename(filename)

        with self._format.main_file() as soup:
            self._soup = soup

        assert len(self._soup.contents)==1
        tag = self._soup.contents[0]
        super().__init__(
                tag = tag,
                )
""","""        self._filename = filename
        self._format = (
                Blank() if filename is None
                else Format.from_filename(filename)
                )

        with self._format.main_file() as self._soup:
            pass

        (tag,) = self._soup.contents
        super().__init__(tag)
"""),
(A,"""        s = super().__get__(obj, obj_type)

        if s is None:
            return None

        return T(s,
                 ref = obj._tag,
                 )

    def __set__(self, obj, value):
        super().__set__(obj, T(value, ref = obj._tag))
""","""        spec = super().__get__(obj, obj_type)
        return spec if spec is None else T(spec, obj._tag)

    def __set__(self, obj, value):
        time = T(value, ref = obj._tag)
        super().__set__(obj, str(time))
"""),
(A,"""        return (
                int(self._tag.attrs['width']),
                int(self._tag.attrs['height']),
                )
""","""        return tuple(int(self._tag[side]) for side in ('width', 'height'))
"""),
(A,"""        return tuple([
            float(n) for n in
            self._tag.attrs['view-box'].split(' ')
            ])

""","""        return self._floats_in('view-box')

    def _floats_in(self, attr):
        return tuple(map(float, self._tag[attr].split(' ')))
"""),
(A,"""        triplet = tuple([
            float(n) for n in
            self._tag.attrs['bgcolor'].split(' ')
            ])
        result = Color(*triplet)
        return result
""","""        return Color(*self._floats_in('bgcolor'))
"""),
(A,"""        if filename is None:
            if self._format is None:
                raise ValueError(
                        "If you didn't give a filename at creation, "
                        "you must give one when you save."
                        )
            filename = self._format.filename
            new_format = self._format
        else:
            # XXX copy the images over
            new_format = Format.from_filename(filename,
                                              load = False,
                                              )

        new_format.save(
                content = self._soup,
                filename = filename,
                )
        self._format = new_format
""","""        # XXX copy the images over
        target = self._format if filename is None else Format.from_filename(
                filename, load=False)

        if target is None:
            raise ValueError(
                    "If you didn't give a filename at creation, "
                    "you must give one when you save."
                    )

        target.save(self._soup, target.filename)
        self._format = target
"""),
(F,"""        if load:
            with open(filename, 'rb') as f:
                magic = f.read(2)

            if not magic:
                raise ValueError("The file {filename} is empty.")

            handlers = [h for h in cls.handlers()
                        if h.magic_number==magic]
            if not handlers:
                raise ValueError(
                        f"The file {filename} isn't in a format I know how "
                        "to handle.")
        else:
            extension = os.path.splitext(filename)[1].lower()
            if extension.startswith('.'):
                extension = extension[1:]

            handlers = [h for h in cls.handlers()
                        if extension in h.extensions]
            if not handlers:
                raise ValueError(
                        "I don't know how to handle files with the "
                        f"extension {extension}."
                        )

        assert len(handlers)==1

        handler = handlers[0]

        result = handler.__new__(handler)
        result.filename = filename
        return result
""","""        handler = (cls._handler_for_contents(filename) if load
                   else cls._handler_for_name(filename))

        result = handler.__new__(handler)
        result.filename = filename
        return result

    @classmethod
    def _handler_for_contents(cls, filename):
        with open(filename, mode='rb') as f:
            magic = f.read(2)

        if magic==b'':
            raise ValueError("The file {filename} is empty.")

        for handler in cls.handlers():
            if handler.magic_number==magic:
                return handler

        raise ValueError(
                f"The file {filename} isn't in a format I know how "
                "to handle.")

    @classmethod
    def _handler_for_name(cls, filename):
        _, extension = os.path.splitext(filename)
        extension = extension.removeprefix('.').lower()

        handler = next(
                (h for h in cls.handlers() if extension in h.extensions),
                None)
        if handler is None:
            raise ValueError(
                    "I don't know how to handle files with the "
                    f"extension {extension}."
                    )
        return handler
"""),
(F,"""        return str(content).encode('UTF-8')
""","""        return bytes(str(content), 'utf-8')

    _open = staticmethod(open)

    def _load(self):
        with self._open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def _write(self, content, filename):
        destination = filename if filename else self.filename
        data = self._to_bytes(content)

        with self._open(destination, 'wb') as f:
            f.write(data)

        self.filename = destination
"""),
(F,"""    def main_file(self):
        with open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""    def main_file(self):
        return self._load()

    def save(self, content, filename=None):
        self._write(content, filename)
"""),
(F,"""    def main_file(self):
        with gzip.open(self.filename, 'rb') as f:
            return FileContextHandler(f)

    def save(self, content, filename=None):
        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with gzip.open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""    _open = staticmethod(gzip.open)

    def main_file(self):
        return self._load()

    def save(self, content, filename=None):
        self._write(content, filename)
"""),
(F,"""        return [
                h for h in globals().values()
                if isinstance(h, type)
                and issubclass(h, Format)
                and h!=Format
                ]
""","""        return [Sif, Sifz, Sfg, Blank]
"""),
(F,"""class FileContextHandler:
    def __init__(self, f):
        self.soup = BeautifulSoup(
                f,
                features = 'xml',
                )
""","""class FileContextHandler:
    def __init__(self, f):
        self.soup = BeautifulSoup(f, 'xml')
"""),
(K,"""        if self._tag['active']=='true':
            return True
        else:
            return False

    def __str__(self):
        if self.active:
            active = ''
        else:
            active = ' (inactive)'
        return f'{self.time} {repr(self.name)}{active}'
""","""        return self._tag['active']=='true'

    def __str__(self):
        suffix = '' if self.active else ' (inactive)'
        return f'{self.time} {self.name!r}{suffix}'
"""),
(K,"""        return len(self.animation.tag.find_all('keyframe'))

    def __iter__(self):
        for keyframe_tag in self.animation.tag.find_all('keyframe'):
            yield Keyframe(keyframe_tag)

    def __str__(self):
        result = f'Keyframes of {self.animation}:'
        if len(self)==0:
            result += '\\n  (none)'
        else:
            for keyframe in self:
                result += f'\\n  - {keyframe}'

        return result
""","""        return len(self._tags())

    def _tags(self):
        return self.animation.tag.find_all('keyframe')

    def __iter__(self):
        return map(Keyframe, self._tags())

    def __str__(self):
        lines = [f'  - {keyframe}' for keyframe in self] or ['  (none)']
        return '\\n'.join([f'Keyframes of {self.animation}:', *lines])
"""),
(R,"""        def _inner(c):
            n = name or c.__name__
            n = normalise_synfig_layer_type_name(n)

            self.handlers[n] = c
            return c
        return _inner
""","""        return functools.partial(self._register, name)

    def _register(self, name, c):
        key = normalise_synfig_layer_type_name(name or c.__name__)
        self.handlers[key] = c
        return c
"""),
(R,"from sangfroid.util","import functools\nfrom sangfroid.util"),
(R,"""        name = normalise_synfig_layer_type_name(name)

        if name not in self.handlers:
            raise KeyError(
                    f"This tag is a {name}, which I don't know how "
                    "to handle.\\n\\n"
                    "Here are the things I do know:\\n"
                    f"  {' '.join(sorted(self.handlers.keys()))}"
                    )
        result = self.handlers[name]

        return result
""","""        key = normalise_synfig_layer_type_name(name)

        try:
            return self.handlers[key]
        except KeyError:
            known = ' '.join(sorted(self.handlers))
            raise KeyError(
                    f"This tag is a {key}, which I don't know how "
                    "to handle.\\n\\n"
                    "Here are the things I do know:\\n"
                    f"  {known}"
                    ) from None
"""),
(U,"""    return s.lower().replace('_', '')
""","""    return ''.join(c for c in s.lower() if c!='_')
"""),
]
