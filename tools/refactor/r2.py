T='sangfroid/t.py'
EDITS=[
(T,"import re\nimport bs4\n","import operator\nimport re\nimport bs4\n\nUNITS = {'h': 3600, 'm': 60, 's': 1}\n"),
(T,"""        if ref is None:
            root_tag = None
        elif isinstance(ref, bs4.Tag):
            root_tag = _canvas_root(ref)
        elif hasattr(ref, 'tag'):
            root_tag = _canvas_root(getattr(ref, 'tag'))
        else:
            raise TypeError(
                    "'ref' must be bs4.Tag, a Layer subclass, or None, "
                    f"but not {type(ref)}.")

        if root_tag is None:
            self._fps = None
        else:
            self._fps = float(root_tag['fps'])
        
            if not 0.0<self._fps<math.inf:
                raise ValueError(f"FPS must be positive: {self._fps}")

        try:
            if isinstance(value, str):
                self._frames = self._parse_time_spec(value)
            elif isinstance(value, T):
                # this already counts from the start
                self._frames = value._frames
            else:
                self._frames = float(value)

                if self._frames < 0:
                    if root_tag is None:
                        raise ValueError("Negative frame counts require "
                                         "an anchored ref.")

                    animation_duration = 1+(
                            self._parse_time_spec(
                                root_tag.attrs['end-time'],
                                )
                            - 
                            self._parse_time_spec(
                                root_tag.attrs['begin-time'],
                                )
                            )

                    self._frames = animation_duration + self._frames

        except TypeError:
            raise ValueError(f"Invalid time specification: {value}")

        assert isinstance(self._frames, float)

        if not math.isfinite(self._frames):
            raise ValueError(f"Invalid time specification: {value}")

    def _parse_time_spec(self, s):
        assert isinstance(s, str)

        def complain(problem):
            raise ValueError(
                    f"bad time specification: {s}\\n{problem}")

        s = s.strip()

        seconds = None
        frames = 0.0

        found = TIMESPEC_RE.split(s)
        if found is None:
            complain("This doesn't look like a time specification at all.")

        parts = {}
        for spec in found:
            if spec.strip()=='':
                continue
            elif spec[-1] not in 'hmsf':
                complain(f"'{spec}' doesn't end with a unit.")
            elif spec[-1] in parts:
                complain(
                        f"The '{spec[-1]}' part was specified "
                        "more than once.")

            try:
                parts[spec[-1]] = float(spec[:-1])
            except ValueError:
                complain(
                        f"'{spec[:-1]}' is not a valid number.")

        seconds = None

        for unit, size in [
                ('h', 60*60),
                ('m', 60),
                ('s', 1),
                ]:
            if unit in parts:
                amount = parts[unit]*size
                if seconds and seconds<0 and amount>0:
                    # the minus sign covers the smaller units too
                    amount = -amount
                seconds = (seconds or 0.0) + amount

        result = 0.0

        if seconds is not None and seconds!=0.0:

            if self._fps is None:
                complain("Time specifications in seconds require "
                         "an anchored ref.")
            result += seconds * self._fps

        if 'f' in parts:
            if seconds and parts['f']<0:
                complain("If you give a number of seconds, the number "
                         "of frames can't be negative.")

            seconds = seconds or 0

            if seconds<0:
                result -= parts['f']
            else:
                result += parts['f']

        return result
""","""        root_tag = self._root_of(ref)
        fps = None

        if root_tag is not None:
            fps = float(root_tag['fps'])

            if fps<=0.0 or not math.isfinite(fps):
                raise ValueError(f"FPS must be positive: {fps}")

        self._fps = fps

        try:
            frames = self._frames_from(value, root_tag)
        except TypeError as te:
            raise ValueError(f"Invalid time specification: {value}") from te

        if not math.isfinite(frames):
            raise ValueError(f"Invalid time specification: {value}")

        self._frames = frames

    @staticmethod
    def _root_of(ref):
        if ref is None:
            return None
        if isinstance(ref, bs4.Tag):
            return _canvas_root(ref)
        if hasattr(ref, 'tag'):
            return _canvas_root(ref.tag)
        raise TypeError(
                "'ref' must be bs4.Tag, a Layer subclass, or None, "
                f"but not {type(ref)}.")

    def _frames_from(self, value, root_tag):
        if isinstance(value, T):
            # this already counts from the start
            return value.frames

        if isinstance(value, str):
            return self._parse_time_spec(value)

        frames = float(value)
        if frames >= 0 or math.isnan(frames):
            return frames

        if root_tag is None:
            raise ValueError("Negative frame counts require "
                             "an anchored ref.")

        begin, end = (self._parse_time_spec(root_tag.attrs[k])
                      for k in ('begin-time', 'end-time'))
        return 1 + (end-begin) + frames

    def _parse_time_spec(self, s):
        assert isinstance(s, str)

        parts = _parts_of_time_spec(s.strip())
        seconds = _seconds_of_parts(parts)
        frames = parts.get('f')

        result = 0.0

        if seconds:
            if self._fps is None:
                raise _bad_spec(s, "Time specifications in seconds require "
                                "an anchored ref.")
            if frames is not None and frames<0:
                raise _bad_spec(
                        s, "If you give a number of seconds, the number "
                        "of frames can't be negative.")
            result = seconds * self._fps

        if frames is not None:
            result += -frames if seconds<0 else frames

        return result
"""),
(T,"""        return self._compare(other, lambda a,b:a<b)
""","""        return self._compare(other, operator.lt)
"""),
(T,"""        return self._compare(other, lambda a,b:a==b)
""","""        return self._compare(other, operator.eq)
"""),
(T,"""    def _compare(self, other, operator):

        if isinstance(other, self.__class__):
            if (
                    other.fps is not None and
                    self.fps is not None and
                    other.fps!=self.fps):
                raise ValueError(
                        "Comparison between two Ts with different FPS: "
                        f"{self}, {other}"
                        )

            other_f = other.frames
        elif isinstance(other, (float, int)):
            other_f = other
        else:
            return False

        return operator(self._frames, other_f)
""","""    def _compare(self, other, op):

        if isinstance(other, (float, int)):
            return op(self._frames, other)

        if not isinstance(other, self.__class__):
            return False

        known = {fps for fps in (self.fps, other.fps) if fps is not None}
        if len(known)>1:
            raise ValueError(
                    "Comparison between two Ts with different FPS: "
                    f"{self}, {other}"
                    )

        return op(self._frames, other._frames)
"""),
(T,"""        frames = self._frames
        seconds = abs(self._frames/self._fps)

        result = []

        for unit, size in [
                ('h', 60*60),
                ('m', 60),
                ('s', 1),
                ]:

            if seconds>=size:
                result.append('%d%c' % (seconds//size, unit))
                seconds = seconds % size

        if seconds!=0 or result==[]:
            frames = abs(frames) % self._fps
            result.append(_plain_decimal(frames)+'f')

        if self._frames<0:
            minus = '-'
        else:
            minus = ''

        result = minus + ' '.join(result)

        return result
""","""        seconds = abs(self._frames/self._fps)
        result = []

        for unit, size in UNITS.items():
            if seconds>=size:
                result.append(f'{int(seconds//size)}{unit}')
                seconds %= size

        if seconds or not result:
            left_over = abs(self._frames) % self._fps
            result.append(f'{_plain_decimal(left_over)}f')

        return ('-' if self._frames<0 else '') + ' '.join(result)
"""),
(T,"""def _plain_decimal(n):
    # '%g' would give exponents, which aren't part of the notation.
    return ('%.10f' % (n,)).rstrip('0').rstrip('.')

def _canvas_root(tag):
    parents = tag.find_parents()

    if len(parents)==0:
        return None
    elif len(parents)==1:
        root = tag
    else:
        root = parents[-2] # -1 is "document", the anon root tag

    if root.name=='canvas':
        return root
    else:
        return None
""","""def _bad_spec(s, problem):
    return ValueError(f"bad time specification: {s}\\n{problem}")

def _parts_of_time_spec(s):
    parts = {}

    for spec in TIMESPEC_RE.split(s):
        if not spec.strip():
            continue

        number, unit = spec[:-1], spec[-1]

        if unit not in ('h', 'm', 's', 'f'):
            raise _bad_spec(s, f"'{spec}' doesn't end with a unit.")
        if unit in parts:
            raise _bad_spec(s, f"The '{unit}' part was specified "
                            "more than once.")

        try:
            parts[unit] = float(number)
        except ValueError:
            raise _bad_spec(s, f"'{number}' is not a valid number.")

    return parts

def _seconds_of_parts(parts):
    total = 0.0

    for unit, size in UNITS.items():
        amount = size * parts.get(unit, 0.0)
        if total<0:
            # the minus sign covers the smaller units too
            amount = -abs(amount)
        total += amount

    return total

def _plain_decimal(n):
    # '%g' would give exponents, which aren't part of the notation.
    result = f'{n:.10f}'
    if '.' in result:
        result = result.rstrip('0').rstrip('.')
    return result

def _canvas_root(tag):
    ancestors = [tag, *tag.find_parents()]

    # the last of them is "document", the anon root tag
    if len(ancestors)<2:
        return None

    root = ancestors[-2]
    return root if root.name=='canvas' else None
"""),
]
