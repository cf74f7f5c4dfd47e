L='sangfroid/layer/layer.py'
G='sangfroid/layer/group.py'
V='sangfroid/value/value.py'
T='sangfroid/t.py'
F='sangfroid/field.py'
A='sangfroid/animation.py'
FO='sangfroid/format.py'
EDITS=[
(L,"""        cursor = self._tag.parent
        while cursor is not None:
            if cursor.name=='layer':
                return Layer.from_tag(cursor)
                return cursor
            cursor = cursor.parent
""","""        holders = self._enclosing_layers()
        nearest = next(holders, None)
        return None if nearest is None else Layer.from_tag(nearest)

    def _enclosing_layers(self):
        for tag in self._tag.parents:
            if tag.name=='layer':
                yield tag
"""),
(L,"""        cursor = self._tag.parent
        result = 0
        while cursor is not None:
            if cursor.name=='layer':
                result += 1
            cursor = cursor.parent
        return result
""","""        return sum(1 for _ in self._enclosing_layers())
"""),
(L,"""        found = self._find_param(f)
        if found is None:
            raise KeyError(f)
        return _name_and_value_of(found)[1]
""","""        return self._value_of_param(f)

    def _value_of_param(self, f):
        if (found := self._find_param(f)) is None:
            raise KeyError(f)
        _, value = _name_and_value_of(found)
        return value
"""),
(L,"""        found = self._find_param(f)
        if found is None:
            raise KeyError(f)
        old_value = _name_and_value_of(found)[1]

        if isinstance(val, v.Value):
            if not isinstance(val, old_value.__class__):
                raise TypeError(val.__class__)

            new_value = val
        else:
            new_value = old_value.__class__(val)

        old_value.tag.replace_with(copy.copy(new_value.tag))
""","""        old_value = self._value_of_param(f)
        cls = type(old_value)

        match val:
            case cls():
                new_value = val
            case v.Value():
                raise TypeError(type(val))
            case _:
                new_value = cls(val)

        replacement = copy.copy(new_value.tag)
        old_value.tag.replace_with(replacement)
"""),
(L,"""        items = self.find_all(*args, **kwargs)
        if items:
            return items[0]
        else:
            return None
""","""        try:
            return self.find_all(*args, **kwargs)[0]
        except IndexError:
            return None
"""),
(L,"""        return dict([
            _name_and_value_of(param)
            for param in self._tag.find_all('param',
                                            recursive=False,
                                            )
            ])
""","""        params = self._tag.find_all('param', recursive=False)
        return dict(map(_name_and_value_of, params))
"""),
(L,"""    value_tags = [tag for tag in tag.children
                  if isinstance(tag, bs4.element.Tag)
                  ]

    if len(value_tags)!=1:
        raise ValueError(f"param should have one value: {tag}")

    value_tag = value_tags[0]

    value = v.Value.from_tag(value_tag)
    return name, value
""","""    try:
        value_tag, = (child for child in tag.children
                      if isinstance(child, bs4.Tag))
    except ValueError:
        raise ValueError(f"param should have one value: {tag}") from None

    return name, v.Value.from_tag(value_tag)
"""),
(L,"""        for c in cls.mro():
            for field in c.__dict__.values():
                if isinstance(field, Field):
                    if isinstance(field, TagAttrField):
                        value = field.default_for(cls)
                        if value is None:
                            continue
                        elif isinstance(value, str):
                            if value=='':
                                continue
                        elif isinstance(value, bool):
                            value = str(value).lower()
                        else:
                            value = str(value)

                        result[field.name] = value

                    elif isinstance(field, ParamTagField):
                        if field.default is None:
                            continue

                        param = bs4.Tag(name="param")
                        param['name'] = field.name

                        type_ = field.type_

                        if issubclass(type_, v.Time):
                            type_ = _TimeButString

                        param_default = type_(field.default)
                        param.append(param_default._tag)
                        result.append(param)
                        result.append("\\n")

        return result
""","""        for field in cls._all_fields():
            if isinstance(field, TagAttrField):
                text = cls._attr_text(field.default_for(cls))
                if text:
                    result[field.name] = text
            elif isinstance(field, ParamTagField) and field.default is not None:
                result.append(cls._empty_param(field))
                result.append("\\n")

        return result

    @classmethod
    def _all_fields(cls):
        return [field
                for c in cls.__mro__
                for field in vars(c).values()
                if isinstance(field, Field)]

    @staticmethod
    def _attr_text(value):
        if value is None:
            return None
        text = str(value)
        return text.lower() if isinstance(value, bool) else text

    @staticmethod
    def _empty_param(field):
        type_ = _TimeButString if issubclass(field.type_, v.Time) else field.type_
        param = bs4.Tag(name="param", attrs={'name': field.name})
        param.append(type_(field.default).tag)
        return param
"""),
(G,"""        canvas = self.canvas_tag

        for child in reversed(canvas.contents):
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name!='layer':
                continue

            result = Layer.from_tag(child)
            yield result

            if include_descendants:
                yield from result.children
""","""        for tag in self._layer_tags()[::-1]:
            layer = Layer.from_tag(tag)
            yield layer
            if include_descendants:
                for inner in layer.children:
                    yield inner

    def _layer_tags(self):
        return self.canvas_tag.find_all('layer', recursive=False)
"""),
(G,"""        after = None
        # "after" from our perspective; *before* in the XML

        canvas = self.canvas_tag
        for child in canvas.contents:
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name=='layer':
                after = child
                break

        if after is None:
            canvas.append(layer._tag)
        else:
            after.insert_before(layer._tag)
""","""        tags = self._layer_tags()
        if tags:
            # "after" from our perspective; *before* in the XML
            tags[0].insert_before(layer.tag)
        else:
            self.canvas_tag.append(layer.tag)
"""),
(G,"""        if isinstance(f, int):
            return list(self.children)[f]
        else:
            return super().__getitem__(f)
""","""        if not isinstance(f, int):
            return super().__getitem__(f)
        return [*self.children][f]
"""),
(V,"""        waypoints = self._waypoint_tags()

        if not waypoints:
            return {}

        our_type = self._tag['type']

        values = [Waypoint.from_tag(wt,
                                    our_type = our_type,
                                    )
                  for wt in waypoints]

        result = dict([(v.time, v) for v in values])

        return result
""","""        result = {}
        for tag in self._waypoint_tags():
            waypoint = Waypoint.from_tag(tag, our_type=self._tag['type'])
            result[waypoint.time] = waypoint
        return result
"""),
(V,"""        v = sorted(v)

        for left, right in zip(v, v[1:]):
            if left.time==right.time:
                raise ValueError("There is more than one waypoint "
                                 f"at {left.time}.")

        type_name = self._type_name()

        for w in v:
            if w.value.tag.name!=type_name:
                raise ValueError(
                        "Waypoint type must match parent: "
                        f"parent={type_name}, child={w.value.tag.name}")

        waypoint_tags = [w.tag for w in v]

        self._set_animated(
                whether = True,
                adjust_contents = False,
                )
        self._tag.clear()

        for i, waypoint_tag in enumerate(waypoint_tags):
            if i!=0:
                self._tag.append('\\n')
            self._tag.append(waypoint_tag)
""","""        ordered = list(v)
        ordered.sort()
        self._check_waypoints(ordered)

        contents = []
        for w in ordered:
            contents += [w.tag, '\\n']
        del contents[-1]

        self._set_animated(True, adjust_contents=False)
        self._tag.clear()
        for item in contents:
            self._tag.append(item)

    def _check_waypoints(self, ordered):
        for i in range(1, len(ordered)):
            if ordered[i-1].time==ordered[i].time:
                raise ValueError(
                        f"There is more than one waypoint at {ordered[i].time}.")

        parent = self._type_name()
        for child in (w.value.tag.name for w in ordered):
            if child!=parent:
                raise ValueError(
                        "Waypoint type must match parent: "
                        f"{parent=}, {child=}")
"""),
(V,"""        existing = self.parent._waypoints()
        clashes = [
            (old.time, new.time)
                for old in existing.values()
                for new in waypoints
                if old.time==new.time
                ]

        if clashes and not overwrite:
            raise ValueError("There are already Waypoints with those "
                             "times in this timeline:\\n"
                             f"{clashes}")

        existing |= dict([(w.time, w) for w in waypoints])

        self.parent._set_waypoints(existing.values())
""","""        merged = self.parent._waypoints()

        if not overwrite:
            clashes = [w.time for w in waypoints if w.time in merged]
            if clashes:
                raise ValueError("There are already Waypoints with those "
                                 f"times in this timeline:\\n{clashes}")

        for w in waypoints:
            merged[w.time] = w

        self.parent._set_waypoints(list(merged.values()))
"""),
(V,"""        if isinstance(v, Waypoint):
            new_waypoint = copy.copy(v)
            new_waypoint.time = t
        elif isinstance(v, self.parent.__class__):
            new_waypoint = Waypoint(
                    time = t,
                    value = v,
                    ref = self.parent.tag,
                    )
        else:
            new_waypoint = Waypoint(
                    time = t,
                    value = self.parent.__class__(v),
                    ref = self.parent.tag,
                    )
""","""        if isinstance(v, Waypoint):
            new_waypoint = copy.copy(v)
            new_waypoint.time = t
        else:
            cls = type(self.parent)
            if not isinstance(v, cls):
                v = cls(v)
            new_waypoint = Waypoint(time=t, value=v, ref=self.parent.tag)
"""),
(T,"""        for unit, size in [
                ('h', 60*60),
                ('m', 60),
                ('s', 1),
                ]:
            if unit in parts:
                amount = parts[unit]*size
                if seconds and seconds<0 and amount>0:
                    # the minus sign covers the smaller units too
                    amount = -amount
                seconds = (seconds or 0.0) + amount

        result = 0.0

        if seconds is not None and seconds!=0.0:

            if self._fps is None:
                complain("Time specifications in seconds require "
                         "an anchored ref.")
            result += seconds * self._fps

        if 'f' in parts:
            if seconds and parts['f']<0:
                complain("If you give a number of seconds, the number "
                         "of frames can't be negative.")

            seconds = seconds or 0

            if seconds<0:
                result -= parts['f']
            else:
                result += parts['f']

        return result
""","""        seconds = 0.0
        for unit, size in UNITS.items():
            amount = size*parts.get(unit, 0.0)
            # the minus sign covers the smaller units too
            seconds += -amount if seconds<0<amount else amount

        frames = parts.get('f', 0.0)

        if seconds==0.0:
            return frames
        if self._fps is None:
            complain("Time specifications in seconds require "
                     "an anchored ref.")
        if frames<0:
            complain("If you give a number of seconds, the number "
                     "of frames can't be negative.")

        return seconds*self._fps + (frames if seconds>0 else -frames)
"""),
(T,"""        for unit, size in [
                ('h', 60*60),
                ('m', 60),
                ('s', 1),
                ]:

            if seconds>=size:
                result.append('%d%c' % (seconds//size, unit))
                seconds = seconds % size

        if seconds!=0 or result==[]:
            frames = abs(frames) % self._fps
            result.append(_plain_decimal(frames)+'f')

        if self._frames<0:
            minus = '-'
        else:
            minus = ''

        result = minus + ' '.join(result)

        return result
""","""        for unit, size in UNITS.items():
            if seconds>=size:
                count, seconds = divmod(seconds, size)
                result.append(f'{int(count)}{unit}')

        if seconds or not result:
            result.append(f'{_plain_decimal(abs(frames) % self._fps)}f')

        return ('-' if self._frames<0 else '') + ' '.join(result)
"""),
(T,"""def _plain_decimal(n):
""","""UNITS = {'h': 60*60, 'm': 60, 's': 1}

def _plain_decimal(n):
"""),
(T,"""    parents = tag.find_parents()

    if len(parents)==0:
        return None
    elif len(parents)==1:
        root = tag
    else:
        root = parents[-2] # -1 is "document", the anon root tag

    if root.name=='canvas':
        return root
    else:
        return None
""","""    line = [tag, *tag.parents]
    if len(line)<2:
        return None
    root = line[-2] # -1 is "document", the anon root tag
    return root if root.name=='canvas' else None
"""),
(T,"""    def __lt__(self, other):
        return self._compare(other, lambda a,b:a<b)

    def __eq__(self, other):
        return self._compare(other, lambda a,b:a==b)
""","""    def __lt__(self, other):
        return self._compare(other, operator.lt)

    def __eq__(self, other):
        return self._compare(other, operator.eq)
"""),
(T,"""    def _compare(self, other, operator):
""","""    def _compare(self, other, how):
"""),
(T,"""        return operator(self._frames, other_f)
""","""        return how(self._frames, other_f)
"""),
(T,"""import math
""","""import math
import operator
"""),
(F,"""        if issubclass(self.type_override, bool):
            if value:
                value = 'true'
            else:
                value = 'false'
        else:
            value = self.type_override(value)

        obj._tag[self.name] = value
""","""        obj._tag[self.name] = self._encode(value)

    def _encode(self, value):
        coerced = self.type_override(value)
        return str(coerced).lower() if isinstance(coerced, bool) else coerced
"""),
(F,"""        contents = [t for t in holder.children
                    if isinstance(t, bs4.Tag)]
""","""        contents = holder.find_all(True, recursive=False)
"""),
(F,"""        subtag = self.get_subtag_for_obj(obj)

        if subtag is None:
            subtag = bs4.Tag(name=self.name)
            obj._tag.insert(0, subtag)

        subtag.string = value
""","""        subtag = self.get_subtag_for_obj(obj)
        is_new = subtag is None
        if is_new:
            subtag = bs4.Tag(name=self.name)

        subtag.string = value

        if is_new:
            obj._tag.insert(0, subtag)
"""),
(A,"""        return int(T(-1, ref=self._tag).frames)+1
""","""        last = T(-1, ref=self._tag)
        return 1+int(last)
"""),
(A,"""        triplet = tuple([
            float(n) for n in
            self._tag.attrs['bgcolor'].split(' ')
            ])
        result = Color(*triplet)
        return result
""","""        return Color(*self._floats('bgcolor'))

    def _floats(self, name):
        return tuple(map(float, self._tag.attrs[name].split(' ')))
"""),
(A,"""        return tuple([
            float(n) for n in
            self._tag.attrs['view-box'].split(' ')
            ])

""","""        return self._floats('view-box')
"""),
(FO,"""        filename = filename or self.filename
        encoded = self._to_bytes(content)

        with gzip.open(filename, 'wb') as f:
            f.write(encoded)

        self.filename = filename
""","""        encoded = self._to_bytes(content)
        target = filename or self.filename
        f = gzip.open(target, 'wb')
        try:
            f.write(encoded)
        finally:
            f.close()
        self.filename = target
"""),
(FO,"""            extension = os.path.splitext(filename)[1].lower()
            if extension.startswith('.'):
                extension = extension[1:]
""","""            _, extension = os.path.splitext(filename)
            extension = extension.lower().removeprefix('.')
"""),
]
