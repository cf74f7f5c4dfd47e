V='sangfroid/value/value.py'
EDITS=[
(V,"import functools\nimport copy\n","import functools\nimport itertools\n"),
(V,"""        if len(args)==1 and isinstance(args[0], bs4.element.Tag):
            self._tag = args[0]
        else:
            self._tag = self._get_empty_tag()
            if len(args)==1:
                self.value = args[0]
            else:
                self.value = args

        assert self._tag is not None
""","""        match args:
            case (bs4.element.Tag() as tag,):
                self._tag = tag
            case (single,):
                self._start_with(single)
            case _:
                self._start_with(args)

        assert self._tag is not None

    def _start_with(self, contents):
        self._tag = self._get_empty_tag()
        self.value = contents
"""),
(V,"""        whether = bool(whether)
        if whether==self.is_animated:
            pass
        elif whether:

            if adjust_contents:
                self.value # make sure we can be read
                former_value = self.__class__(copy.copy(self._tag))

            our_type = self._tag.name
            self._tag.attrs = {}
            self._tag.name = self.ANIMATED
            self._tag['type'] = our_type

            if adjust_contents:
                self._tag.clear()
                self.timeline[0] = former_value
        else:

            if adjust_contents:
                timeline = self.timeline
                first_value = next(iter(timeline), None)
            else:
                first_value = None

            if first_value is not None:
                new_tag = copy.deepcopy(first_value.value._tag)
            else:
                new_tag = self._get_empty_tag()

            if self._tag.parent is not None:
                self._tag.replace_with(new_tag)
            self._tag = new_tag
""","""        if bool(whether)==self.is_animated:
            return

        if whether:
            self._become_animated(adjust_contents)
        else:
            self._become_plain(adjust_contents)

    def _become_animated(self, adjust_contents):
        former_value = None
        if adjust_contents:
            _ = self.value # make sure we can be read
            former_value = type(self)(copy.copy(self._tag))

        tag = self._tag
        tag.attrs = {'type': tag.name}
        tag.name = self.ANIMATED

        if former_value is not None:
            tag.clear()
            self.timeline[0] = former_value

    def _become_plain(self, adjust_contents):
        first = None
        if adjust_contents:
            for first in self.timeline:
                break

        new_tag = (
                self._get_empty_tag() if first is None
                else copy.deepcopy(first.value.tag)
                )

        old_tag, self._tag = self._tag, new_tag
        if old_tag.parent is not None:
            old_tag.replace_with(new_tag)
"""),
(V,"""        if isinstance(v, list) and all([isinstance(n, Waypoint) for n in v]):
            self._set_waypoints(v)
        elif isinstance(v, dict):
            self.timeline = list(v.values())
        elif isinstance(v, Timeline):
            if v.parent is self:
                return
            self._set_waypoints(v.values())
        else:
            raise TypeError("A timeline can only be set to another timeline or "
                            "a dict or list of Waypoints.")
""","""        if isinstance(v, Timeline):
            if v.parent is not self:
                self._set_waypoints(v.values())
            return

        if isinstance(v, dict):
            v = list(v.values())

        if not isinstance(v, list) or not all(
                isinstance(n, Waypoint) for n in v):
            raise TypeError("A timeline can only be set to another timeline or "
                            "a dict or list of Waypoints.")

        self._set_waypoints(v)
"""),
(V,"""        waypoints = self._waypoint_tags()

        if not waypoints:
            return {}

        our_type = self._tag['type']

        values = [Waypoint.from_tag(wt,
                                    our_type = our_type,
                                    )
                  for wt in waypoints]

        result = dict([(v.time, v) for v in values])

        return result
""","""        result = {}

        for wt in self._waypoint_tags():
            waypoint = Waypoint.from_tag(wt, our_type=self._tag['type'])
            result[waypoint.time] = waypoint

        return result
"""),
(V,"""        v = sorted(v)

        for left, right in zip(v, v[1:]):
            if left.time==right.time:
                raise ValueError("There is more than one waypoint "
                                 f"at {left.time}.")

        type_name = self._type_name()

        for w in v:
            if w.value.tag.name!=type_name:
                raise ValueError(
                        "Waypoint type must match parent: "
                        f"parent={type_name}, child={w.value.tag.name}")

        waypoint_tags = [w.tag for w in v]

        self._set_animated(
                whether = True,
                adjust_contents = False,
                )
        self._tag.clear()

        for i, waypoint_tag in enumerate(waypoint_tags):
            if i!=0:
                self._tag.append('\\n')
            self._tag.append(waypoint_tag)
""","""        in_order = sorted(v)
        self._check_waypoints(in_order)

        new_contents = []
        for w in in_order:
            if new_contents:
                new_contents.append('\\n')
            new_contents.append(w.tag)

        self._set_animated(True, adjust_contents=False)
        self._tag.clear()
        self._tag.extend(new_contents)

    def _check_waypoints(self, waypoints):
        \"\"\"
        Raises ValueError if the given sorted waypoints don't suit us.
        \"\"\"
        for left, right in itertools.pairwise(waypoints):
            if left.time==right.time:
                raise ValueError("There is more than one waypoint "
                                 f"at {left.time}.")

        type_name = self._type_name()
        strangers = [w.value.tag.name for w in waypoints
                     if w.value.tag.name!=type_name]
        if strangers:
            raise ValueError(
                    "Waypoint type must match parent: "
                    f"parent={type_name}, child={strangers[0]}")
"""),
(V,"""        result = self._tag.name
        if result==Value.ANIMATED:
            result = self._tag['type']

        return result
""","""        return self._tag['type'] if self.is_animated else self._tag.name
"""),
(V,"""        for t,w in sorted(self.parent._waypoints().items()):
            yield w
""","""        waypoints = self.parent._waypoints()
        yield from (waypoints[t] for t in sorted(waypoints))
"""),
(V,"""        if isinstance(t, (int, float, str)):
            return T(t, ref = self.parent._tag)
        elif isinstance(t, T):
            if t._fps is None:
                return T(t, ref = self.parent._tag)
            else:
                return t
        else:
            raise TypeError("I need T, or an int, float, str to create a T. "
                    f"You gave me {type(t)}.")
""","""        if not isinstance(t, (T, int, float, str)):
            raise TypeError("I need T, or an int, float, str to create a T. "
                    f"You gave me {type(t)}.")

        if isinstance(t, T) and t.fps is not None:
            return t

        return T(t, ref = self.parent.tag)
"""),
(V,"""        def raise_argument_error():
            raise TypeError(
                    "The argument to add() "
                    "must be either a Waypoint or a list of Waypoints.")

        if isinstance(waypoints, Waypoint):
            waypoints = [waypoints]
        elif isinstance(waypoints, list):
            pass
        else:
            raise_argument_error()

        # check they're sensible
        for w in waypoints:
            if not isinstance(w, Waypoint):
                raise_argument_error()
            elif not isinstance(w.tag, bs4.Tag):
                raise TypeError(
                        f'{w} has a tag of type {type(w.tag)}')

        existing = self.parent._waypoints()
        clashes = [
            (old.time, new.time)
                for old in existing.values()
                for new in waypoints
                if old.time==new.time
                ]

        if clashes and not overwrite:
            raise ValueError("There are already Waypoints with those "
                             "times in this timeline:\\n"
                             f"{clashes}")

        existing |= dict([(w.time, w) for w in waypoints])

        self.parent._set_waypoints(existing.values())

        return self
""","""        if isinstance(waypoints, Waypoint):
            waypoints = [waypoints]

        if not isinstance(waypoints, list) or any(
                not isinstance(w, Waypoint) for w in waypoints):
            raise TypeError(
                    "The argument to add() "
                    "must be either a Waypoint or a list of Waypoints.")

        existing = self.parent._waypoints()

        if not overwrite:
            clashes = [(old, new.time)
                       for old, new in itertools.product(existing, waypoints)
                       if old==new.time]
            if clashes:
                raise ValueError("There are already Waypoints with those "
                                 "times in this timeline:\\n"
                                 f"{clashes}")

        merged = {**existing, **{w.time: w for w in waypoints}}
        self.parent._set_waypoints(merged.values())

        return self
"""),
(V,"""        t = self._ensure_fps(time)

        try:
            return self.parent._waypoints()[t]
        except KeyError:
            raise KeyError(time)
""","""        found = self.parent._waypoints().get(self._ensure_fps(time))
        if found is None:
            raise KeyError(time)
        return found
"""),
(V,"""        if isinstance(v, Waypoint):
            new_waypoint = copy.copy(v)
            new_waypoint.time = t
        elif isinstance(v, self.parent.__class__):
            new_waypoint = Waypoint(
                    time = t,
                    value = v,
                    ref = self.parent.tag,
                    )
        else:
            new_waypoint = Waypoint(
                    time = t,
                    value = self.parent.__class__(v),
                    ref = self.parent.tag,
                    )

        waypoints = self.parent._waypoints()

        waypoints[t] = new_waypoint

        self.parent._set_waypoints(waypoints.values())

    def __delitem__(self, t):

        if isinstance(t, (int, float, str)):
            t = T(t, ref = self.parent._tag)
        elif isinstance(t, T):
            t = self._ensure_fps(t)

        waypoints = self.parent._waypoints()

        waypoints.__delitem__(t)

        self.parent._set_waypoints(waypoints.values())
""","""        new_waypoint = self._waypoint_for(t, v)

        self.parent._set_waypoints(
                (self.parent._waypoints() | {t: new_waypoint}).values())

    def _waypoint_for(self, t, v):
        if isinstance(v, Waypoint):
            result = copy.copy(v)
            result.time = t
            return result

        our_class = type(self.parent)
        if not isinstance(v, our_class):
            v = our_class(v)

        return Waypoint(time=t, value=v, ref=self.parent.tag)

    def __delitem__(self, t):

        if isinstance(t, (T, int, float, str)):
            t = self._ensure_fps(t)

        remaining = self.parent._waypoints()
        remaining.pop(t)
        self.parent._set_waypoints(remaining.values())
"""),
(V,"""        if v=='undefined':
            if from_constructor:
                raise ValueError(
                        "Waypoints can't have interpolations "
                        "of 'undefined'."
                        )
            else:
                raise ValueError(
                        "You can't set waypoint interpolations "
                        "to 'undefined'."
                        )

        if v in INTERPOLATION_TYPES:
            return v

        if v in INTERPOLATION_TYPE_SYNONYMS:
            return INTERPOLATION_TYPE_SYNONYMS[v]

        raise ValueError(f"Unknown interpolation type: {v}")
""","""        result = INTERPOLATION_TYPE_SYNONYMS.get(v, v)

        if result=='undefined':
            raise ValueError(
                    "Waypoints can't have interpolations of 'undefined'."
                    if from_constructor else
                    "You can't set waypoint interpolations to 'undefined'."
                    )

        if result not in INTERPOLATION_TYPES:
            raise ValueError(f"Unknown interpolation type: {v}")

        return result
"""),
(V,"""        result = bs4.Tag(name="waypoint")
        result['time'] = self.time
        result['before'] = self._before
        result['after'] = self._after
        result.append(
                copy.copy(
                    self.value.tag
                    )
                )
        return result
""","""        result = bs4.Tag(
                name = "waypoint",
                attrs = {
                    'time': self.time,
                    'before': self.before,
                    'after': self.after,
                    },
                )
        result.append(copy.copy(self.value.tag))
        return result
"""),
(V,"""        v = [t for t in tag.children if isinstance(t, bs4.element.Tag)]

        if len(v)==0:
            raise ValueError(f"Waypoint without a value: {tag}")
        elif len(v)!=1:
            raise ValueError(
                    f"Waypoint with multiple values: {tag}")
        elif v[0].name==Value.ANIMATED:
            raise ValueError("Values in waypoints cannot themselves "
                             "be animated")
        elif our_type is not None and v[0].name!=our_type:
            raise ValueError(
                    "Waypoint type must match parent: "
                    f"parent={our_type}, child={v[0].name}")

        result = cls(
                time = time,
                value = Value.from_tag(v[0]),
                before = tag['before'],
                after = tag['after'],
                )

        return result
""","""        candidates = list(filter(
                lambda t: isinstance(t, bs4.element.Tag), tag.children))

        if not candidates:
            raise ValueError(f"Waypoint without a value: {tag}")

        value_tag, *others = candidates

        if others:
            raise ValueError(
                    f"Waypoint with multiple values: {tag}")

        if value_tag.name==Value.ANIMATED:
            raise ValueError("Values in waypoints cannot themselves "
                             "be animated")

        if our_type not in (None, value_tag.name):
            raise ValueError(
                    "Waypoint type must match parent: "
                    f"parent={our_type}, child={value_tag.name}")

        return cls(
                time,
                Value.from_tag(value_tag),
                tag['before'],
                tag['after'],
                )
"""),
(V,"""        if not isinstance(value, Value):
            raise TypeError(value)

        if value.is_animated:
            raise ValueError("Waypoints can't have animated values")

        if isinstance(time, T):
            self.time = time
        elif isinstance(time, (int, float, str)):
            self.time = T(time,
                          ref = ref,
                          )
        else:
            raise TypeError(
                    f"time parameter should be T, or numeric, or str: {time}")

        self._before = self._check_interpolation_type(before, True)
        self._after = self._check_interpolation_type(after, True)
        self.value = value
""","""        if not isinstance(value, Value):
            raise TypeError(value)

        if value.is_animated:
            raise ValueError("Waypoints can't have animated values")

        if isinstance(time, (int, float, str)):
            time = T(time, ref = ref)
        elif not isinstance(time, T):
            raise TypeError(
                    f"time parameter should be T, or numeric, or str: {time}")

        self.time = time
        self.value = value
        self._before, self._after = [
                self._check_interpolation_type(x, from_constructor=True)
                for x in (before, after)]
"""),
]
