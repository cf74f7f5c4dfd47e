L='sangfroid/layer/layer.py'
G='sangfroid/layer/group.py'
F='sangfroid/field.py'
EDITS=[
(L,"""        cursor = self._tag.parent
        while cursor is not None:
            if cursor.name=='layer':
                return Layer.from_tag(cursor)
                return cursor
            cursor = cursor.parent
""","""        return next(
                (Layer.from_tag(t) for t in self._enclosing_layer_tags()),
                None)

    def _enclosing_layer_tags(self):
        cursor = self._tag.parent
        while cursor is not None:
            if cursor.name=='layer':
                yield cursor
            cursor = cursor.parent
"""),
(L,"""        cursor = self._tag.parent
        result = 0
        while cursor is not None:
            if cursor.name=='layer':
                result += 1
            cursor = cursor.parent
        return result
""","""        return sum(1 for _ in self._enclosing_layer_tags())
"""),
(L,"""        result = '['
        result += ('-'*self.tag_depth)
        result += self.SYMBOL
        result += self.__class__.__name__.lower()
        try:
            desc = self.desc

            if desc:
                result += ' ' + repr(desc)
        except KeyError:
            pass

        result += ']'
        return result
""","""        desc = ''
        with contextlib.suppress(KeyError):
            if self.desc:
                desc = f' {self.desc!r}'

        dashes = '-'*self.tag_depth
        class_name = type(self).__name__.lower()
        return f'[{dashes}{self.SYMBOL}{class_name}{desc}]'
"""),
(L,"import copy\nimport logging\n","import contextlib\nimport copy\nimport logging\n"),
(L,"""        found = self._find_param(f)
        if found is None:
            raise KeyError(f)
        return _name_and_value_of(found)[1]

    def __setitem__(self, f, val):
        found = self._find_param(f)
        if found is None:
            raise KeyError(f)
        old_value = _name_and_value_of(found)[1]

        if isinstance(val, v.Value):
            if not isinstance(val, old_value.__class__):
                raise TypeError(val.__class__)

            new_value = val
        else:
            new_value = old_value.__class__(val)

        old_value.tag.replace_with(copy.copy(new_value.tag))

    def __contains__(self, f):
        found = self._find_param(f)
        return found is not None
""","""        _, value = _name_and_value_of(self._existing_param(f))
        return value

    def _existing_param(self, name):
        if (param := self._find_param(name)) is None:
            raise KeyError(name)
        return param

    def __setitem__(self, f, val):
        _, old_value = _name_and_value_of(self._existing_param(f))
        required = type(old_value)

        if not isinstance(val, v.Value):
            val = required(val)
        elif not isinstance(val, required):
            raise TypeError(val.__class__)

        new_tag = copy.copy(val.tag)
        old_value.tag.replace_with(new_tag)

    def __contains__(self, f):
        return self._find_param(f) is not None
"""),
(L,"""        matching_special = None

        if len(args)>1:
            raise ValueError(
                    "You can only give one positional argument.")
        elif len(args)==1:

            if (
                    isinstance(args[0], str) or
                    (isinstance(args[0], type) and
                     issubclass(args[0], Layer))
                    ):
                if 'type' in kwargs:
                    raise ValueError(
                            "You can't give a type in both the positional "
                            "and keyword arguments.")

                kwargs['type'] = args[0]

            elif isinstance(args[0], bool):
                matching_special = args[0]

            elif hasattr(args[0], '__call__'):
                matching_special = args[0]

            else:
                raise TypeError(args[0])

        if 'attrs' in kwargs:
            for k,v in kwargs['attrs'].items():
                if k in kwargs:
                    raise ValueError(f"{k} specified both as a kwarg and in attrs")
                kwargs[k] = v

            del kwargs['attrs']

        for k,v in kwargs.items():
            if k=='type':
                if not isinstance(v, str):
                    v = v.__name__

                kwargs[k] = normalise_synfig_layer_type_name(v)

        logger.debug("begin find_all")

        def matcher(found_tag):
            if found_tag.name!='layer':
                return False

            logger.debug("considering tag: %s %s",
                         found_tag.name, found_tag.attrs)

            found_layer = Layer.from_tag(found_tag)

            if matching_special is None:

                logger.debug("want: %s", kwargs)

                for k, want_value in kwargs.items():
                    try:
                        if k=='type':
                            found_value = normalise_synfig_layer_type_name(
                                    found_tag['type'])
                        else:
                            found_value = getattr(found_layer, k)
                        logger.debug("  -- %s field is %s; want %s", k,
                                     repr(found_value),
                                     repr(want_value),
                                     )
                    except AttributeError:
                        logger.debug("  -- it does not have a %s", k)
                        continue

                    logger.debug("  want: %s  found: %s",
                                 want_value, found_value)

                    if found_value==want_value:
                        logger.debug("    -- a match!")
                        return True

                logger.debug("  -- no matches.")
                return False

            elif isinstance(matching_special, bool):
                return matching_special

            else:
                result = matching_special(found_tag)
                logger.debug("  -- callback says: %s", result)
                return result

            raise ValueError(found_tag)

        result = [
                self.from_tag(x) for x in
                self._holder_of_sublayers().find_all(
                    matcher,
                    recursive=recursive,
                    )
                ]
        logger.debug("find_all found: %s",
                     result,
                     )

        return result
""","""        special, criteria = self._search_criteria(args, kwargs)

        def matcher(tag):
            if tag.name!='layer':
                return False

            layer = Layer.from_tag(tag)

            if special is None:
                return any(_criterion_matches(layer, k, v)
                           for k, v in criteria.items())
            if isinstance(special, bool):
                return special
            return special(tag)

        found = self._holder_of_sublayers().find_all(
                matcher, recursive=recursive)
        return list(map(self.from_tag, found))

    @classmethod
    def _search_criteria(cls, args, kwargs):
        special = None
        criteria = dict(kwargs)

        if len(args)>1:
            raise ValueError(
                    "You can only give one positional argument.")

        for arg in args:
            if isinstance(arg, str) or (
                    isinstance(arg, type) and issubclass(arg, Layer)):
                if 'type' in criteria:
                    raise ValueError(
                            "You can't give a type in both the positional "
                            "and keyword arguments.")
                criteria['type'] = arg
            elif isinstance(arg, bool) or callable(arg):
                special = arg
            else:
                raise TypeError(arg)

        attrs = criteria.pop('attrs', {})
        for k in attrs:
            if k in criteria:
                raise ValueError(f"{k} specified both as a kwarg and in attrs")
        criteria.update(attrs)

        if 'type' in criteria:
            wanted = criteria['type']
            criteria['type'] = normalise_synfig_layer_type_name(
                    wanted if isinstance(wanted, str) else wanted.__name__)

        return special, criteria
"""),
(L,"""        items = self.find_all(*args, **kwargs)
        if items:
            return items[0]
        else:
            return None
""","""        return next(iter(self.find_all(*args, **kwargs)), None)
"""),
(L,"""        tag_type = tag.get('type', None)
        if tag_type is None:
            raise ValueError(
                    f"tag has no 'type' field: {tag}")
        return cls.handles_type.from_name(name=tag_type)(tag)

    def _as_dict(self):
        return dict([
            _name_and_value_of(param)
            for param in self._tag.find_all('param',
                                            recursive=False,
                                            )
            ])
""","""        if tag.get('type') is None:
            raise ValueError(
                    f"tag has no 'type' field: {tag}")

        handler = cls.handles_type.from_name(tag['type'])
        return handler(tag)

    def _as_dict(self):
        result = {}
        for param in self._tag.find_all('param', recursive=False):
            name, value = _name_and_value_of(param)
            result[name] = value
        return result
"""),
(L,"""        for c in cls.mro():
            for field in c.__dict__.values():
                if isinstance(field, Field):
                    if isinstance(field, TagAttrField):
                        value = field.default_for(cls)
                        if value is None:
                            continue
                        elif isinstance(value, str):
                            if value=='':
                                continue
                        elif isinstance(value, bool):
                            value = str(value).lower()
                        else:
                            value = str(value)

                        result[field.name] = value

                    elif isinstance(field, ParamTagField):
                        if field.default is None:
                            continue

                        param = bs4.Tag(name="param")
                        param['name'] = field.name

                        type_ = field.type_

                        if issubclass(type_, v.Time):
                            type_ = _TimeButString

                        param_default = type_(field.default)
                        param.append(param_default._tag)
                        result.append(param)
                        result.append("\\n")

        return result
""","""        fields = [field
                  for c in cls.mro()
                  for field in vars(c).values()
                  if isinstance(field, Field)]

        for field in fields:
            if isinstance(field, TagAttrField):
                text = _attr_text(field.default_for(cls))
                if text:
                    result[field.name] = text
            elif isinstance(field, ParamTagField) and field.default is not None:
                result.extend([_new_param(field), "\\n"])

        return result
"""),
(L,"""def _name_and_value_of(tag):
""","""def _criterion_matches(layer, name, wanted):
    if name=='type':
        found = normalise_synfig_layer_type_name(layer.tag['type'])
    else:
        try:
            found = getattr(layer, name)
        except AttributeError:
            return False

    return found==wanted

def _attr_text(value):
    if value is None:
        return ''
    text = str(value)
    return text.lower() if isinstance(value, bool) else text

def _new_param(field):
    result = bs4.Tag(name="param", attrs={'name': field.name})
    type_ = _TimeButString if issubclass(field.type_, v.Time) else field.type_
    result.append(type_(field.default).tag)
    return result

def _name_and_value_of(tag):
"""),
(L,"""    value_tags = [tag for tag in tag.children
                  if isinstance(tag, bs4.element.Tag)
                  ]

    if len(value_tags)!=1:
        raise ValueError(f"param should have one value: {tag}")

    value_tag = value_tags[0]

    value = v.Value.from_tag(value_tag)
    return name, value
""","""    try:
        [value_tag] = tag.find_all(True, recursive=False)
    except ValueError:
        raise ValueError(f"param should have one value: {tag}")

    return name, v.Value.from_tag(value_tag)
"""),
(G,"""        canvas = self.canvas_tag

        for child in reversed(canvas.contents):
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name!='layer':
                continue

            result = Layer.from_tag(child)
            yield result

            if include_descendants:
                yield from result.children
""","""        for tag in reversed(self._layer_tags()):
            layer = Layer.from_tag(tag)
            yield layer

            if include_descendants:
                yield from layer.children

    def _layer_tags(self):
        return self.canvas_tag.find_all('layer', recursive=False)
"""),
(G,"""        after = None
        # "after" from our perspective; *before* in the XML

        canvas = self.canvas_tag
        for child in canvas.contents:
            if not isinstance(child, bs4.element.Tag):
                continue
            if child.name=='layer':
                after = child
                break

        if after is None:
            canvas.append(layer._tag)
        else:
            after.insert_before(layer._tag)

    def insert(self, index, layer):
        if not isinstance(layer, Layer):
            raise TypeError(type(layer))

        before = self[index]
        # "before" from our perspective; *after* in the XML

        before._tag.insert_after("\\n", layer._tag, "\\n")

    def __getitem__(self, f):
        if isinstance(f, int):
            return list(self.children)[f]
        else:
            return super().__getitem__(f)
""","""        # the first layer in the XML is the last from our perspective
        layer_tags = self._layer_tags()

        if layer_tags:
            layer_tags[0].insert_before(layer.tag)
        else:
            self.canvas_tag.append(layer.tag)

    def insert(self, index, layer):
        if not isinstance(layer, Layer):
            raise TypeError(type(layer))

        # the same layer is before us from our perspective, but
        # after us in the XML
        neighbour = self[index].tag
        neighbour.insert_after("\\n", layer.tag, "\\n")

    def __getitem__(self, f):
        if not isinstance(f, int):
            return super().__getitem__(f)

        return [*self.children][f]
"""),
(F,"""        if self.name not in obj._tag.attrs:
            logger.debug("no %s field; returning default: %s",
                         self.name,
                         self.default,
                         )
            return self.default_for(obj.__class__)

        value = obj._tag.get(self.name)
        logger.debug("%s field is %s",
                     self.name,
                     value,
                     )

        if value is None:
            return None
        elif issubclass(self.type_override, bool):
            return str(value).lower()=='true'
        else:
            return self.type_override(value)

    def __set__(self, obj, value):
        if issubclass(self.type_override, bool):
            if value:
                value = 'true'
            else:
                value = 'false'
        else:
            value = self.type_override(value)

        obj._tag[self.name] = value
""","""        try:
            value = obj._tag.attrs[self.name]
        except KeyError:
            return self.default_for(type(obj))

        if value is None:
            return None

        return self._decode(value)

    def _decode(self, value):
        if self._is_bool():
            return str(value).lower()=='true'
        return self.type_override(value)

    def _is_bool(self):
        return issubclass(self.type_override, bool)

    def _encode(self, value):
        if self._is_bool():
            return 'true' if value else 'false'
        return self.type_override(value)

    def __set__(self, obj, value):
        obj._tag.attrs[self.name] = self._encode(value)
"""),
(F,"""        contents = [t for t in holder.children
                    if isinstance(t, bs4.Tag)]
        if len(contents)!=1:
""","""        contents = holder.find_all(True, recursive=False)
        if len(contents)!=1:
"""),
(F,"""        subtag = self.get_subtag_for_obj(obj)

        if subtag is None:
            return ''
        else:
            return subtag.string

    def __set__(self, obj, value):

        value = self.type_(value)

        subtag = self.get_subtag_for_obj(obj)

        if subtag is None:
            subtag = bs4.Tag(name=self.name)
            obj._tag.insert(0, subtag)

        subtag.string = value
""","""        subtag = self.get_subtag_for_obj(obj)
        return '' if subtag is None else subtag.string

    def __set__(self, obj, value):
        text = self.type_(value)
        subtag = self.get_subtag_for_obj(obj)

        if subtag is not None:
            subtag.string = text
            return

        subtag = bs4.Tag(name=self.name)
        subtag.string = text
        obj._tag.insert(0, subtag)
"""),
(F,"""        v = self.upstream.__get__(obj, obj_type)
        result = v[self.name]
        return result

    def __set__(self, obj, value):
        self.__get__(obj).value = value
""","""        return self.upstream.__get__(obj, obj_type)[self.name]

    def __set__(self, obj, value):
        target = self.__get__(obj)
        setattr(target, 'value', value)
"""),
(F,"""        if self.name not in obj._tag.attrs:
            return None
        else:
            return super().__get__(obj, obj_type)

    def __set__(self, obj, value):
        if value is None:
            del obj._tag[self.name]
        else:
            super().__set__(obj, value)
""","""        return (super().__get__(obj, obj_type)
                if obj._tag.has_attr(self.name) else None)

    def __set__(self, obj, value):
        if value is not None:
            super().__set__(obj, value)
        else:
            obj._tag.attrs.pop(self.name, None)
"""),
]
