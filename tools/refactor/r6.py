B='bywords/bywords.py'
AD='bywords/adjust.py'
M='bywords/__main__.py'
R='sangfroid/template/replacer.py'
EDITS=[
(B,"""        word_timings = []

        if letter_at_a_time:
            splitting_re = NOTHING
        else:
            splitting_re = WHITESPACE

        if s!=self.full_text:
            return None

        for _, item in self.texts:
            item['text'].is_animated = False

            words = [w for w in splitting_re.split(item.desc)
                     if w!=''
                     ]

            i = 0
            while words:
                word = words.pop(0)

                i += len(word)

                word_timings.append(
                        WordTiming(
                            text = item.desc[:i],
                            item = item,
                            length = len(word),
                            ))

                if words and words[0].strip()=='':
                    i += len(words.pop(0))

            s = s[len(item.desc):]

        if not word_timings:
            return None

        total_letters = sum([w.length for w in word_timings])
        ms_per_letter = duration/total_letters

        time = start
        for w in word_timings:
            w.time = time/1000
            time += w.length*ms_per_letter

        return word_timings
""","""        if s!=self.full_text:
            return None

        splitting_re = NOTHING if letter_at_a_time else WHITESPACE

        word_timings = []
        for _, item in self.texts:
            item['text'].is_animated = False
            word_timings.extend(self._words_of(item, splitting_re))

        if word_timings:
            self._set_times(word_timings, duration, start)
        return word_timings or None

    @staticmethod
    def _words_of(item, splitting_re):
        pieces = collections.deque(filter(None, splitting_re.split(item.desc)))
        end = 0

        while pieces:
            length = len(pieces.popleft())
            end += length
            yield WordTiming(item.desc[:end], item, length)

            if pieces and not pieces[0].strip():
                end += len(pieces.popleft())

    @staticmethod
    def _set_times(word_timings, duration, start):
        ms_per_letter = duration/sum(w.length for w in word_timings)

        done = 0
        for w in word_timings:
            w.time = (start + done*ms_per_letter)/1000
            done += w.length
"""),
(B,"""        self.texts = [
                (self.tidy_string(item.desc), item,)
                for item in
                list(reversed(group.find_all('text')))
                ]

        self.full_text = ' '.join(
                [s[0] for s in self.texts])
""","""        self.texts = []
        for item in group.find_all('text')[::-1]:
            self.texts.append((self.tidy_string(item.desc), item))

        self.full_text = ' '.join(tidied for tidied, _ in self.texts)
"""),
(B,"""        self.lines = [
                (
                    line.start.ordinal,
                    line.duration.ordinal,
                    BywordsGroup.tidy_string(line.text),
                    )
                for line in srt
                ]

        self.groups = sorted([
            BywordsGroup(group)
            for group in self.sif.find_all(sangfroid.layer.Group)
            if group.desc is not None
            and group.desc.lower().startswith('bywords')
            ])

        result = []
        found = None

        for start, duration, text in self.lines:
            for group in self.groups:
                found = group.matches(text,
                                      duration,
                                      start,
                                      letter_at_a_time,
                                 )
                if found:
                    break
            if found:
                result.extend(found)
            else:
                self.no_matches.append(text)

        self.words = sorted(result)
""","""        self.lines = [self._line(line) for line in srt]

        self.groups = [
            BywordsGroup(group)
            for group in self.sif.find_all('group')
            if (group.desc or '').lower().startswith('bywords')
            ]
        self.groups.sort()

        self.words = []

        for line in self.lines:
            found = self._match(*line, letter_at_a_time)
            if not found:
                self.no_matches.append(line[-1])
                continue
            self.words += found

        self.words.sort(key=lambda word: word.time)

    @staticmethod
    def _line(line):
        return (line.start.ordinal, line.duration.ordinal,
                BywordsGroup.tidy_string(line.text))

    def _match(self, start, duration, text, letter_at_a_time):
        for group in self.groups:
            found = group.matches(text, duration, start, letter_at_a_time)
            if found:
                return found
        return None
"""),
(AD,"""    s = sangfroid.value.String(value)
    t = sangfroid.T(
            f"{time:.10f}s",
            ref = tl.parent.tag,
            )
    waypoint = sangfroid.value.Waypoint(
            time = t,
            value = s,
            before = 'constant',
            after = 'constant',
            )
    tl += waypoint
""","""    tl.add(
            sangfroid.value.Waypoint(
                sangfroid.T(f"{time:.10f}s", ref = tl.parent.tag),
                sangfroid.value.String(value),
                'constant',
                'constant',
                ),
            overwrite = True,
            )
"""),
(AD,"""    for obj in set([o.item for o in bw]):
        obj.is_animated = True
        timeline = obj['text'].timeline

        set_constant_waypoint(timeline, 0, '')

        for word in bw:
            if word.item!=obj:
                continue

            seconds = f"{word.time/1000}s"

            set_constant_waypoint(timeline,
                                  word.time,
                                  word.text,
                                  )
""","""    for obj in {word.item for word in bw}:
        timeline = obj['text'].timeline
        waypoints = [(0, '')] + [
                (word.time, word.text) for word in bw if word.item is obj]

        for time, text in waypoints:
            set_constant_waypoint(timeline, time, text)
"""),
(M,"""    args = parser.parse_args()

    if args.srt is None:
        srt_filename = os.path.splitext(args.sif)[0]+'.srt'
    else:
        srt_filename = args.srt

    if args.verbose>1:
        logger.setLevel(logging.DEBUG)
    elif args.verbose==1:
        logger.setLevel(logging.INFO)
    else:
        logger.setLevel(logging.WARNING)

    srt = pysrt.open(srt_filename)
    animation = sangfroid.Animation(args.sif)
    logger.debug("Loaded animation and timings.")

    adjust(srt, animation,
           letter_at_a_time = args.letter,
           )

    logger.debug("Saving...")
    animation.save(args.sif)
    logger.info("Done.")
""","""    process(parser.parse_args())

LEVELS = {0: logging.WARNING, 1: logging.INFO}

def process(args):
    logger.setLevel(LEVELS.get(args.verbose, logging.DEBUG))

    srt_filename = args.srt
    if srt_filename is None:
        base, _ = os.path.splitext(args.sif)
        srt_filename = f'{base}.srt'

    srt, animation = pysrt.open(srt_filename), sangfroid.Animation(args.sif)
    logger.debug("Loaded animation and timings.")

    adjust(srt, animation, args.letter)

    logger.debug("Saving...")
    animation.save(filename=args.sif)
    logger.info("Done.")
"""),
(R,"""        result = ''

        latest_class_name = None
        current_block_name = None
        current_indent = None
        changed = False
        ignore = False

        with open(filename, 'r', newline='') as f:

            for i, line in enumerate(f):
                if self.verbose:
                    print("%4d %30s %s" % (
                        i,
                        current_block_name or '',
                        line.rstrip(),
                        ))
                m = CLASSNAME_RE.search(line)
                if m:
                    latest_class_name = m.groups()[0]

                m = START_BLOCK_RE.search(line)
                if m:
                    if current_block_name is not None:
                        raise ValueError(f"{filename}:{i}: beginning block inside another one")

                    current_indent = len(m.groups()[0])
                    current_block_name = m.groups()[1]
                    if current_block_name == '':
                        current_block_name = latest_class_name
                        latest_class_name = None

                    if not current_block_name:
                        raise ValueError(f"{filename}:{i}: beginning block with no name")

                    result += line
                    self.seen_fields.add(current_block_name)

                    if current_block_name not in self.fields:
                        ignore = False

                    else:
                        indent_s = ' '*current_indent
                        next_lines = [
                                (indent_s+line).rstrip()
                                for line in
                                self.fields[current_block_name].split('\\n')
                                ]
                        result += '\\n'.join(next_lines)
                        ignore = True
                        changed = True
                    continue

                m = END_BLOCK_RE.search(line)
                if m:
                    if current_block_name is None:
                        raise ValueError(f"{filename}:{i}: ended block without starting one")

                    if ignore:
                        result += '\\n'
                        ignore = False

                    line = (' '*current_indent) + line.strip() + '\\n'
                    current_block_name = None
                    current_indent = None

                if not ignore:
                    result += line

            if current_block_name is not None:
                raise ValueError(f"{filename}:{i}: file ended in the middle of a block")

            if changed:
                self.write_to(filename, result)
""","""        with open(filename, 'r', newline='') as f:
            lines = f.readlines()

        result = []
        latest_class_name = block_name = indent = None
        changed = ignore = False

        for i, line in enumerate(lines):
            if self.verbose:
                print("%4d %30s %s" % (i, block_name or '', line.rstrip()))

            if m := CLASSNAME_RE.search(line):
                latest_class_name = m.group(1)

            if m := START_BLOCK_RE.search(line):
                if block_name is not None:
                    raise ValueError(f"{filename}:{i}: beginning block inside another one")

                indent = len(m.group(1))
                block_name = m.group(2)
                if not block_name:
                    block_name, latest_class_name = latest_class_name, None
                if not block_name:
                    raise ValueError(f"{filename}:{i}: beginning block with no name")

                result.append(line)
                self.seen_fields.add(block_name)

                ignore = block_name in self.fields
                if ignore:
                    result.append(self._indented(self.fields[block_name], indent))
                    changed = True
                continue

            if END_BLOCK_RE.search(line):
                if block_name is None:
                    raise ValueError(f"{filename}:{i}: ended block without starting one")

                if ignore:
                    result.append('\\n')
                    ignore = False

                line = ' '*indent + line.strip() + '\\n'
                block_name = indent = None

            if not ignore:
                result.append(line)

        if block_name is not None:
            raise ValueError(f"{filename}:{i}: file ended in the middle of a block")

        if changed:
            self.write_to(filename, ''.join(result))

    @staticmethod
    def _indented(text, indent):
        prefix = ' '*indent
        return '\\n'.join((prefix+line).rstrip() for line in text.split('\\n'))
"""),
(R,"""        temp_filename = filename+'.1'

        with open(temp_filename, 'w', newline='') as f:
            f.write(text)
        os.rename(temp_filename, filename)
        print("Written:", filename)
""","""        temp_filename = f'{filename}.1'

        with open(temp_filename, mode='w', newline='') as out:
            out.write(text)

        os.replace(temp_filename, filename)
        print(f"Written: {filename}")
"""),
]
