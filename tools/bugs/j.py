import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


B = 'bywords/bywords.py'
J = 'bywords/adjust.py'
SAY = '''
import pysrt
from bywords.adjust import adjust

def text(desc):
    return """<layer type="text" active="true" version="0.5" desc="%s">
<param name="text"><string>x</string></param></layer>""" % desc

def bygroup(name, *descs):
    return """<layer type="group" active="true" version="0.3" desc="%s">
<param name="canvas"><canvas>%s</canvas></param></layer>""" % (
        name, ''.join(text(d) if '<' not in d else d
                      for d in reversed(descs)))

def say(a, *lines, **kw):
    srt = pysrt.SubRipFile(items=[
        pysrt.SubRipItem(i, start=pysrt.SubRipTime.from_ordinal(s),
                         end=pysrt.SubRipTime.from_ordinal(s+d), text=t)
        for i, (s, d, t) in enumerate(lines)])
    adjust(srt, a, **kw)

def shown(a, desc, n=0):
    l = [x for x in a.find_all('text') if x.desc==desc][n]
    return [(round(float(w.time.frames), 2), str(w.value))
            for w in l['text'].timeline]
'''
bug('c28-space', 'C28', 'two spaces between words',
    'the text up to a word is cut short',
    [(B, "                    i += len(words.pop(0))\n",
      "                    words.pop(0)\n                    i += 1\n")],
    SAY + '''
a = doc(bygroup('bywords', 'big  bad'))
say(a, (1000, 2000, 'big  bad'))
assert shown(a, 'big  bad')[-1][1] == 'big  bad', shown(a, 'big  bad')
''')
bug('c28-nested-text', 'C28', 'a text layer in a group inside the group',
    'the words in inner groups are not looked at',
    [(B, "list(reversed(group.find_all('text')))",
      "list(reversed(group.find_all('text', recursive=False)))")],
    SAY + '''
a = doc(bygroup('bywords', 'big', bygroup('inner', 'wolf')))
say(a, (1000, 800, 'big wolf'))
assert len(shown(a, 'big')) == 2
''')
bug('c28-same-desc', 'C28', 'two layers of a line with the same word',
    'both layers get the words of either',
    [(J, "            if word.item!=obj:\n",
      "            if word.item.desc!=obj.desc:\n")],
    SAY + '''
a = doc(bygroup('bywords', 'the', 'cat', 'the'))
say(a, (1000, 900, 'the cat the'))
assert len(shown(a, 'the')) == 2, shown(a, 'the')
assert len(shown(a, 'the', 1)) == 2, shown(a, 'the', 1)
''')
bug('c28-whole-ms', 'C28', 'a duration which the letters do not divide',
    'the pauses are too short',
    [(B, "        ms_per_letter = duration/total_letters\n",
      "        ms_per_letter = duration//total_letters\n")],
    SAY + '''
a = doc(bygroup('bywords', 'stigmatised', 'x'))
say(a, (0, 23, 'stigmatised x'))
assert abs(shown(a, 'x')[1][0] - 23*11/12*24/1000) < .015, shown(a, 'x')
''')
bug('c28-rounded', 'C28', 'words which do not start at a whole second',
    'words appear at other times',
    [(B, "            w.time = time/1000\n",
      "            w.time = round(time/1000, 1)\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one two'))
say(a, (1000, 1150, 'one two'))
assert abs(shown(a, 'one two')[2][0] - 1.575*24) < .02, shown(a, 'one two')
''')
bug('c28-first-letter', 'C28', 'letter at a time',
    'the words of the line start late',
    [(B, "        time = start\n        for w in word_timings:\n",
      "        time = start\n        if letter_at_a_time:\n"
      "            time += ms_per_letter\n        for w in word_timings:\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one two'))
say(a, (1000, 600, 'one two'), letter_at_a_time=True)
assert shown(a, 'one two')[1] == (24.0, 'o'), shown(a, 'one two')
''')
bug('c28-twice', 'C28', 'a line which comes twice',
    'the words of the earlier line are lost',
    [(B, "            if found:\n                for word in found:\n", "")]
    if False else
    [(J, "        set_constant_waypoint(timeline, 0, '')\n",
      "        set_constant_waypoint(timeline, 0, '')\n        seen = set()\n"),
     (J, "            seconds = f\"{word.time/1000}s\"\n",
      "            if word.text in seen:\n                continue\n"
      "            seen.add(word.text)\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one'))
say(a, (1000, 600, 'one'), (3000, 600, 'one'))
assert shown(a, 'one') == [(0.0, ''), (24.0, 'one'), (72.0, 'one')]
''')
bug('c28-linear', 'C28', 'any word',
    'the words do not appear at once',
    [(J, "            after = 'constant',\n",
      "            after = 'linear',\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one two'))
say(a, (1000, 600, 'one two'))
for w in a.find('text')['text'].timeline:
    assert w.before == w.after == 'constant'
''')
bug('c28-digits', 'C28', 'a line with digits in it',
    'digits are taken for punctuation, and other lines match',
    [(B, "re.compile('[^a-z0-9 ]')", "re.compile('[^a-z ]')")],
    SAY + '''
a = doc(bygroup('bywords', 'take 1'))
say(a, (1000, 600, 'take 2'))
assert str(a.find('text')['text']) == 'x'
''')
bug('c28-prefix-line', 'C28', 'a line which goes on after the words of a group',
    'the line matches a group which has only its first words',
    [(B, "        if s!=self.full_text:\n",
      "        if not s.startswith(self.full_text):\n")],
    SAY + '''
a = doc(bygroup('bywords a', 'how'), bygroup('bywords b', 'how are you'))
say(a, (1000, 600, 'how are you'))
assert str(a.find_all('text')[0]['text']) == 'x'
''')
bug('c28-sort-text', 'C28', 'a later word which sorts before an earlier one',
    'words at one moment come in the wrong order',
    [(B, "        return self.time<other.time\n",
      "        return (self.time, self.text)<(other.time, other.text)\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one two'))
say(a, (1000, 0, 'one two'))
assert shown(a, 'one two') == [(0.0, ''), (24.0, 'one two')]
''')
bug('c28-no-clear', 'C28', 'a line which starts late',
    'the layer is not empty before its first word',
    [(J, "        set_constant_waypoint(timeline, 0, '')\n",
      "        if len(timeline):\n            set_constant_waypoint(timeline, 0, '')\n")],
    SAY + '''
a = doc(bygroup('bywords', 'one'))
say(a, (1000, 600, 'one'))
assert shown(a, 'one')[0] == (0.0, '')
''')
