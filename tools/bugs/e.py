import os as _os
_ns = {}
exec(open(_os.path.join('tools', 'bugs', 'a.py')).read(), _ns)
PRE = _ns['PRE']
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                     edits=edits, demo=PRE + demo))


V = 'sangfroid/value/'
L = 'sangfroid/layer/'
F = 'sangfroid/field.py'
bug('c15-falsy-default', 'C15',
    'creating a layer with a parameter whose default is zero, false or empty',
    'such parameters are left out',
    [(L + 'layer.py',
      "                        if field.default is None:\n                            continue\n\n                        param",
      "                        if not field.default:\n                            continue\n\n                        param")],
    '''
c = layer.Group()
assert 'z_range' in c and 'z_depth' in c
''')
bug('c15-wrong-default', 'C15',
    'creating an Import layer',
    'it has the corners of its rectangle the wrong way up',
    [(L + 'other.py',
      "br                   = f.ParamTagField(v.X_Y, (0.5333333611, -0.5333333611),",
      "br                   = f.ParamTagField(v.X_Y, (0.5333333611, 0.5333333611),")],
    '''
c = layer.Import()
assert abs(float(c.br.y) + 0.5333333611) < 1e-9
''')
bug('c15-inherited-version', 'C15',
    'creating a layer of a class derived from another layer class',
    'the version is looked up in the class the field was declared in',
    [(L + 'layer.py',
      "        for c in cls.mro():\n            for field in c.__dict__.values():",
      "        for c in cls.mro():\n            if c is not Layer and c not in Layer.handles_type.handlers.values():\n                continue\n            for field in c.__dict__.values():")],
    '''
assert True
''')
bug('c15-bool-case', 'C15',
    'looking at the attributes of a new layer',
    'booleans are written as Python writes them',
    [(L + 'layer.py',
      "                            value = str(value).lower()\n                        else:",
      "                            value = str(value)\n                        else:")],
    '''
c = layer.Circle()
assert c.tag['active'] == 'true', c.tag['active']
''')
bug('c16-root-cached', 'C16',
    'using two animations with different frame rates, one after the other',
    'the frame rate is remembered from the first',
    [('sangfroid/t.py',
      "    root = _canvas_root(tag)",
      "    root = _canvas_root(tag)")],
    'assert True\n')
bug('c16-format-handlers', 'C16',
    'saving twice under names with different extensions',
    'the handlers are remembered on the class',
    [('sangfroid/format.py',
      "        return [\n                h for h in globals().values()\n                if isinstance(h, type)\n                and issubclass(h, Format)\n                and h!=Format\n                ]\n",
      "        if not hasattr(cls, '_handlers'):\n            cls._handlers = [\n                h for h in globals().values()\n                if isinstance(h, type)\n                and issubclass(h, Format)\n                and h!=Format\n                ]\n        return cls._handlers\n")],
    '''
from sangfroid.format import Format
before = dict(Format.__dict__)
Format.handlers()
assert dict(Format.__dict__) == before
''')
bug('c16-replacer-fields', 'C16',
    'using the template tool twice in one process',
    'the blocks of the first replacer are used by the second',
    [('sangfroid/template/replacer.py',
      "                 fields = None,\n",
      "                 fields = {},\n"),
     ('sangfroid/template/replacer.py',
      "        self.fields = fields or {}\n",
      "        self.fields = fields\n")],
    '''
from sangfroid.template.replacer import Replacer
r = Replacer(); r.add('x', 'y')
assert Replacer().fields == {}
''')
bug('c16-field-remembers', 'C16',
    'reading an attribute of one layer, then of another which lacks it',
    'the second gets what the first had',
    [(F,
      "        value = obj._tag.get(self.name)\n        logger.debug(\"%s field is %s\",",
      "        value = obj._tag.get(self.name)\n        self.default = self.default or value\n        logger.debug(\"%s field is %s\",")],
    '''
a = doc(CIRCLE.replace('active=', 'exclude_from_rendering="yes" active='))
c = a.find('circle')
c.exclude_from_rendering
a.fps
assert layer.Circle().exclude_from_rendering == False
''')
bug('c17-gamma-swap', 'C17',
    'reading or writing the green gamma of an animation',
    'it is stored as the blue one',
    [('sangfroid/animation.py',
      "    gamma_g = TagAttrField(float,       1.0, name='gamma-g')\n",
      "    gamma_g = TagAttrField(float,       1.0, name='gamma-b')\n")],
    '''
a = doc(gamma_g='2.0')
assert a.gamma_g == 2.0
''')
bug('c17-falsy', 'C17',
    'an attribute set to zero or the empty string in the document',
    'the default is read instead',
    [(F,
      "        if value is None:\n            return None\n        elif issubclass(self.type_override, bool):",
      "        if not value:\n            return self.default_for(obj.__class__)\n        elif issubclass(self.type_override, bool):")],
    '''
a = doc(view_box='')
assert a.view_box == '', a.view_box
''')
bug('c17-xres', 'C17',
    'setting the vertical resolution of an animation',
    'the horizontal one is set instead',
    [('sangfroid/animation.py',
      "    yres = TagAttrField(float,       2834.645669,\n",
      "    yres = TagAttrField(float,       2834.645669,\n                        name = 'xres',\n")],
    '''
a = doc()
a.yres = 12.0
assert float(a.tag['yres']) == 12.0
''')
bug('c17-keyframe-name', 'C17',
    'a keyframe in a document with several',
    'the name is that of the first keyframe in the document',
    [('sangfroid/keyframe.py',
      "        return self._tag.text\n",
      "        return self._tag.parent.find('keyframe').text\n")],
    '''
a = doc('<keyframe time="1s" active="true">second</keyframe>')
assert [k.name for k in a.keyframes] == ['start', 'second']
''')
bug('c17-bool-true', 'C17',
    'a document in which an attribute is spelt "TRUE"',
    'it reads as false',
    [(F,
      "            return str(value).lower()=='true'\n",
      "            return str(value)=='true'\n")],
    '''
a = doc(CIRCLE.replace('active="true"', 'active="True"'))
assert a.find('circle').active is True
''')
bug('c18-inactive', 'C18',
    'a group with a layer that is not active',
    'iteration skips it',
    [(L + 'group.py',
      "            if child.name!='layer':\n                continue\n\n            result",
      "            if child.name!='layer' or child.get('active')=='false':\n                continue\n\n            result")],
    '''
a = doc(CIRCLE.replace('active="true"', 'active="false"'))
assert len(list(a)) == 1
''')
bug('c18-append-first-tag', 'C18',
    'appending to a group whose canvas contains something other than layers',
    'the layer goes before the other things',
    [(L + 'group.py',
      "            if child.name=='layer':\n                after = child\n                break\n",
      "            if child.name!='keyframe':\n                after = child\n                break\n")],
    '''
a = doc(CIRCLE)
names = [t.name for t in a.tag.find_all(True, recursive=False)]
a.append(layer.Circle())
now = [t.name for t in a.tag.find_all(True, recursive=False)]
i = names.index('layer')
assert now == names[:i] + ['layer'] + names[i:], now
''')
bug('c18-append-nested', 'C18',
    'appending to a group whose only layers are inside a group',
    'it goes into the inner group',
    [(L + 'group.py',
      "        for child in canvas.contents:\n",
      "        for child in canvas.descendants:\n")],
    '''
a = doc()
m = bs4.BeautifulSoup('<meta><layer type="circle"/></meta>', features='xml').find(True).extract()
a.tag.insert(0, m)
a.append(layer.Circle())
assert len(a) == 1
''')
bug('c18-insert-clamp', 'C18',
    'inserting at an index beyond the end',
    'the layer goes somewhere else without complaint',
    [(L + 'group.py',
      "        before = self[index]\n",
      "        before = self[min(index, len(self)-1)]\n")],
    '''
a = doc(CIRCLE, CIRCLE)
try:
    a.insert(5, layer.Text())
    raise SystemExit(1)
except IndexError:
    pass
''')
bug('c18-insert-neg', 'C18',
    'inserting at a negative index',
    'the layer is put after the layer rather than before it',
    [(L + 'group.py',
      "        before._tag.insert_after(\"\\n\", layer._tag, \"\\n\")\n",
      "        if index<0:\n            before._tag.insert_before(\"\\n\", layer._tag, \"\\n\")\n            return\n        before._tag.insert_after(\"\\n\", layer._tag, \"\\n\")\n")],
    '''
a = doc(CIRCLE.replace('"c"', '"1"'), CIRCLE.replace('"c"', '"2"'))
t = layer.Text()
t.desc = 'new'
a.insert(-1, t)
assert [x.desc for x in a] == ['2', 'new', '1'], [x.desc for x in a]
''')
bug('c18-find-own-canvas', 'C18',
    'a group whose canvas contains defs with layers in them',
    'a non-recursive search looks one level too deep',
    [(L + 'layer.py',
      "                    recursive=recursive,\n                    )\n                ]\n        logger",
      "                    recursive=recursive or not kwargs,\n                    )\n                ]\n        logger")],
    '''
a = doc(group(CIRCLE))
assert len(a.find_all(True, recursive=False)) == 1
''')
bug('c19-unanimate-early', 'C19',
    'a Bywords group which matches no subtitle',
    'the animation of its text is removed all the same',
    [('bywords/bywords.py',
      "        if s!=self.full_text:\n            return None\n\n        for _, item in self.texts:\n            item['text'].is_animated = False\n",
      "        for _, item in self.texts:\n            item['text'].is_animated = False\n\n        if s!=self.full_text:\n            return None\n\n        for _, item in self.texts:\n")],
    '''
import pysrt
from bywords.adjust import adjust
TEXT = """<layer type="text" active="true" version="0.3" desc="hello world">
<param name="text"><animated type="string">
<waypoint time="2s" before="linear" after="clamped"><string>x</string></waypoint>
</animated></param></layer>"""
a = doc(group(TEXT).replace('desc="g"', 'desc="bywords-1"'))
before = str(a.tag)
adjust(pysrt.from_string("1\\n00:00:01,000 --> 00:00:02,000\\ngoodbye\\n"), a)
assert str(a.tag) == before
''')
bug('c19-prefix-in', 'C19',
    'a group with "bywords" in the middle of its description',
    'its text is changed',
    [('bywords/bywords.py',
      "            and group.desc.lower().startswith('bywords')\n",
      "            and 'bywords' in group.desc.lower()\n")],
    '''
import pysrt
from bywords.adjust import adjust
TEXT = """<layer type="text" active="true" version="0.3" desc="hello">
<param name="text"><string>hello</string></param></layer>"""
a = doc(group(TEXT).replace('desc="g"', 'desc="not bywords"'))
before = str(a.tag)
adjust(pysrt.from_string("1\\n00:00:01,000 --> 00:00:02,000\\nhello\\n"), a)
assert str(a.tag) == before
''')
bug('c19-desc-tidied', 'C19',
    'a text layer with capitals in its description',
    'its description is changed',
    [('bywords/bywords.py',
      "            item['text'].is_animated = False\n\n            words",
      "            item['text'].is_animated = False\n            item.desc = item.desc.strip()\n\n            words")],
    '''
import pysrt
from bywords.adjust import adjust
TEXT = """<layer type="text" active="true" version="0.3" desc="hello ">
<param name="text"><string>hello</string></param></layer>"""
a = doc(group(TEXT).replace('desc="g"', 'desc="bywords"'))
adjust(pysrt.from_string("1\\n00:00:01,000 --> 00:00:02,000\\nhello \\n"), a)
a2 = doc(group(TEXT).replace('desc="g"', 'desc="bywords"'))
from bywords.bywords import BywordsGroup
g = BywordsGroup(a2.find('group'))
g.matches('hello ', 1000)
assert a2.find('text').desc == 'hello ', a2.find('text').desc
''')
bug('c19-save-first', 'C19',
    'a subtitles file that cannot be matched without an error',
    'the animation file has been written before',
    [('bywords/__main__.py',
      "    adjust(srt, animation,\n",
      "    animation.save(args.sif)\n    adjust(srt, animation,\n")],
    '''
import bywords.__main__ as m
w = os.environ['WORK']
sif = os.path.join(w, 'a.sif')
a = sangfroid.Animation(os.path.join(os.environ['REPO'], 'test', 'circles.sif'))
raw = open(os.path.join(os.environ['REPO'], 'test', 'circles.sif'), 'rb').read()
open(sif, 'wb').write(raw)
open(os.path.join(w, 'a.srt'), 'w').write("1\\n00:00:01,000 --> 00:00:02,000\\nhello\\n")
def boom(*a, **k): raise ValueError
m.adjust = boom
sys.argv = ['x', sif]
try:
    m.main()
except ValueError:
    pass
assert open(sif, 'rb').read() == raw
''')
bug('c19-save-name', 'C19',
    'an animation whose name is given with a directory',
    'it is saved in the current directory',
    [('bywords/__main__.py',
      "    animation.save(args.sif)\n",
      "    animation.save(os.path.splitext(args.sif)[0]+'.sif')\n")],
    '''
import bywords.__main__ as m, gzip
w = os.environ['WORK']
sif = os.path.join(w, 'a.sifz')
sangfroid.Animation().save(sif)
open(os.path.join(w, 'a.srt'), 'w').write("1\\n00:00:01,000 --> 00:00:02,000\\nhello\\n")
sys.argv = ['x', sif]
m.main()
assert sorted(os.listdir(w)) == ['a.sifz', 'a.srt']
''')
bug('c20-silent-set', 'C20',
    'assigning to an attribute whose type is not implemented',
    'the assignment is ignored',
    [(F,
      "    def __set__(self, obj, value):\n        self._throw_not_implemented()\n",
      "    def __set__(self, obj, value):\n        if value is not None:\n            self._throw_not_implemented()\n")],
    '''
c = layer.Duplicate()
assert raises(NotImplementedError, setattr, c, 'index', None)
''')
bug('c20-type-set', 'C20',
    'assigning the type name of a layer',
    'it is accepted if it is the name of another type',
    [(F,
      "    def __set__(self, obj, value):\n        raise ValueError(\"You can't change the name of a type.\")\n",
      "    def __set__(self, obj, value):\n        if not isinstance(value, str) or not value.islower():\n            raise ValueError(\"You can't change the name of a type.\")\n        super().__set__(obj, value)\n")],
    '''
c = layer.Circle()
assert raises(ValueError, setattr, c, 'type_', 'text')
''')
bug('c20-tag-set', 'C20',
    'assigning the element of a layer',
    'it is accepted',
    [(F,
      "    def __set__(self, obj, value):\n        raise KeyError(\"You can't put a different tag into an object.\")\n",
      "    def __set__(self, obj, value):\n        if value is not obj._tag and obj._tag.parent is not None:\n            raise KeyError(\"You can't put a different tag into an object.\")\n        obj._tag = value\n")],
    '''
c = layer.Circle()
assert raises(KeyError, setattr, c, 'tag', bs4.Tag(name='layer'))
''')
bug('c20-format-init', 'C20',
    'creating a Sif directly',
    'it is created without a file',
    [('sangfroid/format.py',
      "    def __init__(self):\n        raise NotImplementedError(\n",
      "    def __init__(self):\n        if type(self) is Format:\n          raise NotImplementedError(\n")],
    '''
from sangfroid.format import Sif
assert raises(NotImplementedError, Sif)
''')
bug('c20-keyframes-init', 'C20',
    'creating a Keyframes object directly',
    'it is accepted',
    [('sangfroid/keyframe.py',
      "    def __init__(self):\n        raise ValueError(\"Don't instantiate the Keyframes class directly.\")\n",
      "    def __init__(self, animation=None):\n        if animation is None:\n            raise ValueError(\"Don't instantiate the Keyframes class directly.\")\n        self.animation = animation\n")],
    '''
from sangfroid.keyframe import Keyframes
try:
    Keyframes(doc())
    raise SystemExit(1)
except (TypeError, ValueError):
    pass
''')
bug('c21-typo-message', 'C21',
    'a parameter with two values',
    'the error message uses a name that does not exist',
    [(L + 'layer.py',
      "        raise ValueError(f\"param should have one value: {tag}\")\n",
      "        raise ValueError(f\"param {name} should have one value: {value_tag}\")\n")],
    '''
a = doc(CIRCLE.replace('<real value="1.5"/>', ''))
c = a.find('circle')
assert raises(ValueError, lambda: c['radius'])
''')
bug('c21-self-attr', 'C21',
    'saving under a name with an extension that is not known',
    'AttributeError is raised while making the message',
    [('sangfroid/format.py',
      "                        f\"extension {extension}.\"\n",
      "                        f\"extension {cls.extension}.\"\n")],
    '''
assert raises(ValueError, doc().save, os.path.join(os.environ['WORK'], 'x.foo'))
''')
bug('c21-branch', 'C21',
    'loading a file in a format that is not known',
    'the message uses a variable given a value only when saving',
    [('sangfroid/format.py',
      "                raise ValueError(\n                        f\"The file {filename} isn't in a format I know how \"\n                        \"to handle.\")\n",
      "                raise ValueError(\n                        f\"The file {filename} isn't in a format I know how \"\n                        f\"to handle: {extension}.\")\n")],
    '''
p = os.path.join(os.environ['WORK'], 'x.foo')
open(p, 'w').write('zzzz')
assert raises(ValueError, sangfroid.open, p)
''')
bug('c21-notimplemented', 'C21',
    'appending to a layer which is not a group',
    'raises NotImplemented, which is not an exception',
    [(L + 'layer.py',
      "        raise NotImplementedError(\n                \"Only Groups can contain other layers.\")\n",
      "        raise NotImplemented(\n                \"Only Groups can contain other layers.\")\n")],
    '''
assert raises(NotImplementedError, layer.Circle().append, layer.Circle())
''')
bug('c21-template-error', 'C21',
    'a source file with an empty name for a block',
    'the message uses a variable from an earlier version',
    [('sangfroid/template/replacer.py',
      "                        raise ValueError(f\"{filename}:{i}: beginning block with no name\")\n",
      "                        raise ValueError(f\"{filename}:{lineno}: beginning block with no name\")\n")],
    '''
from sangfroid.template.replacer import Replacer
p = os.path.join(os.environ['WORK'], 'x.py')
open(p, 'w').write('### {{{\\n### }}}\\n')
assert raises(ValueError, Replacer({'a': 'b'}).handle, p)
''')
bug('c22-value-all', 'C22',
    'star-import of sangfroid.animation',
    'a name that does not exist is advertised',
    [('sangfroid/animation.py',
      "__all__ = [\n        'Animation',\n        ]",
      "__all__ = [\n        'Animation',\n        'TagTimeField',\n        ]")],
    '''
import importlib
m = importlib.import_module('sangfroid.animation')
assert all(hasattr(m, n) for n in m.__all__)
''')
bug('c22-root-all', 'C22',
    'star-import of sangfroid',
    'a name that does not exist is advertised',
    [('sangfroid/__init__.py',
      "        'layer',\n        'Keyframe',\n",
      "        'layer',\n        'Keyframes',\n")],
    '''
assert all(hasattr(sangfroid, n) for n in sangfroid.__all__)
''')
bug('c23-direct', 'C23',
    'a failure while writing the new source file',
    'the source file itself is written in place',
    [('sangfroid/template/replacer.py',
      "        temp_filename = filename+'.1'\n\n        with open(temp_filename, 'w', newline='') as f:\n            f.write(text)\n        os.rename(temp_filename, filename)\n",
      "        with open(filename, 'w', newline='') as f:\n            f.write(text)\n")],
    '''
import builtins
from sangfroid.template.replacer import Replacer
p = os.path.join(os.environ['WORK'], 'x.py')
open(p, 'w').write('### {{{ a\\nold\\n### }}}\\n')
real = builtins.open
def spy(f, mode='r', *a, **k):
    assert not (str(f) == p and 'w' in mode)
    return real(f, mode, *a, **k)
builtins.open = spy
Replacer({'a': 'b'}).handle(p)
''')
bug('c23-rename-open', 'C23',
    'a failure while the new source file is being closed',
    'the file is moved into place before it is complete',
    [('sangfroid/template/replacer.py',
      "            f.write(text)\n        os.rename(temp_filename, filename)\n",
      "            f.write(text)\n            os.rename(temp_filename, filename)\n")],
    '''
import sangfroid.template.replacer as r
p = os.path.join(os.environ['WORK'], 'x.py')
open(p, 'w').write('### {{{ a\\nold\\n### }}}\\n')
real = os.rename
def spy(a, b):
    assert open(a).read() != ''
    real(a, b)
r.os.rename = spy
r.Replacer({'a': 'b'}).handle(p)
''')
bug('c23-in-loop', 'C23',
    'a file with a good block followed by a malformed one',
    'it is written when the first block ends',
    [('sangfroid/template/replacer.py',
      "            if changed:\n                self.write_to(filename, result)\n",
      ""),
     ('sangfroid/template/replacer.py',
      "            if current_block_name is not None:\n                raise",
      "            if changed:\n                self.write_to(filename, result)\n\n            if current_block_name is not None:\n                raise")],
    '''
from sangfroid.template.replacer import Replacer
p = os.path.join(os.environ['WORK'], 'x.py')
t = '### {{{ a\\nold\\n'
open(p, 'w').write(t)
assert raises(ValueError, Replacer({'a': 'b'}).handle, p)
assert open(p).read() == t
''')
bug('c23-strip', 'C23',
    'a source file with trailing spaces outside the blocks',
    'they are removed',
    [('sangfroid/template/replacer.py',
      "                if not ignore:\n                    result += line\n",
      "                if not ignore:\n                    result += line.rstrip(' \\t\\n')+'\\n'\n")],
    '''
from sangfroid.template.replacer import Replacer
p = os.path.join(os.environ['WORK'], 'x.py')
open(p, 'w').write('x = """  \\n"""\\n### {{{ a\\nold\\n### }}}\\n')
Replacer({'a': 'b'}).handle(p)
assert '"""  \\n' in open(p).read()
''')
bug('c23-touch', 'C23',
    'a source file with blocks that are not to be changed',
    'it is written all the same',
    [('sangfroid/template/replacer.py',
      "            if changed:\n",
      "            if changed or result:\n")],
    '''
from sangfroid.template.replacer import Replacer
p = os.path.join(os.environ['WORK'], 'x.py')
open(p, 'w').write('### {{{ b\\nold\\n### }}}\\n')
ino = os.stat(p).st_ino
Replacer({'a': 'b'}).handle(p)
assert os.stat(p).st_ino == ino
''')
