#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'observe_at': list(observe), 'hook_needed': None}})

V = 'sangfroid/value/'
prop('C01', 'Reading never modifies the document',
 'No read operation on an animation, layer, field, value, timeline, waypoint or keyframe (opening, getting, iterating, searching, measuring, comparing, converting to text, number, tuple or dict) changes any element, attribute or text of the document. An animation that is only read and then saved has the content it was loaded with.',
 ['inputs', 'histories'], 'every document, every receiver, every sequence of read operations',
 'Tests read a handful of files and compare the value they got, never the document before and after; a getter that rewrites a tag on a rare shape of input passes them all.',
 ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/animation.py', 'sangfroid/keyframe.py', V+'value.py', V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'canvas.py', V+'string.py'],
 [('getters only navigate the Beautiful Soup tree', 'Field.__get__, Value.value getters, Layer.find_all, Group.children, Timeline.*')],
 [('_tag', 'the live Beautiful Soup element behind a layer or value', 'sangfroid/layer/layer.py, sangfroid/value/value.py')],
 ['the XML tree before and after the read'])
prop('C02', 'A refused change leaves the document as it was',
 'If an assignment to a value, a field, a parameter or a timeline, a timeline edit, or the addition of a layer raises an exception because of what the caller passed, the document is exactly what it was before the call. Nothing is cleared, renamed or half-written first.',
 ['inputs', 'fault_sequences'], 'every rejected argument (wrong type, wrong length, wrong element in the middle of a collection, bad number, foreign frame rate) to every mutating operation',
 'Tests check that a bad argument raises; none looks at the document afterwards, and none rejects an element in the middle of a collection.',
 [V+'value.py', V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'canvas.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/field.py'],
 [('validation and conversion come before the first change to the tree', 'value setters, Timeline.add, Timeline.__setitem__, Value._set_waypoints, Layer.__setitem__, Group.append')])
prop('C03', 'Assigning a value leaves nothing of the old one behind',
 'After a value is assigned (through the value itself, a field or a subscript), the element in the document is the same as the element of a new value built from that input (or, where a value object was assigned, as the element of that value): same element name, same attributes, same child elements in the same order. This holds whatever the value held before, including when it was animated.',
 ['inputs', 'histories'], 'every value type, every accepted input, every previous content of the element (plain, animated, with or without extra children)',
 'Tests assign to values whose old and new content have the same shape, and read back through one accessor; stale children or attributes are invisible to them.',
 [V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'string.py', V+'canvas.py', V+'blendmethod.py', 'sangfroid/field.py', 'sangfroid/layer/layer.py'],
 [('setters clear the element and reset its name and attributes before writing', 'Value subclasses, value.setter')])
prop('C04', 'A stored value reads back as the value that was assigned',
 'For every value type, each component that was assigned is read back from the same place it was written to, in the same role (x as x, red as red, a gradient stop at its position, a transformation key under its key, true as true), and text, whole numbers and booleans exactly. Reals and vector components keep at least ten decimal places and colour channels at least six; nothing is clamped, swapped, scaled or dropped. Nothing that is in an accepted notation is refused. A number, flag, text, time or colour made from nothing is zero, false, empty, zero or white. A whole value assigned by subscript brings its animation with it, and one of another type is refused with TypeError.',
 ['inputs'], 'every value of every implemented value type in every accepted notation (tuple, list of components, dict, string, another value)',
 'Round trips are tested for a few literals; component mix-ups and lost precision outside those literals are not visible.',
 [V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'string.py', V+'blendmethod.py'],
 [('each type has one writer (value.setter) and one reader (value / as_tuple / get)', 'Value subclasses')])
prop('C05', "A layer's parameters are its own, never those of layers inside it",
 "Reading, assigning or testing for a parameter of a layer, by attribute, by subscript or with `in`, only ever concerns a parameter belonging to that layer itself, even when layers nested inside it have parameters of the same name or it has none of that name. Reading or assigning one it has not is refused, with KeyError by subscript and AttributeError by attribute, and its keys(), values() and items() list exactly its own parameters, in document order. (A switch layer, which also answers for the parameters of the layers it switches between, is the one exception.) Likewise a group's contents, an animation's name and its description are looked up on the object itself and not inside its sub-layers.",
 ['inputs'], 'every nesting of layers and every parameter name, including names the outer layer lacks or has only after its nested layers in the file',
 'The tested files happen to have outer parameters before nested ones or no clash of names.',
 ['sangfroid/layer/layer.py', 'sangfroid/field.py', 'sangfroid/layer/group.py', 'sangfroid/animation.py'],
 [('parameter lookup restricted to direct children of the layer element', 'Layer.__getitem__/__setitem__/__contains__, ParamTagField._get_value, Group.canvas_tag, NamedChildField')])
prop('C06', 'Assigning a value or waypoint copies it, never moves or links it',
 'When a value, waypoint or timeline that already lives somewhere is assigned to a parameter, value or timeline elsewhere, its source stays in its document unchanged, and the two places share no element afterwards. A waypoint written into a timeline likewise carries a copy of its value.',
 ['inputs', 'histories'], 'every pair of source and destination, in the same document, in different documents, or detached',
 'No test assigns one live value to another parameter and then looks at the source.',
 ['sangfroid/layer/layer.py', V+'value.py', V+'gradient.py', V+'transformation.py', V+'color.py'],
 [('copy before insertion into the tree', 'Layer.__setitem__, Waypoint.tag, Value._set_animated, Composite.value setter')])
prop('C07', 'Timelines are stored in order and decide whether a value is animated',
 'However a timeline is changed (assigned as a whole, by subscript, by adding or by deleting), the waypoints of the value end up in the document in ascending order of time and are exactly the ones the operation calls for. The value is animated if and only if it has at least one waypoint, adding a waypoint at an occupied time is refused unless overwriting was asked for, and a waypoint whose value has a different type is refused.',
 ['inputs', 'histories'], 'every existing timeline, every list of waypoints in any order, every edit sequence',
 'Tests add waypoints in ascending order to one or two values.',
 [V+'value.py'],
 [('sorted() before writing; clash check in add(); type check', 'Value._set_waypoints, Timeline.add, Timeline.__setitem__, Timeline.__delitem__')])
prop('C08', 'Waypoints only ever hold real interpolation types',
 'A waypoint\'s before and after interpolations are, at all times and however they were set, one of tcb, clamped, constant, linear and ease; the synonyms auto and halt are stored as tcb and ease. Anything else, including "undefined", is refused with ValueError, and "before" and "after" never get mixed up on the way to or from the document.',
 ['inputs'], 'every string or object offered as an interpolation type, through the constructor, both setters and loading',
 'Tests sample the legal names through the constructor only; the setters and unusual inputs are not exercised.',
 [V+'value.py'],
 [('single validation function used by every writer', 'Waypoint._check_interpolation_type'), ('table of types', 'INTERPOLATION_TYPES, INTERPOLATION_TYPE_SYNONYMS')])
prop('C09', 'Times are immutable, and equality, hashing and ordering agree',
 'A time never changes after it is created. Two times that compare equal have the same hash, whether or not either knows its frame rate; times compare exactly by their position in frames, with one another and with plain numbers (which count frames), so that exactly one of before, equal and after holds. Comparing two times whose known frame rates differ raises ValueError for every comparison.',
 ['inputs'], 'every pair of times, with or without frame rates, and of times and numbers',
 'Hash and equality are compared only for pairs with the same frame rate knowledge.',
 ['sangfroid/t.py'],
 [('comparison in one helper on frames; read-only properties; __hash__', 'T._compare, T.__hash__, T.frames/fps/seconds')])
prop('C10', 'Times are written in a notation the reader understands the same way',
 'The text form of any time uses only the notation the time parser accepts (plain decimal numbers, never exponents, followed by h, m, s or f, largest unit first), each unit standing for the same amount when written as when read. What is written to the file for a time is that text, and text that is not in the notation is refused with ValueError.',
 ['inputs'], 'every finite time at every frame rate, and times with unknown frame rate',
 'Tests print some thirty times with small round numbers; times whose fractional part is tiny or whose frame count is large are never printed.',
 ['sangfroid/t.py', V+'value.py', V+'simple.py'],
 [('writer and parser share units and sizes', 'T.__str__, T._parse_time_spec, TIMESPEC_RE'), ('time attribute written as text', 'Waypoint.tag, Time')])
prop('C11', 'The frame rate and the length of an animation are never guessed',
 'A time specified in hours, minutes or seconds (other than zero), or as a negative number (which counts back from the end), is accepted only if it is anchored to a document, whose root canvas supplies the frame rate and the length; otherwise ValueError is raised. A frame rate that is not a positive (finite) number is refused, and asking for the seconds of a non-zero time with no known frame rate raises ValueError.',
 ['inputs', 'configurations'], 'every specification, with every kind of reference: none, a detached element, any element of an attached document, a layer',
 'Tests cover a fixed table with one frame rate.',
 ['sangfroid/t.py', V+'value.py'],
 [('fps taken from the root canvas only', 'T.__init__, _canvas_root, T._parse_time_spec, T.seconds')])
prop('C12', 'A failed save never damages the file that was there',
 'If saving cannot go ahead (unsupported or unknown format, or a document that cannot be turned into text or encoded), no existing file has been opened for writing, and the animation still refers to the file and format it had. A file is only ever truncated once the complete bytes to be written exist.',
 ['inputs', 'fault_sequences'], 'every document, every target name, every point at which serialisation can fail',
 'Tests only save documents that serialise, to supported formats.',
 ['sangfroid/format.py', 'sangfroid/animation.py'],
 [('serialise, then open, then write', 'Sif.save, Sifz.save, Format._write_to_file'), ('format switch on success', 'Animation.save')])
prop('C13', 'The file format is chosen unambiguously and read as it was written',
 'On loading, the format is decided by the first bytes of the file, on saving by the extension regardless of case; every signature and extension belongs to exactly one format and anything unknown raises ValueError. What is saved in a format is the whole document, in UTF-8 whatever the locale, in exactly the container (plain or gzip) that loading that format expects. Saving without a name writes the file which was last saved to successfully, or else loaded from, in its format, and raises ValueError if there is none.',
 ['inputs', 'configurations'], 'every file name and extension, every locale, every document',
 'Tests run in one locale with four combinations of lower-case names and ASCII documents.',
 ['sangfroid/format.py', 'sangfroid/animation.py', 'sangfroid/__init__.py'],
 [('handlers keyed by magic_number and extensions', 'Format.from_filename, Format.handlers'), ('paired open calls', 'Sif, Sifz: main_file / save')])
prop('C14', 'Type names are matched without regard to case or underscores',
 'Looking up the class for an element, registering a class, and searching layers by type all treat type names as equal when they differ only in case and underscores, on both sides of the comparison, so a search by a layer class or by its name finds every layer of that type. Every registered name leads to exactly one class, and an unknown name raises KeyError.',
 ['inputs'], 'every type name and every spelling, for every registered type',
 'Tests search only for "circle", whose name has no underscore in the file.',
 ['sangfroid/registry.py', 'sangfroid/util.py', 'sangfroid/layer/layer.py', V+'value.py'],
 [('one normalisation function', 'normalise_synfig_layer_type_name, Registry.__call__, Registry.from_name, Layer.find_all')])
prop('C15', "A new layer is complete and has Synfig's own defaults",
 "Every registered layer type can be created from nothing, and the new layer then has its type name, version and each of the parameters declared for it with an implemented type exactly once, each holding a value of the declared type equal to Synfig's default for that parameter, and each readable through the layer's own attribute.",
 ['inputs', 'programs'], 'every registered layer class and every declared parameter',
 'The test instantiates only direct subclasses outside one module and looks at no content except one circle (whose comparison result is discarded).',
 ['sangfroid/layer/*.py', 'sangfroid/field.py'],
 [('declarations', 'ParamTagField declarations in sangfroid/layer'), ('construction', 'Layer._construct_empty_tag')])
prop('C16', 'Objects do not influence one another through hidden shared state',
 'Creating, reading or changing one animation, layer, value or time, or using one of the tools, never alters anything kept on a class, a field declaration, a module or a default argument. What an operation returns therefore depends only on its arguments and on the documents it was given, not on what was created or done before.',
 ['histories'], 'every interleaving of operations on unrelated objects in one process',
 'Each test builds its own objects and checks those; cross-talk shows only for particular orders of creation.',
 ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/registry.py', 'sangfroid/*'],
 [('class-level tables are written only while modules are being imported', 'Field, Registry, Layer')])
prop('C17', "Each attribute reads and writes one place, under Synfig's name for it",
 "An attribute of an animation, layer or keyframe is written to the very place in the document it is read from, under the name that Synfig uses for that attribute or parameter, and two different attributes of a class never share a place. Reading an attribute that the document sets never yields the built-in default instead, and reading an XML attribute that the document does not set yields the default, of the same type. What was assigned is what is read from then on, also after saving. The size, view box and background colour of an animation are those of its attributes, with the parts in order.",
 ['inputs', 'programs'], 'every declared attribute of every class, every document',
 'Tests read back a few attributes after writing them, which succeeds even if both use a wrong name, and most attributes hold their defaults in the test files.',
 ['sangfroid/field.py', 'sangfroid/animation.py', 'sangfroid/layer/*.py'],
 [('field name used by both __get__ and __set__', 'TagAttrField, ParamTagField, NamedChildField, ShortcutField, TypeNameField')])
prop('C18', "A group's length, order, indexing, iteration and search agree",
 "Iterating over a group, its children, its length, indexing and a non-recursive search all describe exactly the direct sub-layers, with iteration, children and indexing in the reverse of document order. Appending puts a layer last in that order and inserting puts it just before the layer at the given index, without disturbing any other element; adding something that is not a layer, inserting at an index where there is no layer, or adding to a layer that is not a group, is refused.",
 ['inputs', 'histories'], 'every group, including empty ones, ones with nested groups, and animations whose canvas also holds metadata',
 'Tests use flat groups, where direct and nested sub-layers cannot be told apart.',
 ['sangfroid/layer/group.py', 'sangfroid/layer/layer.py'],
 [('sub-layers are direct <layer> children of the canvas', 'Group._get_children, Group.append, Group.insert, Group.__getitem__, Layer.__len__, Layer.find_all')])
prop('C19', 'Bywords changes only the words it animates, and saves last',
 'Running Bywords changes nothing in the animation except the "text" parameter of text layers inside groups whose description starts with "bywords" and which match a subtitle line. The file is written once, to the animation file given, after all reading and adjusting has succeeded; if anything fails before that, the file is untouched.',
 ['inputs', 'fault_sequences'], 'every animation and every subtitle file, including unmatched lines and malformed input',
 'The one test looks only at text timelines, and never runs the command.',
 ['bywords/adjust.py', 'bywords/bywords.py', 'bywords/__main__.py'],
 [('single save at the end', 'bywords.__main__.main'), ('edits go through the text timeline', 'bywords.adjust.adjust, BywordsGroup.matches')])
prop('C20', 'Unimplemented and read-only attributes refuse, every time',
 'Reading or assigning a layer attribute whose type is not implemented, or the contents of a parameter value of such a type, raises NotImplementedError, for every layer class that declares one, and never changes the document. The type name of a layer and the element behind a layer cannot be assigned, times have no assignable parts, and classes that only the library may create refuse direct construction.',
 ['inputs', 'programs'], 'every declared unimplemented or read-only attribute, every receiver, every assigned value',
 'One test class with one such field is checked.',
 ['sangfroid/field.py', V+'tbd.py', V+'value.py', 'sangfroid/keyframe.py', 'sangfroid/format.py'],
 [('NotImplementedField, TagField, TypeNameField setters raise unconditionally', 'sangfroid/field.py')])
prop('C21', 'Error handling raises the error it sets out to raise',
 'When the library detects bad input and goes to raise an exception, the caller sees an exception of that kind: no code path, and in particular no error path, uses a variable, module attribute, attribute of its own object or exception name that does not exist or has not been given a value there.',
 ['inputs', 'fault_sequences'], 'every path through every function, including paths reached only by malformed documents or arguments',
 'Error paths for malformed documents are almost entirely untested, and Python resolves names only when a path is executed.',
 ['sangfroid/*', 'bywords/*'],
 [('names resolve in their scope', 'every raise statement and f-string message')])
prop('C22', 'Every advertised name exists',
 'Every name the packages list for star-import exists under that name, and every name one module of the packages imports from another is defined there. Every registered layer and value class can be reached by name from its package.',
 ['programs'], 'every module and every exported name',
 'Tests import the names they use; star-import of the top package is never tried.',
 ['sangfroid/__init__.py', 'sangfroid/layer/__init__.py', V+'__init__.py', 'sangfroid/*', 'bywords/*'],
 [('__all__ lists', 'package __init__ modules')])
prop('C23', 'The code generator never leaves a source file half-written',
 'When the template tool updates generated blocks in a source file, the new text is written completely to another file and moved into place, and only after the whole source file was processed without an error; a file that is malformed or contains no matching block is not touched, and the former raises ValueError. Lines outside generated blocks, and blocks for which no text was given, are carried over unchanged, and, in every source file of the package, however deep, every other block (named in its first line, or after the class it is in) then holds exactly the text given for it, indented like its markers.',
 ['inputs', 'crash_points', 'fault_sequences'], 'every source file, every set of blocks, a crash or error at any point',
 'The generator has no tests.',
 ['sangfroid/template/replacer.py'],
 [('temporary file and rename', 'Replacer.write_to'), ('write only at the end of handle()', 'Replacer.handle')])
prop('C24', 'A search finds exactly the layers that match',
 'Searching a group or animation by type, by description, with a function, or with True or False returns exactly the layers inside it which match: at every depth, or only the direct sub-layers if the search is not recursive; each once and in document order. find, and calling the group, give the first of what find_all gives, or None. A layer that contains no layers yields nothing, and contradictory or meaningless criteria (two positional arguments, the same criterion twice, something that is neither text, class, bool nor function) are refused with ValueError or TypeError.',
 ['inputs', 'histories'], 'every tree of layers and every criterion, one search after another',
 'Tests search small fixed documents for one type at a time.',
 ['sangfroid/layer/layer.py', 'sangfroid/layer/group.py'],
 [('one matcher over the elements inside the canvas', 'Layer.find_all, Layer.find, Group._holder_of_sublayers')])
prop('C25', 'Values compare by what they hold',
 'A value that is not animated equals another of its type when both hold the same contents, in whatever order their components are written in the document and whether or not either belongs to a document, and differs from one in which any component differs by more than rounding (reals count as the same within a ten-thousandth, colours if they print the same). In the same way it equals the Python object it could be assigned from which has those contents (a number, text, flag, tuple, dict, or list of layers), and differs from one with other contents. != is always the opposite of ==. Comparing a value with None, a value of another type, or an object of another shape never raises, as long as the contents of both can be read.',
 ['inputs'], 'every pair of values of every type, and every object compared with one',
 'Tests compare each type with a few literals; no two values with the same contents in another order, and few objects of another kind, are ever compared.',
 [V+'value.py', V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'canvas.py'],
 [('__eq__ of the value classes', 'Value, Simple, Vector, Color, Composite, Canvas')])
prop('C26', 'The ways of reading the parts of a value agree',
 'For a vector, gradient, transformation or timeline, in whatever order the document lists its parts, the length, keys, values and items agree: the values come in the order of the keys, and the items pair each key with its own value. Subscripting (by time, for a timeline, however the time is given), get and, for vectors and transformations, attributes give for each key that same value. A vector indexed by number, iterated over or turned into a tuple gives x and then y, a colour turned into a tuple or digits red, green, blue and alpha; iterating over a gradient gives its positions, and over a timeline its waypoints in order of time. A part that is not there raises KeyError when subscripted (AttributeError as an attribute), and get gives the default. The keyframes of an animation are those the document lists, in its order and as many as their length says, each with its own time, name and whether it is active.',
 ['inputs'], 'every such value, timeline and set of keyframes, with its parts in every order',
 'Tests read a few values whose parts are in the usual order, each in one way.',
 [V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'value.py', 'sangfroid/keyframe.py'],
 [('keys, values, items, get, __getitem__, __getattr__, __iter__, __len__, as_tuple', 'Vector, Gradient, Composite, Timeline, Keyframes, Color.as_tuple')])
prop('C27', 'A time is as many frames as its specification says, at every frame rate',
 'At every frame rate, a time given in hours, minutes, seconds and frames is the number of seconds that makes, times the frame rate, plus the frames (all of it negative if it starts with a minus sign), wherever it stands: given to T, or found in the document as the begin or end time, the time of a keyframe or waypoint, or a parameter. Its seconds are its frames divided by the frame rate. A negative number -n stands for the nth frame from the end, the last frame being as far from the first as the end time is from the begin time, and the frame count of an animation is that distance, rounded down, plus one.',
 ['inputs'], 'every frame rate, begin and end time',
 'Tests use 24 frames per second and animations which begin at zero.',
 ['sangfroid/t.py', 'sangfroid/animation.py', 'sangfroid/keyframe.py', V+'value.py', V+'simple.py'],
 [('T._parse_time_spec, T.seconds', 'sangfroid/t.py'), ('T(-1) arithmetic', 'T.__init__, Animation.framecount')])
prop('C28', 'Bywords shows every word of a line in turn, in proportion to its length',
 'A subtitle line matches a group described as "bywords..." if the descriptions of the text layers in the group, topmost first and joined by spaces, are the text of the line but for case and punctuation. The words of those layers then appear in that order: the first at the start of the line, and each other one later than the word before it by the share of the duration of the line which that word has in the number of characters of all of them (so all of them before the end). With each word, the text of its layer becomes the description up to and including that word, at once (constant interpolation), and before its first word the layer is empty. If letters were asked for, the same goes for letters instead of words. No word is lost, whatever other words appear at the same moment, and lines with no words or no group make no difference.',
 ['inputs'], 'every subtitle line, start, duration, frame rate and division of the words into layers',
 'One song is tested, and the times are not looked at.',
 ['bywords/bywords.py', 'bywords/adjust.py'],
 [('matching and ms_per_letter arithmetic', 'BywordsGroup.matches'), ('collecting the words', 'Bywords.__init__'), ('waypoints', 'adjust, set_constant_waypoint')])
prop('C29', 'A layer knows where it is',
 'The parent of a layer is the layer immediately around it, as an object of the class for its type, or None if it is at the top of an animation or not in one; its depth is the number of layers around it. This is so however the layer was reached (by iteration, indexing, search, or from another layer), and remains so when it or a group it is in is appended to or inserted into another group or animation.',
 ['inputs', 'histories'], 'every nesting of layers and every sequence of moves',
 'Tests look at the parent of one layer in one file.',
 ['sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/animation.py'],
 [('walk up the tree to the nearest <layer>', 'Layer.parent, Layer.tag_depth')])
prop('C30', 'What isn\'t a value of the type is refused, not stored as something else',
 'Assigning to a value of any type (directly, by the constructor, an attribute, a subscript or a timeline) something that is in no notation accepted for that type raises ValueError, TypeError or KeyError: text that isn\'t a number for a number or a component, text other than true and false for a flag, a colour with other than three or four channels or six or eight hexadecimal digits, a vector of other than two numbers, a gradient with fewer than two stops, a transformation with a part missing, added or wrong, something other than layers as the contents of a group, a time that is not in the notation. So does making a waypoint of something that is not a value or is animated, or a timeline of something that is not a waypoint. And reading a value that is malformed in the document (with a part or its contents missing, twice or not a number, or a waypoint without time, value or interpolation, or with a value of another type) raises an exception rather than giving something made up; only a flag with odd contents is read as false, with a warning.',
 ['inputs'], 'every wrong argument and every malformed element',
 'Tests give a handful of wrong arguments to a few of the types.',
 [V+'simple.py', V+'vector.py', V+'color.py', V+'gradient.py', V+'transformation.py', V+'canvas.py', V+'value.py'],
 [('the value setters', V+'*.py'), ('Waypoint.__init__, Waypoint.from_tag, Timeline.add, Value.timeline', V+'value.py')])
# not decided by static analysis here
prop('C40', 'Printing a time and parsing it gives the same time',
 'For every time, parsing its text form with the same frame rate gives a time equal to it to within a thousandth of a frame.',
 ['inputs'], 'every float position and every frame rate', 'Only about thirty round values are tested.',
 ['sangfroid/t.py'], [('T.__str__ and T._parse_time_spec', 'sangfroid/t.py')])
prop('C41', 'Eight-bit colours survive the trip through floats',
 'Every colour given as hexadecimal digits is printed as the same digits.',
 ['inputs'], 'all 2^32 colours', 'The test covers the 256 greys.',
 [V+'color.py'], [('rounding to six decimals and back', 'Color.value')])
prop('C43', 'A saved animation loads as the same document',
 'For every document, saving it and loading the result gives the same elements, attributes and text.',
 ['inputs'], 'every XML document Synfig can produce', 'A few files are tested.',
 ['sangfroid/format.py', 'sangfroid/animation.py'], [('Beautiful Soup and lxml serialisation', 'third-party')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
