"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

PARSE = 'src/parse.rs'
p('L01', 'Loading never panics, whatever the bytes',
  'Loading from any sequence of bytes, through any reader that may fail at any point, returns either a loaded object or an error. It never panics, aborts, or overflows an integer, however malformed, truncated or huge the declared counts are.',
  ['inputs', 'fault_sequences'], 'every byte sequence and every reader behaviour, including read errors at any line',
  'The tests load a handful of well-formed files and a few hand-written malformed ones; the space of malformed files (unexpected section keywords, missing names, huge counts, negative frame times, truncated hierarchies) is unbounded.',
  [PARSE, 'src/lib.rs', 'src/joint.rs'],
  [('hierarchy state machine', 'src/parse.rs read_joints'), ('motion section reader', 'src/parse.rs read_motion'), ('entry points', 'src/lib.rs from_reader/from_bytes/from_str')],
  ['return value of every load entry point'])
p('L02', 'A loaded animation holds exactly frames times channels values',
  'Whenever loading succeeds, the number of motion values equals the number of frames announced by the file multiplied by the number of channels of the loaded skeleton, and, for a skeleton that has channels, the frame count agrees with the announced count. Any other number of values is reported as an error.',
  ['inputs'], 'every byte sequence that loads successfully',
  'Tests check the count for a few files; a miscount only shows for particular combinations of channel count, frame count and layout of values over lines.',
  [PARSE, 'src/lib.rs'], [('count comparison after reading the values', 'src/parse.rs read_motion'), ('frame count', 'src/lib.rs Bvh::num_frames')],
  ['Bvh::num_frames', 'Bvh::frames', 'LoadMotionError::MotionCountMismatch'])
p('L03', 'A failing read or unparsable value is never swallowed while loading',
  'If the reader reports an error, or a token that must be a number or a channel name is not one, at any line that loading consumes, then loading fails with an error. No such failure leads to a successfully loaded object.',
  ['inputs', 'fault_sequences'], 'every read error position and every malformed token in a consumed line',
  'The tests never use a failing reader, and exercise only a few malformed tokens.',
  [PARSE, 'src/errors.rs'], [('propagation of line errors', 'src/parse.rs read_joints, read_motion'), ('number parsing', 'src/parse.rs try_parse, lexical')],
  ['return value of every load entry point'])
p('L04', 'Channel positions of a loaded skeleton are dense and in file order',
  'After a successful load, the channels of all joints, taken in joint order and within a joint in declaration order, are numbered 0, 1, 2, … without gaps or repeats, and the total number of channels equals how many there are. Each channel therefore addresses its own value in every frame.',
  ['inputs'], 'every successfully loaded file',
  'Tests look at specific skeletons; numbering depends on the history of joints and channel lines in the file.',
  [PARSE, 'src/joint.rs', 'src/lib.rs'], [('running channel counter', 'src/parse.rs read_joints'), ('totals', 'src/lib.rs Bvh')],
  ['Joint::channels', 'Channel::motion_index', 'Bvh::num_channels'])
p('L05', 'A loaded skeleton is a well-formed tree in file order',
  'After a successful load, each joint knows its own position, the first joint is the only root and has depth zero, and each other joint has a parent that comes earlier, is one level less deep, and is the joint whose block encloses it in the file.',
  ['inputs'], 'every successfully loaded file, any nesting',
  'Tests check two or three shapes; parent links are computed from the nesting history of the file.',
  [PARSE, 'src/joint.rs'], [('depth tracking and parent lookup', 'src/parse.rs read_joints, get_parent_index')],
  ['Joint::index', 'Joint::parent_index', 'Joint::depth'])
p('L06', 'All load entry points agree',
  'Loading a text through any of the public entry points (free functions, associated functions, string parsing and conversions from text or bytes) gives the same result as loading its bytes through a reader.',
  ['inputs'], 'every input text',
  'Tests compare a few entry points on a few inputs; an entry point could differ on inputs not compared.',
  ['src/lib.rs', PARSE], [('delegation to one loader', 'src/lib.rs from_reader, from_bytes, from_str, FromStr, TryFrom')],
  ['return value of every load entry point'])
p('L07', 'Load errors name the line they occurred on',
  'An error about a particular line of the text carries the number of that line, counted the same way for the skeleton section and the motion section.',
  ['inputs'], 'every malformed file and every position of the malformed line',
  'Tests check a few error lines at most.',
  [PARSE, 'src/lib.rs', 'src/errors.rs'], [('line numbering', 'src/lib.rs EnumeratedLines/CachedEnumerate'), ('error construction', 'src/parse.rs')],
  ['LoadError::line'])
p('L08', 'An unparsable component is reported as the component it is',
  'When an offset component cannot be parsed, the error names the axis of that component; when a channel name, motion value, frame count or frame time is missing or cannot be parsed, the error is the one for that item and not for another.',
  ['inputs'], 'every malformed or missing item',
  'Few malformed items are tested.',
  [PARSE, 'src/errors.rs'], [('offset axis errors', 'src/parse.rs read_joints'), ('motion header errors', 'src/parse.rs read_motion')],
  ['LoadError::kind'])
p('L09', 'Each parsed item lands in the field it was written for',
  'After a successful load, a joint has the name, offset components and channel types that its own block states in that order, an end position comes from the end-site block, and motion values and frame time are the numbers of the motion section in file order.',
  ['inputs'], 'every successfully loaded file',
  'Tests compare a few small files; a swap or shift in a path not covered goes unnoticed.',
  [PARSE, 'src/joint.rs'], [('offset, name and channel storage', 'src/parse.rs read_joints, src/joint.rs JointData'), ('motion values', 'src/parse.rs read_motion')],
  ['Joint accessors', 'Bvh::frames', 'Bvh::frame_time'])
p('W01', 'Writing reports every write failure and loses no bytes',
  'Writing an object to a writer either hands every byte of its text, once and in order, to the writer and succeeds, or returns an error. A failing, interrupted or short write never leads to a success with missing or repeated bytes.',
  ['fault_sequences', 'inputs'], 'every writer, including ones that accept only part of a buffer or fail at any call',
  'Tests write to memory only, where every write succeeds in full.',
  ['src/write.rs', 'src/lib.rs'], [('chunk loop', 'src/write.rs WriteOptions::write')],
  ['return value of write / write_to and the bytes the writer received'])
p('W02', 'Text output is the same through every output route',
  'The text produced in memory and the text handed to a writer are identical for the same object and options, and the convenience methods produce the text of the default options.',
  ['inputs', 'configurations'], 'every object and every option combination',
  'Tests compare one object with default options.',
  ['src/write.rs', 'src/lib.rs'], [('shared chunk generator', 'src/write.rs next_chunk'), ('convenience methods', 'src/lib.rs Bvh::write_to, Bvh::to_string')],
  ['write, write_to_string, write_to, to_string'])
p('W03', 'Every keyword the writer emits is one the loader accepts',
  'The section, joint, end-site, offset, channel and motion keywords in written text are the ones the loader recognises for the same thing, and the name of each channel kind is written as it is read.',
  ['inputs', 'configurations'], 'every object and option combination',
  'Tests compare whole outputs for a few skeletons only.',
  ['src/write.rs', PARSE, 'src/lib.rs'], [('keywords', 'src/write.rs next_chunk, src/parse.rs'), ('channel names', 'src/lib.rs ChannelType')],
  ['written text'])
p('W04', 'Written hierarchies nest correctly',
  'In written text, every joint and end-site block that is opened is closed, at the indentation it was opened with, before anything outside that block is written, and each line is indented by one step per level of nesting in the chosen style.',
  ['inputs', 'configurations'], 'every tree shape and indentation style',
  'Tests cover a few tree shapes; closing depends on how deep the next joint is relative to the last.',
  ['src/write.rs'], [('depth bookkeeping', 'src/write.rs next_chunk'), ('indentation', 'src/write.rs IndentStyle::prefix_chars')],
  ['written text'])
p('W05', 'Each write option changes only its own setting',
  'Every option setter changes exactly the option it is named after to the value given and leaves the other options as they were, and each option affects only its part of the text.',
  ['configurations'], 'every combination of options',
  'Tests use a couple of combinations.',
  ['src/write.rs'], [('builder methods', 'src/write.rs WriteOptions'), ('uses of the options', 'src/write.rs next_chunk')],
  ['WriteOptions fields', 'written text'])
p('W06', 'The written motion section states the real counts and all values in order',
  'The motion section of written text announces the number of frames the object has and its frame time, and has exactly one line per frame with that frame\'s values in order.',
  ['inputs', 'configurations'], 'every object',
  'Tests cover a few objects with few frames.',
  ['src/write.rs'], [('motion header and frame lines', 'src/write.rs next_chunk')],
  ['written text'])
p('W07', 'Writing never panics',
  'Writing any loaded or edited object with any options never panics.',
  ['inputs', 'configurations'], 'every object and option combination, including extreme precisions and indents',
  'Tests use default and near-default options.',
  ['src/write.rs'], [('chunk generator', 'src/write.rs next_chunk')], ['write, write_to_string'])
p('W08', 'Written hierarchies state the skeleton',
  'The hierarchy section of written text has one block for every joint of the object and no other, in the order of the joints; each block states the name, the offset components in order and the channels in order of its own joint, and an end site exactly when that joint has one, with its offset.',
  ['inputs', 'configurations'], 'every object and option combination',
  'Tests compare whole outputs for a few skeletons only; a joint left out, repeated or given the data of another needs a particular shape.',
  ['src/write.rs', 'src/joint.rs'], [('joint blocks', 'src/write.rs next_chunk')], ['written text'])
p('K01', 'Editing with a frame cursor keeps whole frames and the cursor in range',
  'After every cursor operation the data consists of whole frames, the skeleton and its channel count are untouched, and the cursor is between the start and the end of the frames. Moves go by exactly one frame, or to the first or last position, and stop at the ends.',
  ['histories', 'inputs'], 'every sequence of cursor operations on every object',
  'Tests run one or two short sequences.',
  ['src/frame_cursor.rs'], [('cursor operations', 'src/frame_cursor.rs FrameCursor')], ['FrameCursor::index', 'FrameCursor::len', 'Bvh::frames'],
  [('cursor index', 'number of frames before the cursor', 'src/frame_cursor.rs FrameCursor.index')])
p('K02', 'Inserting a frame adds exactly that frame at the cursor',
  'Inserting a frame succeeds exactly when it has one value per channel; the frame is then placed at the cursor, all other frames keep their values and order, and the cursor stands after it. Otherwise an error reports the expected and actual lengths and nothing changes.',
  ['inputs', 'histories'], 'every data, cursor position and frame',
  'Tests insert a few frames into small data.',
  ['src/frame_cursor.rs', 'src/errors.rs'], [('slice insertion', 'src/frame_cursor.rs vec_insert_slice, try_insert_frame')], ['try_insert_frame result', 'Bvh::frames'])
p('K03', 'Removing removes exactly the frame after the cursor',
  'Removing at the cursor removes exactly the frame after it and leaves the others and the cursor as they were, or returns an error and changes nothing when there is no such frame. Removing all frames leaves none and the cursor at the start.',
  ['inputs', 'histories'], 'every data and cursor position',
  'Tests remove one frame from small data.',
  ['src/frame_cursor.rs', 'src/errors.rs'], [('removal', 'src/frame_cursor.rs remove_frame, remove_all_frames')], ['remove_frame result', 'Bvh::frames'])
p('K04', 'Inserting many frames inserts a prefix of them, in order',
  'Inserting a sequence of frames places them contiguously at the cursor in order and moves the cursor past them; on a frame of the wrong length it stops with an error, and the frames inserted are exactly those before it. It never panics, whatever the sequence claims about its length.',
  ['inputs', 'histories'], 'every data, cursor position and frame sequence, including unbounded and dishonest ones',
  'Tests insert one small batch.',
  ['src/frame_cursor.rs'], [('batch insertion', 'src/frame_cursor.rs try_insert_frames')], ['try_insert_frames result', 'Bvh::frames'])
p('K05', 'Looking around the cursor shows the frames next to it',
  'The frame shown after the cursor is the frame at its position, the one before is the frame preceding it, each present exactly when it exists and the same through shared, mutable and paired access; iterating from a cursor starts with the frame after it. Looking changes nothing.',
  ['inputs', 'histories'], 'every data and cursor position',
  'Tests look at a few positions.',
  ['src/frame_cursor.rs'], [('peeks', 'src/frame_cursor.rs peek_next, peek_prev, surrounding_frames, into_frames')], ['peek results'])
p('F01', 'Frame iterators visit every frame once, in order, from both ends',
  'Iterating over frames, shared or mutable, forwards, backwards or alternating, yields each frame exactly once with exactly one value per channel, and the reported remaining length is always the number of frames still to come. An object without channels or frames yields nothing.',
  ['inputs', 'histories'], 'every object and every interleaving of front and back steps',
  'Tests iterate forwards over small data.',
  ['src/frame_iter.rs', 'src/lib.rs'], [('chunked iteration', 'src/frame_iter.rs Frames, FramesMut, macros in src/lib.rs or src/frame_iter.rs')], ['Frames, FramesMut'])
p('F02', 'Frame access by channel or position reads and writes that value only',
  'Accessing a frame by a channel or a position addresses exactly that element: reads return it or nothing when out of range, and setting it changes only that element and returns the previous value, or fails without changing anything.',
  ['inputs'], 'every frame, channel and position',
  'Tests read a few positions.',
  ['src/frame_iter.rs', 'src/errors.rs'], [('indexing', 'src/frame_iter.rs FrameIndex, get, get_mut, try_set_motion')], ['Frame::get', 'FrameMut::try_set_motion'])
p('T01', 'Channel kinds and their names correspond one to one',
  'Every channel kind is written as one name, reading that name gives the kind back, and no other text is read as a channel. Whether a kind is a rotation or position, and its axis, agree with its name.',
  ['inputs'], 'all kinds and all texts',
  'Tests parse a few names and cannot enumerate all texts.',
  ['src/lib.rs'], [('name tables', 'src/lib.rs ChannelType::from_bytes, as_str, Display, is_rotation, is_position, axis')], ['ChannelType API'])
p('T02', 'Axes and their unit vectors correspond',
  'The unit vector of an axis has length one along that axis and zero elsewhere, and its printed name is its letter.',
  ['inputs'], 'all axes', 'Tests check one axis at most.',
  ['src/lib.rs'], [('axis tables', 'src/lib.rs Axis')], ['Axis API'])
p('E01', 'Error accessors and messages tell what the error holds',
  'Every error type gives back the line number, lengths, index or inner error that was stored in it, conversions keep the error they wrap, and formatting never panics and never hides the line when one is known.',
  ['inputs'], 'every error value',
  'Tests format almost no errors.',
  ['src/errors.rs'], [('accessors, conversions and Display', 'src/errors.rs')], ['LoadError::line, kind, source, Display'])
p('J01', 'Joint queries agree with the stored skeleton',
  'Iterating over the joints visits each exactly once in order, lookup by name finds the first joint with that name and nothing else, and the name, offset, end position, parent and channels of a joint are those stored for it.',
  ['inputs'], 'every skeleton', 'Tests look at two or three skeletons.',
  ['src/joint.rs', 'src/lib.rs'], [('joint views', 'src/joint.rs Joints, Joint, JointData')], ['Joint API'])
p('J02', 'Parent and child navigation is mutually consistent',
  'The parent of a joint is the joint at its parent position, the children of a joint are exactly the joints whose parent it is, in order, and navigating never panics.',
  ['inputs'], 'every well-formed skeleton', 'Tests do not navigate children.',
  ['src/joint.rs'], [('navigation', 'src/joint.rs Joint::parent, Joint::children, Joints::iter_children')], ['Joint::parent', 'Joint::children'])
p('B01', 'Object-level accessors report the stored state and change only what they name',
  'The number of frames and channels, the frame time and the motion data an object reports are those it holds; setting the frame time changes nothing else, and taking the frames out returns all values in order and leaves an object without frames.',
  ['inputs', 'histories'], 'every object', 'Tests use a few objects.',
  ['src/lib.rs'], [('accessors', 'src/lib.rs Bvh')], ['Bvh API'])
p('A01', 'Shared and exclusive access cannot be mixed',
  'No program compiles that keeps a mutable frame, joint or cursor view while the same object is otherwise used, or keeps any view after the object is gone.',
  ['programs'], 'every client program', 'Tests are programs that compile; they cannot show which ones do not.',
  ['src/lib.rs', 'src/frame_cursor.rs', 'src/frame_iter.rs', 'src/joint.rs'], [('lifetimes of views', 'signatures of Frames, FramesMut, FrameCursor, Joints, JointsMut')], ['compiler verdict'])
p('A02', 'The library has no unsafe code, global state or thread restrictions',
  'The library contains no unsafe operations and no mutable global state, and loaded objects can be sent to and shared between threads.',
  ['programs', 'schedules'], 'every use of the library', 'Absence cannot be tested.',
  ['src/lib.rs'], [('whole crate', 'src/')], ['crate contents'])
p('M01', 'Skeletons written with the literal macro equal the same text loaded',
  'A skeleton and motion given in the literal macro produce the same joints, offsets, channel numbering, frame time and values as the same text loaded from bytes, for every accepted number of channels per joint.',
  ['programs'], 'every literal the macro accepts', 'Tests build a few literals.',
  ['src/macros.rs'], [('macro arms and builder', 'src/macros.rs bvh!, BvhLiteralBuilder')], ['result of bvh!'])
p('N01', 'Written numbers read back to the same numbers',
  'With enough significant figures, every finite offset, motion value and frame time that is written is read back as the same number.',
  ['inputs'], 'every finite number', 'Numbers are unbounded.',
  ['src/write.rs', PARSE], [('number formatting and parsing', 'std float formatting and the lexical crate')], ['load after write'])
p('N02', 'Loading what was written gives the same object back',
  'Loading the text written for a loaded object gives an object with the same joints, channels and frames.',
  ['inputs', 'configurations'], 'every loaded object', 'Tests round-trip a few files.',
  ['src/write.rs', PARSE], [('writer and loader', 'src/write.rs, src/parse.rs')], ['load after write'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
