#!/usr/bin/env python3
"""Writes known-findings.json: the log of repaired defects (suppress nothing)
and of recorded ones ('match' identifies the failing call)."""
import json, os, subprocess
R = [  # commit subject prefix, property, what failed
 ('Builder writes an explicit id', 'C08', 'an op with an implicit id but explicit ref was written so that it read back with another id'),
 ('A number with an exponent is not', 'C08', 'bare 1E5 was read both as a number and as a UUID'),
 ('A merge skips every copy of an op', 'C01', 'three or more inputs with a common op: the op came out more than once'),
 ('An RGA merge takes any number', 'C01', 'RGA merge of four or more pieces lost pieces or failed'),
 ('Scanning an RGA stays within', 'C04', 'a removal chain longer than its target flipped the root; undo of the first removal was ignored'),
 ('The state at a version inside a span', 'C07', 'the state at a version inside a span contained the rest of the span'),
 ('MAX compares values', 'C05', 'MAX compared text positions, so the result depended on the order of inputs'),
 ('LWW GC compares keys by value', 'C06', 'LWW GC took equal keys for different ones and dropped the header'),
 ('A char span keeps the bytes', 'C08', 'multibyte first char of a span came out with swapped bytes'),
 ('The parser reports what it refuses', 'C10', 'overlong words/numbers and bad spans were accepted or cut silently'),
 ('Integers of the full 64-bit range', 'C08', 'integers of 18-19 digits were not readable'),
 ('A float with no fraction', 'C08', '1.0 was written as the integer 1'),
 ('A span does not continue past', 'C08', 'compression joined ops across a chunk boundary'),
 ('Form feed is written as is', 'C08', 'form feed was escaped as \\f which the grammar rejects'),
 ('Codepoints past the BMP', 'C25', 'UTF-16 of U+10000 and up was wrong'),
 ('Op::Amend copies strings', 'C08', 'Op::Amend lost strings and numbers'),
 ('Slice::str() takes exactly', 'C08', 'Slice::str() read past the slice'),
 ('A frame of comments equals', 'C26', 'comments-only frame differed from an empty frame'),
 ('Only the last op of a span carries', 'C09', 'reserialising broke spans apart'),
 ('utf8read reports stray', 'C25', 'stray continuation bytes were read as characters'),
 ('A string may end with a \\u escape', 'C08', 'a \\u escape at the end of a string read as zero'),
 ('A single char is spelled one way', 'C09', 'reserialising a reserialised frame changed it'),
 ('Unfinished id texts parse', 'C11', '"", "A/", "123+" parsed to arbitrary ids'),
 ('Advancing an inc_stack iterator', 'C27', 'operator+= counted spans, not elements'),
 ('form2uuid gives no name', 'C12', 'form2uuid read past the end of the table'),
 ('Hash texts parse to their bits', 'C23', 'partial hashes parsed with wrong bits, printed with invented ones'),
 ('The error id maps to the error form', 'C12', 'NIL mapped to the error form, FATAL to the zero form (static initialisation order)'),
 ('A store that is not open refuses', 'C15', 'reads, writes, drops and iterators of a closed store crashed; Open(id) left the store half open'),
 ('InMemoryStore values and iterators', 'C17', 'an in-memory iterator dangled after a read or write; a single record was returned unmerged; a failed merge lost the data; a batch could be refused half way'),
 ('JoinedStore merges unmerged', 'C18', 'overlay pieces that attach to base ops only were refused; a batch went to the base; a backward seek left the other side behind; errors dangled'),
 ('GetObjectVersion leaves out the rest', 'C20', 'an object at a version inside a compressed span contained the rest of the span'),
 ('An op\'s hash is restored', 'C24', 'the hash read back from a meta record was wrong, so were the hashes of later events'),
 ('A text write is refused', 'C20', 'a write to the text view was answered OK, did nothing, and dropped the rest of its frame'),
 ('A text query skips ops', 'C20', 'a text query read past an op that has no string (removal, undo, header)'),
 ('The clock does not go back', 'C21', 'after reopening, new stamps could be lower than events already saved'),
 ('A name in a received frame', 'C20', 'a name was written outside the transaction: a refused frame left its names behind'),
 ('A log query returns', 'C20', 'a log query returned the state of the object'),
 ('CreateReplica refuses', 'C22', 'CreateReplica over an existing replica replaced its metadata'),
 ('A branch exists once its first', 'C22', 'a crash between creating and starting a branch left an unusable branch'),
 ('An object\'s root must be', 'C19', 'an object with a root of a form that is not an RDT made the branch unreadable'),
 ('Receive checks a frame', 'C20', 'a frame with a syntax error in the end was applied in part'),
 ('A frame sent to no particular', 'C22', 'a frame for the active branch was refused'),
 ('The active store is remembered', 'C22', 'the active branch was forgotten on reopening, a dropped one stayed active'),
 ('A branch\'s tip is its own', 'C19', 'receiving foreign events moved the tip of the branch, its next stamps lost their order; foreign-only frames were not saved'),
 ('A local write is stamped', 'C20', 'a frame of several local ops was accepted and dropped'),
 ('An op\'s hash does not depend', 'C24', 'the hash of a char op depended on whether it was spelled in a span'),
 ('An LWW object reads floats', 'C30', 'a view read a float by its integer image, and aborted asked for the string of a key that has none'),
 ('An LWW object answers with', 'C30', 'a view kept the write fed last, not the latest; read strings of later frames from the first frame\'s memory; did not see a key without a value'),
 ('swarmdb new:', 'C31', 'swarmdb new aborted: it asked an op of a cursor that stood before it'),
 ('swarmdb get:', 'C31', 'swarmdb get printed nothing, whatever was asked; a log up to an event would have lacked the end of its last op'),
 ('swarmdb: yarn ids', 'C31', 'two branches started within a second, on one machine or two, drew the same yarn id: the second was refused, or two yarns went by one id'),
 ('swarmdb write:', 'C31', 'swarmdb write took "on BRANCH" as a file name or wrote to the active branch instead'),
 ('swarmdb named:', 'C31', 'swarmdb named on BRANCH was refused'),
 ('swarmdb hop, drop:', 'C31', 'swarmdb hop Foo (without "on") went to the metadata store; drop ignored all words but one'),
 ('swarmdb: an event id', 'C31', 'swarmdb hop, drop, new, ... given an event id of a branch\'s yarn for the branch aborted'),
 ('A write of an LWW object', 'C30', 'a write through a view referred to itself'),
]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTRA = os.path.join(V, 'tools', 'recorded.json')
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '8cc05c2..'], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
out, used = [], set()
for l in reversed(log):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    for p, prop, what in R:
        if s[5:].startswith(p):
            out.append({'fixed': 'property=%s %s %s' % (prop, h, what)})
            used.add(p)
            break
    else:
        print('no entry for', l)
for p, _, _ in R:
    if p not in used:
        print('unused', p)
if os.path.exists(EXTRA):
    out += json.load(open(EXTRA))
json.dump(out, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
