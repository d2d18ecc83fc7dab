#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text stays reviewable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Merging converges: order, grouping and repetition do not matter",
  "For every mergeable data type (last-write-wins object, matrix, yarn, metadata, array, maximum register), merging the same set of causally valid states and patches gives the same result whatever the order they are supplied in, however they are grouped into intermediate merges, and however often each is repeated. Two replicas that received the same changes by different routes therefore hold equal states.",
  ["histories", "schedules", "inputs"],
  "every history of concurrent edits by any number of writers, every way of cutting it into patches, every delivery order, grouping and duplication",
  "The tests merge two or three hand-written frames in one fixed order; convergence quantifies over all orders, groupings and duplications of all edit histories.",
  ["rdt/rdt.hpp", "rdt/merge.hpp", "rdt/lww.hpp", "rdt/rga.hpp", "rdt/max.hpp", "rdt/mx.hpp", "rdt/meta.hpp"],
  [("reducer dispatch by data form", "rdt/rdt.hpp MasterRDT::Merge"), ("k-way heap merge with duplicate skipping", "rdt/merge.hpp MergeCursor"), ("array weave", "rdt/rga.hpp RGArrayRDT::Merge")])
p("C02", "Merging loses, invents and alters no operation",
  "The merge of last-write-wins, matrix, yarn and metadata frames contains every distinct operation of its inputs exactly once, in ascending event order, each with its reference and all of its values unchanged, and contains nothing else. Merging logs is plain concatenation in the given order, and a record without a data type takes the last value supplied.",
  ["inputs", "histories"],
  "all lists of input frames of any length, with overlapping, duplicated, empty and multi-value operations",
  "Tests look at one or two merges of two frames; a lost or altered operation shows only for particular overlaps, list lengths and value shapes.",
  ["rdt/merge.hpp", "rdt/lww.hpp", "rdt/mx.hpp", "rdt/meta.hpp", "rdt/log.hpp", "rdt/rdt.hpp", "ron/frames.hpp"],
  [("heap merge", "rdt/merge.hpp MergeCursor::Next/step/eject"), ("log concatenation", "rdt/log.hpp OpLog::Merge"), ("form detection", "rdt/rdt.hpp GetForm/MergeFrames")])
p("C03", "Array merge yields the one causal-tree order, or refuses",
  "Merging array states and patches produces the causal-tree order: every operation directly follows its parent or the subtree of a younger sibling, so siblings appear youngest first with their whole subtrees, for any number of inputs. If some piece cannot be attached to the tree the merge reports a causality break instead of success.",
  ["histories", "inputs"],
  "all causal trees built by concurrent writers, all partitions of them into chains and partial states, any number of inputs, including sets with missing pieces",
  "Three hand-made merges of at most three inputs exist; the order must be right for every tree shape and every partition of it.",
  ["rdt/rga.hpp", "rdt/merge.hpp", "rdt/rdt.hpp"],
  [("weave", "rdt/rga.hpp RGArrayRDT::Merge"), ("heap", "rdt/merge.hpp MergeCursor")])
p("C04", "Array visibility follows removals and undos exactly",
  "Scanning an array state marks an element invisible exactly when an effective removal reaches it: the n-th removal in a removal chain hides the n-th element counting from the one the chain hangs on towards the root, an undo chain cancels the removals it counts back to, the root and all control operations are never visible, and anything attached in a place that makes no sense is ignored. A frame that is not a causal tree is rejected, and no well-formed input makes the scan fail or misbehave.",
  ["inputs", "histories"],
  "all causal trees of inserts, removals, undos and misplaced operations of any depth, and all orderings that are not causal trees",
  "Seven hand-written frames are scanned; chains longer than the path, undo of a first removal, concurrent removal branches and mixtures are never tried.",
  ["rdt/rga.hpp", "ron/inc_stack.hpp"],
  [("stack scan with per-state ceilings", "rdt/rga.hpp ScanRGA"), ("op classification", "rdt/rga.hpp entry_type")])
p("C05", "A maximum register holds the greatest value ever written",
  "The merge of maximum-register states and patches is the register's creation record, if any input carries it, followed by one operation carrying the greatest value among all inputs, compared numerically for numbers. Ties are resolved the same way on every replica, independently of how the inputs are laid out or ordered.",
  ["inputs", "histories"],
  "all sets of register frames with integer (including negative), float and id values, in any order and split",
  "One test merges the values 1 and 2; the UUID and mixed-type tests are empty bodies.",
  ["rdt/max.hpp", "rdt/rdt.hpp"],
  [("reducer", "rdt/max.hpp MaxRDT::Merge"), ("comparison", "rdt/max.hpp MaxRDT::Less")])
p("C06", "Compacting an object keeps exactly its latest values",
  "Garbage-collecting a last-write-wins state keeps the creation record and, for each key, exactly the newest write, in event order and unaltered, and drops only superseded writes. Collecting twice changes nothing more, and merging then collecting gives the same as collecting the merged state.",
  ["inputs", "histories"],
  "all last-write-wins states: any number of keys, key types, overwrites, concurrent writes and inputs",
  "The only test of garbage collection fails on this commit and covers one frame; which write survives depends on the key/id pattern.",
  ["rdt/lww.hpp"],
  [("garbage collection", "rdt/lww.hpp LastWriteWinsRDT::GC/MergeGC")])
p("C07", "State at a version is the replay of exactly the log up to it",
  "Splitting an object log into chains partitions the log's operations in order, each chain being a run where every operation directly continues the previous one. Rebuilding the state from a log up to a version uses exactly the operations logged up to and including that version, and equals the merge of those operations; without a version it equals the merge of the whole log.",
  ["histories", "inputs"],
  "all causally ordered logs of all object types, all cut-off versions, compressed or uncompressed text",
  "Two logs with one cut-off each are tested; the cut-off inside compressed runs and logs with many chains are not.",
  ["rdt/rdt.hpp", "ron/frames.hpp", "ron/text.hpp"],
  [("log splitting", "rdt/rdt.hpp SplitLogIntoChains"), ("state rebuild", "rdt/rdt.hpp ObjectLogIntoState/ObjectLogToState"), ("chain skipping", "ron/frames.hpp SkipChain")])
p("C08", "Every value written into a frame is read back unchanged",
  "Any sequence of operations with arbitrary ids, references and values (64-bit integers, finite floats, ids, strings of any Unicode text without NUL) that is serialised and then parsed yields the same operations, value for value and type for type. The same holds after any number of parse and re-serialise rounds, and each chunk keeps its terminator.",
  ["inputs"],
  "all operation sequences and all values of the four types, including extreme numbers, quotes, escapes, control characters and multi-byte text",
  "A dozen literals are tried; corruption depends on specific values and on which value follows which.",
  ["ron/text.hpp", "ron/text-builder.cc", "ron/text-parser.cc", "ron/cp-parser.cc", "ron/text.cc", "ron/op.hpp", "ron/encdec.hpp"],
  [("builder", "ron/text.hpp Builder::AppendOp/WriteValues, ron/text-builder.cc"), ("parser", "ron/text-parser.cc Cursor::Next, ron/text.cc ParseInteger/ParseFloat"), ("homeless op", "ron/op.hpp Op")])
p("C09", "Text compression is invisible to readers and canonical",
  "Omitted ids and references, runs of repeated values and character runs are only a compact spelling: a reader sees the same operations whether or not the text uses them, in whatever whitespace the frame is laid out. Serialising a given operation sequence always produces the same bytes, and parsing and re-serialising that text reproduces it.",
  ["inputs", "programs"],
  "all operation sequences and all legal spellings of each: explicit or default ids and references, split or joined runs, any whitespace, any terminator placement",
  "Three runs are tested; what is compressed depends on every pair of neighbouring operations.",
  ["ron/text.hpp", "ron/text-parser.cc", "ron/text-builder.cc"],
  [("span state", "ron/text.hpp Builder::is_same_span/ExtendSpan/WriteSpec"), ("span expansion", "ron/text-parser.cc Cursor::Next")],
  [("span_size_, prev_id_, prev_2_", "compression state of the writer"), ("span_size_, op_", "expansion state of the reader")])
p("C10", "Malformed or truncated frames never yield wrong operations",
  "Reading any byte sequence terminates, never with a crash: with the end of the frame if nothing but blanks or the frame's terminator is left, with an error otherwise; after either no further operations appear. Cutting a valid frame at any byte, or following it with garbage, yields exactly the operations whose terminators survived, unaltered, and then the end or an error.",
  ["inputs", "fault_sequences"],
  "all byte strings; in particular all truncations and corruptions of valid frames, over-long words and numbers, bad escapes and bad UTF-8",
  "The fuzz target is not part of the suite; tests try four malformed inputs.",
  ["ron/text-parser.cc", "ragel/text-grammar.rl", "ron/text.hpp", "ron/text.cc"],
  [("frame parser", "ron/text-parser.cc Cursor::Next"), ("size limits", "ron/text.hpp word_too_big, ron/text.cc int_too_big")])
p("C11", "Ids survive text round trips and keep their order",
  "Every id (name, hash, event or derived, with any variety) prints to a text that parses back to the same id, trailing zeros being insignificant; malformed id texts parse to the error id. Ids compare by value first and origin second, and for equally long words text order agrees with id order; deriving the next id increases the value by one and keeps the origin.",
  ["inputs"],
  "all 128-bit id values and all id texts including malformed ones",
  "Ten literals are tested.",
  ["ron/uuid.hpp", "ron/uuid.cc", "ron/uuid-parser.cc", "ron/const.hpp"],
  [("printing", "ron/uuid.cc write_base64"), ("parsing", "ron/uuid-parser.cc"), ("ordering", "ron/uuid.hpp operator<")])
p("C12", "Storage keys are reversible and keep record order",
  "A storage key made of an id and a data form gives back that id and form, and its big-endian byte image decodes to the same key. Byte order of keys equals the order by form, then origin, then value, so all records of a form and yarn are contiguous and time-ordered; every form maps to its name and back.",
  ["inputs"],
  "all ids and all forms",
  "Key packing has no test of its own; an ordering error appears only for particular bit patterns.",
  ["db/key.hpp", "db/key.cc", "ron/form.hpp"],
  [("key packing", "db/key.hpp Key"), ("form table", "ron/form.hpp uuid2form/form2uuid")])
p("C13", "Reading a stored object gives the merge of all its writes",
  "A read returns the merge, by the record's data type, of everything ever written under that key on that branch, in write order where order matters, and an empty frame if nothing was written. Flushing, compaction, batching, repeated reads, iterating, and closing and reopening never change what is read.",
  ["histories", "schedules", "configurations"],
  "all histories of single and batched writes, reads, flushes, compactions and reopens over all data types",
  "The store tests write two frames under one key and never flush, compact or accumulate many operands.",
  ["db/rocks_store.cc", "db/rocks_store.hpp", "rdt/rdt.hpp"],
  [("merge operator", "db/rocks_store.cc RDTMerge::FullMergeV2/PartialMergeMulti"), ("read/write", "db/rocks_store.cc Read/Write")])
p("C14", "Batches are atomic and completed writes survive a crash",
  "After the process is killed at any moment, reopening the store shows every write whose call had returned, no part of a batch without the rest of it, and nothing that was never written.",
  ["crash_points", "histories"],
  "all write histories and all process-kill points between and inside calls",
  "No test kills the process or writes a batch at all.",
  ["db/rocks_store.cc"],
  [("batch write", "db/rocks_store.cc Write(Records)"), ("single write", "db/rocks_store.cc Write(Key)"), ("reopen", "db/rocks_store.cc OpenAll")])
p("C15", "Branches are isolated and survive reopening under their ids",
  "Branches in one database do not see each other's writes; creating or dropping one leaves the others as they were. Reopening finds exactly the existing branches, under the same ids and with the same contents; a dropped branch is gone, and a closed store refuses work instead of doing it.",
  ["histories", "configurations"],
  "all histories of creating, writing, dropping, closing and reopening any number of branches",
  "One test creates a single branch and writes one record.",
  ["db/rocks_store.cc", "db/rocks_store.hpp"],
  [("column family per branch", "db/rocks_store.cc Create/OpenAll/Drop/Close")])
p("C16", "Iteration visits every record once, in key order; seeks land right",
  "Iterating from the start visits each stored key exactly once in ascending order with its merged value, then reports the end. A seek lands on the key itself or else the nearest greater one, or with the backward flag the nearest lesser one, and past either end the iterator stands on the end key with no value. What is written while iterating is not promised to be visited.",
  ["histories", "inputs"],
  "all store contents, all seek targets and directions, all interleavings of seeks and steps",
  "Tests hold one or two records; the boundary and merge cases depend on content.",
  ["db/rocks_store.cc", "db/mem_store.hpp", "db/joined_store.hpp", "db/key.hpp"],
  [("iterator", "db/rocks_store.cc Iterator::Next/SeekTo/key/value")])
p("C17", "The in-memory store behaves as the durable one",
  "For any history of writes, batches, reads and iterator moves the in-memory store returns the same frames and positions as the durable store. Handing its contents over to the durable store and reading there gives the same merged values as reading it directly.",
  ["histories"],
  "all histories of the common store interface over all data types",
  "The in-memory store's tests are not even built in this environment and compare nothing.",
  ["db/mem_store.hpp", "db/rocks_store.cc"],
  [("multimap store", "db/mem_store.hpp InMemoryStore"), ("release to durable", "db/mem_store.hpp Release")])
p("C18", "A transaction reads its own writes over the base, and only there",
  "Reads and iteration through a transaction's joined view return the merge, by the record's data type, of what is stored durably and what the transaction wrote, for keys present in either or both. Until it is saved, the durable store is unchanged; once saved, a plain read returns what the joined view returned.",
  ["histories", "schedules"],
  "all splits of a write history between base and transaction, all keys and data types, all seeks and scans",
  "The joined-store tests hold at most one record per side and are not built in this environment.",
  ["db/joined_store.hpp", "db/mem_store.hpp", "db/replica.cc"],
  [("overlay read", "db/joined_store.hpp Read"), ("overlay iterator", "db/joined_store.hpp Iterator"), ("saving", "db/replica.cc Commit::Save")])
p("C19", "A replica accepts an event only after everything it depends on",
  "An incoming event is accepted only if its yarn has been started, it is newer than every accepted event of its yarn, its reference is an accepted event older than itself (or a known data type, for a new object), and it carries a proper event id. Repeated, reordered, dangling and malformed events are refused with an error.",
  ["histories", "schedules"],
  "all sequences of well- and ill-formed chains from several yarns in all delivery orders, with replays and gaps",
  "The replica is exercised by two scripted happy-path conversations.",
  ["db/replica.cc", "ron/opmeta.hpp"],
  [("sanity checks", "db/replica.cc CheckEventSanity"), ("yarn tip and reference lookup", "db/replica.cc SaveChain/FindYarnTipMeta/FindOpMeta")])
p("C20", "A received frame takes effect entirely or not at all",
  "If every chain of a received frame is acceptable, all its events become part of the object logs and states together with the new branch tip; if any is refused, logs, states, metadata and tip stay exactly as before. In every reachable replica state each object's stored state equals the merge of its stored log, and the same holds after closing and reopening.",
  ["histories", "crash_points"],
  "all sequences of received frames mixing good and bad chains, and process kills between and inside receives",
  "The scripted conversations contain no refused frame, no restart and no crash.",
  ["db/replica.cc", "db/replica.hpp", "db/joined_store.hpp"],
  [("transaction", "db/replica.hpp Commit"), ("saving", "db/replica.cc Commit::Save"), ("receive loop", "db/replica.cc Receive")])
p("C21", "Timestamps issued by a replica strictly increase",
  "Every timestamp a replica issues is greater than all it issued before and than every event it has seen or accepted, whatever the wall clock does, and not behind the clock; once reopened, it is greater than every event the replica's branches hold. Wall-clock time (2010 and later) maps to timestamps as their calendar fields (months, day, hour, minute, second, fraction), in strictly increasing order, and events timestamped NEVER are refused.",
  ["schedules", "histories", "inputs"],
  "all interleavings of issuing, seeing and reopening; all pairs of clock readings",
  "Nothing tests the clock.",
  ["db/replica.cc", "ron/uuid.cc"],
  [("issuing", "db/replica.cc Now/See/Open"), ("calendar packing", "ron/uuid.cc HybridTime")])
p("C22", "Forking copies a branch once; later changes stay apart",
  "A fork holds every object, log and event of its origin at the time of forking, under its own yarn, and both branches then evolve independently. Forking never changes the origin, a branch id cannot be created twice, and the forked replica reopens cleanly.",
  ["histories"],
  "all histories of writes, forks, drops and reopens across several branches",
  "No test forks a branch.",
  ["db/replica.cc"],
  [("fork", "db/replica.cc ForkBranch/CreateBranch/DropStore")])
p("C23", "Hash texts parse to the hash they spell, and match by known bits",
  "A hash printed as hexadecimal or base-64 text parses back to the same bits; a shorter text is a prefix knowing only those bits, and text with foreign characters gives no hash. Two hashes match exactly when they agree on every bit known to both.",
  ["inputs"],
  "all hashes, all prefix lengths in both notations, all single-bit differences and malformed texts",
  "Both hash tests fail on this commit and use one literal.",
  ["ron/hash.hpp", "ron/hash.cc", "ron/encdec.hpp"],
  [("parsing", "ron/hash.hpp ParseHex/ParseBase64"), ("matching", "ron/hash.hpp matches"), ("codec", "ron/encdec.hpp encode/decode")])
p("C24", "An event's hash commits to its whole history, not its spelling",
  "The hash derived for an event depends only on the event's id, reference and values and on the hashes of its yarn predecessor and of the event it references: equal histories give equal hashes however the frames are spelled or split, and changing any id, reference, value, value type or ancestor changes it. Following a chain reports the right object, type, predecessor and chain for every event.",
  ["histories", "inputs"],
  "all op graphs of several yarns and objects, all single changes to them, all spellings",
  "One literal hash is compared, in a test that fails on this commit.",
  ["ron/hash.hpp", "ron/opmeta.hpp"],
  [("Merkle hash", "ron/hash.hpp WriteOpHashable/OpMerkleHash"), ("op metadata", "ron/opmeta.hpp OpMeta::Next")])
p("C25", "Unicode text converts without loss between encodings",
  "Every Unicode scalar value survives encoding to and decoding from UTF-8 and UTF-16, strings convert codepoint by codepoint in order, and the output is the standard encoding. Structurally invalid UTF-8 (stray, missing or impossible bytes) and unpaired surrogates are reported and never read past their end.",
  ["inputs"],
  "all scalar values, all strings of them, malformed byte sequences",
  "Two strings from the basic plane are tried.",
  ["ron/encdec.hpp", "ron/utf8-parser.cc", "ron/cp-parser.cc", "ron/frames.hpp"],
  [("UTF-8/16 append and read", "ron/encdec.hpp"), ("string readers", "ron/frames.hpp ReadString/ReadString16")])
p("C26", "Frame comparison says equal exactly for equal operation sequences",
  "Comparing two frames succeeds exactly when, comments aside, they carry the same operations in the same order with the same ids, references, value types and values, however each is spelled. It is symmetric, and splitting a stream at frame terminators gives back frames that together carry the same operations.",
  ["inputs"],
  "all pairs of frames differing in nothing, in spelling, in comments, or in any single id, reference, value, type, order or length",
  "It is the oracle of other tests, never itself tested on unequal frames.",
  ["ron/frames.hpp", "ron/text.cc"],
  [("comparison", "ron/frames.hpp CompareOps/CompareWithCursors/CompareFrames"), ("stream split", "ron/text.cc TextFrame::Split")])
p("C27", "Compressed id stacks behave as plain stacks",
  "A stack that stores runs of consecutive ids compactly reports the same size, ends and elements, forwards and by skipping, as a plain sequence subjected to the same pushes and pops.",
  ["histories"],
  "all sequences of pushes, pops, iteration, advancing and span skipping",
  "One push/pop sequence is tested; advancing and skipping are not.",
  ["ron/inc_stack.hpp"],
  [("run-length stack", "ron/inc_stack.hpp inc_stack")])
p("C28", "A document's text is its visible characters, wherever its events came from",
  "A text query about an array object answers with the strings of its visible elements, in the object's order, as of that point of the frame. Branches that have taken the same events of an object answer object, log-state and text queries about it alike, whatever the order and the frames those came in; what one branch answers about an object's log, another branch takes as it is, and then holds the same object.",
  ["histories", "schedules"],
  "all editing sessions of several branches and writers (typing, removing, undoing, concurrently), all orders and groupings of exchanging the events, with reopening in between",
  "The text mapping's tests are not built in this environment and type a few letters in one branch; convergence is over all exchanges.",
  ["db/map/txt.hpp", "db/replica.cc", "rdt/rga.hpp", "rdt/rdt.hpp"],
  [("text view", "db/map/txt.hpp TxtMapper::Read"), ("log query", "db/replica.cc QueryObjectLog"), ("accepting and weaving", "db/replica.cc SaveChain, rdt/rga.hpp Merge/ScanRGA")])
p("C29", "A name means what it was last given, in its branch only",
  "Reading a branch's names tells, for every name ever given there, the value it was given last: the one passed to the call, or, for a naming in a received frame, the branch's tip at that point of the frame. A naming is saved with its frame or not at all, survives reopening and crashes, goes along to a fork, and otherwise stays in its branch.",
  ["histories", "crash_points"],
  "all histories of namings by calls and in good and refused frames, mixed with events, forks, reopening and process kills",
  "No test names anything.",
  ["db/replica.cc", "db/replica.hpp"],
  [("naming", "db/replica.cc Commit::WriteName"), ("reading names", "db/replica.cc Commit::ReadNames"), ("saving", "db/replica.cc Commit::Save")])

p("C30", "An object read through its view answers with the last write of each key",
  "A view over a last-write-wins object, fed with a state and with later frames in any order, cuts and repetitions, answers for every key with the value of that key's latest write (by id) if it is of the type asked for, and as absent otherwise; it answers the same from a state and from the compacted state. A write made through it carries the key and value and refers to the latest event the view has seen or made.",
  ["inputs", "histories"],
  "all states and sequences of later frames over any keys and value types, all keys asked, all writes through the view",
  "One two-key object is read; later frames, their order, concurrent writes and writing are not tested.",
  ["rdt/lww_obj.hpp", "ron/frames.hpp"],
  [("feeding", "rdt/lww_obj.hpp LWWObject::Update"), ("reading", "rdt/lww_obj.hpp atom/uuid/number/string"), ("writing", "rdt/lww_obj.hpp Write")])

p("C31", "The command line tool does to the branch it is told what it is told, or nothing",
  "Every command of swarmdb (init, create, fork, drop, hop, on, now, list, new, name, named, write, get, recall, dump), run as a process of its own, acts on the branch its arguments name, by id or by CamelCase label, and on the active branch when none is named: write and new add exactly the events given to that branch alone; create and fork start a branch under an id no other call draws (also within the same second on another machine), make it active and give it the label asked for; name and named write and list exactly the labels of that branch, of the kind asked for; get and recall print the state, log or past state of the object, as a whole frame that can be read back; dump prints the branch's records; on, list and now say the active branch, the branches with their labels, and a time later than all seen. What a session has done is there for the next command. A command that is wrong (unknown branch, label or verb, wrong case, nothing to read, an id in use; for a command that would change something also superfluous arguments) is refused with a non-zero exit code, never aborts, and changes nothing.",
  ["histories", "inputs"],
  "all sessions of commands with any arguments, right or wrong, over any branches, labels, objects and frames, replicas not yet created included",
  "The existing tests run swarmdb's test mode only; none of these commands is run by any unit test.",
  ["db/main.cc", "db/replica.cc", "db/replica.hpp"],
  [("arguments", "db/main.cc ScanOnBranchArg/ScanOfObjectArg/ScanAsNameArg/ResolveName"), ("commands", "db/main.cc Command*"), ("dispatch", "db/main.cc RunCommands")],
  [("active branch", "the branch meant when none is named; survives between commands"), ("labels", "names in the replica's own branch (branches) and in a branch (objects)")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
