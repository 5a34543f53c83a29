#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from what is written here (run by hand after a change)."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []

DBA = "libs/databases/infrastructure/files/application.go"
REF = "libs/databases/domain/references/"
CON = "libs/databases/domain/contents/"
TREE = "libs/cryptography/domain/hashtrees/"
HASH = "libs/cryptography/domain/hash/"
AST = "libs/asts/applications/application.go"
GRAM = "libs/asts/domain/grammars/"
TR = "libs/asts/domain/trees/"
QA = "libs/queries/applications/application.go"
QD = "libs/queries/domain/queries/"
IA = "libs/interpreters/applications/application.go"
IG = "instances/grammars/"


def p(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, statement
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    props.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors=anchors, technique=technique, level=level, note=note))


# ---------------------------------------------------------------- databases
p("D01", "Committed data is read back exactly, whatever was committed after it",
  "Once a commit reports success, every content written before it can be read back byte for byte, by its hash, by its pointer and in bulk, by the context that wrote it and by any application that opens the database afterwards. This stays true after any number of later writes, commits, cancels, closes and reopens, for contents of any size and for any read chunk size of one or more.",
  ["histories", "configurations"], "every sequence of open, write, commit, cancel, close and reopen on several databases; contents of 1 byte to several chunks; every chunk size from 1",
  "The tests make one or two commits of a few short contents with one chunk size; data is lost or shifted only when an existing file is longer than a chunk, when a context commits twice, or when sizes meet chunk boundaries.",
  [DBA, CON + "adapter.go", REF + "adapter.go"],
  [("the existing data is copied after the new header", DBA + " writeDataAndReferenceOnDestinationFile"), ("pointers relative to the data section", REF + "content_keys.go"), ("chunked reads", DBA + " updateDatabaseOnFile")],
  "stateful property-based testing: random histories against an in-memory model of the database, read back through live and fresh applications, shrunk with rapid",
  "contents are addressed by 64-byte hashes; the scratch file system behaves like a POSIX file system; histories of up to about 30 operations on two databases")
p("D02", "Only what was written and committed is visible, once, and nothing else",
  "The content keys a context shows are exactly those committed to its database so far, per kind and in the order they were written, each appearing once. Contents that were written but cancelled, dropped by closing the context, or not committed yet never appear and cannot be read, and committing with nothing pending is an error that changes nothing.",
  ["histories"], "every sequence of write, commit, cancel, close and reopen, several commits by one context included",
  "The tests commit once for each context and check that what was written is there; repeats and leaks need a second commit of the same context or a cancel between writes and commits.",
  [DBA], [("pending contents are dropped after commit and cancel", DBA + " Commit, Cancel, Close"), ("content keys are extended by the pending ones", DBA + " updateReference")],
  "stateful property-based testing: random histories against a model of the visible content keys, compared after every operation",
  "as D01")
p("D03", "The commits of a database form a chain that only grows",
  "Each successful commit adds exactly one commit to the database, whose parent is the commit before it, whose hash is made of its values, its time and its parent, and whose values are the Merkle tree of the hashes of the contents it added. Every content names the commit it came with, and earlier commits never change.",
  ["histories"], "every sequence of commits by one or several contexts, with reopening between them",
  "The tests look at the latest commit of short histories; a wrong parent, a repeated or rewritten commit shows only in longer ones.",
  [DBA, REF + "commit_builder.go", REF + "commits.go"], [("a commit is built on the latest one", DBA + " updateReference"), ("the hash of a commit", REF + "commit_builder.go"), ("Merkle tree of the contents", TREE)],
  "stateful property-based testing: random histories; the whole chain recomputed independently (hashes and Merkle roots) after each commit",
  "as D01")
p("D04", "A commit is all or nothing under I/O errors and crashes at any point",
  "If the process stops or an I/O operation fails at any point of a commit, the database file afterwards is either exactly what it was or exactly what the commit makes of it; a commit that reported success is always there. After a failed commit the context can still read everything; committing again either completes it or is refused because the database already has it, and in the end every content is there exactly once.",
  ["crash_points", "fault_sequences", "inputs"], "every file operation of a commit, as error, short write, full disk, crash before it and crash inside a write; then read errors while opening and reading",
  "The tests never make an I/O operation fail and cannot stop the process between two of them.",
  [DBA], [("write aside, then replace in one step", DBA + " updateDatabaseOnFile"), ("the context changes only after the file did", DBA + " Commit")],
  "fault enumeration: for random databases every file operation of the commit is failed or turned into a crash in turn, through a build overlay of package os; the outcome is compared with the two allowed states",
  "a crash keeps the operations completed before it, in order (no power-loss reordering); rename replaces a file atomically; faults are injected through the os functions the code calls",
  level="fault_enumeration")
p("D05", "Open contexts are independent of one another",
  "Contexts opened by one application on different databases never share an identifier while they are open, each shows and changes only its own database, and closing or committing one leaves the others as they were. Every call on an identifier that is not open fails.",
  ["histories"], "every interleaving of open, write, commit, cancel, close on three databases in one application",
  "The tests use one context at a time; identifiers clash only when one of several open contexts is closed before another is opened.",
  [DBA], [("identifiers of the contexts", DBA + " Open, Close")],
  "stateful property-based testing: random histories over three databases with contexts open together, compared with one model for each",
  "as D01")
p("D06", "A damaged database never crashes or lies",
  "Opening any file, whatever its bytes, gives an error or a usable context, a file that is not empty is never opened as an empty database, and every call on that context returns a result or an error, in time and memory bounded by the file. When only stored data was cut off or altered, the contents that were not touched are still read exactly and those cut off are an error.",
  ["inputs", "fault_sequences"], "arbitrary files, valid files with flips, truncations, insertions and extreme length fields",
  "The tests only open files the application wrote itself.",
  [DBA, REF + "adapter.go"], [("the header is checked before it is used", DBA + " retrieveReference"), ("bounds of a pointer", DBA + " Read")],
  "mutation fuzzing of database files with an oracle for the undamaged contents, and bounds on time and memory",
  "a file of at most a few kilobytes must be handled in seconds and in less than about a gigabyte")
p("D07", "Creating and deleting databases does exactly that, and never harms another one",
  "A database exists exactly from its successful creation to its successful deletion; creating one that exists is an error that changes nothing, and a new one is empty. A database that was deleted, or deleted and created again, is never changed by a context opened on it before, and a creation or deletion that fails leaves the database as it was. Asking whether a database exists never gives a wrong answer: what cannot be found out is an error.",
  ["histories", "fault_sequences"], "every sequence of exists, new, delete, open, write, commit, close by two applications on two names, with I/O faults in exists, new and delete",
  "The tests create one database in an empty folder and delete it.",
  [DBA], [("exclusive creation", DBA + " New"), ("removal", DBA + " Delete"), ("a commit checks the file it read", DBA + " verifyIsCurrent")],
  "stateful property-based testing with fault injection against a model of the folder",
  "names do not end with the extensions of the temporary files; as D04 for faults")
p("D08", "Two applications on one database never lose or mix each other's commits",
  "When two applications use the same database at the same time, each commit that reports success is in the database once, whole and in the chain, and each that reports an error is not in it at all. Every context keeps showing one state of the database, never a mixture of two.",
  ["schedules"], "every point between two file operations of a commit, an opening or a creation by one application, at which the other one opens, reads, writes and commits",
  "The tests use one application; lost commits need another commit between opening and committing, or in the middle of one.",
  [DBA], [("file lock", DBA + " Commit, Open"), ("a commit on a database that changed since is refused", DBA + " verifyIsCurrent")],
  "schedule enumeration: the second application runs whole at every file operation of the first one, on random databases, against a sequential oracle",
  "the second application's calls run whole between two file operations of the first one (no finer interleaving); a call that waits for the lock held by the other is a refusal or is retried")

p("D09", "Nothing is left behind: no file, lock or name stays in use after a call",
  "Once every context is closed an application holds no file and no lock in its folder, whatever was called before and whatever failed in it, and while contexts are open it holds no more than they need. After a commit that succeeds the folder holds the databases and nothing else, and once a context is closed, even with an error, its database can be opened again.",
  ["histories", "fault_sequences"], "every sequence of new, open, write, commit, cancel, read, close, delete by two applications on three databases, with I/O faults in any call, commits refused by a lock or a stale context, and openings of damaged files",
  "The tests never make a call fail and never look at the files that are held or left: a leak shows only after a failure, in the descriptors of the process or in the next use of the name.",
  [DBA], [("temporary files of a commit", DBA + " updateDatabaseOnFile"), ("connections are closed when opening fails", DBA + " Open"), ("a closed context is forgotten", DBA + " Close"), ("locks are released", DBA + " updateDatabaseOnFile")],
  "stateful property-based testing with fault injection through a build overlay of package os: random histories of calls and faults; after every call the descriptors below the folder and the files in it are compared with a model",
  "what a failed commit leaves in the folder is removed by the next commit of that database that succeeds; names do not end with the extensions of the temporary files; histories of up to 23 calls")

p("D10", "A commit survives a power failure, and so does what was there before it",
  "If the power fails at any point of a commit, the database is afterwards either exactly what it was or exactly what the commit makes of it, whatever is lost of the data that was not flushed to the disk by then. Once a commit reported success, a power failure cannot take it back.",
  ["crash_points", "inputs"], "every point between two file operations of a commit and after it, and what was not flushed by then being lost, cut, zeroed or there in part",
  "The tests cannot cut the power: what was written is always read back from memory, flushed or not.",
  [DBA], [("the new file is flushed before it replaces the database", DBA + " writeDataAndReferenceOnDestinationFile"), ("the folder is flushed after that", DBA + " updateDatabaseOnFile")],
  "crash-point enumeration through a build overlay of package os: the files and what was flushed of them are followed through the commits of random databases, each state a power failure can leave is laid out and compared with the two allowed states",
  "names in a folder reach the disk in the order they were changed, flushed data is not lost, flushing a folder saves its names; flushes are seen when made through the os functions; only commits are covered (not creations and deletions)",
  level="fault_enumeration")

# ---------------------------------------------------------------- codecs, references
p("C01", "The index of a database survives encoding and decoding",
  "Encoding the index of a database, or any commit, action, pointer or content key of it, and decoding the result gives an equal instance: same hashes, times to the nanosecond, parents, proofs, kinds, pointers and order. Encoding that instance again gives the same bytes.",
  ["inputs"], "every valid index: any number of commits, with and without parent and proof, any time in the nanosecond range, any kind and pointer",
  "The tests encode one or two hand-made instances.",
  [REF], [("adapters of references, commits, pointers and content keys", REF + "*adapter.go")],
  "property-based round trip over random instances, compared field by field", "proofs are not negative; times are within the range of a 64-bit nanosecond count")
p("C02", "Contents survive encoding and decoding",
  "Encoding a content, or a list of contents, and decoding the result gives the same hash, kind and data, in the same order. Encoding it again gives the same bytes.",
  ["inputs"], "every list of contents of any size and kind, repeated hashes included", "The tests encode a single small content.",
  [CON], [("content adapters", CON + "*adapter.go")], "property-based round trip over random lists", "lists of up to seven contents of up to 2000 bytes")
p("C03", "Hash trees survive encoding, decoding and compacting",
  "Encoding a hash tree, its leaves, a parent leaf or its compact form and decoding the result gives the same nodes with the same hashes and the same structure. Building a tree again from the leaves of its compact form gives the same tree; leaves, whatever is under them, make a tree exactly when their number is a power of two, and it has those leaves in that order.",
  ["inputs"], "trees over any number of blocks, empty and repeated ones included", "The tests use trees of a few fixed blocks.",
  [TREE], [("adapters of trees, leaves and compacts", TREE + "*adapter.go")], "property-based round trip over random trees, regular or of any shape, compared node by node", "up to 5000 blocks, now and then 65536; shapes up to 300 levels deep")
p("C04", "Decoding malformed bytes returns an error and never crashes",
  "Every decoder, of hash trees, contents, the index and their parts, returns an instance or an error for every sequence of bytes, without crashing and without using time or memory out of proportion to its input. An instance it returns can be encoded, and decoding that gives the same instance.",
  ["inputs"], "arbitrary bytes, and valid encodings with mutated bytes, lengths and sizes", "The tests decode what the encoders wrote.",
  [REF, CON, TREE], [("length checks of the adapters", REF + "*adapter.go, " + CON + "*adapter.go, " + TREE + "*adapter.go")],
  "mutation-based fuzzing of all 13 decoders with a re-encoding oracle", "inputs of up to a few kilobytes")
p("C05", "A commit's hash depends on all its fields, and its proof is counted right",
  "Two commits have the same hash exactly when they have the same values, creation time and parent. The mining result of a commit is the hash of that hash and its proof, and its score is the number of leading bytes of the result that equal the mining value.",
  ["inputs"], "every values tree, time, parent, proof and mining value", "The tests build one commit; a field left out of the hash, or a score off by one, agrees with it.",
  [REF + "commit_builder.go", REF + "commit.go", REF + "mine.go"], [("hash of a commit", REF + "commit_builder.go"), ("score", REF + "mine.go")],
  "metamorphic property-based testing: one field changed at a time, and independent recomputation of hash, result and score", "SHA-512 has no collisions on the generated inputs; proofs are not negative")
p("C06", "Looking up contents and commits gives what a scan of the list gives",
  "Looking up a content key by hash gives the latest one added with that hash, listing by kind gives all of that kind in order, the next free position is the end of the furthest content, and the latest commit is the last of the chain. An unknown hash or kind is an error.",
  ["inputs"], "every list of content keys and commits, with repeated hashes and kinds, before and after a round trip", "The tests use lists without repeats.",
  [REF + "content_keys.go", REF + "commits.go"], [("maps kept beside the lists", REF + "content_keys_builder.go, " + REF + "commits_builder.go")],
  "differential property-based testing against a linear scan", "lists of up to twelve keys")
# ---------------------------------------------------------------- cryptography
p("H01", "Hashes are SHA-512, in one piece, in parts or as text",
  "The hash of data is its SHA-512 digest, except that data that already has the size of a hash is taken as the hash; hashing several parts hashes their concatenation. The text form of a hash is its hexadecimal and parsing it back gives the same hash; any other hexadecimal text gives the hash of the bytes it spells, text that is not hexadecimal is an error, and two hashes compare equal exactly when their bytes are equal.",
  ["inputs"], "byte strings of any length, sizes around that of a hash included; any split; any text", "The tests hash fixed texts.",
  [HASH], [("hash adapter", HASH + "adapter.go")], "differential property-based testing against crypto/sha512 and encoding/hex", "data of up to 200 bytes")
p("H02", "The head of a hash tree is the Merkle root of its blocks",
  "The head, and every node, of a hash tree is the hash of its two children, over the hashes of the blocks in order, padded to a power of two. Changing, removing or swapping blocks changes the head whenever it changes the padded list of hashes; the given blocks are never modified, and zero blocks are an error.",
  ["inputs"], "every list of blocks: any number, empty, repeated or hash-sized blocks", "The tests build trees of a few fixed blocks and compare lengths.",
  [TREE], [("tree construction", TREE + "builder.go, " + TREE + "leaves.go")], "differential property-based testing against an independent Merkle tree, with metamorphic changes of the blocks", "SHA-512 has no collisions on the generated inputs; up to 90 blocks")
p("H03", "Shuffled blocks are put back in the order of their hash tree",
  "Given the blocks of a hash tree, or some of them, in any order, ordering them gives exactly those blocks, each as often as it was given, in the order of the tree. A block that is not in the tree is an error.",
  ["inputs"], "every list of blocks, repeated and empty ones included, and every permutation and subset of it", "The tests shuffle one list of distinct blocks.",
  [TREE], [("ordering", TREE + "hashtree.go")], "property-based testing with random permutations and subsets against the expected order", "no block is the 64-byte hash of another block")

# ---------------------------------------------------------------- asts
AP = "a reference parser, written from the meaning of a grammar, working on positions of the input"
p("A01", "A tree and what it left make up its input, byte for byte",
  "When parsing succeeds, the bytes of the tree with its channels, followed by the remaining data, are the input, except for escapes before an exception; the same holds for every tree, element and content inside it. Without channels the bytes are those of the matched values only.",
  ["inputs", "programs"], "every grammar (tokens, recursion, externals, composes, everythings, channels with conditions) and every input",
  "The tests parse short inputs with small grammars and seldom look at the bytes of nested trees or of channels.",
  [AST, TR], [("bytes of trees, elements and contents", TR + "tree.go, element.go, content.go"), ("remaining data", AST + " token, line, element")],
  "property-based testing: random grammars and inputs walked from them; the leaves of the tree are summed up at every level", "grammars of up to four tokens, inputs of some tens of bytes")
p("A02", "Parsing gives the tree of the first alternative that matches, greedily",
  "An input matches a token through its first alternative, in order, whose elements all match in sequence, each repeated as often as the data allows within its minimum and maximum, or through none, which is an error. The tree shows that alternative, its elements with their amounts and contents in order, and the data left.",
  ["inputs", "programs"], "every grammar with alternatives, optional, repeated and nested elements, recursion, and every input",
  "The tests cover a dozen hand-made grammars; ordering, backtracking and repetition interact in far more ways.",
  [AST, TR], [("alternatives", AST + " block"), ("sequence", AST + " line"), ("repetition", AST + " element, elementContent")],
  "differential property-based testing of whole trees against " + AP, "grammars of up to five tokens; cases that need more than a fixed number of steps are discarded and counted")
p("A03", "Channels are skipped between any values, and only where they may be",
  "Data that matches a channel is skipped before any value of the grammar, and after the whole tree, as often as it appears, and shows as prefix or suffix in the tree without being part of its values. A channel with a condition is skipped only where the data before and after it fits the condition.",
  ["inputs", "programs"], "every set of channels, also made of the grammar's own bytes, with conditions before, after or both; channels anywhere in the data",
  "The tests use one or two channels at a few places; conditions are tested with one input each.",
  [AST], [("channels", AST + " channels, channel"), ("conditions", AST + " channelCondition")],
  "differential property-based testing against " + AP, "the tokens of the conditions match at least one byte")
p("A04", "An everything stops at its first exception that is not escaped",
  "An element that takes everything takes all data up to the first place where its exception matches, by any of its alternatives, skips the exceptions that are escaped, and fails when there is nothing to take. The data from the exception on is left to the elements that follow.",
  ["inputs", "programs"], "every exception and escape of one to three alternatives, consecutive escapes and escapes at the end included", "The tests use single-byte exceptions and one escape.",
  [AST], [("everything", AST + " everything, reverseBlock, escaped")], "differential property-based testing against " + AP, "grammars of up to four tokens")
p("A05", "An external grammar matches as it would alone and gives back the rest",
  "An external matches with its own root, tokens and channels, independently of the grammar that uses it, and the data it does not take is left to what follows, in the same line, in repetitions and at several levels of nesting.",
  ["inputs", "programs"], "every grammar with externals anywhere in a line, repeated, nested twice, with channels of their own", "The tests have one external at the end of a line.",
  [AST], [("external", AST + " external")], "differential property-based testing against " + AP, "externals nested up to two levels")
p("A06", "What a grammar composes, it also parses",
  "Composing a token made of composes gives its bytes in order, each as often as its occurences ask, and is an error for a token with anything else. A compose in a grammar matches exactly those bytes, so parsing what was composed takes all of it.",
  ["inputs", "programs"], "every compose of bytes with occurences, in every position of a grammar", "The tests compose without occurences above one.",
  [AST, GRAM], [("composing", AST + " Compose, composeCompose"), ("matching", AST + " elementContent")], "round trip and differential property-based testing", "composes of up to three bytes repeated up to three times")
p("A07", "Every reachable suite is executed once and judged on its own bytes",
  "The coverage of a grammar executes each test suite of each token that can be reached from its root, externals and channels included, exactly once, on the suite's bytes with that token as root, and its result is the tree or the error that parsing those bytes gives. The report contains an error exactly when the result of one of its executions is an error, and each execution comes with the validity its suite was declared with.",
  ["programs"], "every grammar with suites on any of its tokens", "The tests have grammars of two or three tokens.",
  [AST, "libs/asts/domain/grammars/coverages/"], [("coverages", AST + " Coverages, coveragesToken, coverageTokenSuite")], "differential property-based testing against the reference parser", "token names are unique; suites of a few bytes")
p("A08", "Covered and uncovered elements split the grammar exactly",
  "The covered elements of a grammar are exactly those that the successful trees of its suites went through, identified by token, line and position. The uncovered ones are exactly all its other elements, so that each element is in one of the two and in no other.",
  ["programs"], "every grammar with suites, channels, everythings and externals", "The tests compare counts for one grammar.",
  [AST], [("covered", AST + " Covered, findCoveraredElements*"), ("uncovered", AST + " Uncovered, findElements*")], "property-based testing against sets computed from the reference parser's trees", "an external has the name of its grammar's root; token names are unique")
p("A09", "Fetching a name gives the first match in the order of the tree",
  "Fetching a name from a tree or an element gives the first tree or element of that name in a depth-first walk, or an error when there is none. With an index it gives, among the direct elements of that name, the one at that position.",
  ["inputs", "programs"], "every tree and every name, those that are not in it included", "The tests fetch from one tree of depth one.",
  [TR], [("fetch", TR + "tree.go, element.go, elements.go")], "property-based testing against a walk of the reference tree", "an index other than zero is only used for names of direct elements that do not appear deeper")
p("A10", "Parsing is deterministic and free of side effects",
  "The same grammar and input give the same tree whatever was parsed before, by the same or another application, one after another or concurrently. Neither the grammar nor the input is changed.",
  ["schedules", "histories", "inputs"], "every order and interleaving of parsing several inputs and computing coverages with one application and one grammar", "The tests make a new application and grammar for each call.",
  [AST], [("no state between executions", AST + " Execute")], "property-based testing: shuffled, repeated and concurrent executions compared with isolated ones", "goroutines on 8 cores, without control of the scheduler")
p("A11", "Parsing always ends, whatever the recursion in the grammar",
  "Executing any grammar, left-recursive, mutually recursive or made of optional elements only, on any input returns a tree or an error. An alternative that would start again on the same data it is already in progress on is refused, and the next one is tried.",
  ["inputs", "programs"], "every grammar in which tokens refer to themselves or to one another, in any position, and every input, empty ones included", "The tests have two recursive grammars.",
  [AST], [("stack of tokens in progress", AST + " token, instance")], "differential property-based testing against " + AP + ", with a limit on time and depth", "cases that need more than a fixed number of steps of the reference parser are discarded and counted")

# ---------------------------------------------------------------- queries
p("Q01", "A query gives what its path selects in the tree, and nothing more",
  "A query follows its token and element names, positions and content indexes through the tree, hands exactly the selected contents, in order, to its functions or to its nested and recursive queries, and returns their result with the data the tree left. It gives the same result each time and does not change the tree.",
  ["inputs", "programs"], "every tree and every query along it: nested, recursive, by content, over all instances or one", "There are two tests, each with one query.",
  [QA, QD], [("path", QA + " queryFetch, queryContents"), ("functions", QA + " queryInstance, insideInstances")],
  "differential property-based testing against an independent evaluation on the reference tree", "the functions of the query are pure; a recursive fetcher names exactly one query")
p("Q02", "A query that does not fit gives an error or no result, never a wrong one",
  "A query whose names, positions or indexes do not exist in the tree, or whose functions fail, returns an error or an invalid result, and never crashes or returns part of a result.",
  ["inputs", "programs"], "every tree and every query that does not fit it somewhere", "The tests only run queries that fit.",
  [QA], [("errors of the path", QA + " queryContents, queryInstance, tokenRefine")], "differential property-based testing with queries mutated away from the tree", "the functions of the query are pure")

# ---------------------------------------------------------------- interpreter
p("I01", "A program computes what its instructions say",
  "A compiled program executes its assignments and executions in order, calling each module with exactly the values attached to the application so far, each under its target, and returns the values assigned to output parameters declared before, in the order of assignment. Each time an application is executed, the values attached to it are evaluated anew, in the order of attachment, so that modules are called exactly as often, and in the order, that the program says. A variable stands for the value assigned last before its use or for the input at its position among the input parameters, and a sub-program receives the same inputs and has its own names.",
  ["programs", "inputs"], "every program of modules, applications, parameters, assignments, attachments, executions and sub-programs, with any naming function",
  "The interpreter has no tests.",
  [IA, "libs/interpreters/domain/programs/"], [("compilation", IA + " Compile, compile*"), ("execution", IA + " Execute, executeValue, execute")],
  "differential property-based testing against an independent interpreter", "modules do not change the bytes of the constants they receive; an input parameter that was assigned a value is not read again by an assignment")
p("I02", "Ill-formed programs and failing modules give errors, never partial results",
  "Compiling fails exactly when the program declares a name twice, uses an unknown module, application or variable, reads an output, or has nothing to execute. Executing fails exactly when an input that is used is missing or a module fails, and then returns no values.",
  ["programs", "inputs"], "every program with a misplaced, repeated or unknown name, and every set of failing modules", "The interpreter has no tests.",
  [IA], [("checks of the compiler", IA + " compile*"), ("errors of the modules", IA + " Execute")], "differential property-based testing against an independent interpreter, with broken programs", "as I01")
p("I03", "Executions of a program are independent of one another",
  "A program gives for each list of inputs what it gives for it alone, however often, in whatever order and by however many callers at once it is executed, and compiling the same instructions again gives a program that does the same. Executing changes neither the program nor the inputs.",
  ["schedules", "histories", "programs"], "every program, executed on several inputs one after another and concurrently", "The interpreter has no tests.",
  [IA], [("no state between executions", IA + " Execute")], "property-based testing: repeated and concurrent executions compared with an independent interpreter", "goroutines on 8 cores, without control of the scheduler")

# ---------------------------------------------------------------- instances
p("G01", "The built-in tokens accept exactly their class of characters",
  "A variable name is a lower-case letter followed by letters, a hash is exactly 128 hexadecimal digits, and the letter, digit, hexadecimal and byte tokens accept exactly one byte of their class; each takes as much as it can and leaves the rest. Spaces, tabs, line ends and single-line comments, empty ones included, are skipped between any two bytes when the built-in channels are used.",
  ["inputs"], "every sequence of bytes, with spaces and comments at any place", "The suites of the tokens try single characters and one or two words.",
  [IG + "tokens/token.go", IG + "components/channels/channels.go"], [("tokens", IG + "tokens/token.go"), ("channels", IG + "components/channels/channels.go Channels")], "property-based testing against regular expressions", "data of up to 132 bytes")
p("G02", "The script grammar recognises every instruction of a script, and only those",
  "A script is accepted exactly when it starts with a root, any number of channels and at least one instruction in their documented form; its tree has the root, each channel and each instruction, separately, in order and of its own kind, with their names, conditions, lines, elements, cardinalities, amounts and suites, and leaves what follows them. Spaces and comments between any two bytes change nothing.",
  ["inputs"], "every script of values, composes, everythings, tokens and externals with their suites, and its mutations", "The test parses one script and only looks at what remains.",
  [IG + "grammars/grammar.go"], [("the grammar of the script", IG + "grammars/grammar.go")], "property-based testing of generated and mutated scripts against regular expressions on the text without spaces", "scripts of up to four instructions; names are letters, so that spaces inside a name are skipped as everywhere")
p("G03", "The components build grammars that mean what they are given",
  "A sequence of characters matches exactly that text, a choice exactly one of its characters, a repetition as many as its cardinality allows, and an everything up to its exception, for every text, multi-byte characters included. The suites that come with a component all pass, and a grammar made with the components is the grammar they describe: same trees, same suites.",
  ["inputs", "programs"], "every text of one or more characters, and every data", "The components are only used with ASCII by the tests.",
  [IG + "components/"], [("characters", IG + "components/tokens/token.go"), ("suites", IG + "components/suites/suite.go"), ("everythings", IG + "components/everythings/everything.go")], "property-based testing against string operations and the reference parser", "texts of up to four characters")

# ---------------------------------------------------------------- builders
p("B01", "A builder builds exactly what it was given, and refuses what is incomplete",
  "Every builder of the domains returns an error when a part it needs is missing or empty, and otherwise an instance whose accessors show exactly the parts that were given last, in any order, and whose Has and Is flags tell which optional parts and which alternative it has. What an instance derives from its parts (names, amounts, whether it is successful, the successful line, the latest commit, lookups by name, index or hash, errors contained) agrees with them.",
  ["inputs", "configurations"], "each of the 72 builders of grammars, trees, coverages, hash trees, contents, references, instructions, programs, modules and queries; every subset and order of parts, repeated and empty ones included",
  "The tests build complete instances only, through a few of the builders, and never look at what an incomplete or oddly ordered use gives.",
  ["libs/asts/domain/", "libs/databases/domain/", TREE, "libs/interpreters/domain/", QD],
  [("mandatory parts", "Now of each *builder.go"), ("constructors of each combination of parts", "create* of each entity")],
  "property-based testing of all builders from one table of what each needs and shows: random parts in random order against that table, by reflection",
  "an instance given several alternatives of one choice may be refused or have any one of them; empty names given as bytes are left out; a condition of a channel without any side may be refused or built")
p("B02", "Builders share nothing: what one builds depends on nothing else",
  "A builder returned by Create starts with no part at all, whatever the builder it was created from was given, and what is given to one builder never shows in what another one builds. An instance never changes after it was built, whatever is done with its builder, and building again without new parts gives the same again.",
  ["histories"], "every interleaving of giving parts, building and creating with two or three builders of one kind, for each of the 72 builders",
  "The tests create a builder, use it once and drop it; shared state shows only when two of them are in use or one is used twice.",
  ["libs/asts/domain/", "libs/databases/domain/", TREE, "libs/interpreters/domain/", QD],
  [("each Create makes a new builder", "Create of each *builder.go"), ("instances copy the scalar parts", "Now of each *builder.go")],
  "stateful property-based testing: interleaved random uses of several builders against one model for each; every instance inspected again at the end",
  "as B01; the caller does not change a list after handing it over")

extra = os.path.join(here, "tools", "gen_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps({k: q[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./build.sh && ./build.sh fault",
    "checks": [{"property": q["id"], "quick_cmd": "./check " + q["id"], "thorough_cmd": "VERIF_TIER=thorough ./check " + q["id"],
                "technique": q["technique"], "level": q["level"], "level_note": q["note"]} for q in props],
    "not_applicable": [],
    "notes": "One Go harness (harness/, rapid generators, shrinking to replay files) is built against /repo's working tree for every run; D04, D06-D10 use a build in which package os is overlaid for rodkina's own files. ./check replay FILE replays a saved case; regress/ holds shrunk cases of repaired defects; known_findings.json lists the repaired defects.",
}
json.dump(manifest, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(props), "properties")
