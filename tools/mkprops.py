#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in git; this script is the readable source).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
OBJ='src/obj.rs'; CS='src/parse/char_stream.rs'; PR='src/parse/parser.rs'; UT='src/util.rs'; PU='src/parse/util.rs'; FM='src/parse/format.rs'
p('C01','A loaded file is seen whole, however its bytes arrive',
 "Loading a file succeeds only with the value denoted by the file's complete byte content, however the operating system delivers those bytes: in reads of any size, with interrupted reads, or with a reported file size that is wrong, stale or absurd. A file (or Str-included file) that is not valid UTF-8, or whose reading fails part-way, makes the load fail; its content is never truncated, repaired, normalised or defaulted.",
 ['fault_sequences','inputs','schedules'],
 'every document, every split of its bytes into read results, every placement of EINTR, every reported size, every read error at every position',
 'The tests read small regular files from a real local disk, where one read call returns everything and nothing ever fails.',
 [CS,PU,OBJ],[('whole-file read into memory before parsing','CharStream::from_file'),('verbatim read of Str includes','parse::util::read_file_str')],
 [('file contents buffer','text the parser walks over',CS)],['Obj::from_file result'])
p('C02','A save that reports success has written exactly the object, completely',
 "When saving an object reports success, the target file holds exactly the object's textual form and nothing else, whatever it held before and however the writes were split, shortened or interrupted. If opening the target or any write fails, the save reports an I/O error, the target holds its previous content or a prefix of the new text (never a mixture), and no other file has changed. Once the faults stop, repeating the save succeeds.",
 ['fault_sequences','inputs','crash_points','histories'],
 'every object, every previous content of the target, every pattern of short or interrupted writes, every write/open error at every position, process kill at every system call',
 'The one write test saves to a fresh file on a healthy disk; no test makes a write short, fail or be interrupted, and none overwrites longer content.',
 [UT,OBJ],[('create-truncate then write everything, errors propagated','util::write_file_str'),('I/O error conversion','impl From<io::Error> for OverError')],
 [],['Obj::write_to_file result','bytes of the target file'])
p('C03','What was saved is what any later process loads back',
 "Loading a file produced by a save that reported success, in the same process or after any crash and restart, yields an object equal to the one saved: the same fields in the same order with the same strings, exact numbers, types, nested values and parents. Saving the reloaded object gives byte-identical text, so repeated save/load cycles never drift. This holds for every object a document within the nesting limit can denote.",
 ['histories','crash_points','fault_sequences','inputs'],
 'every sequence of loads, saves, failed saves, crashes and restarts over every object denoted by a document (escapes, unicode, fractions, empty and nested containers, parents, includes)',
 'Tests round-trip nine fixed files once each, in one process, on a healthy disk.',
 [FM,OBJ,PR,UT],[('textual form of every value','parse::format::Format'),('escape tables used by writer and reader','get_char_map / get_escape_char')],
 [],['Obj::write_to_file then Obj::from_file','Obj::write_to_string'])
p('C04','Loading always ends in a value or an error: no panic, abort or hang',
 "Loading any file graph ends, within a bounded number of steps, in an object or in a returned error, whatever bytes the files hold (torn, corrupted or hostile, short of describing a value too big for memory), whatever I/O errors occur, whatever sizes the file system reports, and however files are replaced, removed or made unreadable while the load runs. It never panics, aborts the process, exhausts memory because of a reported size, or overflows the stack of an ordinary thread.",
 ['fault_sequences','inputs','schedules','configurations'],
 'every content of every file, every I/O fault sequence, every file-system mutation at every system call of the load, deep include chains and deep nesting, default thread stack size',
 'Tests only feed fixed well-formed or simply malformed files on a static healthy disk; the fuzz targets never touch files at all.',
 [PR,CS,'src/parse/mod.rs'],[('recursion limit','MAX_DEPTH checks in parse_obj/parse_arr/parse_tup/parse_include'),('error returns on every I/O step of an include','parse_include')],
 [('recursion depth','nesting of containers, includes and prefix operators',PR)],['Obj::from_file / Obj::from_str outcome','process exit status'])
p('C05','Includes resolve to the right file and kind for every file layout',
 "An include evaluates to the content of the file its path names, relative to the directory part of the path under which the including file was itself reached (through any mix of subdirectories, '..' and symbolic links; relative to the working directory for in-memory text), read as the kind the include asks for, with Str includes taken verbatim. Variables and globals never cross a file boundary in either direction. The same file may be included any number of times, from any files and under different kinds, and each include gives that file's value for the kind it asks for.",
 ['configurations','inputs','histories','fault_sequences'],
 'every acyclic include graph, directory layout, symbolic-link arrangement, spelling of the paths, mixture of kinds and order of includes, on file systems with arbitrary delivery behaviour',
 'One test uses one fixed three-level layout where all files sit in one directory and no file is included under two kinds.',
 [PR],[('path resolution, canonicalisation and per-load cache','parse_include'),('fresh scopes per file','parse_obj_stream / parse_arr_file / parse_tup_file')],
 [('per-load include cache','value already loaded for a file',PR)],['Obj::from_file / Obj::from_str result'])
p('C06','Circular includes are refused and acyclic ones never are',
 "A load that reaches, directly or through any chain of files, alias spelling or symbolic link, an include of a file that is still being loaded fails with a cyclic-include error after finitely many steps and with bounded stack. An include graph without such a cycle, its chains no deeper than the nesting limit, loads normally and is never reported as cyclic, however often and from however many places a file is shared.",
 ['configurations','inputs','fault_sequences'],
 'every include graph over any number of files, every path spelling and link arrangement, with and without benign I/O disturbance',
 'The tests contain one self-include and one acyclic graph.',
 [PR],[('set of files on the current include path, keyed by canonical path','parse_include (included.1)')],
 [('files being loaded','ancestors of the current file in the include tree',PR)],['Obj::from_file result'])
p('C07','Within one load, repeated includes of a file see one single version of it',
 "In a load that succeeds, all includes of the same file as the same kind give the very same shared value, even when the file is rewritten or replaced while the load is running. When files are only ever replaced atomically, what a file contributes as one kind is entirely one of its versions, never a mixture of two, and a version that was current at some moment of the load.",
 ['schedules','fault_sequences','histories'],
 'every interleaving of a load with an external editor that replaces, rewrites or deletes files of the include graph at any system call',
 'Tests never change a file while it is being loaded.',
 [PR,CS],[('include processed only the first time it is met','parse_include cache'),('file opened once and read completely','CharStream::from_file')],
 [('per-load include cache','value already loaded for a file',PR)],['Obj::from_file result, ReferenceType::ptr_eq/id'])
p('C08','Loads leave no residue: each load reflects the files as they are now',
 "The outcome of a load depends only on the named files' content and layout at that time. Earlier loads of the same or other files, whether they succeeded, failed, hit a cycle or were interrupted by faults, and earlier saves, never change it: no stale include, global, cycle mark or error survives from one load into the next.",
 ['histories','fault_sequences'],
 'every history of loads (successful, failing, cyclic, faulted), saves and external edits in one process',
 'Each test performs a handful of loads of files that never change.',
 [PR,OBJ],[('all loading state is created per top-level load','parse_obj_file / parse_obj_str')],
 [],['Obj::from_file / Obj::from_str result'])
p('C09','Operations on different threads do not influence each other',
 "Whatever the interleaving, loads, saves and value construction running on several threads give each caller exactly the result it would get running alone, including the very first operations of a process; include keywords are recognised and no operation deadlocks. A value shared between threads reads the same on all of them, for as long as any of them holds it.",
 ['schedules','histories','fault_sequences'],
 'every interleaving, at memory-access granularity, of any set of concurrent loads, saves, constructions and reads, from the first use in a process on',
 'The test harness happens to run test functions in parallel but shares nothing between them, asserts nothing about interleavings and cannot choose one.',
 [PR,'src/lib.rs',OBJ],[('lazily created process-wide include-keyword markers','lazy_static OBJ_SENTINEL..TUP_SENTINEL'),('values are immutable behind atomic reference counts','Obj/Arr/Tup inner Arc')],
 [('include-keyword markers','process-wide values identifying the kind keywords',PR)],['results of all public operations on each thread'])
p('C10','Every array, tuple and object instance has its own unique, increasing ID',
 "No two distinct array, tuple or object instances created in a process, on any threads, by any mixture of parsing and construction, ever have the same ID, while all handles to one instance report the same ID. IDs are handed out incrementally from 0: the first instance gets 0 and an instance created after another one existed has the larger ID.",
 ['schedules','histories'],
 'every interleaving, at memory-access granularity, of instance creation on any number of threads',
 'No test looks at an ID, and none creates instances on two threads.',
 ['src/lib.rs','src/arr.rs','src/tup.rs',OBJ],[('atomic process-wide counter','gen_id')],
 [('next ID','process-wide counter','src/lib.rs CUR_ID')],['ReferenceType::id'])
p('C11','Sharing and reference counts are exact, on any threads, until the last drop',
 "The reported number of references of an instance equals the number of places that currently hold it (handles, containers, child objects), at every quiescent moment of any history of loads, clones, moves across threads and drops. Two handles are the same instance exactly when one was obtained from the other or through the same variable, global or repeated include; temporary parser state keeps nothing alive once a load has returned.",
 ['schedules','histories','fault_sequences'],
 'every history and interleaving of loading, cloning, reading, sending and dropping shared values on several threads',
 'Tests check the count in three fixed single-threaded situations.',
 ['src/arr.rs','src/tup.rs',OBJ,PR],[('atomic reference counting of inner data','ReferenceType impls'),('variables and repeated includes share instead of copying','parse_variable / parse_include')],
 [],['ReferenceType::num_references, ptr_eq, id'])
p('C12','A fault in any file fails the load as a whole, and clears with the fault',
 "If opening, reading or resolving any file of an include graph fails, the load either still yields the complete correct value or returns an error; it never succeeds with a part missing, emptied, stale or defaulted. As soon as the faults stop, the next load of the same file succeeds with the complete correct value.",
 ['fault_sequences','configurations','histories'],
 'every placement of every kind of I/O error (open, stat, resolve, read; transient or lasting) in the load of every include graph, followed by recovery',
 'Tests contain no I/O error other than a missing include file.',
 [PR,CS,PU,'src/parse/error.rs'],[('every I/O step returns its error upwards','parse_include / CharStream::from_file'),('conversion of I/O errors','impl From<io::Error> for ParseError')],
 [],['Obj::from_file result'])
p('C13','Loading changes nothing on disk, and every resource is released',
 "A load never creates, modifies, truncates, renames or removes anything, and a save touches only its target. When a load or save returns, whether it succeeded, failed or was cut short by any fault, every file it opened has been closed again, and once its results are dropped all memory it took has been given back, so the operations can be repeated indefinitely.",
 ['fault_sequences','histories','inputs'],
 'every load and save of every graph, every fault at every system call, on every success and error path; long histories under a small file-handle limit',
 'No test looks at file handles, memory or the directory tree after an operation, least of all on an error path.',
 [CS,PU,UT,PR],[('files closed by scope exit','CharStream::from_file, read_file_str, write_file_str'),('text buffer owned by the stream','char_stream Inner')],
 [],['set of open descriptors, directory tree, live allocations after each operation'])
p('C14','Parse errors name the file that is broken, wherever it sits in the graph',
 "When a file holds text that is broken (torn, corrupted or malformed, but still UTF-8), every load that reaches it, directly or through any chain of includes, before anything else that is broken fails with a parse error that starts with that file's path and carries the same line, column and message as loading that file by itself. Text loaded from memory always gets an error with a line number inside the text.",
 ['inputs','fault_sequences','configurations'],
 'every include graph, every file of it as the broken one, every corruption of that file, under any benign I/O behaviour',
 'The one test of error messages loads single malformed files only, and it already fails on this tool chain for an unrelated reason, so it gives no signal.',
 ['src/parse/error.rs',PR,CS],[('file name and position carried by the stream','CharStream::file/line/col'),('error carries the stream\'s file','parse_err')],
 [('position','line and column of the next character',CS)],['text of OverError::ParseError'])
p('C15','Arithmetic on values is exact and follows the documented precedence',
 "For all operands, +, -, *, / and % on Int and Frac give the exact mathematical result, with * / % binding tighter than + and -, left to right; undefined cases (zero divisors, operand types an operator does not support) are errors.",
 ['inputs'],'all expressions','Tests evaluate about thirty fixed expressions.',[PR],[('operator evaluation','binary_op_on_values / parse_value')])
p('C16','Arrays are homogeneous and types are the most specific common type',
 "Every array that parsing or checked construction yields has elements that all share one type, reported as the most specific type covering all of them (empty arrays being compatible with any element type); anything else is refused with a type error.",
 ['inputs'],'all value trees','Tests check a dozen fixed arrays.',['src/types.rs','src/arr.rs',PR],[('type unification','Type::most_specific')])
p('C17','Field lookup honours order, inheritance and structural equality',
 "Looking up a field gives the object's own value if present, otherwise that of the nearest ancestor having it, with the ancestor as reported source; equality is structural and an equivalence, and ignores identity.",
 ['inputs'],'all objects and parent chains','Tests use one three-level chain.',[OBJ],[('lookup through parents','Obj::get / get_with_source'),('equality','impl PartialEq for Obj')])
p('C18','Exactly the documents of the grammar are accepted',
 "A text is accepted if and only if it follows the documented grammar (tokens, brackets, duplicate and reserved fields, escapes, nesting limit), and a rejection reports the line and column of the offending token.",
 ['inputs'],'all texts','Tests reject about sixty fixed texts (in a test that fails on this tool chain).',[PR],[('recursive-descent parser','parse_value and friends')])
p('C19','Programmatic construction validates names and typed access validates types',
 "Checked construction refuses invalid field names and mixed arrays, typed getters return the value exactly when the type matches and otherwise a descriptive error, and out-of-range indexing is an error.",
 ['inputs'],'all names, values and indices','Tests use a handful of fixed names and values.',[OBJ,'src/value.rs','src/arr.rs','src/tup.rs'],[('name check','Obj::is_valid_field'),('typed getters','get_fn macros')])
p('C20','The same files give the same result in every process',
 "The outcome of a load (the value with its order of fields, or the error with its message), the text of an object, the errors its getters give and the bytes a save writes depend only on the files, the path, the working directory and the value. They never depend on the process: not on hash seeds, memory addresses, environment variables, the clock or the time stamps of files, how reads and writes are split, what was loaded or built before, or what other threads do meanwhile.",
 ['configurations','schedules','histories','inputs'],
 'every file graph (also broken ones), every value, every pair of processes that differ in the things named',
 'A test runs in one process with one hash seed, one environment and one heap layout, and compares with constants; whatever varies between processes shows up, if at all, as a test that fails now and then.',
 [PR,FM,OBJ,'src/parse/error.rs'],[('fields kept in order of the text','Obj / parse_field_value_pair'),('rendering in order of fields','Format for Obj'),('errors carry position and file only','ParseErrorKind')],
 [('globals and includes of a load','hash maps: may be looked up but not iterated into a result',PR)],['Obj::from_file result and error text, Obj::write_to_string, bytes of the target'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
