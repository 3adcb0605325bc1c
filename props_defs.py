"""Property definitions: the source of properties.jsonl and MANIFEST.json."""
NOTES = "Every check builds its harness from /repo's working tree into /verif/build (git-ignored). check.py PROP --replay FILE re-executes a replay file; check.py --determinism re-runs seeds in other processes and compares event-log hashes."

CLAIMED = []
NA = []


def claim(**k):
    CLAIMED.append(k)


def na(**k):
    NA.append(k)


Q = [("RunThreadedQueue", "datas/multi_thread.hpp")]
claim(id="C01", title="Threaded queue runs every task exactly once and is done when it returns",
      statement="Running a queue of N tasks calls the body exactly once for each index 0..N-1 and for nothing else, and when the call returns normally every body has finished and its effects are visible to the caller. This holds for every N (zero included), every reported processor count (unknown included), for nested queues, for queues run from several threads at once, and however long single tasks take.",
      over="schedules inputs configurations", quant="all thread interleavings, task durations, queue lengths, processor counts, nesting and concurrent callers",
      why="test/multi_thread has no schedule control: it sees one interleaving on one processor count; a lost, repeated or still running task needs a particular completion order.",
      files="datas/multi_thread.hpp", mech=Q, observe=["the body's calls", "state at return"],
      tech="real worker threads handed off one at a time by a seeded scheduler; every call of the body is recorded and checked at return",
      note="seeded search over schedules, durations and processor counts; sequentially consistent memory")
claim(id="C02", title="Threaded queue parallelism is bounded, real, and never held up by slow tasks",
      statement="At no time are more bodies of one queue in progress than the processor count (at least one), and that many are really in progress together when tasks need each other. As long as one of its slots is free, a stalled or slow task never keeps other pending tasks from being started and finished.",
      over="schedules inputs configurations", quant="all interleavings, stall patterns, queue lengths and processor counts",
      why="Needs a clock and a scheduler under control: existing tests cannot stall a chosen task for hours or count bodies in progress at every instant.",
      files="datas/multi_thread.hpp", mech=Q, observe=["number of bodies in progress", "simulated completion times"],
      tech="simulated clock and scheduler, stalled tasks, rendezvous tasks; progress within a bounded simulated time",
      note="seeded search; liveness is progress within a bound of simulated time after stalls are placed")
claim(id="C03", title="A failing task or failed thread creation never loses, repeats or leaks tasks",
      statement="When a body throws, all other tasks still run exactly once before the call returns. When a thread cannot be created or memory runs out, the failure is reported to the caller, no task runs twice, and no task is left running or starts after the call has been left.",
      over="schedules fault_sequences", quant="all interleavings and all placements of throwing bodies, thread-creation and allocation failures",
      why="The tests never make a body throw or pthread_create fail.",
      files="datas/multi_thread.hpp", mech=Q, observe=["the body's calls", "how the call is left"],
      tech="injected thread-creation failures (n-th, random, limit), failing allocations of the caller and throwing bodies under a seeded scheduler",
      note="seeded search over schedules and fault placements")
L = [("MasterPrinterThread::FlushAll, AddPrinterFunction", "datas/master_printer.cpp"), ("thread_local printer stream", "datas/master_printer.hpp")]
claim(id="C04", title="Log messages are delivered whole, once, in order, to every sink alike",
      statement="Messages logged concurrently by several threads reach every registered sink whole and unmixed, exactly once, each thread's messages in the order it logged them, and all sinks see the same global order. Sinks are never entered by two threads at once, and a warning's or error's prefix, its colour and the optional thread id always belong to the message they frame.",
      over="schedules inputs", quant="all interleavings of any number of logging threads and sinks, all message sizes and severities",
      why="The unit tests log from one thread to one sink; torn or reordered messages need an interleaving inside a flush.",
      files="datas/master_printer.cpp datas/master_printer.hpp datas/internal/master_printer_ix.inl", mech=L, observe=["what each sink receives"],
      tech="seeded thread schedules with preemption at every memory access and callback; sink histories parsed against what was logged",
      note="seeded search over schedules and messages")
claim(id="C05", title="A log message shows exactly what was put into it, whatever happened before",
      statement="A message's text is exactly the concatenation of what was streamed into it since the thread's previous message, with its own (last streamed) severity only and numbers in the locale its thread has asked for, whatever the lengths and severities of earlier messages of this or other threads and whatever failures hit them. A failed insertion, a throwing sink or a failed allocation damages at most the message it hits, never reads foreign memory and never shows text that was not logged.",
      over="histories inputs fault_sequences", quant="all message histories and all placements of failed insertions, sink exceptions and allocation failures",
      why="The stream buffer is reused and only shrunk past a size limit, so a fault shows in a later message of a particular length; the tests log a handful of short ones without faults.",
      files="datas/master_printer.cpp datas/master_printer.hpp", mech=L, observe=["what each sink receives"],
      tech="injected allocation failures, failed insertions and throwing sinks in generated message histories; checked against a model of the text",
      note="seeded search over histories and fault placements")
claim(id="C06", title="Sinks can be added and thread ids switched while other threads log",
      statement="Adding sinks (also the same one twice, also from several threads) and switching the thread-id prefix while other threads log is safe: no message is lost, torn, repeated or reordered for any sink. A message begun after a sink's registration returned always reaches it exactly once, and one completed before the registration began never does. No access to the logger's state is left unordered with a conflicting one (no data race).",
      over="schedules histories", quant="all interleavings of logging threads with registrations and switches",
      why="No test registers a sink while another thread logs; the failure needs a preemption inside a flush.",
      files="datas/master_printer.cpp datas/master_printer.hpp", mech=L, observe=["what each sink receives", "memory safety"],
      tech="seeded schedules of registrars against loggers; use-after-free and lost deliveries detected by shadow memory and history check",
      note="seeded search over schedules")

Z = [("ZIPVFS concurrent Get, ZIPVFSFile", "datas/zip_vfs.hpp")]
claim(id="C07", title="Archive files fetched concurrently are independent and correct",
      statement="Several threads may fetch files from one opened archive at the same time: each gets exactly the bytes of the name it asked for. The fetched files are independent of each other and of the archive's stream, and stay readable, at the same place and in the same byte order, after being moved. A failing read of the medium or a failing allocation is reported to the thread that met it and disturbs no other fetch. There is no data race between fetches.",
      over="schedules histories", quant="all interleavings of fetching threads, all archive layouts and name sets, moves of fetched files",
      why="Stream seek and read must be one step for the archive: a wrong interleaving needs a preemption between them that the tests (one thread) never have.",
      files="datas/zip_vfs.hpp formats/ZIP_istream.inl formats/ZIP.hpp", mech=Z, observe=["bytes of each fetched file"],
      tech="seeded schedules of fetching threads on one simulated archive device; contents compared with what was stored",
      note="seeded search over schedules and archives")
claim(id="C08", title="Reflection metadata may be built and used from several threads",
      statement="First use of reflected types and enums, and reading and writing different reflected objects through the reflector, from several threads at once gives the same results as doing it one after another, without races or crashes.",
      over="schedules", quant="all interleavings of first uses and of uses on different objects",
      why="First use happens once per process and its order in the tests is fixed; a race in lazily built metadata needs a particular overlap.",
      files="datas/reflector.cpp datas/reflector.hpp datas/internal/reflector_class_reg.hpp datas/internal/reflector_class.hpp datas/internal/reflector_enum.hpp", mech=[("Reflector, lazily built class/enum metadata", "datas/reflector.cpp")], observe=["results of reflector calls in every thread"],
      tech="seeded schedules over fresh processes (metadata unbuilt), results compared with a sequential run of the same operations",
      note="seeded search over schedules; compared against the sequential execution of the same workload")
claim(id="C09", title="Pointer fixups happen once per pointer and thread-locally, or not at all",
      statement="Fixing up esPointers turns each stored offset into an address exactly once however often and through whichever alias it is repeated, independently per thread. When memory runs out while the fixup is recorded, the pointer stays unfixed and a retry completes it. A pointer set afterwards points where it was set to, null included.",
      over="schedules histories fault_sequences", quant="all interleavings of fixing threads, repeated fixups, allocation failures at any point",
      why="A double fixup needs repetition across a particular history, a lost one a failing allocation at one particular insertion; tests fix up once.",
      files="datas/pointer.hpp", mech=[("esPointerX86/X64::Fixup", "datas/pointer.hpp")], observe=["pointer values after fixups"],
      tech="seeded schedules with per-thread allocation failures, pointers compared to a model",
      note="seeded search over schedules, histories and allocation failures")

B = [("BinReaderRef/BinWritterRef, BinStreamNavi", "datas/binreader_ref.hpp datas/binwritter_ref.hpp datas/internal/bincore_navi.hpp")]
claim(id="C10", title="Binary readers and writers keep content and position exactly",
      statement="For every sequence of typed reads and writes (values, arrays, buffers, strings, counted and uncounted containers, classes with their own stream form, either endianness) mixed with Seek, Skip, Push/Pop, relative origins, padding and size queries, the bytes stored and read back, Tell() and GetSize() are exactly those the operations define. This holds however the medium splits transfers, wherever in a stream of any size the data lies, and for several references onto one stream.",
      over="histories inputs", quant="all operation sequences, values, endianness choices, transfer sizes of the medium and numbers of references on the stream",
      why="The unit tests run one short script over a stringstream; a wrong origin, count width or byte order shows only in particular combinations.",
      files="datas/binreader_ref.hpp datas/binwritter_ref.hpp datas/binreader_stream.hpp datas/binwritter_stream.hpp datas/internal/bincore_navi.hpp datas/endian.hpp", mech=B, observe=["bytes on the medium", "values read", "Tell(), GetSize()"],
      tech="seeded scripts over a simulated medium with chosen transfer sizes, checked after every operation against a model of bytes and positions",
      note="seeded search over operation sequences; no device faults here (see C11, C13)")
claim(id="C11", title="Reading a truncated or failing stream ends and invents nothing",
      statement="Reading past the end of a stream, or from one that fails, always terminates. Whatever is delivered is stored data up to where it ended, everything else keeps the value it had or is zero/empty; no string, container or count becomes larger than stored, nothing is written outside the target, and reaching the end shows in IsEOF().",
      over="fault_sequences inputs histories", quant="all truncation points, read errors, premature ends, seek failures and reader operations",
      why="Tests read only complete, healthy streams; each failure needs the medium to end or fail at one particular byte.",
      files="datas/binreader_ref.hpp datas/binreader_stream.hpp datas/base_128.hpp", mech=B, observe=["values, strings and containers read", "IsEOF()", "termination", "memory safety"],
      tech="simulated medium cut or failing at drawn points under real readers; results compared with stored bytes, sentinel-filled targets, bounded calls",
      note="seeded search over truncation and failure points")
claim(id="C12", title="Variable-length integers round-trip and delimit themselves",
      statement="Every int64/uint64 written as a variable-length integer takes one to nine bytes and reads back as the same value, leaving the stream exactly behind it, also next to others and for any transfer sizes. Decoding a torn one terminates with nothing but the stored bits.",
      over="inputs fault_sequences", quant="all 64-bit values, sequences of them and truncation points",
      why="The tests try a dozen values; the coding changes shape at each seven-bit step and at its end.",
      files="datas/base_128.hpp", mech=[("bint128, buint128", "datas/base_128.hpp")], observe=["bytes written", "values read", "Tell()"],
      tech="seeded value sequences (dense around coding steps) through a simulated medium, truncated at drawn points",
      note="seeded search over values and truncation points")
claim(id="C13", title="File readers and writers survive system faults and moves",
      statement="Opening reports exactly the failures to open, naming the file, and may be retried. While IsValid() stays true a file reader delivers exactly the file's bytes, whatever interruptions and short transfers occur; a failed read delivers only file bytes. After a seek that leaves a writer valid everything written is in the file, without faults all of it is after its end, and after a crash a prefix; moved readers and writers carry on, and no descriptor leaks.",
      over="fault_sequences crash_points histories", quant="all placements of open/read/write/seek/close errors, interruptions, short transfers, full disks and crashes, and all operation sequences with moves",
      why="Tests use healthy files and never move a reader or writer.",
      files="datas/binreader.hpp datas/binwritter.hpp datas/internal/bincore_file.hpp", mech=[("BinReader, BinWritter, BinStreamFile", "datas/binreader.hpp datas/binwritter.hpp")], observe=["bytes read", "file contents", "exceptions", "IsValid()", "open descriptors"],
      tech="real fstreams over a simulated file system whose calls fail, stop short, are interrupted or crash by seed; contents checked against a model",
      note="seeded search over fault placements and operation sequences")
RB = [("ReflectorBinUtil::Save, Load; SaveClass, LoadClass", "datas/reflector_io.cpp")]
claim(id="C14", title="Reflected objects saved in binary load back equal, also into newer classes",
      statement="Saving an object of any reflected class of storable members and loading it into another object of the class gives equal members, in either byte order, at any stream position and for records back to back; each Load ends exactly behind its record; saving changes nothing, loading nothing but members. Members of a reordered or renamed class version are found by name or alias, unknown ones stay. A record of another class is refused, leaving object and position; one with another member count is refused leaving the object, with the stream behind the record.",
      over="inputs histories", quant="all class layouts (member kinds, sizes, arrays, nesting, names, aliases), values, byte orders, positions, transfer sizes",
      why="The test stores one class with one nesting level; deeper nesting, byte order and class evolution never occur.",
      files="datas/reflector_io.cpp datas/reflector_io.hpp datas/base_128.hpp datas/reflector.cpp", mech=RB, observe=["members of the loaded object", "bytes around them", "stream position", "return value"],
      tech="reflected classes and objects made up per seed, saved to and loaded from a simulated medium; members compared, bytes outside them guarded",
      note="seeded search over classes, values and histories; nested classes registered, no arrays of arrays (the format has none)")
claim(id="C15", title="Loading a cut, corrupted or unreadable object is reported and does no damage",
      statement="Load of a record cut at any byte, or from a medium that fails, ends and reports an error; members before the break are loaded, at most the one at the break is damaged, those behind it untouched; a nested object that does not fit its class is reported and skipped, all others load. Whatever bytes a record holds, Load ends and writes nothing outside the object's members. A Save that meets a failing stream or allocation reports it and can be repeated.",
      over="fault_sequences inputs crash_points", quant="all cut points, read/write errors, corruptions, allocation failures, class layouts",
      why="The test only loads intact records from memory.",
      files="datas/reflector_io.cpp datas/binreader_ref.hpp datas/base_128.hpp", mech=RB, observe=["return value", "members", "bytes around them", "termination"],
      tech="simulated medium cut, corrupted, full or failing at drawn points and failing allocations under real Save/Load of made-up classes",
      note="seeded search over faults and classes; contents of corrupted records are not judged")
RI = [("ReflectorIO::Save, Load", "datas/reflector_io.cpp")]
claim(id="C16", title="A type database loads back complete, wherever in the stream it was saved",
      statement="Saving any set of reflected classes and enums as a database, at any position of a stream, and loading it gives the same classes and enums in order: hashes, member types, names, aliases and their hashes, descriptions, enum names and values. Load replaces what the object held, never touches other types, and ends behind the database; a loaded database saves to the same bytes.",
      over="inputs histories", quant="all sets of classes and enums, positions, transfer sizes and earlier contents of the loading object",
      why="The test saves one set at position 0 into an empty object and does not compare alias hashes.",
      files="datas/reflector_io.cpp datas/reflector_io.hpp", mech=RI, observe=["Classes(), Enums()", "bytes stored", "stream position"],
      tech="made-up classes and enums per seed through a simulated medium at drawn positions, loaded databases compared field by field and saved again",
      note="seeded search; native byte order (the format is memory mapped)")
claim(id="C17", title="A cut or unreadable type database is refused, and a failed save reported",
      statement="Load of a database that is cut anywhere, cannot be read, has a wrong id or a newer version returns an error without crashing; what the object then holds is usable, and after a bad header unchanged. Save reports a failing stream. Both can be repeated after a failed allocation or once the medium recovers.",
      over="fault_sequences crash_points", quant="all cut points, read, write and seek errors, allocation failures and databases",
      why="The test only loads an intact database.",
      files="datas/reflector_io.cpp", mech=RI, observe=["return value", "Classes(), Enums()", "memory safety"],
      tech="simulated medium cut or failing at drawn points and failing allocations under real Save/Load of made-up databases",
      note="seeded search over faults; databases with corrupted interior bytes are trusted by design and not covered")
ZS = [("ZIPVFS::Read, ReadEntry, Get", "datas/zip_vfs.hpp")]
claim(id="C18", title="An archive's index lists its files and Get returns exactly their bytes",
      statement="Opening a well-formed uncompressed archive, also one of several GiB, one with extra fields, comments, folders, ZIP64 or signature records or without central directory, and one that begins anywhere in the stream, indexes exactly its non-empty files under their names (the first of equal names). Get returns exactly the stored bytes by name, place or iterator, in any order and whatever else uses the stream; unknown names throw. Archives with encrypted or compressed entries are refused.",
      over="inputs histories", quant="all archive layouts, entry sizes up to 4 GiB, positions in the stream, transfer sizes and orders of access",
      why="The test opens one small archive; sizes past 2 GiB, optional records and interleaved use never occur.",
      files="datas/zip_vfs.hpp formats/ZIP_istream.inl formats/ZIP.hpp", mech=ZS, observe=["index", "bytes of fetched files", "exceptions"],
      tech="generated archives on a simulated medium with chosen transfer sizes and gigabyte holes, index and contents compared with the generating model",
      note="seeded search over archives and access histories; bytes of entries over 2 GiB are indexed but not fetched")
claim(id="C19", title="Damaged archives and failing media are reported, never silently misread",
      statement="Opening a truncated, corrupted or unreadable archive ends and either throws or yields an index in which every file lies inside the archive; one that ends within a record, or in which something else than a record follows one, is refused. If the medium fails while opening, opening throws. Get then returns exactly the bytes the medium holds at the indexed place or throws; failed allocations throw and can be retried; memory taken stays bounded by the archive's size.",
      over="fault_sequences inputs crash_points", quant="all truncation points, byte corruptions, read/seek errors, premature ends and allocation failures",
      why="Tests only open one healthy archive.",
      files="datas/zip_vfs.hpp formats/ZIP_istream.inl datas/binreader_ref.hpp", mech=ZS, observe=["exceptions", "index", "bytes of fetched files", "memory safety", "termination"],
      tech="simulated medium truncated, corrupted or failing at drawn points, plus failing allocations; index and bytes checked against the medium",
      note="seeded search over damage and fault points")
claim(id="C20", title="Directory scans list every matching file once, whatever the tree",
      statement="After Scan(dir) the list has gained each entry below dir that is no folder and matches a filter (or there is none), exactly once, as dir plus its relative path. Order, entry types the file system does not tell, link cycles, special files and entries changing meanwhile do not alter that for the rest; an unreadable folder costs only itself. Scans change nothing and leave nothing open.",
      over="inputs fault_sequences schedules", quant="all trees, filters, directory orders, failing calls and concurrent changes",
      why="Needs file systems without entry types, failing opendir/readdir and changes during a scan; there is no test of the scanner at all.",
      files="datas/directory_scanner.cpp datas/directory_scanner.hpp", mech=[("DirectoryScanner::Scan", "datas/directory_scanner.cpp")], observe=["Files()", "open directory streams"],
      tech="simulated file system with drawn trees, orders, missing entry types, failing calls and an adversary changing the tree between calls",
      note="seeded search over trees, faults and concurrent changes")
claim(id="C21", title="mkdirs makes exactly the missing parent folders, also after faults",
      statement="mkdirs makes every parent folder of the given path(s), behind the given prefix, that does not exist, and nothing else; what exists is never changed. Folders appearing concurrently are fine, a failing one stops only what lies below it, and after failures or a crash at any point running it again completes the work; on a complete tree it changes nothing.",
      over="inputs fault_sequences crash_points schedules", quant="all paths, existing trees, mkdir failures, crash points and concurrent creations",
      why="No test covers it; partial failures and races cannot be arranged on a real file system.",
      files="datas/stat.hpp datas/fileinfo.hpp", mech=[("mkdirs", "datas/stat.hpp")], observe=["file tree after the call"],
      tech="simulated file system with failing mkdir, crash plus rerun and a concurrent creator; tree compared before and after",
      note="seeded search over paths, trees, faults and crash points")
claim(id="C22", title="FileType tells what a path is, or that it cannot tell",
      statement="FileType gives Directory for folders, File for regular files (through links alike), Invalid for anything else that exists and Error when the path cannot be examined.",
      over="inputs fault_sequences", quant="all kinds of file system objects, links, path forms and failing calls",
      why="Sockets, devices and failing stat calls do not occur in the tests.",
      files="datas/stat.cpp datas/internal/stat_ix.inl datas/stat.hpp", mech=[("FileType", "datas/internal/stat_ix.inl")], observe=["return value"],
      tech="simulated file system with all object types, link chains, failing and racing calls",
      note="seeded search over objects, paths and faults")
X = [("ReflectorXMLUtil::Save, Load, SaveV1a, SaveV2a, LoadV2", "datas/reflector_xml.cpp"), ("Reflector value access", "datas/reflector.cpp")]
claim(id="C23", title="Reflected objects saved as XML load back equal, also after edits",
      statement="An object of any reflected class, saved in any of the XML forms (V1, V2, V2 with attributes; class node or members only) into a document that is written to a file in any format and encoding and read again, loads back with equal members: numbers to the digits printed, enums, flags, bit fields, vectors, strings, nested classes and arrays alike. Saving changes nothing but the document, loading nothing but members; members missing in the document keep their values, unknown or reordered nodes and members of a changed class version do no harm, and an object whose class node is not there is not loaded.",
      over="inputs histories", quant="all class layouts, values, XML forms, formats, encodings, transfer sizes, edits of the document and class versions",
      why="The test saves one class and compares a few members; other kinds, nameless classes, bit fields, negative enumerators and edited documents never occur.",
      files="datas/reflector_xml.cpp datas/reflector_xml.hpp datas/reflector.cpp datas/reflector.hpp datas/internal/reflector.inl datas/internal/reflector_enum.hpp datas/bitfield.hpp datas/pugiex.hpp", mech=X, observe=["members of the loaded object", "bytes around them", "returned node", "document"],
      tech="reflected classes and objects made up per seed, saved, stored through a simulated file system with short transfers, edited, and loaded into other objects and class versions; members compared, everything else guarded",
      note="seeded search over classes, values, documents and edits; strings that begin with blanks or, in arrays, hold separators have no text form and are left out")
claim(id="C24", title="Damaged XML and failed allocations harm only the members they hit",
      statement="Loading an object from any XML document, however damaged or foreign its nodes, attributes and texts, ends and writes nothing outside the object's members; enums, flags and bools hold valid values afterwards, members next to a damaged one load as stored. An allocation that fails is reported, never silently turned into lost data, and object and document remain usable: loading a good document afterwards restores every member.",
      over="inputs fault_sequences", quant="all damages of documents, class layouts, XML forms and allocation failures",
      why="Tests load only what they just saved, with memory to spare.",
      files="datas/reflector_xml.cpp datas/reflector.cpp datas/reflector.hpp datas/internal/reflector.inl datas/supercore.hpp", mech=X, observe=["members", "bytes around them", "exceptions", "termination"],
      tech="documents of made-up classes damaged node by node and byte by byte and allocations failing at drawn points (pugixml's included) under real Save and Load; members judged valid, neighbours compared",
      note="seeded search over damages and allocation failures")
claim(id="C25", title="XML files are read and written as they are, or the failure is told",
      statement="XMLFromFile returns exactly the document the file's bytes mean, or throws: a missing or unreadable file as not found, one without elements as invalid header, malformed text with file name, kind of error and offset; a failing read or allocation never yields a document. XMLToFile either leaves exactly the document in the file or throws; a crash leaves the old file or a prefix of the new. Neither leaves a file open, and both work again once the fault is gone. XMLCollectChildren gives a document node's children, all or those of one name, in order.",
      over="inputs fault_sequences crash_points", quant="all documents and texts, formats, encodings, failing, interrupted and short system calls, full disks, allocation failures and crash points",
      why="The tests do not touch the file functions; reads and writes that fail half-way cannot be arranged on a healthy file system.",
      files="datas/pugiex.hpp datas/except.hpp", mech=[("XMLFromFile, XMLToFile", "datas/pugiex.hpp")], observe=["document", "exceptions", "file contents", "open files"],
      tech="real pugixml over a simulated file system with failing calls, full disk, crash and allocation failures; outcome compared with parsing the bytes directly",
      note="seeded search over documents and faults")
claim(id="C26", title="A session log holds the settings and every message since, in order",
      statement="CreateLog starts a file named after the application and the current local time; it begins with the time, processor count and every setting by name and value, and then holds every message printed since, whole and in order; a second log starts afresh while the earlier stays as it was. A file that cannot be made or a failing or full disk changes nothing already logged and never disturbs other sinks; after a crash what reached the file is a prefix of what was logged; a later log on a healthy machine is complete. GetHelp lists every setting, its description and enum values, nested classes included.",
      over="inputs histories fault_sequences crash_points", quant="all settings, start times, time zones, messages, restarts of the log, clock jumps, file faults and crash points",
      why="The one test writes one log with a real clock and looks at nothing in it.",
      files="datas/settings_manager.hpp datas/master_printer.hpp datas/master_printer.cpp datas/internal/reflector.inl", mech=[("SettingsManager::CreateLog, GetHelp", "datas/settings_manager.hpp"), ("Reflector::GetReflectedPair", "datas/internal/reflector.inl")], observe=["log file contents", "what other sinks receive", "help text", "open files"],
      tech="real log stream over a simulated file system, clock, time zone and processor count with faults, crashes and clock jumps; file compared with the recorded messages after every step",
      note="seeded search over settings, messages, times and faults")
claim(id="C27", title="Linked storage and foreign elements are never overrun, shared or freed",
      statement="A container linked to somebody else's storage shows its elements and, whatever is done with it (growing, shrinking, copying, moving, swapping, relinking, disposing, with allocations failing at any point), holds exactly the elements its history says, never writes outside the linked storage, never shares it with another container and never frees it; storage no longer linked is not written again. Memory of their own they free. Pointers and list elements that own their object destroy it exactly once, those that refer to another's never, and iteration visits each element of a list once in order; an element that is not there is refused.",
      over="histories fault_sequences", quant="all histories of operations on any number of containers and storages, element types, and allocation failures",
      why="The test links one vector and disposes it again; it never grows, copies or swaps one.",
      files="datas/allocator_hybrid.hpp datas/deleter_hybrid.hpp uni/common.hpp uni/list.hpp uni/list_vector.hpp uni/virtual_iterator.hpp", mech=[("allocator_hybrid", "datas/allocator_hybrid.hpp"), ("deleter_hybrid, deleter_hybrid_c", "datas/deleter_hybrid.hpp"), ("uni::Element, uni::List", "uni/common.hpp")], observe=["elements", "linked storage and its surroundings", "lifetimes of elements"],
      tech="seeded histories over several containers and guarded storages with allocations failing at drawn points, compared with a model after every step",
      note="seeded search over histories and allocation failures")
claim(id="C28", title="ZIP records are written and read byte for byte, or the stream fails",
      statement="Each ZIP record (local file, central directory file, signature, end of directory, ZIP64 directory and locator), whatever its field values, is written as exactly its bytes in the ZIP layout at the stream's position and moves it just behind them; reading those bytes gives the same values and position. A full, failing or truncated medium leaves the stream failed instead, with no more than a prefix of the bytes written, and never a record taken as read that was not there.",
      over="inputs histories fault_sequences", quant="all sequences of records, field values, transfer sizes and failing or truncated media",
      why="No test reads or writes any of these records; damaged media do not occur at all.",
      files="formats/ZIP.hpp formats/ZIP_ostream.inl formats/ZIP_istream.inl", mech=[("ZIPLocalFile::Write, Read and the other records", "formats/ZIP_ostream.inl")], observe=["bytes on the medium", "record fields", "stream position and state"],
      tech="seeded sequences of records through real streams over a simulated medium that fails, fills up or is truncated; bytes compared with an independent encoder of the format",
      note="seeded search over records and faults; streams in native (little) endian, as the format is")
claim(id="C29", title="Members are read and set by number, name or alias, or the reason is told",
      statement="Any member, item or element of a reflected object, however its class was declared, addressed by number, name or alias, reads as the text and the pair its value has, and setting it from text or a number changes exactly it to exactly that value: enums and flags by enumerator name, bit fields within their bits, numbers clamped to the member's range with the overflow or sign mismatch reported. What does not exist or does not fit its kind is an error (empty, malformed or too short input, wrong destination) and leaves every member valid and all others as they were. A failed allocation is reported and harms no other member.",
      over="histories inputs fault_sequences", quant="all class layouts, member kinds and widths, addressing forms, texts, numbers, histories of reads and writes, and allocation failures",
      why="The test sets one class's members to a few good texts; ranges, bad texts, items of arrays of vectors, aliases, nested access and reports of errors are hardly looked at.",
      files="datas/reflector.cpp datas/reflector.hpp datas/internal/reflector.inl datas/internal/reflector_class.hpp datas/internal/reflector_enum.hpp datas/internal/reflector_type.hpp datas/refl_array.hpp datas/bitfield.hpp datas/supercore.hpp", mech=[("Reflector::SetReflectedValue, GetReflectedValue, GetReflectedPair", "datas/reflector.cpp"), ("Reflector::SetReflectedValueInt, -UInt, -Float", "datas/reflector.cpp")], observe=["members", "texts", "error codes", "bytes around the members"],
      tech="seeded histories of reads and writes on objects of made-up classes with allocations failing at drawn points, compared after every step with a model of the object",
      note="seeded search over classes, histories and failures; floats compare to the digits printed, and errors of single items within one text for a whole array are not required to be reported")

# Properties this family cannot decide here.
PURE = "a pure function of its arguments: no thread, clock, I/O, allocation failure or other party it could meet, so there is no schedule or fault sequence to simulate; "
na(id="N01", title="Byte swapping, hashes, half floats and flags compute exactly",
   statement="Swapping endianness twice gives the value back and reverses the bytes of each scalar, run-time and compile-time hashes of a text agree, half floats convert both ways to the nearest value, and flag and bit field accessors read back what was set without touching neighbours.",
   over="inputs", quant="all values and texts", why="The tests check a handful of values of each.",
   files="datas/endian.hpp datas/jenkinshash.hpp datas/jenkinshash3.hpp datas/float.hpp datas/flags.hpp datas/bitfield.hpp", mech=[("FByteswapper", "datas/endian.hpp"), ("JenkinsHash", "datas/jenkinshash.hpp"), ("esFloat", "datas/float.hpp")],
   na=PURE + "where these carry data over streams and members they are exercised by C10, C14, C23 and C29")
na(id="N02", title="SIMD vectors and matrices agree with the scalar ones",
   statement="Every operation of the SIMD vectors and matrices gives what the scalar ones give, within rounding.",
   over="inputs", quant="all operands", why="The tests compare a few operands.",
   files="datas/vectors.hpp datas/vectors_simd.hpp datas/matrix44.hpp datas/matrix44.cpp", mech=[("V4SimdFltType", "datas/vectors_simd.hpp"), ("esMatrix44", "datas/matrix44.cpp")], na=PURE + "their stream form is part of C10")
na(id="N03", title="Pixel formats and texture blocks decode to the values they encode",
   statement="Each supported combination of data type and format is sampled to the exact values its bits encode for any stride, unsupported combinations are refused, and block-compressed and swizzled textures decode to the texels the format defines without reading outside their input.",
   over="inputs", quant="all encoded values, strides and dimensions", why="The tests sample a few values per format; the block decoders have no test.",
   files="uni/uni_format.cpp uni/internal/format_full.hpp uni/format.hpp formats/BlockDecoder.inl formats/BlockDecoder.h formats/BlockDecoderSimd.hpp formats/addr_ps3.hpp formats/DDS.hpp", mech=[("FormatCodec::Get, Sample", "uni/uni_format.cpp"), ("BlockDecoder", "formats/BlockDecoder.inl")], na=PURE + "input generation or symbolic execution decides it, not simulation")
na(id="N04", title="String views, paths and Unicode conversions keep every character",
   statement="String views behave as the standard's do, a path splits into folder, name and extension and back, and valid UTF-8 converts to UTF-16/32 and back unchanged.",
   over="inputs", quant="all texts", why="The tests convert and split a few texts.",
   files="datas/string_view.hpp datas/internal/string_view.inl datas/fileinfo.hpp datas/unicode.hpp", mech=[("es::basic_string_view", "datas/string_view.hpp"), ("FileInfo", "datas/fileinfo.hpp"), ("es::ToUTF8, ToUTF1632", "datas/unicode.hpp")], na=PURE + "paths matter to C21 as far as folders are made of them")
na(id="N05", title="Encrypting and decrypting with one key gives the data back",
   statement="For every key, mode and buffer the encryptors accept, decoding what was encoded gives the buffer back and touches nothing outside it.",
   over="inputs", quant="all keys, modes and buffers", why="There is no test.",
   files="datas/encrypt/blowfish.cpp datas/encrypt/blowfish2.h datas/encrypt/xorenc.hpp datas/encrypt/encryptor.hpp", mech=[("BlowfishEncoder2", "datas/encrypt/blowfish2.h"), ("XOREncoder", "datas/encrypt/xorenc.hpp")], na=PURE + "nothing in the repository runs them over a stream")
na(id="N06", title="Python objects show the motions, skeletons and values they wrap",
   statement="The Python module's objects show exactly the elements of the lists they wrap, keep them alive as long as they are referred to and turn wrong uses into Python exceptions.",
   over="inputs histories", quant="all wrapped lists and histories of Python calls", why="The test needs a Python 2 build, which is not part of the build here.",
   files="uni/python/uni_python.cpp uni/python/pylist.hpp uni/python/pymotion.inl uni/python/pyskeleton.inl datas/python/reflected_enum.hpp", mech=[("UniMotion, UniBone", "uni/python/pymotion.inl")], na="the bindings need a Python 2 interpreter and headers, which are neither installed here nor part of the build; nothing in them runs that a simulator could take over")
na(id="N07", title="3ds Max and Windows code paths behave as their Unix counterparts",
   statement="The Windows branches of the file, console and scanning code and the 3ds Max helpers behave as documented and as their Unix counterparts do.",
   over="inputs fault_sequences", quant="all uses of the Windows interfaces", why="They are not compiled on this platform.",
   files="MAXex/3DSMaxSDKCompat.h MAXex/NodeSuffix.h datas/internal/stat_win.inl datas/internal/master_printer_win.inl", mech=[("Windows branches", "datas/internal/stat_win.inl")], na="needs Windows headers and the 3ds Max SDK, neither of which exists here: the code cannot be compiled, so it cannot be run under a simulator")
