"""What each check builds and how deep it searches."""
THREAD_CC = ["g++-9", "-std=gnu++14", "-O1", "-g", "-msse4", "-w",
             "-Wno-invalid-offsetof", "-fsanitize=thread"]
# Headers every translation unit may rely on: the reference compiler's
# libstdc++ pulls them in indirectly, newer ones do not.
PRELUDE = [x for h in ("cstdint", "cstring", "cstdio", "cstdlib", "limits",
                       "memory", "string", "vector", "map", "algorithm",
                       "stdexcept", "functional", "ostream", "istream")
           for x in ("-include", h)]
ASAN = ["-std=gnu++14", "-O1", "-g1", "-msse4", "-w", "-Wno-invalid-offsetof",
        "-fsanitize=address", "-fno-omit-frame-pointer"]
FLAVOURS = {
    # One process, one thread; every call into the machine (files, clock,
    # allocation) is served by sim/fs.cpp, sim/mem.cpp, sim/dev.hpp. Locals
    # are pattern-filled so that reading uninitialised ones is repeatable.
    "io": {
        "sim_cc": ["g++-13", "-std=gnu++14", "-O2", "-w"],
        "code_cc": ["g++-13"] + ASAN + ["-ftrivial-auto-var-init=pattern"] + PRELUDE,
        "alt_cc": ["g++-9"] + ASAN,
        "ld": ["g++-13", "-fsanitize=address"],
        "libs": ["-l:libpugixml.a", "-ldl", "-lpthread", "-rdynamic"],
    },
    # Code under test instrumented by -fsanitize=thread; the runtime behind
    # that instrumentation is the simulator's own (sim/threads.cpp).
    "threads": {
        "sim_cc": ["g++-9", "-std=gnu++14", "-O2", "-w"],
        "code_cc": THREAD_CC,
        "ld": ["g++-9"],
        "libs": ["-l:libpugixml.a", "-ldl", "-lpthread", "-rdynamic"],
    },
}

REAL_Q = ["datas/multi_thread.hpp (RunThreadedQueue)", "libstdc++ thread, mutex, atomic, future (uninstrumented)"]
STUB_THREADS = ["thread scheduler, pthread mutex/rwlock/cond/once, futexes, clocks and sleeps, processor count and the allocator are the simulator's"]
REAL_L = ["datas/master_printer.cpp/.hpp", "datas/internal/master_printer_ix.inl", "libstdc++ stringstream, mutex, vector"]

CHECKS = {}


def add(ids, binary, real, stub, quick, thorough, rule, **kw):
    for i in ids.split():
        CHECKS[i] = dict(binary=binary, real=real, stub=stub, quick=quick,
                         thorough=thorough, rule=rule, **kw)


# quick/thorough: (runs, wall seconds per worker)
add("C01 C02 C03", "queue", REAL_Q, STUB_THREADS, (120000, 60), (2000000, 600),
    "Each run draws a workload (queue length, task kinds, stalls, reported processor count), a scheduling policy and thread-creation faults from its seed; it is non-trivial when at least two threads took part and counted distinct by the hash of its context-switch/fault sequence.")
add("C04 C05 C06", "logger", REAL_L, STUB_THREADS, (120000, 60), (2000000, 600),
    "Each run draws writers, sinks, messages (pieces, severities, sizes around the stream's reuse limit) and faults (failed insertions, throwing sinks, failing allocations, concurrent registration) from its seed; non-trivial unless a single writer logs a single undisturbed message; distinct by the hash of its context-switch/fault sequence.")

add("C07 C08 C09", "shared",
    ["datas/zip_vfs.hpp, formats/ZIP_istream.inl (C07)", "datas/reflector.cpp, datas/reflector_io.cpp, datas/internal/reflector_*.hpp (C08)", "datas/pointer.hpp (C09)", "libstdc++ streams, mutex, function-local statics"],
    STUB_THREADS + ["the archive's medium is a simulated device (C07)"], (60000, 60), (1500000, 600),
    "Each run draws threads, their operations and a scheduling policy from its seed (allocation failures for C09); non-trivial when at least two threads take part or an allocation fails; distinct by the hash of its context-switch/fault sequence.")

IO_KW = {
    "measure": "64-bit hash over the sequence of operations, simulated calls and faults of a run",
    "assumptions": [
        "one thread at a time: concurrency is the subject of C01-C09 only",
        "libstdc++ (and pugixml where used) is real code and trusted",
        "sampling: a quiet batch is evidence, not proof",
    ],
}
IO_STUB = ["the medium behind the streams, its transfer sizes, end, errors and capacity, and the allocator are the simulator's"]
add("C10 C11 C12", "bincore",
    ["datas/binreader_ref.hpp, binreader_stream.hpp, binwritter_ref.hpp, binwritter_stream.hpp, internal/bincore_navi.hpp, endian.hpp, base_128.hpp", "libstdc++ istream/ostream"],
    IO_STUB, (400000, 60), (8000000, 600),
    "Each run draws a script of write, read and positioning operations, the medium's transfer sizes and its faults from its seed; distinct by the hash of script size, positions and faults.", **IO_KW)

FS_STUB = ["the file system and every call into it (fopen, open, read, write, writev, lseek, stat, lstat, mkdir, opendir, readdir, ...), its errors, interruptions, short transfers, capacity and concurrent changes are the simulator's (sim/fs.cpp)", "allocator"]
add("C13 C20 C21 C22", "files",
    ["datas/binreader.hpp, binwritter.hpp, internal/bincore_file.hpp and what they use (C13)", "datas/directory_scanner.cpp (C20)", "datas/stat.hpp mkdirs (C21), datas/stat.cpp (C22)", "libstdc++ fstream/filebuf down to the system calls"],
    FS_STUB, (300000, 60), (6000000, 600),
    "Each run draws a file tree or file, the operations on it and the faults of the calls below from its seed; distinct by the hash of its operation, call and fault history.", **IO_KW)

add("C18 C19", "zip",
    ["datas/zip_vfs.hpp, formats/ZIP_istream.inl, formats/ZIP.hpp and the readers below", "libstdc++ istream, istringstream, map"],
    IO_STUB, (300000, 60), (6000000, 600),
    "Each run draws an archive (entries, extra fields, comments, optional records, position in the stream, huge entries) and for C19 its damage and the medium's faults from its seed; distinct by the hash of its operation and fault history.", **IO_KW)

add("C14 C15 C16 C17", "reflio",
    ["datas/reflector_io.cpp, datas/reflector.cpp, datas/base_128.hpp and the readers and writers below", "libstdc++ streams"],
    IO_STUB, (300000, 60), (6000000, 600),
    "Each run makes up reflected classes (members of all kinds, nested classes, arrays, vectors, bit fields, names, aliases) and objects of them and draws the medium's transfer sizes and faults from its seed; distinct by the hash of its operation and fault history.", **IO_KW)

add("C23 C24 C25", "xml",
    ["datas/reflector_xml.cpp, datas/reflector.cpp (C23, C24)", "datas/pugiex.hpp XMLFromFile, XMLToFile (C23, C25)", "pugixml"],
    FS_STUB, (300000, 60), (6000000, 600),
    "Each run makes up reflected classes and objects (C23, C24) or a document (C25), how it is written, edited, damaged and read again, and the faults of file system and allocator, from its seed; distinct by the hash of its operation, call and fault history.", **IO_KW)

add("C26", "host",
    ["datas/settings_manager.hpp CreateLog, datas/master_printer.cpp, datas/reflector.cpp", "libstdc++ ofstream down to the system calls, strftime"],
    FS_STUB + ["clock, time zone and processor count"], (60000, 40), (1500000, 600),
    "Each run makes up settings, a start time, messages, log restarts, clock jumps and the faults of the calls below from its seed; distinct by the hash of its operation, call and fault history.", **IO_KW)
add("C27", "host",
    ["datas/allocator_hybrid.hpp, datas/deleter_hybrid.hpp, uni/common.hpp, uni/list.hpp, uni/list_vector.hpp, uni/virtual_iterator.hpp", "std::vector, std::unique_ptr"],
    ["allocator"], (400000, 60), (8000000, 600),
    "Each run draws containers, somebody else's storage, a history of operations and failing allocations from its seed; distinct by the hash of its operation and fault history.", **IO_KW)

add("C28", "zip",
    ["formats/ZIP.hpp, formats/ZIP_ostream.inl, formats/ZIP_istream.inl, datas/binwritter_ref.hpp, datas/binreader_ref.hpp", "libstdc++ streams"],
    ["medium behind the stream buffer"], (400000, 60), (8000000, 600),
    "Each run draws a sequence of records with their fields, transfer sizes and a failing medium from its seed, writes and reads them back; distinct by the hash of its operation and fault history.", **IO_KW)

add("C29", "reflval",
    ["datas/reflector.cpp, datas/reflector.hpp, datas/internal/reflector.inl, datas/bitfield.hpp, datas/supercore.hpp"],
    ["allocator"], (400000, 60), (8000000, 600),
    "Each run makes up reflected classes and an object and draws a history of reads and writes by number, name and alias, as text and as numbers, and failing allocations from its seed; distinct by the hash of its operation and fault history.", **IO_KW)

PROPS = {
    "binaries": {
        "reflval": {"flavour": "io", "sim": ["core", "mem"], "props": ["reflval"]},
        "host": {"flavour": "io", "sim": ["core", "mem", "fs"], "props": ["host"]},
        "xml": {"flavour": "io", "sim": ["core", "mem", "fs"], "props": ["xml"]},
        "queue": {"flavour": "threads", "sim": ["core", "threads"], "props": ["queue"]},
        "logger": {"flavour": "threads", "sim": ["core", "threads"], "props": ["logger"]},
        "bincore": {"flavour": "io", "sim": ["core", "mem"], "props": ["bincore"]},
        "files": {"flavour": "io", "sim": ["core", "mem", "fs"], "props": ["files"]},
        "reflio": {"flavour": "io", "sim": ["core", "mem"], "props": ["reflio"]},
        "zip": {"flavour": "io", "sim": ["core", "mem"], "props": ["zip"]},
        "shared": {"flavour": "threads", "sim": ["core", "threads"], "props": ["shared"]},
    },
    "checks": CHECKS,
    "measure": "64-bit hash over the sequence of scheduling decisions and faults of a run",
    "assumptions": [
        "sequentially consistent memory: weak-memory reorderings are not simulated",
        "libstdc++ itself is trusted between its synchronisation calls",
        "sampling: a quiet batch is evidence, not proof",
    ],
}
