"""Per property: budgets, and what the evidence says about a run."""
import json
import os

RES = dict(
    rule="a run is one seeded description with one seeded declaration order and one seeded order of the resolver's "
         "pending work; non-trivial: the description and steering differ from every other run's",
    measure="distinct (description, agenda steering) pairs", level="exploration",
    technique="seeded descriptions under seeded resolver orders, compared in full with a reference model",
    note="sampled, not exhaustive: descriptions of up to about 60 elements under permuted, reordered and truncated "
         "resolver rounds; trusts sim/model.py as the meaning of a description and the agenda seam",
    real=["svdsuite parser, resolver, inheritance, validation, register map", "lxml", "rustworkx"],
    stub=["order of the resolver's pending work (agenda seam)"],
    assume=["the reference model sim/model.py states the intended meaning of a description; it was checked against all "
            "fixture files of the test suite", "descriptions of the generator: up to ~60 declared elements, nesting to 4"],
    probes=["agenda.reordered"],
)
SPECS = {p: dict(RES, quick=q, thorough=q * 30) for p, q in
         [("R01", 2400), ("R02", 2200), ("R03", 2400), ("R04", 2400), ("R05", 2200), ("R06", 2600), ("M01", 1900)]}

SPECS["M02"] = dict(
    quick=1600, thorough=40000, level="exploration",
    technique="seeded histories of processing and mapping under steered resolver orders; places in the description from the "
              "reference model, object identity",
    note="sampled histories of up to five calls; trusts sim/model.py for which element a part was made from",
    rule="a run is one seeded history under seeded resolver orders; non-trivial: at least one call was judged, and the "
         "history or its documents are unlike every other run's", measure="distinct histories",
    real=["svdsuite parser, resolver, inheritance, validation, register map", "lxml", "rustworkx"],
    stub=["order of the resolver's pending work (agenda seam)"],
    assume=["the reference model sim/model.py states which element of a description a part of the device comes from"],
    probes=["agenda.reordered", "maps", "judged"])

SPECS["C01"] = dict(
    quick=1200, thorough=40000, level="exploration",
    technique="seeded thread interleavings at executed lines and bytecodes; each call compared with the call alone",
    note="sampled interleavings of two to four callers; switches happen between lines (or bytecodes) of svdsuite, not "
         "inside lxml, rustworkx or the standard library; trusts fork to give a fresh process",
    rule="a run is one set of thread programs under one seeded switch plan; non-trivial: at least one preemption took "
         "place, and the sequence of (from, to, function, line) switches is unlike every other run's",
    measure="distinct sequences of preemptions", real=["all of svdsuite", "lxml", "rustworkx", "CPython threads"],
    stub=["threading.Lock/RLock (simulated)", "graphviz dot process (fixed output)"],
    assume=["C extensions are atomic between two executed lines of svdsuite"],
    probes=["switches", "mode.instr", "cold"])

SPECS["C02"] = dict(
    quick=1900, thorough=60000, level="exploration",
    technique="seeded histories of calls, edits and interruptions on shared objects; deep snapshots and a process without "
              "history as oracle",
    note="sampled histories of up to 11 steps on up to about 8 objects; compares by declared dataclass fields",
    rule="a run is one seeded history; non-trivial: more than two steps, and the history or its documents are unlike "
         "every other run's",
    measure="distinct histories", real=["all of svdsuite", "lxml", "rustworkx"],
    stub=["graphviz dot process (fixed output)"],
    assume=["a forked process that has made no call yet has no history"],
    probes=["interrupted", "failed", "op.edit"])

SPECS["D01"] = dict(
    quick=3600, thorough=150000, level="exploration",
    technique="seeded faults in the system calls of a save (preloaded shim) and interruptions; bytes on disk as oracle",
    note="faults at the system call level of one process on a real scratch file system; sampled fault sequences",
    rule="a run is a sequence of up to four saves with their faults; non-trivial: the faults, old content or outcomes "
         "differ from every other run's", measure="distinct (faults, old content, outcomes)",
    real=["svdsuite serializer and parser", "lxml", "CPython file objects", "kernel file system"],
    stub=["results of open, read, write, close, fsync, truncate, rename, unlink (shim)"],
    assume=["the code under test does its I/O through the interposed libc calls"],
    probes=["fault.write.quota", "fault.open.EACCES", "fault.close.EIO", "fault.write.short", "fault.interrupt",
            "unserializable"])
SPECS["D02"] = dict(
    quick=900, thorough=40000, level="exploration",
    technique="crash at a seeded system call of a save, seeded loss of unsynced sectors and directory changes, restart and "
              "load", note="the crash model keeps a prefix of directory and size changes and any subset of 512 byte "
    "sectors of unsynced data; sampled", rule="a run is one save with one crash point and several disk images; "
    "non-trivial: crash point, old content or images differ from every other run's",
    measure="distinct (crash point, images, outcomes)", real=["svdsuite serializer, parser, processing", "lxml"],
    stub=["the disk after the crash (sim/disk.py)"], assume=["a sector is written whole or not at all"],
    probes=["crashed", "power loss", "reads.error", "reads.warned", "reads.silent"])

SPECS["D03"] = dict(
    quick=3200, thorough=120000, level="exploration",
    technique="seeded faults in the system calls of loads and validations (preloaded shim); healthy disk as oracle",
    note="faults at the system call level, for the document and for the shipped schema; sampled",
    rule="a run is one load or validation under one fault sequence; non-trivial: a fault took effect, and calls and outcome "
         "differ from every other run's", measure="distinct (system calls, faults, outcome)",
    real=["all of svdsuite", "lxml (libxml2 does the reading)"],
    stub=["results of open, read, close (shim)", "graphviz dot process (fixed output)"],
    assume=["the code under test does its I/O through the interposed libc calls"],
    probes=["fault.read.short", "fault.read.eof", "fault.read.EIO", "fault.read.swap", "fault.open.EACCES", "outcome.warned"])
SPECS["D04"] = dict(
    quick=5500, thorough=200000, level="exploration",
    technique="seeded corruption of stored documents, several encodings; expat and the reference model as oracles",
    note="faults are what storage does to bytes (flips, lost, duplicated, zeroed, moved, cut ranges, wrong encoding); sampled",
    rule="a run is one stored document with its corruption through one kind of load, from memory, file and string; "
         "non-trivial: the bytes are unlike every other run's", measure="distinct (bytes, kind of load)",
    real=["all of svdsuite", "lxml"], stub=["the stored bytes"],
    assume=["expat decides well-formedness correctly"],
    probes=["malformed", "intact", "outcome.error", "outcome.warned", "outcome.silent", "fault.other encoding"])

SPECS["D05"] = dict(
    quick=1700, thorough=60000, level="exploration",
    technique="seeded histories of saves, edits, loads, processing and conversions over paths with frozen file times; last "
              "saved state and a process without history as oracle",
    note="sampled histories of up to 14 steps, up to 3 documents, 4 paths; edits change texts, numbers, switches, choices and "
         "lists of elements", rule="a run is one history; non-trivial: something was saved, and history or documents are "
    "unlike every other run's", measure="distinct histories",
    real=["all of svdsuite", "lxml", "file system"], stub=["wall clock and file times (constant)"],
    assume=["field by field equality of the declared model classes is what a user sees"],
    probes=["load", "process", "convert", "edit", "copy", "meaning kept"])

SPECS["D06"] = dict(
    quick=2400, thorough=100000, level="exploration",
    technique="seeded system call faults (preloaded shim), interruptions at executed lines and bytecodes, failing dot; open "
              "descriptors, directories and process settings compared before and after every call",
    note="sampled; failing unlink is left out (nothing could be cleaned up then); interruptions are judged once the exception "
         "is dropped", rule="a run is up to five calls with their faults; non-trivial: calls, faults and outcomes are unlike "
    "every other run's", measure="distinct (calls, faults, outcomes)",
    real=["all of svdsuite", "lxml", "tempfile", "CPython file objects", "kernel file system"],
    stub=["results of system calls (shim)", "graphviz dot process (fixed output)"],
    assume=["the code under test does its I/O through the interposed libc calls"],
    probes=["fault.interrupt", "fault.dot", "fault.open.EMFILE", "fault.write.quota", "fault.read.eof", "returned", "raised"])

SPECS["F01"] = dict(
    quick=1700, thorough=80000, level="exploration",
    technique="seeded interruptions at executed lines and bytecodes, system call faults, shallow stacks, warnings as errors; "
              "later calls compared with a process in which nothing was cut short",
    note="sampled programs of up to six calls on shared and own inputs; exceptions held or dropped; interruptions strike in "
         "code of svdsuite, not inside lxml or rustworkx", rule="a run is one program with its faults; non-trivial: a call "
    "ended otherwise than undisturbed, and program or documents are unlike every other run's",
    measure="distinct programs with faults", real=["all of svdsuite", "lxml", "rustworkx", "tempfile"],
    stub=["results of system calls (shim)", "graphviz dot process (fixed output)"],
    assume=["a forked process that has made no call yet has no history"],
    probes=["fault.KeyboardInterrupt", "fault.MemoryError", "fault.strict", "fault.depth", "fault.dot", "undisturbed"])

SPECS["H01"] = dict(
    quick=1300, thorough=50000, level="exploration", batch=25,
    technique="seeded histories in interpreter processes with other hash seeds, clocks, locales, collector timing and heap "
              "layouts; outcomes compared with a process without history",
    note="sampled histories of up to seven calls and 16 process settings; log files are compared decompressed (the packing "
         "carries a time stamp)", rule="a run is one set of probe calls in two processes with their histories; non-trivial: "
    "probes, histories, settings or documents are unlike every other run's",
    measure="distinct (probes, histories, settings, documents)", real=["all of svdsuite", "lxml", "rustworkx", "CPython"],
    stub=["wall clock (shim)", "graphviz dot process (fixed output)"],
    assume=["a forked process that has made no call yet has no history"],
    probes=["gc.eager", "with.clock", "with.churn", "with.keep", "history.failed", "probe failed", "probe warned"])

SPECS["L01"] = dict(
    quick=2000, thorough=80000, level="exploration",
    technique="seeded descriptions under seeded resolver orders with and without a log, and interrupted; log compared with "
              "what passes the agenda seam and with the description",
    note="sampled; the log text is the decompressed document; graph pictures come from a stand-in for dot",
    rule="a run is up to three logged calls under seeded resolver orders; non-trivial: a log was read, and calls or documents are "
         "unlike every other run's", measure="distinct (documents, calls, agenda steering)",
    real=["all of svdsuite", "lxml", "rustworkx"], stub=["graphviz dot process (fixed output)",
                                                        "order of the resolver's pending work (agenda seam)"],
    assume=["what passes the agenda seam is what the resolver works on"],
    probes=["agenda.reordered", "failed", "cut short", "logs read"])

SPECS["W01"] = dict(
    quick=1400, thorough=50000, level="exploration",
    technique="seeded histories of processing calls under seeded resolver orders and warning filters; announcements compared "
              "with what the reference model says is missing",
    note="sampled; enumerated values that are left out while reading (duplicates, reserved) are only required to be announced "
         "once per name when elements are derived or repeated", rule="a run is up to six calls on up to three documents; "
    "non-trivial: documents, calls or steering are unlike every other run's", measure="distinct (documents, calls, steering)",
    real=["all of svdsuite", "lxml", "rustworkx", "warnings module"],
    stub=["graphviz dot process (fixed output)", "order of the resolver's pending work (agenda seam)", "warnings.showwarning"],
    assume=["the reference model sim/model.py states what a description means and what is left out of it"],
    probes=["left out", "strict raised", "filter.ignore", "agenda.reordered", "cut short"])

SPECS["W02"] = dict(
    quick=1700, thorough=60000, level="exploration",
    technique="seeded histories of processing calls on crowded devices under seeded resolver orders; the layout warnings of "
              "each call compared with the problems a reference computation finds",
    note="sampled; whether alternates of different kinds (a register and a cluster) may overlap is left open, and of "
         "overlapping address blocks only neighbours have to be reported",
    rule="a run is up to four calls on up to two documents; non-trivial: documents, calls or steering are unlike every other "
         "run's", measure="distinct (documents, calls, steering)",
    real=["all of svdsuite", "lxml", "rustworkx", "warnings module"],
    stub=["graphviz dot process (fixed output)", "order of the resolver's pending work (agenda seam)", "warnings.showwarning"],
    assume=["the reference model sim/model.py states what a description means, sim/layout.py which problems it has"],
    probes=["problem.overlap", "problem.effective", "problem.specified", "problem.offset", "problem.block", "problem.msb",
            "no problem", "agenda.reordered"])

SPECS["W03"] = dict(
    quick=2300, thorough=100000, level="exploration",
    technique="seeded histories of readings of untidy descriptions under warning filters and interruptions; announcements "
              "and results compared with the amendments made and with the tidy description",
    note="sampled; amendments are doubled, padded and missing texts, padded attributes and remarks within texts; doubled "
         "elements that have elements of their own are left open",
    rule="a run is up to six calls on up to three documents; non-trivial: documents, amendments or calls are unlike every "
         "other run's", measure="distinct (documents, amendments, calls)",
    real=["all of svdsuite", "lxml", "rustworkx", "warnings module"],
    stub=["graphviz dot process (fixed output)", "warnings.showwarning"],
    assume=["the reference model sim/model.py states what a tidy description means"],
    probes=["amend.double", "amend.pad", "amend.attr", "amend.novalue", "amend.nodesc", "amend.noaccess", "amend.note", "strict raised",
            "cut short"])

SPECS["W04"] = dict(
    quick=2700, thorough=100000, level="exploration",
    technique="seeded histories of readings of descriptions with missing and unreadable values and other spellings, under "
              "warning filters and interruptions; refusals compared with the faults made, results with the reference model",
    note="sampled; faults are single missing or unreadable texts; numbers that XML Schema allows and the library does not "
         "read (scale suffixes) and ones that Python reads and XML Schema forbids (underscores, signs, octal) are left open",
    rule="a run is up to seven calls on up to three documents; non-trivial: documents, faults or calls are unlike every "
         "other run's", measure="distinct (documents, faults, calls)",
    real=["all of svdsuite", "lxml", "rustworkx", "warnings module"],
    stub=["graphviz dot process (fixed output)", "warnings.showwarning"],
    assume=["the reference model sim/model.py states what a readable description means"],
    probes=["fault.lack", "fault.garble", "readable", "refusal expected", "compared", "cut short"])

SPECS["V02"] = dict(
    quick=1600, thorough=40000, level="exploration",
    technique="seeded histories of loads, saves, other calls and interruptions on schema-valid descriptions; everything "
              "written is validated with the schema the description is valid for",
    note="sampled; descriptions are generated and then pruned until the schema of the drawn version accepts them",
    rule="a run is up to six calls on up to two documents; non-trivial: documents or calls are unlike every other run's",
    measure="distinct (documents, calls)", real=["all of svdsuite", "lxml", "rustworkx"],
    stub=["graphviz dot process (fixed output)"],
    assume=["the schema files under src/svdsuite/schema are the CMSIS-SVD schemas (V01 compares them with recorded verdicts)"],
    probes=["judged", "cut short", "op.save", "schema.1.0", "schema.1.1", "schema.1.2", "schema.1.3.11"])

SPECS["V01"] = dict(
    quick=1900, thorough=80000, level="exploration",
    technique="seeded histories and thread interleavings of validations; verdict of lxml with the shipped schema in a process "
              "without history as oracle",
    note="sampled; all schema versions; the error is compared by type and message", rule="a run is up to eight calls, or up to "
    "three threads of up to three calls; non-trivial: documents or calls are unlike every other run's",
    measure="distinct (documents, calls, switches)", real=["all of svdsuite", "lxml", "CPython threads"],
    stub=["threading.Lock/RLock (simulated)"], assume=["lxml validates against a schema correctly"],
    probes=["valid", "invalid", "switches", "interrupted", "version.None", "other"])


def known(here):
    """the known findings (JSON lines); lines that start with "fixed:" suppress nothing"""
    with open(os.path.join(here, "known_findings.txt")) as f:
        return [json.loads(x) for x in f if x.startswith("{")]


def matches(k, bad):
    return k.get("class") == bad.get("class") and k.get("match", "\0") in json.dumps(bad.get("detail"))
