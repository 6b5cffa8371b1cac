"""writes properties.jsonl (kept so that the texts are edited in one place)"""
import json
import os

R = "src/svdsuite/resolve/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe),
                          "hook_needed": hook}})


SEAM = "order of the resolver's pending work (svdsuite/resolve/agenda.py, SVDSUITE_SIM=1)"
RES = [R + "resolver.py", R + "graph.py", R + "graph_builder.py", "src/svdsuite/process.py"]
SCHED = ("every description (any mix of levels, links, dims and properties), every order in which its elements are "
         "declared, and every order in which the resolver handles pending paths and ready elements, including rounds "
         "that stop early")
WHYR = ("the tests process fixed fixture files in the one order the code happens to choose; the guarantee is about "
        "every combination of links, declaration orders and processing orders")
OBS = ["Process(...).get_processed_device()"]

prop("R01", "Derived elements inherit exactly what their base denotes, at every level",
     "A peripheral, cluster, register, field or enumerated-value container with derivedFrom shows, for every inheritable "
     "value it does not state itself, the value its base denotes, its own value where it states one, and the base's "
     "children besides its own. This holds through chains of derivations, across scopes, and for bases that are dim "
     "templates, single dim elements or themselves inherited. The processed device is the same whatever the order of "
     "declaration or of resolution.",
     ["inputs", "schedules"], SCHED, WHYR, RES,
     [("or_if_none merging of own and base values", "src/svdsuite/process.py"),
      ("replicate_descendants copies the base's subtree", R + "graph.py"),
      ("topological order of ready elements, elements wait for their base", R + "resolver.py")],
     [("placeholders", "derivedFrom paths not yet bound", R + "graph.py")], OBS, SEAM)
prop("R02", "dim arrays and lists expand to exactly the elements they denote",
     "An element with dim appears in the processed device once per index, with the index substituted in name and display "
     "name, its address or bit position advanced by index times dimIncrement, the template itself absent, and all "
     "children present in every element. Nested dims multiply, dims are inherited through derivedFrom, and every dim "
     "element can be used as a base. This does not depend on the order of declaration or of resolution.",
     ["inputs", "schedules"], SCHED, WHYR, RES,
     [("process_dim", "src/svdsuite/process.py"), ("_update_dim_node: new nodes share the template's children",
                                                   R + "resolver.py")],
     [("is_dim_template", "templates are left out of the result", R + "graph_elements.py")], OBS, SEAM)
prop("R03", "derivedFrom paths bind to the same element whatever is resolved first",
     "A derivedFrom path names an element of the same kind first among the siblings of the deriving element (and below "
     "them), otherwise from the peripherals down, and it may go through dim templates, single dim elements and inherited "
     "elements. Every description whose paths all name one element is processed into the device these bases denote, "
     "although elements on the path may themselves only come into existence while resolving. Equal names in other scopes, "
     "declaration order and processing order never change which element is used.",
     ["inputs", "schedules"], SCHED, WHYR, RES,
     [("_derived_from_path_resolving", R + "resolver.py"), ("placeholders retried every round", R + "resolver.py")],
     [("placeholders", "paths waiting for their target to exist", R + "graph.py")], OBS, SEAM)
prop("R04", "Size, access, protection and reset values come from the nearest stating element",
     "Every register, and every cluster and peripheral above it, shows for access, protection, reset value and reset "
     "mask its own value, else its base's, else the nearest enclosing element's, else the device's or the default; "
     "fields inherit access and write constraint from their register. A register's size is found the same way, while a "
     "cluster or peripheral shows the largest size among its contents. No order of declaration or resolution changes "
     "this.", ["inputs", "schedules"], SCHED, WHYR, RES,
     [("_InheritProperties", "src/svdsuite/process.py"), ("_calculate_size bottom-up", R + "resolver.py")], (), OBS, SEAM)
prop("R05", "Every field shows exactly the enumerated values its containers denote",
     "For every field, the processed containers hold the stated values, one entry per number matched by a don't-care "
     "pattern, and one entry for each remaining number of the field if a default is given, with names, descriptions and "
     "usage of the container or the container it is derived from. Values that are reserved, repeated or do not fit the "
     "field are left out, and combinations of containers that contradict each other are rejected. The result does not "
     "depend on the order of declaration or resolution, and is the same in every dim element and every derived copy.",
     ["inputs", "schedules"], SCHED, WHYR, RES,
     [("_ProcessEnumeratedValueContainer", "src/svdsuite/process.py"),
      ("containers processed when a field is finalized", R + "resolver.py")], (), OBS, SEAM)
prop("R06", "Processing always ends, with a device or with the library's own error",
     "For every well-formed description, processing ends within a bounded number of steps. It returns the device the "
     "description denotes, or, if it denotes none (dangling, cyclic or ambiguous derivedFrom, contradictory dims, "
     "missing address blocks, overlapping fields, conflicting alternates, ...), raises an error of the library; it never "
     "loops, never fails with an internal error such as AttributeError or KeyError, and never returns a device for such a "
     "description. A well-formed file that violates the schema (elements missing, doubled, misplaced or with odd values) "
     "also ends in a device, an error of the library, or NotImplementedError for a value it cannot read.", ["inputs", "schedules"], SCHED + "; also arbitrarily wrong derivedFrom graphs",
     "the tests try a few dozen wrong files; termination and totality quantify over all graphs and orders", RES,
     [("loop and cycle detection, unprocessed nodes check", R + "resolver.py")], (), OBS, SEAM)
prop("M01", "The register map shows every register once, at its absolute address",
     "For every processed device the register map lists each peripheral once, ordered by address, with the address range "
     "its address blocks span, and under it each register of the device, also those nested in clusters and dim elements, "
     "exactly once with its absolute address and the values of the processed register. The flat register list and the "
     "address figures of peripherals and clusters in the processed device agree with it, whatever the order of "
     "declaration or resolution.", ["inputs", "schedules"], SCHED, WHYR,
     ["src/svdsuite/map.py", "src/svdsuite/process.py", "src/svdsuite/model/process.py"],
     [("_build_map", "src/svdsuite/map.py"), ("_extract_registers, base_address", "src/svdsuite/process.py")], (),
     ["PeripheralRegisterMap(...).peripheral_map"] + OBS, SEAM)

prop("M02", "Every part of a result refers to the very element it was made from",
     "Each element of a processed device (cpu, SAU regions, address blocks, interrupts and write constraints included) links "
     "to the element of its own parsed device that states it: a dim element to its template, a copied element to the one in "
     "the base, an enumerated value to the stated value or default it comes from. The flat register list of a peripheral "
     "consists of the registers of its tree, each entry of a register map links to the peripheral or register it lists, and "
     "no element stands in two places. This holds for every order of declaration and resolution and after any earlier "
     "calls on the same or similar descriptions.",
     ["inputs", "schedules", "histories"], SCHED + "; histories of calls on the same and similar descriptions", WHYR,
     ["src/svdsuite/process.py", "src/svdsuite/map.py", R + "resolver.py", "src/svdsuite/model/process.py"],
     [("parsed=... of each processed element", "src/svdsuite/process.py"), ("processed=... of map entries", "src/svdsuite/map.py")], (),
     ["`parsed` of processed elements, `processed` of map entries"] + OBS, SEAM)

prop("C01", "Calls running in several threads at once do not influence each other",
     "Any number of threads may parse, process, serialize, validate, convert, map and log at the same time, each on its "
     "own inputs or on a shared parsed or processed device that nobody edits. Each call then returns the result, raises the error and issues "
     "the warnings it would have produced alone, for every interleaving, and no interleaving deadlocks.",
     ["schedules", "inputs"], "every interleaving of up to four caller threads, switching at any executed line (or "
     "bytecode), cold and warm start, and every mix of operations",
     "the tests are single-threaded", ["src/svdsuite/"],
     [("no shared mutable state: one resolver, graph and id counters per call", "src/svdsuite/process.py")], (),
     ["all public entry points"], "line events of the interpreter (sys.monitoring), no source change")
prop("C02", "Library calls leave their inputs and earlier results untouched",
     "Processing a parsed device, converting, serializing or mapping a device and validating a document never change the "
     "objects passed in, nor any object returned by an earlier call, and they can be repeated with the same result. Editing the "
     "result of one call never changes the input or the result of another call (a register map refers to its device).",
     ["histories", "inputs"], "every sequence of calls and edits on shared parsed and processed devices, also calls that "
     "fail or are interrupted at any executed line",
     "the tests use every object once", ["src/svdsuite/process.py", "src/svdsuite/util/process_parse_model_convert.py",
                                         "src/svdsuite/serialize.py", "src/svdsuite/map.py"],
     [("processed elements are built fresh; templates copied", R + "resolver.py")], (), ["object graphs before and after"])
prop("H01", "The same input gives the same output in every process and after any history",
     "For the same input, result, error message, warnings and their order, serialized bytes and the text of the resolver log are the same "
     "in every interpreter process, whatever its hash seed, whenever the garbage collector runs, and whatever calls "
     "(successful, failed, on other or similar documents) came before in the process.",
     ["histories", "configurations", "schedules"], "every history of earlier calls, hash seeds, collector timing",
     "a test process runs one hash seed and each test looks at one call", ["src/svdsuite/"],
     [("ordered containers wherever order is visible", R + "graph.py"), ("sorting of results", "src/svdsuite/process.py")],
     (), ["all public entry points"])
prop("F01", "An interrupted call leaves nothing behind that changes later calls",
     "When a call is cut short at any point by an exception from outside (KeyboardInterrupt, MemoryError, a warning "
     "turned into an error, a failing system call), that exception or a library error reaches the caller rather than a wrong "
     "result, and every later call in the process, also a retry on the same objects, works exactly as if the interrupted "
     "call had never been made.", ["fault_sequences", "histories"], "every executed line as point of interruption, several "
     "kinds of exception, any following calls", "no test interrupts anything",
     ["src/svdsuite/"], [("no state outside the call's own objects", "src/svdsuite/process.py"),
                         ("with blocks", "src/svdsuite/serialize.py")], (), ["all public entry points"],
     "line events of the interpreter (sys.monitoring), no source change")
prop("D01", "A save that returns wrote the whole document; a save that cannot, says so",
     "When saving a device to a file returns, the file holds exactly the bytes the device serializes to. When anything "
     "goes wrong (disk full, I/O error, no permission, missing directory, interruption), the save raises, and a device that "
     "cannot be serialized leaves an existing file as it was.",
     ["fault_sequences", "inputs"], "every failing or short system call at every point of the save, every device, old "
     "content of every length", "the tests save to a healthy disk",
     ["src/svdsuite/serialize.py"], [("serialize first, then open, write, close", "src/svdsuite/serialize.py")], (),
     ["file content after Serializer.device_to_svd_file"], "system calls (preloaded shim), no source change")
prop("D02", "A crash during a save never leaves a file silently read as another device",
     "If the process or machine dies at any point of a save, loading the file afterwards yields the old device, the new "
     "device, an error, or a ParserWarning; never some other device without any sign. A save that is repeated after the "
     "crash succeeds and is readable.", ["crash_points", "inputs"], "a crash before, within and after every system call "
     "of the save, with any subset of unsynced sectors lost", "no test crashes",
     ["src/svdsuite/serialize.py", "src/svdsuite/util/xml_parse.py"],
     [("truncated XML is not well-formed, recovery warns", "src/svdsuite/util/xml_parse.py")], (),
     ["Parser.from_svd_file / Process.from_svd_file after restart"], "system calls (preloaded shim), no source change")
prop("D03", "Read faults never make a file load as another device without a sign",
     "Loading a description, or validating it, from a disk that delivers short reads gives the same result as from a "
     "healthy disk. If a read fails, is interrupted, ends early or the file changes size underneath, the call raises, "
     "warns with ParserWarning, or still delivers the right result.",
     ["fault_sequences", "inputs"], "every read of a load, every kind of read fault",
     "the tests read from a healthy disk", ["src/svdsuite/util/xml_parse.py", "src/svdsuite/parse.py",
                                            "src/svdsuite/validate.py"],
     [("recover mode always warns", "src/svdsuite/util/xml_parse.py")], (), ["Parser, Process, Validator, map entry points"],
     "system calls (preloaded shim), no source change")
prop("D04", "Damaged or oddly encoded input is never accepted silently",
     "Bytes that are not a well-formed document in their declared encoding are either rejected with an error or accepted "
     "with a ParserWarning, by every way of loading a description; a healthy document loads without ParserWarning, and as exactly what it "
     "says. Loading the same bytes from a file and from memory gives the same result, error kind and warnings.",
     ["inputs", "fault_sequences"], "every stored document with bytes flipped, lost, duplicated, zeroed or cut anywhere, "
     "in several encodings", "the tests have a handful of broken files",
     ["src/svdsuite/util/xml_parse.py", "src/svdsuite/parse.py"],
     [("strict attempt, encodings, recovery, each announced", "src/svdsuite/util/xml_parse.py")], (),
     ["Parser and Process entry points, warnings"])
prop("D05", "What was saved is what is loaded, over any history of saves, edits and loads",
     "After any sequence of saving, editing, loading, processing and converting, loading a file gives a parsed device equal to the one "
     "last saved there in every field, and a converted device, saved and loaded again, processes to the same device (if nothing was left out of it "
     "with a ProcessWarning). Every element of a parsed or converted device names the element that holds it as its parent. This "
     "holds for saves to the same path, with any content, options and file times.",
     ["histories", "inputs"], "every sequence of operations on several paths and devices",
     "the tests do single steps", ["src/svdsuite/serialize.py", "src/svdsuite/parse.py",
                                   "src/svdsuite/util/process_parse_model_convert.py"],
     [("one element per field of the model", "src/svdsuite/serialize.py")], (), ["Serializer, Parser, Process"])
prop("D06", "No call leaves open files, temporary files or changed process settings behind",
     "When a call has ended, by returning, by failing or by being interrupted at any point, no file descriptor it opened "
     "is still open, it left no file or directory except the ones it was asked to write, no thread and no child process, and "
     "it has not changed the working directory, environment, recursion limit, collector settings, warning filters or signal handlers.",
     ["fault_sequences", "histories"], "every entry point, every failing system call, every line of interruption",
     "the tests do not look", ["src/svdsuite/serialize.py", "src/svdsuite/validate.py", R + "graph.py",
                               "src/svdsuite/util/html_generator.py"],
     [("with blocks and self-deleting temporary files", R + "graph.py")], (), ["/proc/self/fd, scratch directories"],
     "system calls (preloaded shim), no source change")
prop("L01", "Resolver logging never changes the outcome and the log is complete",
     "Processing with a log file gives the same device, error and warnings as without. The log is a complete HTML file, written "
     "when resolving ends whether it succeeds or fails, and it lists every round in order, the derivedFrom paths "
     "resolved in it and the elements processed in it, in processing order, from this call alone.",
     ["schedules", "histories", "fault_sequences"], "every description, valid or not, every processing order, several "
     "calls with logs in one process and in threads", "the tests do not use the log",
     [R + "logger.py", R + "resolver.py", "src/svdsuite/util/html_generator.py"],
     [("log calls at each step, written in a finally block", R + "resolver.py")], (), ["the log file"], SEAM)
prop("V01", "A validation verdict depends only on the document and the schema version",
     "Validating the same document against the same schema version gives the same verdict and, on request, the same error, "
     "from a file, bytes or a string, at any time in the life of the process, in any thread, and after validations of other "
     "documents or against other versions. The verdict is that of the schema shipped for that version, and the newest version is the default.",
     ["histories", "schedules", "inputs"], "every sequence and interleaving of validations of valid and invalid documents "
     "against all versions", "the tests validate each file once",
     ["src/svdsuite/validate.py", "src/svdsuite/schema/"], [("schema loaded per call", "src/svdsuite/validate.py")], (),
     ["Validator entry points"])
prop("W01", "Whatever is left out of a device is announced by the call that leaves it out",
     "Every peripheral, cluster, register, field or enumerated value of the description that is missing in the processed device is "
     "announced, by name, by a ProcessWarning issued during that very call, also if the same was announced by an earlier call, and no "
     "such warning is about an element that is present. If the caller turns warnings into errors, the call raises the first "
     "of them instead of leaving anything out; if the caller silences them, the device is the same.",
     ["histories", "schedules", "inputs"], "every description, processing order, and history of earlier calls",
     "the tests check single files", ["src/svdsuite/process.py"],
     [("warnings.warn where an element is skipped", "src/svdsuite/process.py")], (), ["warnings of Process(...)"], SEAM)

prop("W02", "Layout problems are reported exactly where they exist",
     "Processing warns, naming the elements, of every two peripherals, registers or clusters whose address ranges intersect "
     "without a direct or indirect alternate declaration that connects them, of overlapping address blocks, of base addresses "
     "and offsets off their alignment, and of fields that exceed their register; each time it is called, whatever was processed "
     "before, and for any order of declaration or resolution. It never reports such a problem where there is none.",
     ["inputs", "schedules", "histories"], "every layout, processing order and history of earlier calls",
     "the tests check single files", ["src/svdsuite/process.py"],
     [("interval sweep over sorted elements", "src/svdsuite/process.py"), ("closure of alternates", "src/svdsuite/process.py")], (),
     ["warnings of Process(...)"], SEAM)
prop("W03", "Whatever a reader of a description amends is announced and changes nothing else",
     "Reading a description in which an element for a text is given twice, a text or attribute is padded with blanks, or a "
     "mandatory description, interrupt value or schema location is missing, or an access keyword is unknown, gives the device "
     "of the tidy description (the last of several elements counts, blanks are dropped, missing values are empty or 0, an "
     "unknown access is none; comments and processing instructions within a text are no part of it), from file, string or "
     "bytes. Each amendment is announced by a ParserWarning that names "
     "the element, in every call, whatever was read before; a tidy description gives none; and where warnings are errors, "
     "the call raises the warning and returns nothing.",
     ["inputs", "histories", "faults"], "every untidy description, history of earlier calls and warning filter",
     "the tests check single amendments of single elements", ["src/svdsuite/parse.py", "src/svdsuite/util/xml_parse.py"],
     [("text and attribute readers", "src/svdsuite/parse.py"), ("fallback readers", "src/svdsuite/util/xml_parse.py")], (),
     ["warnings and results of Parser, Process, PeripheralRegisterMap"])
prop("W04", "What cannot be read is refused by every reading, never guessed",
     "A description that lacks a mandatory element or attribute (names, addresses and offsets, version, width, sizes and usage "
     "of address blocks, mandatory entries of cpu and SAU regions, ...) is refused with a ParserException by every call that "
     "reads it, from file, string or bytes, whatever was read, refused or interrupted before in the process; one with a number, "
     "boolean, keyword or bit range that cannot be read as a whole is refused with an error of the library or "
     "NotImplementedError. Every other description is read exactly as it says: numbers and booleans have the value they "
     "denote in decimal, hexadecimal or '#' spelling, in any case and with leading zeros.",
     ["inputs", "histories", "faults"], "every description with missing or unreadable values, history of earlier calls and "
     "warning filter", "the tests check single elements, each read once", ["src/svdsuite/parse.py", "src/svdsuite/model/types.py",
     "src/svdsuite/process.py"],
     [("_to_int, _to_bool, mandatory texts", "src/svdsuite/parse.py"), ("from_str", "src/svdsuite/model/types.py")], (),
     ["errors and results of Parser, Process, PeripheralRegisterMap, Serializer"])
prop("V02", "What is saved conforms to the schema the description conformed to",
     "If a parsed device came from a document that is valid for a version of the CMSIS-SVD schema, every document it is "
     "serialized to (file, bytes or string, with any options, repeatedly, after any other calls) is well-formed and valid for "
     "that version.", ["inputs", "histories"], "every valid description and history of loads and saves",
     "the tests serialize single elements and a few files", ["src/svdsuite/serialize.py", "src/svdsuite/parse.py",
     "src/svdsuite/schema/"], [("element order of the serializers", "src/svdsuite/serialize.py")], (),
     ["output of Serializer"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
