"""What each check runs: scenarios, the classes of violation that decide its property, budgets."""

ANY = ["crash", "memory-error", "undefined-behaviour", "hang", "unexpected-exit", "terminate"]

REAL = ("element trees (packages/drafter/src/refract and refract/dsd), registry, expansion, printing, comparison, queries, "
        "reporting, source-map and line mapping, Utf8, byte buffers, markdown nodes, regular expressions, section and "
        "annotation types: every source file the project's own build compiles here, from /repo's working tree, under "
        "AddressSanitizer, UndefinedBehaviorSanitizer and the checked C++ library")
STUB = ("the allocator, regcomp, exit, files and standard streams are wrapped by the simulator's seams; the parser front end "
        "(sundown, PEGTL, cmdline and variant sources are absent from this sandbox) does not take part")

ASSUME_A = [
    "operations outside the catalogue, and code that needs the absent third-party sources, are not exercised",
    "a run is a sample: a clean batch is evidence, not proof",
    "allocation failures are injected in operator new, malloc and strdup of the code under test, not inside libc (except regcomp)",
]

CHECKS = {}


def check(prop, **k):
    k.setdefault("quick", 40)
    k.setdefault("thorough", 900)
    k.setdefault("components", {"real": REAL, "stub": STUB})
    k.setdefault("assumptions", ASSUME_A)
    CHECKS[prop] = k


NONTRIVIAL = ("a case is one simulated run: operations drawn from the seed, an undisturbed reference run, then the same "
              "operations under injected faults; it is non-trivial if at least one fault fired and more than three events "
              "happened, and distinct by the hash of its whole event history")

THREADS = ("a case is one simulated run of two to four threads: the undisturbed run switches at no point, then a seeded "
           "scheduler decides at every lock, static initialisation and memory access which thread goes on; it is non-trivial "
           "if at least one switch was made and more than three events happened, and distinct by the hash of its whole event "
           "history, switches included")
REAL_B = REAL.replace("under AddressSanitizer, UndefinedBehaviorSanitizer and the checked C++ library",
                      "each of its memory accesses, atomics, locks and static initialisations calling the simulator's own "
                      "scheduler and race detector (the interface of ThreadSanitizer, without its runtime)")
STUB_B = ("threads are real ones of which exactly one holds the token that lets it run; mutexes, guards of statics, allocator, "
          "and libc functions with hidden state are the simulator's; the parser front end does not take part")
ASSUME_B = [
    "operations outside the catalogue, and code that needs the absent third-party sources, are not exercised",
    "a run is a sample: a clean batch is evidence, not proof",
    "races inside libc and the C++ library's compiled part are seen only through the functions that are wrapped; schedules are sequentially consistent",
]
check("P01",
      technique='seeded schedules of threads on objects of their own; every access checked for races, every result compared with the undisturbed run',
      note='schedules are sampled: random, priority-based with few switches, and switches swept over one operation',
      parts=[{"build": "B", "scenarios": "threads-own"}],
      classes=["race", "deadlock", "wrong-result", "wrong-answer", "wrong-exception", "model"] + ANY,
      probes=["threads.op", "sched.", "fault.alloc"],
      unit="accesses, locks and allocations of the code under test",
      components={"real": REAL_B, "stub": STUB_B}, assumptions=ASSUME_B,
      rule=THREADS + "; a third of the runs make allocations fail as well")
check("P02",
      technique='seeded schedules of threads that read the same trees and registry; every access checked for races, every result compared with the undisturbed run',
      note='schedules are sampled: random, priority-based with few switches, and switches swept over one operation',
      parts=[{"build": "B", "scenarios": "threads-shared"}],
      classes=["race", "deadlock", "wrong-result", "wrong-answer", "wrong-exception", "model"] + ANY,
      probes=["threads.op", "sched.", "fault.alloc"],
      unit="accesses, locks and allocations of the code under test",
      components={"real": REAL_B, "stub": STUB_B}, assumptions=ASSUME_B,
      rule=THREADS + "; at the end what was read is compared with what it was before")
check("P03",
      technique='seeded schedules of threads that write to the log of a build with logging on; the finished log is checked entry by entry',
      note='schedules are sampled; the log file is a simulated one',
      parts=[{"build": "BL", "scenarios": "threads-log"}],
      classes=["log", "race", "deadlock", "wrong-result", "wrong-answer", "wrong-exception"] + ANY,
      probes=["threads.log", "sched."],
      unit="accesses, locks and allocations of the code under test",
      components={"real": REAL_B, "stub": STUB_B}, assumptions=ASSUME_B,
      rule=THREADS + "; the log is a history of entries, each thread's a sequence")
check("P04",
      technique='seeded histories of operations; every allocation of each may be made to fail; outcomes compared with the undisturbed run',
      note='seeds of histories, failure points chosen at random or swept; not exhaustive',
      parts=[{"build": "A", "scenarios": "oom-tree:3,oom-registry:3,oom-text:2,oom-any:2,oom-markdown:1,oom-patterns:1"}],
      classes=ANY + ["wrong-answer", "wrong-exception", "wrong-result"],
      probes=["fault.alloc", "op.", "history."],
      rule=NONTRIVIAL + "; faults: each allocation of an operation in turn, single ones, bursts, and all from one on")
check("P05",
      technique='seeded histories ended early by failing allocations, sinks, devices and callbacks; everything acquired is tracked until the end',
      note='leaks are found by tracking blocks and handles of the code under test, misuse by AddressSanitizer',
      parts=[{"build": "A", "scenarios": "oom-tree:3,oom-registry:3,oom-text:2,oom-any:2,oom-markdown,oom-patterns,cancel,sink,stream-any"}],
      classes=["leak", "memory-error"],
      probes=["fault.alloc", "op.", "history."],
      rule=NONTRIVIAL + "; at the end everything is destroyed and every block, handle and compiled expression must be gone")
check("P06",
      technique='seeded histories of edits; each is made to fail inside, the world is compared with its state before, then it is tried again',
      note='all trees and the registry are compared in full after each failed attempt',
      parts=[{"build": "A", "scenarios": "oom-tree:4,oom-registry:3,oom-any:2"}],
      classes=["atomicity", "retry", "wrong-answer", "wrong-result", "wrong-exception"] + ANY,
      probes=["fault.alloc", "op.", "history."],
      rule=NONTRIVIAL + "; after each failed attempt every object is compared with its state before, then the operation is "
                        "tried again and compared with the reference run")
check("P07",
      technique='seeded histories of edits and reads over several trees, compared step by step with a value model',
      note='the model covers creation, copies, edits and reads; merged and expanded trees are compared with reference rules where stated',
      parts=[{"build": "A", "scenarios": "history-tree:4,oom-tree:1"}],
      classes=["model", "wrong-result", "wrong-answer", "wrong-exception", "atomicity"] + ANY,
      probes=["op.", "history."],
      rule=NONTRIVIAL + "; after every operation the whole world is compared with a value model")
check("P08",
      technique='seeded histories of registrations, lookups and expansions, compared step by step with a map and a reference expansion',
      note='generated definitions: inheritance, containment and mixins over six names, circular ones included',
      parts=[{"build": "A", "scenarios": "history-registry:4,oom-registry:1"}],
      classes=["model", "retry", "wrong-result", "wrong-answer", "wrong-exception", "atomicity"] + ANY,
      probes=["op.reg", "op.expand", "op.root", "history."],
      rule=NONTRIVIAL + "; after every operation the registry is compared with a map")
check("P09",
      technique='simulated files and standard input: short, interrupted, failing and ending transfers at seeded points',
      note="the C++ library's real stream buffers run above the simulated descriptors",
      parts=[{"build": "A", "scenarios": "stream-read:4,stream-any:1"}],
      classes=["stream-input", "stream-exit", "leak", "wrong-exception", "wrong-answer"] + ANY,
      probes=["fault.io", "fault.crash", "streams."],
      unit="device calls and allocation events",
      rule=NONTRIVIAL + "; faults: short and interrupted transfers, device errors, early end, failing opens, no memory, machine stop")
check("P10",
      technique='simulated files and standard output: short, failing and full devices, stops of the machine at seeded points',
      note="the C++ library's real stream buffers run above the simulated descriptors",
      parts=[{"build": "A", "scenarios": "stream-write:4,stream-any:1"}],
      classes=["stream-output", "stream-exit", "leak", "wrong-exception", "wrong-answer"] + ANY,
      probes=["fault.io", "fault.crash", "streams."],
      unit="device calls and allocation events",
      rule=NONTRIVIAL + "; faults: short and interrupted transfers, device errors, full disks, failing opens and closes, no "
                        "memory, machine stop")
check("P11",
      technique='seeded reports printed to a simulated error stream that may fail; compared with an independent rendering',
      note='sources, locations and annotations are generated',
      parts=[{"build": "A", "scenarios": "stream-report:4,stream-any:1"}],
      classes=["report", "leak", "wrong-exception", "wrong-answer"] + ANY,
      probes=["fault.io", "fault.crash", "streams."],
      unit="device calls and allocation events",
      rule=NONTRIVIAL + "; faults: short and interrupted writes, device errors, full disk, no memory, machine stop")
check("P12",
      technique='printing into sinks that break after a seeded number of bytes',
      note='sinks refuse or throw',
      parts=[{"build": "A", "scenarios": "sink"}],
      classes=["sink", "leak", "wrong-result", "wrong-answer", "wrong-exception", "model"] + ANY,
      probes=["op.sink", "fault.sink"],
      rule=NONTRIVIAL + "; faults: a sink that fails or throws after any number of bytes, and failing allocations")
check("P13",
      technique='traversals whose callback throws at a seeded visit, within histories of edits',
      note='both strategies, three ways of traversing',
      parts=[{"build": "A", "scenarios": "cancel"}],
      classes=["cancel", "leak", "wrong-result", "wrong-answer", "wrong-exception", "model"] + ANY,
      probes=["op.cancel", "fault.callback"],
      rule=NONTRIVIAL + "; faults: an exception from the callback at any visit, and failing allocations")
check("P14",
      technique='stored sources damaged at seeded places, then mapped and compared with a plain recount',
      note='exact on undamaged sources; bounds and termination on damaged ones',
      parts=[{"build": "A", "scenarios": "damage"}],
      classes=["damage", "damage-exception", "leak"] + ANY,
      probes=["fault.b", "damage."],
      unit="device calls and allocation events",
      rule=NONTRIVIAL + "; faults: the stored source is cut off, bits flip, bytes are zeroed or overwritten, blocks are lost or "
                        "doubled")

check("P16",
      technique='seeded histories of edits of Markdown trees and range sets with failing allocations, compared step by step with a value model',
      note='copies, assignments between and within trees, insertion, removal, appended ranges; what fails must leave all as it was',
      parts=[{"build": "A", "scenarios": "history-markdown:2,oom-markdown:3"}],
      classes=["model", "atomicity", "retry", "wrong-result", "wrong-answer", "wrong-exception", "leak", "release"] + ANY,
      probes=["fault.alloc", "op.md", "op.ranges", "history."],
      rule=NONTRIVIAL + "; after every operation both trees and both sets are compared with a value model")
check("P17",
      technique='seeded histories of matching and capturing with failing allocations and a failing pattern compiler, compared with plain calls of the C library',
      note='the same patterns recur, valid and malformed, with and without groups; the oracle compiles each anew',
      parts=[{"build": "A", "scenarios": "history-patterns:2,oom-patterns:3"}],
      classes=["model", "retry", "wrong-result", "wrong-answer", "wrong-exception", "leak", "release"] + ANY,
      probes=["fault.alloc", "fault.regcomp", "op.regex", "op.capture", "history."],
      rule=NONTRIVIAL + "; every answer is compared with that of a pattern compiled for this one call")

# ---------------------------------------------------------------- the whole program
PROGRAM = ("the whole program from /repo's working tree: C interface, Markdown parser, all section parsers, conversion to element "
           "trees, rendering of values and schemas, serialization, reports, command line tool; ")
STANDINS = ("absent third-party sources are replaced by stand-ins written for this sandbox: a Markdown scanner for sundown, grammars "
            "over a small matcher for PEGTL, std::variant for MPark.Variant, an option parser for cmdline (validated by running the "
            "project's own test sources against them: 526 of 529 and 400 of 403 pass); ")
REAL_F = PROGRAM + "under AddressSanitizer, UndefinedBehaviorSanitizer and the checked C++ library"
STUB_F = STANDINS + "the allocator, regcomp, exit, files and standard streams are wrapped by the simulator's seams"
REAL_BF = PROGRAM + ("each of its memory accesses, atomics, locks and static initialisations calling the simulator's own scheduler "
                     "and race detector")
STUB_BF = STANDINS + ("threads are real ones of which exactly one holds the token that lets it run; mutexes, guards of statics, "
                      "allocator, and libc functions with hidden state are the simulator's")
ASSUME_F = [
    "the stand-ins cut documents and strings as the absent libraries do; where they do not, other inputs reach the code behind them",
    "documents are generated from a grammar of API Blueprint and MSON and then damaged; what it cannot produce is not explored",
    "a run is a sample: a clean batch is evidence, not proof",
    "allocation failures are injected in operator new, malloc and strdup of the code under test, not inside libc (except regcomp)",
]
WHOLE = ("a case is one simulated run: documents and calls drawn from the seed, an undisturbed reference run, then the same calls "
         "under injected faults; it is non-trivial if at least one fault fired and more than three events happened, and distinct by "
         "the hash of its whole event history; ")


def whole(prop, **k):
    k.setdefault("components", {"real": REAL_F, "stub": STUB_F})
    k.setdefault("assumptions", ASSUME_F)
    k.setdefault("probes", ["pipe.", "fault.alloc", "fault.damaged"])
    check(prop, **k)


check("P15",
      technique='seeded schedules of threads that parse, check and serialize; every access checked for races, every result compared with the undisturbed run',
      note='schedules are sampled: random, at accesses to memory that others know, and dense for a while; sequentially consistent',
      parts=[{"build": "BF", "scenarios": "threads-pipe"}],
      classes=["race", "deadlock", "wrong-result", "wrong-answer", "exception", "model"] + ANY,
      probes=["pthreads.", "sched.", "fault.alloc"],
      unit="accesses, locks and allocations of the code under test",
      components={"real": REAL_BF, "stub": STUB_BF}, assumptions=ASSUME_F,
      rule=THREADS + "; threads have documents of their own, the same document, or one result that all serialize; in a quarter of the "
                     "runs allocations fail as well", quick=60)
whole("P30",
      technique='seeded histories of calls on generated documents damaged at seeded places; each result checked, equal calls compared',
      note='seeds of documents, damage and histories; not exhaustive',
      parts=[{"build": "F", "scenarios": "pipe-damage:3,pipe-history:2"}],
      classes=["result", "history", "wrong-result", "exception"] + ANY,
      rule=WHOLE + "faults: cut off, overwritten, zeroed, doubled and flipped documents, and in some runs failing allocations")
whole("P31",
      technique='seeded histories of parsing and serializing, with failing allocations; every output decoded by independent readers and compared with the element tree',
      note='the element tree is read through the query interface of the library, not through its serializer',
      parts=[{"build": "F", "scenarios": "pipe-history:3,pipe-damage:1,pipe-oom:1"}],
      classes=["serialization", "wrong-answer", "wrong-result", "history", "exception"] + ANY,
      rule=WHOLE + "faults: damaged documents and failing allocations")
whole("P33",
      technique='seeded histories over generated and damaged documents; every source map of every result checked against the document',
      note='bounds for every map, covered text for string elements of valid UTF-8 documents',
      parts=[{"build": "F", "scenarios": "pipe-history:3,pipe-damage:1"}],
      classes=["sourcemap"] + ANY,
      rule=WHOLE + "faults: damaged documents, and in some runs failing allocations")
whole("P37",
      technique='seeded histories of calls of the C interface; allocations of each may be made to fail; outcomes compared with the undisturbed run, everything tracked until it is released',
      note='seeds of histories, failure points chosen at random; not exhaustive',
      parts=[{"build": "F", "scenarios": "pipe-oom:4,pipe-history:1"}],
      classes=["result", "exception", "wrong-answer", "wrong-result", "leak"] + ANY,
      rule=WHOLE + "faults: single allocations, bursts, and all from one on")
whole("P38",
      technique='the whole tool on simulated files and standard streams that fail, fill up and stop at seeded points; compared with what the library gives',
      note='options in all their spellings; not exhaustive',
      parts=[{"build": "F", "scenarios": "tool"}],
      classes=["tool", "leak"] + ANY,
      probes=["tool.", "fault."],
      unit="device calls and allocation events",
      rule=WHOLE + "faults: files that do not open, short and interrupted transfers, device errors, early end, full disks, no memory, "
                   "machine stop")
