p("P01","Threads that use objects of their own do not affect one another",
  "Threads that build, edit, expand, print, compare, map, match and annotate each its own trees, registries and texts get exactly the results that they would get alone, whatever the interleaving. There are no data races and no deadlocks between them, also when operations of some of them fail for lack of memory, and nothing that one thread does is seen by another.",
  ["schedules","fault_sequences","histories"],"for every interleaving of the memory accesses of two or more threads working on disjoint objects",
  "Tests run on one thread; hidden shared state (static caches, buffers, lazily made tables, C library state) goes wrong only under particular interleavings.",
  [R+"Element.h",R+"TypeQueryVisitor.cc",R+"Utils.h",D+"utils/log/Trivial.cc",S+"posix/RegexMatch.cc",S+"Section.cc"],
  [("no mutable shared state; constant tables initialised once",R+"ElementFwd.h")])
p("P02","Trees and registries may be read by many threads at once",
  "Any number of threads may at the same time read - copy, compare, print, visit, query, look up, expand, merge - the same trees and the same registry, without locking. There is no data race, each gets what it would get alone, and what they read is unchanged.",
  ["schedules","histories"],"for every interleaving of reading operations on the same objects",
  "Tests run on one thread; a cache filled or a field written by a reading operation is invisible there.",
  [R+"Element.h",R+"Registry.cc",R+"VisitorUtils.cc",R+"ExpandVisitor.cc",R+"PrintVisitor.cc",R+"ComparableVisitor.cc",R+"dsd/Extend.cc"],
  [("const member functions that write nothing",R+"Element.h"),("lookups in the map of named types",R+"Registry.cc")])
p("P03","The log holds every entry once, whole, and in the order of its thread",
  "In builds with logging, each entry at or above the logged severity that a thread writes after logging was enabled appears exactly once, as one complete line with severity, thread, place and text, in the order in which the thread wrote them; entries of different threads are never mixed, and entries below the severity leave no trace. Threads that log neither race nor block each other for ever, also while one of them enables the log.",
  ["schedules","histories"],"for every interleaving of any number of threads that enable the log and write to it",
  "No test enables logging, and none writes from two threads.",
  [D+"utils/log/Trivial.cc",D+"utils/log/Trivial.h"],
  [("one lock held by an entry while it is written",D+"utils/log/Trivial.cc"),("the log is enabled under the same lock",D+"utils/log/Trivial.cc")])
p("P04","Running out of memory is reported, never fatal and never a wrong answer",
  "When memory runs out anywhere inside the library - while element trees are built, copied, edited, merged, expanded, compared, printed or visited, or while text is mapped, matched, annotated or serialized - the caller receives an out-of-memory error, and the process neither crashes, terminates nor hangs. No operation pretends to have succeeded: whatever it returns without an error is what it would have returned with enough memory. Errors of another kind do not take the place of the out-of-memory error.",
  ["fault_sequences","inputs","histories"],"for every sequence of operations, every allocation inside any of them that may fail, alone, in bursts or all from one on",
  "No test makes an allocation fail; the number of failure points is the number of allocations of every history, and each needs its own run.",
  [R+"Element.h",R+"InfoElements.cc",R+"ExpandVisitor.cc",R+"dsd/Extend.cc",S+"posix/RegexMatch.cc",M+"ByteBuffer.cc",D+"reporting.cc"],
  [("owning pointers and value types, exceptions pass through",R+"Element.h"),("regular expressions release what they compiled",S+"posix/RegexMatch.cc")])
p("P05","Everything that is acquired is released, on every path",
  "Whatever the library allocates, opens or compiles while it works is released by the time the caller has destroyed the objects it was given, and released exactly once. This holds as well when operations end early: by an exception from a callback, by a sink or device that fails, by a malformed pattern or a missing file, or because memory ran out in the middle. Nothing is used after it was released.",
  ["fault_sequences","histories","inputs"],"for every history of operations and every point at which one of them is made to end early",
  "Tests run the paths that succeed, without a leak detector, and never fail an allocation, a device or a callback in the middle.",
  [R+"Element.h",R+"dsd/Member.cc",R+"InfoElements.cc",R+"Iterate.h",S+"posix/RegexMatch.cc",D+"stream.h"],
  [("unique ownership of children",R+"dsd/Array.h"),("file handles are owned by the stream object",D+"stream.h"),("compiled patterns are freed",S+"posix/RegexMatch.cc")])
p("P06","Edits of element trees and of the registry are all or nothing",
  "An operation that changes an element tree or the registry of named types and fails leaves every tree and the registry exactly as they were before, with no part added, lost, moved or emptied. The objects stay usable: repeating the operation once the cause of the failure has gone gives the result and the state it would have given at first.",
  ["fault_sequences","histories"],"for every history of edits, every failure inside any of them, and every continuation after the failure",
  "Tests check the state after success only; the states between the steps of an edit become visible only when the edit fails right there.",
  [R+"Element.h",R+"InfoElements.cc",R+"dsd/Object.cc",R+"dsd/Array.h",R+"Registry.cc",R+"Utils.h"],
  [("copy first, then swap",R+"InfoElements.cc"),("strong guarantee of insertion",R+"dsd/Object.cc"),("registration of named types",R+"Registry.cc")])
p("P07","Element trees are values: edits do what they say, and nothing else",
  "An element holds exactly the name, value, meta data, attributes and children that the history of operations on it has given it: a copy equals its original and shares nothing with it, an edit changes the part it names and no other tree, and what is moved or claimed leaves its old place empty. Reading - comparing, printing, visiting, querying - reports that state faithfully and changes nothing. Two elements compare equal exactly if kind, value, meta data and attributes do.",
  ["histories","inputs"],"for every history of creation, copying, assignment, edits, moves and reads over several trees",
  "Tests build each tree in one fixed way and look at one aspect; aliasing, stale state and lost parts show only after particular sequences of operations.",
  [R+"Element.h",R+"InfoElements.cc",R+"InfoElements.h",R+"Utils.cc",R+"Utils.h",R+"dsd/Array.h",R+"dsd/Object.cc",R+"dsd/Member.cc",R+"dsd/Enum.cc",R+"dsd/Option.cc",R+"dsd/Select.cc",R+"dsd/Holder.cc",R+"Iterate.h",R+"FilterVisitor.h",R+"PrintVisitor.cc",R+"VisitorUtils.cc"],
  [("deep copies through clone with flags",R+"Element.h"),("ordered key/value lists of meta data and attributes",R+"InfoElements.cc"),("members of objects found by key",R+"dsd/Object.cc")])
p("P08","Named types resolve by what is registered at that moment",
  "The registry is a map from type name to definition: a name is found if and only if it was registered and not removed since, the first registration stands until it is removed, reserved names and elements without a proper name are refused, and definitions are never altered by being used. Looking for the base of a type and expanding an element follow these definitions at the time of the call, refer to a type again instead of repeating it when it contains itself, and end for any set of definitions, circular ones included.",
  ["histories","inputs"],"for every history of registrations, removals, lookups and expansions, with arbitrary inheritance, containment and mixins, circular ones too",
  "Tests use a handful of fixed acyclic or simply cyclic definitions on a fresh registry; removal, re-registration and larger cycles are not sampled.",
  [R+"Registry.cc",R+"Registry.h",R+"ExpandVisitor.cc",R+"IsExpandableVisitor.cc",R+"Utils.cc"],
  [("map of named types",R+"Registry.cc"),("inheritance chain and member stack",R+"ExpandVisitor.cc")])
p("P09","Input arrives complete and in order, or the failure shows",
  "What the tool reads from a file or from its standard input is byte for byte what the source holds, in order, whatever pieces the operating system hands over. If the source cannot be opened the tool says so and ends with a failure status; if reading breaks off, the caller can tell, and has never been given a byte that was not there. Text already read stays valid.",
  ["fault_sequences","inputs","histories"],"for every content, every splitting of transfers, interruptions, device errors and early ends at every point, and every pattern of reading",
  "Tests read small healthy files in one piece; short reads, interruptions and errors depend on the kernel and cannot be provoked by them.",
  [D+"stream.h"],[("choice between file and standard stream, failing open ends the program",D+"stream.h")])
p("P10","Output reaches its destination complete and in order, or the failure shows",
  "What the tool writes to a file or to its standard output is there byte for byte and in order once the stream is flushed or closed; an existing file is replaced, not mixed with. If the destination cannot be opened the tool says so and ends with a failure status; if the device refuses data the caller can tell, and what is stored is a beginning of what was written.",
  ["fault_sequences","crash_points","inputs"],"for every content and pattern of writing, every short transfer, full disk, device error and stop of the machine",
  "Tests write little to healthy disks; full disks, short writes and crashes are not sampled.",
  [D+"stream.h"],[("choice between file and standard stream, failing open ends the program",D+"stream.h")])
p("P11","Reports on a document are complete and exact",
  "For any report, exactly one status line and one line for each annotation is written to the error stream, in the order in which they were raised, error first, each with its code, message and every location of it: as byte offset and length, or as line and column of the source when line numbers are asked for. The exit status is that of the error. A failing error stream or missing memory may cut the report off, but never changes, repeats or reorders what is printed.",
  ["inputs","fault_sequences"],"for every report - any number of annotations with any locations in any source - both forms of location, and every failure of the error stream or of memory",
  "Tests compare the JSON result, not the report text; it has no test of its own, and none with a failing stream.",
  [D+"reporting.cc",D+"reporting.h",D+"SourceMapUtils.cc","packages/apib-parser/src/snowcrash/SourceAnnotation.h"],
  [("status line and annotations",D+"reporting.cc"),("line and column of a byte range",D+"SourceMapUtils.cc")])
p("P12","A sink that breaks gets a true beginning, and its failure shows",
  "When the sink that an element tree or a media type is printed into stops accepting data after any number of bytes, by refusing or by an exception, it has received exactly the first bytes of the complete output, the stream is left in a failed state or the exception of the sink reaches the caller as the stream's settings ask for. The printed objects are unchanged, printing them again gives the complete output, and a stream that had failed before is given nothing.",
  ["fault_sequences","inputs"],"for every printable object, every number of bytes after which the sink breaks, and both ways of breaking",
  "Tests print into memory, which never refuses.",
  [R+"PrintVisitor.cc","packages/apib/src/MediaType.cc",D+"backend/MediaTypeS11n.cc"],
  [("direct output, one piece after the other",R+"PrintVisitor.cc")])
p("P13","A callback may give up a traversal at any point",
  "A traversal of an element tree calls its callback once for each element in the scope of its strategy, in document order, parents before their children. If the callback throws, the traversal ends at once and the exception reaches the caller unchanged; tree and traversal object are as good as before: the tree is unaltered and the next traversal visits everything.",
  ["histories","fault_sequences","inputs"],"for every tree, every strategy of traversal and every visit at which the callback gives up",
  "Tests traverse a few small trees with callbacks that never throw.",
  [R+"Iterate.h",R+"FilterVisitor.h",R+"Query.h"],
  [("recursive and children strategies",R+"Iterate.h")])
p("P14","Damaged sources never break what looks at them",
  "For any bytes - cut off, overwritten, zeroed, doubled or flipped, in the middle of a character as well - mapping byte ranges to characters, byte offsets to lines and columns, counting and validating characters, cutting out ranges and matching patterns stays inside the source, ends, and gives ranges that lie within it. Undamaged sources are mapped exactly: each character and each line break is where a plain count from the beginning puts it.",
  ["inputs","fault_sequences"],"for every source, every damage to its stored bytes, and every byte range asked for",
  "Fixtures are well-formed UTF-8; damaged text and ranges at or beyond the ends are not sampled.",
  [M+"ByteBuffer.cc",M+"ByteBuffer.h",D+"SourceMapUtils.cc",D+"utils/Utf8.h"],
  [("character index of a byte buffer",M+"ByteBuffer.cc"),("line index",D+"SourceMapUtils.cc")])
A="packages/apib-parser/src/"
p("P15","Documents may be parsed and results serialized by many threads at once",
  "Any number of threads may at the same time parse, check and serialize documents of their own, or serialize a result that they share, without locking. There is no data race and no deadlock, each call gives exactly what it would give alone, also while calls of other threads run out of memory, and a shared result stays as it is.",
  ["schedules","fault_sequences","inputs"],"for every interleaving of the memory accesses of two or more threads, and all their documents",
  "Tests run on one thread; a static buffer or a lazily filled table anywhere in parser or serializer goes wrong only under particular interleavings.",
  [D+"drafter.cc",S+"snowcrash.cc",M+"MarkdownParser.cc",S+"HeadersParser.cc",S+"UriTemplateParser.cc",D+"utils/so/JsonIo.cc"],
  [("no mutable shared state; constant tables initialised once",S+"HeadersParser.cc"),("all state of a parse belongs to the call",M+"MarkdownParser.cc")])
p("P16","Markdown trees and sets of ranges are values",
  "A tree of Markdown nodes holds exactly the nodes that the history of operations has given it, in order, each with its type, text, data and ranges; a copy or an assigned node equals its origin, also when one lies within the other, and shares nothing with it. A set of ranges covers exactly what was appended to it, in order, joined where the appended part begins at its end. When memory runs out, making, copying, assigning and appending leave everything as it was, and nothing is kept, or released twice.",
  ["histories","fault_sequences"],"for every history of edits of trees and sets of ranges, and every allocation that may fail in it",
  "Tests build a few fixed trees; assignment between overlapping trees and failures in the middle of a copy are not sampled.",
  [M+"MarkdownNode.cc",M+"MarkdownNode.h",M+"ByteBuffer.h"],
  [("deep copies of children",M+"MarkdownNode.cc"),("appending of ranges",M+"ByteBuffer.h")])
p("P17","Patterns match what they say, whatever was matched before",
  "A pattern matches a text exactly if it does as an extended POSIX regular expression, and what its groups captured is taken from where they matched, empty where they did not. A malformed pattern and an empty pattern or text match nothing, and after a pattern was tried without a match no captured text is left of an earlier one. The answer depends on nothing else, no earlier call, malformed pattern or lack of memory; when memory runs out while a pattern is compiled or matched, the caller is told so instead of being given an answer.",
  ["histories","fault_sequences","inputs"],"for every history of calls with valid and malformed patterns, and every point at which memory may run out",
  "Tests match each of a few patterns once; nothing reuses patterns in another way, or fails in between.",
  [S+"posix/RegexMatch.cc","packages/apib-parser/src/snowcrash/RegexMatch.h"],
  [("compilation and release of a pattern",S+"posix/RegexMatch.cc")])
p("P30","Every input gives a parse result",
  "For any document, damaged ones included, parsing ends and gives a parse result: at most one API, followed by its annotations, each with code and text and either error or warning; there is exactly one error, the first annotation, with the code that the call returns, if that is not zero, and none otherwise. Parsing never crashes, hangs or reads outside the document. The same document with the same options gives the same result each time, whatever was parsed before.",
  ["inputs","histories","fault_sequences"],"for every document, every damage to its bytes, and every history of calls before",
  "Fixtures are some hundred well-meant documents, each parsed once in a fresh state.",
  [S+"snowcrash.cc",M+"MarkdownParser.cc",D+"drafter.cc",S+"Section.cc",D+"NamedTypesRegistry.cc",D+"ConversionContext.cc"],
  [("section processors","packages/apib-parser/src/snowcrash/SectionParser.h"),("annotations behind the content",D+"SerializeResult.cc")])
p("P31","Serialized results are well-formed and say what the elements hold",
  "Every parse result is serialized as valid JSON or as valid YAML, as asked for, whatever text it holds. Decoded, either gives names, contents, meta data and attributes of the elements, source maps if asked for, and nothing else. When memory runs out while serializing there is no output rather than a part of it, and serializing again gives all of it.",
  ["inputs","histories","fault_sequences"],"for every parse result, every format and option, and every allocation that may fail meanwhile",
  "Tests compare fixed outputs with fixtures, and never fail an allocation.",
  [R+"SerializeSo.cc",D+"utils/so/JsonIo.cc",D+"utils/so/YamlIo.cc",D+"Serialize.cc"],[("escaping and layout",D+"utils/so/JsonIo.cc"),("conversion of elements to values",R+"SerializeSo.cc")])
p("P33","Source maps lie in the source and cover the text an element comes from",
  "Each source map of a parse result consists of pairs of location and length that lie within the document: in bytes for elements, in characters for annotations. The text of each string element, header and metadata entry of a well-formed document is found, in order, in what its source map covers, also behind nested blocks, tabs and multi-byte characters; descriptions, titles, methods and URI templates written in the document always have one.",
  ["inputs","histories"],"for every document, damaged ones included for the bounds",
  "Fixtures hold source maps of some documents, most of them plain ASCII.",
  [D+"RefractSourceMap.cc",M+"MarkdownParser.cc",M+"MarkdownNode.cc",M+"ByteBuffer.cc","packages/drafter/src/Serialize.h"],[("byte ranges from the markdown parser",M+"MarkdownParser.cc"),("bytes to characters",M+"ByteBuffer.cc")])
p("P37","The C interface answers for every history of calls, also without memory",
  "Each parsing function of the C interface returns zero or the code of the error annotation in its result, gives nothing and says so if there is no source, and accepts null for options and results that are not there. When memory runs out at any point of a call, no exception comes out and no partial result pretends to be whole: the call says so, by its status, by the error annotation or by giving nothing, or gives what it would have given, and the next call is as good as any. Everything it hands out is released by the function documented for it, with nothing left over.",
  ["histories","inputs","fault_sequences"],"for every history of calls, every combination of options, and every allocation inside a call that may fail",
  "Tests call each function a few times with good arguments and enough memory.",
  [D+"drafter.cc",D+"drafter.h"],[("catch-all wrappers",D+"drafter.cc"),("parsing errors become annotations",S+"snowcrash.cc")])
p("P38","The command line tool does what its options ask and tells by its status",
  "For every combination of options the tool parses the named file or its standard input, writes exactly the format asked for to the named file or its standard output - nothing if only validating - prints the report to its error stream, and exits with the code of the error, or zero. If the input cannot be opened or read or the output not be opened or written completely, or memory runs out, the tool does not succeed, and the input file and, unless output was asked for, the output file stay untouched.",
  ["inputs","configurations","fault_sequences","crash_points"],"for every document, every combination and spelling of options, every failure of files, standard streams and memory, and every stop of the machine",
  "Integration tests run a few combinations on healthy files.",
  [D+"main.cc",D+"config.cc",D+"stream.h",D+"reporting.cc"],[("option parser",D+"config.cc"),("reading, parsing, serializing, reporting",D+"main.cc")])
