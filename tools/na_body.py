def n(id,title,statement,text,why,files,mech,reason,over=("inputs",)):
    p(id,title,statement,list(over),text,why,files,mech)
    NA[id]=reason
PURE="A pure function of its input: no schedule, clock, I/O, crash or fault changes its value, so a simulator has nothing to decide here"
n("P32","Generated JSON values satisfy the JSON schema generated beside them",
  "For every data structure, the JSON value rendered from it is valid JSON and is accepted by the JSON schema rendered from the same data structure.",
  "for all data structures","Fixtures pair a few bodies with a few schemas and do not validate one with the other.",
  [R+"JsonSchema.cc",R+"JsonValue.cc",D+"Render.cc"],[("rendering by visiting elements",R+"JsonValue.cc")],
  PURE+".")
n("P34","Data structure descriptions mean what the MSON specification says",
  "Every data structure written in a document becomes the element tree that the MSON specification prescribes: types, nesting, values, samples, defaults, enumerations, mixins and type attributes.",
  "for all documents","Fixtures sample the grammar.",
  [D+"MsonTypeSectionToApie.cc",D+"RefractDataStructure.cc",S+"MSON.cc"],[("MSON sections",S+"MSONTypeSectionParser.cc")],
  PURE+".")
n("P35","Annotations classify and locate what is wrong",
  "Every defect of a document that the specification names is reported by an annotation with its documented code, as error if the result is unusable and as warning otherwise, at the place where it is; a faultless document gets none.",
  "for all documents","Fixtures sample one or two documents for each code.",
  [S+"Blueprint.cc","packages/apib-parser/src/snowcrash/SourceAnnotation.h"],[("section processors report while parsing","packages/apib-parser/src/snowcrash/Section.h")],
  PURE+". How annotations are printed and which exit status follows is decided by P11.")
n("P36","URI templates and headers are accepted as their grammars say",
  "A URI template, header or media type is accepted if and only if the grammar allows it, and taken apart into the parts it names; everything else gets a warning, and no input is misread.",
  "for all strings","Tests sample a few dozen strings.",
  [S+"UriTemplateParser.cc",S+"HeadersParser.cc","packages/apib-parser/src/MediaTypeParser.cc"],[("PEGTL grammars",S+"HeadersParser.cc")],
  PURE+".")
n("P39","Cardinalities and size estimates follow their arithmetic",
  "Combining the sizes of the parts of a data structure gives the size of the whole: sums for members, choices for options, infinity where any part is unbounded, nothing where any required part is impossible.",
  "for all data structures","Unit tests sample a few trees.",
  [R+"Cardinal.h",R+"ElementSize.cc"],[("cardinal arithmetic",R+"Cardinal.h")],
  PURE+".")

