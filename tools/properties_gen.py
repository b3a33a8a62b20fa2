import json
OBS=lambda x:[x]
HK=None
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name="model state",meaning=state,where=files[0])],observe_at=OBS(observe),hook_needed=HK)))
RD="pkg/language/reader.go"; CK="pkg/language/checks.go"
p("M01","A model is accepted exactly when every name is defined once",
"A set of model files is accepted if and only if every version has a root resource, every type and resource that is used is declared in that same version, no type, resource or error is declared twice in a version, no attribute, enum value, method, locator or parameter is repeated inside its owner, and every locator has a target. Names are compared as sequences of words, and the same name in another version neither satisfies nor conflicts with anything.",
["inputs","histories"],"for all sets of declarations, spread over any services, versions and files and read in any order",
"The unit tests read about a dozen fixed model files; the verdict depends on the interplay of forward references, duplicates, several versions and the order in which the files are read.",
[RD,CK,"pkg/concepts/version.go"],
[("tracking of concepts used before they are declared",RD+": ExitPlainTypeReference, ExitListTypeReference, ExitMapTypeReference, ExitResourceReference"),("duplicate detection",RD+": Exit*Decl; "+CK+": checkUniqueNames"),("root resource check",CK+": checkVersion")],
"declared and used-but-undeclared types, resources and errors of each version","exit status of `metamodel check`")
p("M02","Method signatures are accepted exactly when they follow their rules",
"A method is accepted if and only if its parameters follow the rules for its kind. Body-carrying kinds (Add, Get, Update, AsyncUpdate, Search) need exactly one structured parameter called Body with the right direction (in out, out, in out, in out, in; Update kinds may use a list), with all other parameters scalar (and only inputs for Get, Update and AsyncUpdate), Delete kinds take only scalar inputs, Post takes at most one input and exactly one output, both structured, and List and Search need exactly one output list called Items plus, when present, Page and Size (Integer, in out, defaults 1 and 100) and Total (Integer, out). Any other method name is an action without restrictions, and a default value must always have the type of its parameter.",
["inputs"],"for all method kinds and all combinations of parameter names, types, directions and default values",
"The test suite has no test of the signature checks at all; the space of name, type, direction and default combinations per method kind is far too big for examples.",
[CK,"pkg/concepts/method.go","pkg/concepts/parameter.go"],
[("per kind checks",CK+": checkAdd, checkDelete, checkGet, checkList, checkPost, checkSearch, checkUpdate"),("paging parameters",CK+": checkRequestParameter, checkResponseParameter"),("default values",CK+": checkParameter")],
"method kind and list of parameters","exit status of `metamodel check`")
p("M03","Locator loops reachable from the root are always rejected",
"If following locators from the root resource of a version can ever come back to a resource already visited on that path then the model is rejected with an error; otherwise locators alone never cause rejection, even if the same resource is reached through several different paths. Reading always terminates.",
["inputs"],"for all graphs of resources and locators",
"No test contains a loop; rejecting diamonds or missing long or second-branch cycles would pass every test.",
[CK,"pkg/concepts/version.go"],
[("loop detection",CK+": checkLocatorLoops, checkLocatorPathLoops")],"graph of resources and locators","exit status of `metamodel check`")
p("M04","Meaning does not depend on declaration order or file layout",
"Reordering the declarations of a version or their members, or distributing them differently over the files of its directory or over several model directories, changes neither whether the model is accepted nor anything in the generated Go code, OpenAPI specifications and documentation.",
["inputs","histories"],"for all models and for all orders and distributions of their top level declarations",
"The tests use one fixed layout. Forward references make reading stateful, so only particular orders expose a dependency.",
[RD,"pkg/concepts"],
[("forward references",RD+": ExitPlainTypeReference and similar"),("sorting of types, resources, methods, parameters, attributes, locators and errors","pkg/concepts/*.go")],
"partially read model","verdicts and bytes of generated artefacts for permuted inputs")
p("M05","Invalid text is rejected cleanly and produces no output",
"Text that is not a sequence of complete declarations is rejected, wherever the offending token is, and text that is such a sequence is never rejected for its syntax. A rejected model always makes the tool exit with a failure status and an error message, without crashing and without writing any generated file; an accepted model always makes it exit successfully.",
["inputs"],"for all token sequences, including truncated, mutated and concatenated ones, and for all tool commands",
"There is no test with invalid input. Errors at the end of a file, inside nested blocks or after a valid declaration take different paths.",
["pkg/language/ModelParser.g4","pkg/language/model_parser.go",RD,"cmd/metamodel"],
[("syntax error detection",RD+": loadFile; pkg/language/errors.go"),("gate before generation",RD+": Read; cmd/metamodel/generate/*/cmd.go")],
"position in the grammar","exit status, standard error and output directory of the tool")
p("M06","Identifiers are split into words the same way everywhere",
"An identifier made of letters and digits is split into words by the case of its characters: a single capital or digit followed by lower case letters is one word, a run of two or more capitals or digits is an initialism, and the last character of such a run starts the next word when lower case letters follow it, except that a lone 's' after the run makes a plural initialism. The JSON, query and URL names are the lower case words joined with underscores, and the Go and schema names are the capitalised words joined together with initialisms preserved.",
["inputs"],"for all identifiers made of letters and digits",
"Unit tests check about fifteen identifiers; the rule is a state machine over all character class sequences.",
["pkg/names/parser.go","pkg/names/name.go","pkg/names/words.go","pkg/generators/golang/names_calculator.go"],
[("case transitions","pkg/names/parser.go: ParseUsingCase"),("rendering","pkg/names/name.go: Snake, Camel; pkg/names/words.go: Capitalize")],
"sequence of words","names found in the generated OpenAPI specification and Go code")
p("M07","Naming annotations override derived names everywhere",
"An annotation that gives a JSON, HTTP or Go name to a type, attribute, enum value, parameter, method or locator replaces the derived name in every place where that name is used, and nowhere else: the JSON name in JSON documents (reading and writing) and OpenAPI properties, the HTTP name in paths and query strings of both the client and the OpenAPI specification, and the Go name in the public Go code. A query parameter without HTTP name falls back to its JSON name, and then to the derived name.",
["inputs"],"for all annotated elements and combinations of annotations",
"A test fixes one annotated name in one place; consistency over all consumers of the same name isn't checked.",
["pkg/annotations/annotations.go","pkg/http/binding_calculator.go","pkg/generators/openapi/names_calculator.go","pkg/generators/golang/types_calculator.go"],
[("annotation lookup","pkg/annotations/annotations.go"),("names of fields, parameters and segments","pkg/http/binding_calculator.go")],
"annotations of each element","requests and JSON produced by generated code, OpenAPI specification, Go API")
p("M08","Documentation comments reach exactly the element they precede",
"The block of consecutive full-line comments immediately before a declaration or member becomes the documentation of that element, with the comment marks and common indentation removed and line breaks preserved, and appears as its description in the OpenAPI specification and in the reference documentation, and in the comments of the Go declarations generated for structured types, attributes, enum values, resources, methods, inputs, locators and errors. Comments separated by a blank line, written after other text of a line or belonging to another element are never attached to it, and comments never change whether a model is accepted, unless a line of such a block lacks the indentation of the first one, which is an error.",
["inputs"],"for all placements of comment lines and blank lines around declarations and members",
"No test reads documentation text; attachment depends on line arithmetic over the whole file.",
[RD,"pkg/language/ModelLexer.g4","pkg/generators/openapi/openapi_generator.go","pkg/generators/docs"],
[("comment collection","pkg/language/ModelLexer.g4: comment action; "+RD+": getDoc")],
"comments not yet attached, indexed by line","descriptions in the OpenAPI specification")
p("M09","References import the referenced type into the version",
"A class that references a class of another version or service gets exactly the attributes of that class; types used by non-link attributes are imported recursively into the referring version, while link attributes keep pointing to the types of the referenced version unless the referring version explicitly references them too. This doesn't depend on the order of the declarations. References that are malformed, circular or point to something that doesn't exist, or that are in a model given in several directories, and imported types that have the name of a type declared in the referring version, are rejected with an error.",
["inputs"],"for all pairs of referring and referenced versions and graphs of types between them",
"Seven tests with one or two attributes each; recursion, cycles, nesting, bad paths and combinations of explicit references aren't covered.",
[RD,"pkg/annotations/annotations.go"],
[("import of referenced types",RD+": handleClassRef, recursivelyAddTypeToVersion, removeLinkedAttributes")],
"types of the referring version","`metamodel check`, OpenAPI specification and generated Go code of the referring version")
BC="pkg/http/binding_calculator.go"; CG="pkg/generators/golang/clients_generator.go"; OG="pkg/generators/openapi/openapi_generator.go"
p("H01","Client calls send exactly the request that the model describes",
"Every method reachable from the root through locators results in one HTTP request with the verb of its kind, a path made of the base path and one segment per locator (the given identifier, a single segment, for variable locators, and the action name at the end for actions), the scalar inputs that were set as query parameters (in the body for actions), the other inputs as JSON body, and the headers and extra query parameters added by the caller in addition, including the impersonated user, with the context of the caller. Inputs that were not set are not sent and requests never share state with other requests, even those in flight at the same time.",
["inputs","histories"],"for all models, navigation paths, values and sequences of setter calls",
"Tests call a handful of methods of one model with one or two parameters.",
[CG,BC,"pkg/generators/golang/json_generator.go","pkg/generators/golang/helpers_generator.go"],
[("navigation",CG+": generateLocator*"),("request construction",CG+": generateRequestSource"),("placement of parameters",BC)],
"request under construction","requests received by the HTTP transport")
p("H02","Client calls report exactly what the server answered",
"A call returns the status and headers received, and the outputs decoded from the body: getters return the value and whether it was present, and paged lists expose page, size, total and items. A transport failure or a body that isn't valid returns an error, and the response that doesn't exist after a transport failure reads as one without anything; a status of 400 or more with a body returns an error object carrying that status and the details of the body, and an empty body is success without outputs, whatever other calls are made in the meantime.",
["inputs","fault_sequences"],"for all methods, status codes, bodies and transport failures",
"Tests use a few well formed answers; truncated bodies, error statuses, missing fields and failures of the transport are mostly untested.",
[CG,"pkg/generators/golang/json_generator.go","pkg/generators/golang/errors_generator.go"],
[("response handling",CG+": SendContext template"),("body decoding","pkg/generators/golang/json_generator.go: readRequest/readResponse templates")],
"answer of the server","values and errors returned by generated client methods")
p("H03","The OpenAPI specification describes exactly the requests of the client",
"For every version the OpenAPI specification contains one operation for each pair of locator path and method reachable from the root, plus the metadata operation, and nothing else. Its verb, path, path parameters, query parameters with their types, body, success status and response are the ones the model determines and the generated client uses.",
["inputs"],"for all models",
"Tests check a few hand picked fragments of one specification; agreement for every operation of every model can't be sampled.",
[OG,BC,CG,"pkg/concepts/version.go"],
[("enumeration of paths","pkg/concepts/version.go: Paths"),("operations",OG+": generatePaths, generateMethod, generateURLParameters, generateResponses")],
"tree of locators and methods","generated openapi.json")
p("H04","OpenAPI schemas describe exactly the declared types",
"The OpenAPI specification is a valid JSON document, without repeated keys, with one schema for each declared enum, class and struct of the version (plus the error and metadata ones) and nothing else. Each schema has exactly the declared attributes or values under their wire names with the right type, format and references, classes have the additional kind, id and href, and every reference resolves.",
["inputs"],"for all models",
"Only fragments of the schemas of one model are compared in tests.",
[OG,"pkg/generators/openapi/names_calculator.go","pkg/generators/openapi/buffer.go"],
[("schemas",OG+": generateSchema, generateSchemaReference")],"types of the version","generated openapi.json")
p("H05","The metrics path tree matches exactly the paths of the API",
"The path tree used to label metrics contains exactly the URL paths that the generated client can use: one branch for each service, version, locator and action, with a wildcard for identifiers, and no other path.",
["inputs"],"for all models","No test inspects the tree for anything other than a small fixed model.",
["pkg/generators/golang/metrics_generator.go",BC],
[("tree construction","pkg/generators/golang/metrics_generator.go")],"tree of locators and methods","path tree data of the generated metrics package")
p("H06","The embedded OpenAPI specification equals the standalone one",
"The OpenAPI specification embedded in the Go code of each version is the same document that the standalone OpenAPI generator writes for that version.",
["inputs"],"for all models","Tests check it for no model; embedding involves escaping and chunking of arbitrary text.",
["pkg/generators/golang/openapi_generator.go" ,OG],[("embedding","pkg/generators/golang: generation of the OpenAPI variable")],"specification text","value of the embedded specification and the generated file")
p("H07","Polling stops exactly when it should",
"Polling repeats the request, waiting the given interval between attempts, until an answer has one of the expected statuses (200 if none was given) and satisfies all the predicates, a request fails without an answer, or the next attempt would start after the deadline of the context, and then returns the last answer. It never sends another request after one of these conditions, never ignores them, and requires a deadline and a positive interval.",
["histories","fault_sequences","schedules"],"for all sequences of answers and failures, intervals, deadlines, expected statuses and predicates",
"Tests sample three or four sequences with real time; the stop condition combines history, predicates, errors and the clock.",
["pkg/generators/golang/helpers_generator.go",CG],[("polling loop","pkg/generators/golang/helpers_generator.go: PollContext, runTask"),("poll requests",CG+": generatePollRequest")],
"attempts made, last answer and virtual time","requests received by the transport, virtual time and results of the poll call")
p("H08","Servers read back the values that clients send",
"For any history of the generated helpers for query parameters and headers (values added, sets copied), reading a parameter gives nothing when it is absent, exactly the value that the client added when there is one, with any of the types integer, float, string, boolean and date, and an error when the parameter is repeated or its text isn't a value of the type. Headers and parameters keep all their values in order, copies have the same content as the original and are independent of it afterwards, splitting a path gives its segments whatever the slashes at the beginning and at the end, and the helpers that make pointers give pointers to fresh copies of the value.",
["histories","inputs"],"for all values, texts, names, paths and sequences of operations",
"The helpers of servers have no tests; the ones of clients are only sampled with the values of a few requests.",
["pkg/generators/golang/helpers_generator.go","pkg/generators/golang/json_generator.go"],
[("values","pkg/generators/golang/helpers_generator.go: AddValue, AddHeader, CopyQuery, CopyHeader, Segments"),("readers","pkg/generators/golang/json_generator.go: ParseInteger, ParseFloat, ParseString, ParseBoolean, ParseDate, NewInteger")],
"sets of query parameters and headers with the values of each name","contents of the sets, and results of the readers and of the function that splits paths")
BG="pkg/generators/golang/builders_generator.go"; TG="pkg/generators/golang/types_generator.go"; JG="pkg/generators/golang/json_generator.go"; LG="pkg/generators/golang/types_generator.go"
p("D01","An attribute is present exactly when it was set",
"After any sequence of builder calls the built object reports an attribute as present, with the last value given, if and only if it was set and not cleared by a nil value afterwards, independently of all the other attributes and of how many the type has (types with more attributes than presence bits are rejected), and is empty if and only if nothing but the link mark is present. Absent attributes read as the zero value, reading from a nil object behaves as reading from an empty one, and the link, identifier and self link of classes follow the same rules.",
["histories","inputs"],"for all types and all sequences of builder calls",
"Tests set one or two attributes of a couple of types; interference between attributes depends on position and on the number of attributes.",
[BG,TG,"pkg/generators/golang/types_calculator.go"],
[("presence bits","pkg/generators/golang/types_calculator.go: BitMask, BitmapType"),("setters",BG),("getters",TG)],
"presence and value of each attribute in builder and object","getters of objects built with the generated builders")
p("D02","Built objects are independent of builders and of other objects",
"An object never changes after it has been built, whatever is done later with the builder, with the builders, slices and maps passed to it or with the copies that lists return as slices, and a builder can be reused to build further objects. Builders copy the slices given to them. Copying an object to a builder reproduces exactly its content, leaves the original untouched, and copying a nil object changes nothing and a nil list removes the items.",
["histories"],"for all sequences of builder, copy and build operations, including nested objects, lists and maps",
"Aliasing appears only after particular sequences of operations that tests don't try.",
[BG,TG],[("Build and Copy",BG)],"builders and objects that share storage","getters of previously built objects after each later operation")
p("D03","Lists give consistent access to their items",
"A list built from some items gives back exactly those items in order through length, index access, conversion to a slice, and complete or interrupted iteration; it is empty if and only if it has no items, out of range indexes and nil lists behave as absent, and iteration stops as soon as the callback asks for it.",
["histories","inputs"],"for all lists of items and all list types","Tests cover two or three sizes of one list type.",
[TG,BG],[("list types",TG+": generateListTypeFile"),("list builders",BG+": generateListBuilder")],"sequence of items","results of list methods")
p("D04","Objects survive the JSON round trip unchanged",
"Writing any object, list or value of an attribute as JSON and reading it back gives an object with exactly the same present attributes and values, whatever strings, numbers, dates (with the precision of seconds of the wire format), enums, maps (including empty ones), lists, links and nested objects it contains; writing it again gives the same bytes, whatever else is read or written in the meantime. If the writer fails then there is an error.",
["inputs","histories"],"for all types and all combinations of present attributes and values",
"Tests round-trip a few fixed objects; values like empty strings, special characters, nested absent objects or links need systematic combination.",
[JG,"pkg/generators/golang/json_generator.go"],[("writers",JG+": generateWriteValue"),("readers",JG+": generateReadValue")],"presence and value of each attribute","marshalled bytes and unmarshalled objects")
p("D05","JSON documents have the documented wire format",
"The JSON written for an object contains exactly one field per present attribute with its wire name and the representation of its type (booleans, numbers, strings, RFC 3339 dates, enum strings, arrays, objects for maps and structs), classes add kind ('Type' or 'TypeLink'), id and href, lists of links are wrapped in an object with items, and nothing else. Reading accepts the same format.",
["inputs"],"for all types and values","Tests compare a few documents.",
[JG,BC],[("writers and readers",JG)],"presence and value of each attribute","marshalled bytes")
p("D06","Reading tolerates unknown fields and rejects bad JSON without crashing",
"Fields that the type doesn't declare are ignored wherever they appear and whatever their value, order of fields doesn't matter, and null or missing optional containers don't invent content. Text that isn't valid JSON for the type returns an error (what follows the end of the document isn't read), and reading never panics.",
["inputs","fault_sequences"],"for all documents obtained by adding, reordering, truncating or corrupting valid ones","A couple of tests add one unknown field.",
[JG],[("readers",JG+": readStruct templates")],"position in the document","results of the generated unmarshal functions")
p("D07","Error objects carry and show all their data",
"Error objects keep the status, identifier, link, code, reason, operation identifier, details and timestamp that were set through builder, copy and JSON round trip, and their message lists exactly the parts that are present. Every error declared in a version is available as a constant with its code, and sending an error as HTTP answer uses its numeric identifier as status and its JSON as body; the predefined answers for resources that don't exist, methods that aren't allowed and internal errors do the same with 404, 405 and 500.",
["inputs","histories"],"for all combinations of present fields and declared errors","Tests check a few combinations out of hundreds.",
["pkg/generators/golang/errors_generator.go"],[("error type","pkg/generators/golang/errors_generator.go")],"presence and value of each field","messages, JSON and HTTP answers produced by the generated errors package")
p("G01","Code generated for any accepted model compiles",
"For every accepted model, whatever the combination of types, attributes, links, lists, maps, enums, methods, parameters, locators, versions, errors and references it uses, the Go generator finishes successfully and the code that it generates compiles, unless the names chosen in the model collide in Go with each other or with the fixed members of the generated code.",
["inputs"],"for all accepted models (within the documented limit of attributes per type)","Tests compile one fixed model.",
["pkg/generators/golang"],[("templates and imports","pkg/generators/golang/*.go")],"model","Go compiler run on the generated code")
p("G02","Reference documentation covers the whole model",
"The documentation generator writes a page for every declared type and resource reachable from its index, and each page lists every attribute, value, method (with its HTTP verb) and parameter of the element with its summary and documentation, and nothing that isn't in the model.",
["inputs"],"for all models","There are no tests for the documentation generator.",
["pkg/generators/docs","pkg/markdown"],[("pages","pkg/generators/docs/*.go")],"model","generated Markdown files")
p("G03","Generation is reproducible",
"Running any generator twice on the same model, from any directory, with any environment and into any empty output directory, produces exactly the same files with exactly the same bytes.",
["inputs","schedules"],"for all models and repeated runs","Maps iterate in random order, so a dependency on it shows up only in some runs of some models.",
["pkg/generators","pkg/concepts"],[("sorting of concepts","pkg/concepts/*.go")],"model","bytes of all the generated files")
p("G04","Success means that every file was written",
"When a generator exits successfully all the files of its output have been written completely, with the content that they have when the output directory is empty, whatever those files contained before. When any of the files can't be created or written completely, or the Go code can't be formatted, or a mandatory option isn't given, or a given model path isn't a directory, the generator exits with a failure status and an error message, without crashing, and in the last two cases without touching any file.",
["inputs","configurations","fault_sequences"],"for all models, previous contents of the output directory and faults","There are no tests that make the output fail or that write on top of an earlier output.",
["pkg/generators","pkg/markdown","cmd/metamodel/generate"],[("writing of files","pkg/generators/*/buffer.go"),("commands","cmd/metamodel/generate/*/cmd.go")],"model, output directory","exit status and bytes of the generated files")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,S)
    except Exception as e: print(x['id'],str(e)[:300])
print(len(P))
