p("R01", "The k-th call of a mock is served by its k-th expectation",
  "In every history of expectations and calls, the k-th call of a mocked function since initialisation is served by that function's k-th expectation: it returns exactly the value given there, and each non-null matcher given there is run once, in parameter order, with the address of the actual argument, the address of the expected argument as it was when the expectation was queued, and the parameter's name. Each matcher that rejects produces exactly one error naming the call number, the function and the matcher's message, and one that accepts produces none. A call with no k-th expectation produces exactly one unexpected-call error naming the function, runs no matcher, and changes nothing another call will observe.",
  ["histories", "inputs"], "All interleavings of expectations and calls of several mocked functions (C and C++), with accepting, rejecting and null matchers.",
  "The tests queue a few expectations and make the matching calls; they fix one history per function, so interleavings of several functions, early or surplus calls, and long queues are never reached.",
  [FWS + "MockedFunction.c", FWI + "MockedFunction.h", CT], [("expectation queue", FWS + "MockedFunction.c MockedFunction_addExpectedCall/getCurrentCallParam"), ("C++ expectation queue", FWI + "MockedFunction.h MockedCppFunction"), ("generated mock body", CT + " generateBodyOfFunction templates")],
  "return values, matcher invocations and easyMock_getErrorArr after each call", [{"name": "mockedData/expectedCall/actualCall", "meaning": "queued expectations and the two counters pairing calls with them"}])
p("R02", "easyMock_check passes exactly when nothing went wrong",
  "easyMock_check returns 1 exactly when no error was recorded since initialisation and every mocked function of every loaded mock was called exactly as many times as it was expected; otherwise it returns 0. For every function whose counts differ it records one error naming the function and both numbers, and for no other function. Asking again without new activity gives the same verdict.",
  ["histories"], "All histories of expectations, calls and checks over several mocked functions in several mock files, including checks in the middle of a history, and all pairs (expected, called) up to the queue capacity.",
  "Tests check one surplus or one missing call of one function; which functions, how many, in which mock file and after which earlier check are not enumerated.",
  [FWS + "easyMock.cpp", FWS + "MockedFunction.c", FWI + "MockedFunction.h", CT], [("verdict", FWS + "easyMock.cpp verifyEasyMock"), ("count check", FWS + "MockedFunction.c MockedFunction_verify"), ("per-file verify", CT + " verifyAllMocks template")],
  "easyMock_check return value, easyMock_getErrorArr")
p("R03", "Order checking reports exactly the calls made out of order",
  "With call-order checking enabled, a served call is reported as out of order exactly when the function called differs from the function of the oldest expectation, over all mock files, not yet used up by a served call; the error names the function called and the one expected, and the call still returns its configured value. With checking disabled no history yields an order error. Switching the check on or off in the middle of a history affects only later calls and never which expectation a later call is compared with.",
  ["histories"], "All histories of expectations, calls (served and unexpected) and switches of the order check over several mocked functions of several mock files, C and C++.",
  "No test enables order checking with more than one function, so no cross-function order is ever exercised.",
  [FWS + "easyMock.cpp", CT], [("global call FIFO", FWS + "easyMock.cpp addCall/popCurrentCall"), ("order test in mock body", CT + " generateBodyOfFunction")],
  "errors recorded by mocked calls", [{"name": "m_fifoCall", "meaning": "names of expectations not yet served, oldest first"}, {"name": "m_checkCallsOrder", "meaning": "whether the order is verified"}])
p("R04", "easyMock_init makes a test case independent of all earlier history",
  "After easyMock_init, every later history of expectations, calls and checks produces exactly the observations (return values, outputs, errors, verdicts) it produces in a fresh process with the same settings, whatever happened before. The settings for order checking and call stacks are kept. No expectation, count, pending order entry or error of an earlier test case survives in any loaded mock file, and nothing queued earlier leaks memory.",
  ["histories"], "All pairs (earlier history, later history) up to a depth over C and C++ mocks in several mock files.",
  "Tests run one fixed body after each init; leftovers that matter only for particular earlier histories (failed order, unserved expectation, surplus call) are not exercised.",
  [FWS + "easyMock.cpp", FWS + "MockedFunction.c", FWI + "MockedFunction.h", CT], [("init", FWS + "easyMock.cpp EasyMock::init"), ("mock reset", FWS + "MockedFunction.c MockedFunction_reset"), ("per-file reset", CT + " resetAllMocks template")],
  "all API observations after easyMock_init")
p("R05", "The error string, the error array and the verdict always agree",
  "At every moment easyMock_getErrorArr returns exactly the errors recorded since initialisation, complete, in the order they occurred and followed by a null pointer, with their number in size (a null pointer and 0 when there are none), and easyMock_getErrorStr returns the same messages each followed by a line end (a null pointer when there are none). Reading errors never changes them, and messages of any length are kept complete. With call stacks enabled each mocked-call error is the same message followed by its call stack.",
  ["histories", "inputs"], "All histories of errors, reads, checks and initialisations up to a depth; all message lengths up to a bound; call stacks on and off.",
  "Tests read the errors once at the end; repeated reads, reads between errors, and long messages are not covered.",
  [FWS + "easyMock.cpp"], [("error list", FWS + "easyMock.cpp addError/getErrorStr/getErrorArr"), ("formatting", FWS + "easyMock.cpp easyMock_addError")],
  "easyMock_getErrorStr, easyMock_getErrorArr, easyMock_check", [{"name": "m_error", "meaning": "recorded errors"}])
p("R06", "Exactly the currently loaded mock files take part in init and check",
  "At any moment easyMock_init and easyMock_check reach every registered mock file exactly once and no unregistered one, whatever the order in which mock files were registered, registered again and unregistered. A generated mock registers itself when its code is loaded and unregisters itself when it is unloaded, so a mock in a shared object can be loaded and unloaded any number of times, in any order relative to others, without affecting the others.",
  ["histories"], "All histories of register, unregister, init and check over several files, and all load/unload orders of mocks in shared objects.",
  "Every test links its mock into the test binary, so nothing is ever unloaded or re-registered.",
  [FWS + "easyMock.cpp", CT], [("registry", FWS + "easyMock.cpp registerMock/unregisterMock"), ("constructor/destructor", CT + " constructor and destructor templates")],
  "number of reset/verify callbacks per file; behaviour of mocks after dlopen/dlclose", [{"name": "m_registeredMock", "meaning": "set of loaded mock files"}])
p("R07", "Expectation queues keep every entry up to capacity and fail loudly beyond",
  "A C mock holds up to 256 expectations between two initialisations and a C++ mock any number, each kept byte-exact until its call, whatever the size of the data. Queueing one expectation more on a C mock stops the process with a non-zero status and a message, and never corrupts or drops an earlier one. No sequence of expectations, calls and resets reads or writes outside the queue's memory, frees memory twice or leaks it.",
  ["histories", "inputs"], "All (expected, called, reset) counts up to and past the capacity, all operation sequences up to a depth, all data sizes up to a bound, under address and leak checking.",
  "Tests queue a handful of expectations; the capacity boundary and reuse after partial consumption are not reached.",
  [FWS + "MockedFunction.c", FWI + "MockedFunction.h"], [("bounded queue", FWS + "MockedFunction.c MockedFunction_addExpectedCall"), ("reset", FWS + "MockedFunction.c MockedFunction_emptyDataQueue")],
  "data returned by MockedFunction_getCurrentCallParam, process exit status")
p("R08", "cstring behaves as a plain text string at every length",
  "For every sequence of construction, appends, comparisons and release, a cstring has the content, length and comparison results of an ordinary string holding the same text, whatever the lengths involved. Moving from its built-in buffer to allocated memory never loses, duplicates or overruns a character. Releasing frees all its memory exactly once, and releasing twice is harmless.",
  ["histories", "inputs"], "All operation sequences up to a depth whose pieces have every length around the built-in buffer size, and every total length up to several times that size.",
  "The tests use about ten hand-picked strings; boundary lengths and append chains across the boundary are not enumerated.",
  [FWS + "cstring.c", FWI + "cstring.h"], [("append", FWS + "cstring.c cstring_append"), ("release", FWS + "cstring.c cstring_free")],
  "cstring_c_str, cstring_length, cstring_compare_*", [{"name": "stack/heap", "meaning": "built-in buffer and allocated text"}])
p("R09", "Built-in matchers accept exactly equal values and describe mismatches",
  "Every built-in matcher returns 0 exactly when the two values of its type are equal (text content for strings, pointed-to values for the dereferencing variants) and non-zero otherwise. On a mismatch it writes a message of less than 256 characters, always terminated, that names the parameter and shows the actual value first and the expected value second; on a match it writes nothing. It never modifies the compared values.",
  ["inputs"], "Every pair of boundary values of every supported basic type (limits, zero, sign change, single-bit differences, infinities), strings and parameter names of every length around the message limit.",
  "Tests compare one equal and one unequal pair of a type; truncation-prone pairs (differing only in high or low bits) and long names are not covered.",
  [FWS + "easyMock_matcher.cpp", FWI + "easyMock.h"], [("matcher macro", FWS + "easyMock_matcher.cpp IMPLEMENT_MATCHER"), ("string and 128-bit matchers", FWS + "easyMock_matcher.cpp cmp_str/cmp_int128/cmp_uint128"), ("C++ cmp", FWI + "easyMock.h EasyMock::cmp")],
  "return value and errorMessage of cmp_*")
p("R10", "A mock writes exactly the configured output data and nothing else",
  "For every parameter for which a mock offers output data (each pointer, not hidden in a typedef, whose pointed-to types are neither const nor functions), a served call configured with output data writes exactly that data (one object of the pointed-to type, or the given number of bytes for untyped and incomplete types) through the argument it received, and writes nothing when the output is null or only the return value was configured. Several output parameters are independent of one another, of the compared arguments and of the return value. The bytes around the destination and the configured data itself are never modified.",
  ["inputs", "histories"], "Every combination of output pointers (set or null) over functions with up to three pointer parameters of every supported pointed-to type, over several successive calls.",
  "Tests cover one output pointer of a few types with one call.",
  [CT, FWS + "easyMock_glueStdlib.c"], [("output copy", CT + " generateBodyOfFunction output section"), ("output parameters in API", CT + " ExpectReturnAndOutput templates")],
  "bytes of the caller's memory after the mocked call")
p("G01", "Command line arguments are interpreted exactly as documented",
  "For every argument list, the options EasyMockGenerate acts on are those documented: each documented option takes effect wherever it stands, list options accumulate every occurrence, and every unrecognised argument is passed on to the parser unchanged and in order. A missing option value, a repeated -i, -o or --cwd, or a missing input or output is refused with its own message and a non-zero status, and help is printed with status 0. No argument list crashes the tool.",
  ["inputs"], "All argument lists up to a length over all documented options, their values, other options and unknown arguments.",
  "Tests feed a few dozen hand-written lists; orders and combinations of options are not enumerated.",
  [CL, GS + "main.cpp"], [("argument loop", CL + " getParsedArguments"), ("use of the options", GS + "main.cpp main")],
  "EasyMockOptions, process status and output")
p("G02", "Exactly the selected functions are mocked, each exactly once",
  "For every header and option set, the generated files define exactly one mock for each function the options select and none for any other: functions declared (not defined) in the given header, also those of included headers when asked for, restricted to --mock-only names when given, and without --ignore-generation-of names. A mock that uses the original header leaves out the functions it cannot replace: those any declaration makes static, inline or non-returning. Repeated declarations, declarations before or after a definition, and the position of a function in the header do not matter. Selecting one function never changes what is generated for another.",
  ["inputs", "configurations"], "All headers built from up to four declarations out of a set of declaration forms (plain, repeated, static, inline, defined, in an included header, variadic, alias) times all combinations of the selection options.",
  "Each test uses one header with one option; combinations of declaration forms and options are not covered.",
  [LP, CT, GS + "main.cpp"], [("declaration visitor", LP + " VisitFunctionDecl"), ("selection lists", LP + " mock-only / ignore lists"), ("deduplication", CT + " generateFunctionSection")],
  "set of symbols defined by the compiled mock")
p("G03", "Every mock compiles against its header and carries all values faithfully",
  "For every C header within the supported declaration grammar, the generated mock compiles and links together with the original header, without errors, and defines each function with exactly its declared type. Each parameter and the return value pass through the mock unchanged: the matcher for a parameter sees exactly the actual and the expected value of that parameter, and the caller receives exactly the configured return value. This holds for every parameter type, position and number of parameters.",
  ["inputs", "programs"], "All declarations up to a size of a grammar of types (basic types, qualifiers, pointers, arrays, structs, unions, enums, typedefs, function pointers, incomplete types) as parameter or return type, alone and in pairs, and up to many parameters.",
  "Tests mock about one function per feature; nested and combined types and mixed parameter lists are not enumerated.",
  [LP, CT, GS + "TypeItf.cpp", GS + "Function.cpp", GS + "Declarator.cpp"], [("type conversion", LP + " getEasyMocktype / getFromContext"), ("prototype rendering", GS + "Function.cpp getFunctionPrototype"), ("mock templates", CT)],
  "compilation of the mock and values seen by matchers and callers")
p("G04", "Generated types are interchangeable with the header's types",
  "With --generate-types the generated header is self-contained, and every type it declares for a mocked function has the same size, alignment, member names, member offsets, bit-field positions and enumerator values as in the original header, so code compiled against the original header and a mock compiled against the generated one work together. The same functions are mocked as without the option. This does not depend on the order in which types are declared or on how they refer to one another.",
  ["inputs", "programs"], "All struct, union and enum declarations up to a size of a member grammar (basic types, pointers, arrays, bit-fields, nested and anonymous members, typedefs, recursive and mutual references), and all enumerator value lists over boundary values.",
  "Tests compile about twenty fixed types and never compare their layout.",
  [CT, LP, GS + "Enum.cpp", GS + "ComposableType.cpp", GS + "ComposableField.cpp", GS + "ComposableBitfield.cpp"], [("type rendering", CT + " generateDeclarationOfUsedType"), ("enum values", GS + "Enum.cpp"), ("field declarations", GS + "ComposableField.cpp")],
  "sizeof, offsetof, enumerator values and bit patterns in both headers")
p("G05", "A generated comparator rejects exactly the values that differ",
  "For every struct for which a comparator was requested, the comparator accepts two values exactly when all their members compare equal, members of nested structs and every element of arrays included, and on a mismatch it reports the member that differs. The dereferencing variant decides the same about the pointed-to values. Padding bytes never influence the result, and comparators are generated for exactly the requested types (all composite types for the special value EasyMock_all_comparators).",
  ["inputs", "programs"], "All structs up to a size over member kinds (basic types, pointers, arrays, enums, bit-fields, nested and anonymous members, typedefs) and, for each, every single-member and single-element change.",
  "Tests compare three fixed structs with one difference each.",
  [CT], [("comparator bodies", CT + " generateBodyStructCompare / generateFieldCmp"), ("comparator selection", CT + " setGenerateStructComparator")],
  "return value and message of cmp_<struct> and cmp_deref_ptr_<struct>")
p("G06", "Exit status 0 means both complete files were written",
  "EasyMockGenerate exits with status 0 only if both output files were completely written; whenever an output file cannot be opened, written or closed it reports the failure and exits with a non-zero status. A failed run never leaves the impression of success, and a run that succeeds leaves the same files whatever earlier runs left in the output directory.",
  ["fault_sequences"], "Every single fault (open, each write, close; several error codes, short writes) at every step of writing either file, pairs of faults, and unwritable or unusual output directories.",
  "No test injects a file-system fault.",
  [CT, GS + "MainCodeGenerator.cpp", GS + "main.cpp"], [("file writing", CT + " generateCodeToFile"), ("status propagation", GS + "MainCodeGenerator.cpp generateCode")],
  "exit status and file contents")
p("G07", "Paths are resolved as documented and their spelling does not matter",
  "Relative -i and -o paths are taken from the --cwd directory when it is given, also when they do not exist relative to the starting directory. The mock generated for a header declares and does the same whichever way the header, the output directory and the working directory are spelled, and it is named after the header's base name. A missing input, output or working directory is refused with a non-zero status and nothing is written.",
  ["configurations", "inputs"], "All combinations of starting directory, --cwd spelling, input spelling and output spelling (absolute, relative, dotted, trailing slash), existing or not, and all header base names over an alphabet up to a length.",
  "Tests use absolute paths and no --cwd.",
  [CL, GS + "main.cpp", CT], [("path validation", CL + " is_regular_file / is_directory"), ("chdir", GS + "main.cpp"), ("output names", CT + " generateCode")],
  "exit status, files written and where")
p("G08", "Generation is deterministic",
  "The generated files are a function of the header's contents and the options alone: running the tool again, in another environment, at other memory addresses, after other runs or with the options in another order produces byte-identical files. The order of list options and of unrelated arguments never matters.",
  ["configurations", "schedules"], "All orders of an option set, environments (locale, directory, address layout, stale outputs) times headers that exercise every container the tool iterates over.",
  "No test compares two runs.",
  [CT, LP, GS + "ElementToMockContext.cpp"], [("ordered iteration over functions, types and macros", CT), ("hashing of types", GS + "TypeItf.cpp")],
  "bytes of the generated files")
p("G09", "A header that does not parse is refused unless errors are ignored",
  "When the header or anything it includes has an error, EasyMockGenerate exits with a non-zero status and writes no file. With --ignore-parser-error it generates, with status 0, the mocks of every function that is declared correctly, exactly as if the erroneous parts were absent. A header without errors is never refused, whatever warnings it raises.",
  ["inputs", "configurations"], "All placements of each error form (syntax error, unknown type, missing include, #error, missing brace) and warning form among the declarations of a header or its included header, with and without the option.",
  "One test with one error.",
  [LP, GS + "MainCodeGenerator.cpp"], [("parser status", LP + " getElementToMockContext"), ("refusal", GS + "MainCodeGenerator.cpp generateCode")],
  "exit status and files written")
p("G10", "C++ mocks honour namespaces, classes, constness and instances",
  "For every C++ header of the supported grammar, the configuration functions are found under namespace EasyMock followed by exactly the namespaces and class of the mocked function and its name, and the mock implements exactly the declared member or free function, whatever else the header declares. A member mock configured for an instance reports an error exactly when it is called on another instance, one configured with a null instance accepts any, and the expectations of one function are never used by another. Arguments, references and return values pass through unchanged.",
  ["inputs", "histories"], "All headers of up to three functions placed in namespaces and classes (nested up to two deep), with up to three parameters, const or not, public, static or virtual, and all expect/call histories over two instances up to a depth.",
  "Tests mock one class or one namespace with a single function of one parameter.",
  [CT, LP, GS + "Namespace.cpp", GS + "FunctionDeclaration.cpp"], [("namespace lookup", LP + " getNamespace"), ("instance check", CT + " C++ templates"), ("class functions", LP + " CXXMethodDecl handling")],
  "compilation against the header, symbols defined, errors recorded")
p("G11", "Function attributes appear exactly when requested",
  "With --generate-attribute every requested attribute a function is declared with appears on the generated declaration with exactly its arguments, on that function only, and no attribute that was not requested appears. Attributes never change which functions are mocked or how their mocks behave. The names are matched exactly, and any number can be requested.",
  ["inputs", "configurations"], "All subsets of a set of attributes on up to two functions, in every placement, times all subsets requested.",
  "One test with the format attribute on one function.",
  [LP, CT, GS + "FunctionAttribute.cpp"], [("attribute parsing", LP + " attribute handling"), ("attribute rendering", CT + " function attribute section")],
  "attributes the compiler sees on the generated declarations")
p("G12", "Comments, line breaks and layout never change the generated mock",
  "Rewriting a header with comments, line breaks, line continuations or other white space between any of its tokens yields a mock with the same functions, the same parameter and return types and the same behaviour. The same holds for declarations spelled through macros that expand to the same tokens.",
  ["inputs", "programs"], "Every token gap of every declaration of a set of headers times every noise form, and pairs of gaps.",
  "Two tests contain one comment and one line break each.",
  [LP, GS + "TypeItf.cpp"], [("source text scanning", LP + " getDeclareString"), ("comment removal", LP + " removeComments")],
  "signatures declared by the generated header")
p("G13", "Mocks of different headers coexist in one program",
  "Any set of mocks generated from headers with different file names can be compiled and linked into one program and included together in any order, and each behaves as it does alone. This includes headers sharing types, included files and parameter names. No generated name of one mock clashes with or hides a name of another.",
  ["programs", "configurations"], "All pairs of headers from a set (including file names that differ only in one character) in both include orders, with original headers and with generated types, C and C++.",
  "One test combines two fixed headers.",
  [CT], [("include guards", CT + " header guard generation"), ("file-local names", CT + " templates")],
  "compile, link and run of the combination")
p("G14", "Equality, hashing and moving of the type model are lawful",
  "For every pair of types or functions the tool can represent, equality is reflexive, symmetric and transitive, equal objects have equal hashes, and objects that differ in any declared respect (kind, name, constness, member, size, qualifier, parameter) are unequal and have different hashes. An object moved or built in another way equals the original, and caching the hash of a finished object never changes any result. The raw hash tells apart exactly the types that differ in more than typedefs, and the queries and casts of an object tell what it was built from.",
  ["inputs"], "All pairs and triples of model objects up to a nesting depth built from every type class and every setter.",
  "Tests compare each predefined function with itself and with one other, and hash a fixed list.",
  [GS + "TypeItf.cpp", GS + "ComposableType.cpp", GS + "ComposableFieldItf.cpp", GS + "Function.cpp", GS + "FunctionDeclaration.cpp", GS + "Enum.cpp", GS + "Pointer.cpp", GS + "IncompleteType.cpp", GS + "QualifiedType.cpp", GS + "TypedefType.cpp", GS + "EasyMock_CType.cpp"], [("operator==", GS + "TypeItf.cpp isEqual"), ("hash", GS + "TypeItf.cpp getHash/getRawHash/cacheHash"), ("casts", GS + "TypeItf.cpp as*")],
  "operator==, operator!=, getHash, getRawHash, the move constructors and assignments, is*/as*/unqualify/getRawType")
p("G15", "Ignoring the fields of a type affects only that type",
  "With --ignore-field-generation-of the fields of exactly the named struct and union types are left out, however often and wherever they are used, and every other type, function and mock is generated exactly as without the option. Mocks generated with the original header compile and behave the same with and without the option. Naming a type the header does not use changes nothing.",
  ["inputs", "configurations"], "All subsets of the composite types of headers whose types refer to one another in every way, times both generation modes.",
  "One test with one struct.",
  [LP], [("ignored types", LP + " m_ignoreTypeFieldList handling")],
  "generated files; behaviour of the mock")
p("G16", "Generated types keep the header's macros and named constants",
  "With --generate-types, every object-like or function-like macro defined by the header, its includes or the command line, and still defined at the end of the header, is available to a user of the generated header with the same expansion (up to the spaces between tokens), whether or not the original header is included as well before or after it. Macros that were undefined, and the macros predefined by the parser, are not defined by it. A member or enumerator whose size or value is spelled through a macro keeps its meaning when the macro changes afterwards.",
  ["inputs", "configurations"], "All sequences up to a length of define, redefine and undef of object-like and function-like macros (bodies with strings, line continuations, comments, parameters, variadic) in the header, its includes and on the command line.",
  "No test uses a macro's value through a generated header.",
  [LP, CT, GS + "MacroDefinition.cpp", GS + "ElementToMockContext.cpp"], [("macro recording", LP + " MacroDefined / MacroUndefined callbacks"), ("macro rendering", CT + " macro section")],
  "preprocessing of a file that includes the generated header")
