# id -> (title, statement, over, quantifier text, why tests cannot, files, mechanism, observe_at)
FW = "src/easyMockFramework/"
GEN = "src/easyMockGenerate/src/"
CT = GEN + "CTemplateGenerator/CodeGeneratorCTemplate.cpp"
LP = GEN + "LLVMParser/LLVMParser.cpp"
P = {}


def p(pid, title, statement, over, qtext, why, files, mech, obs):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": m, "where": w} for m, w in mech], "observe_at": obs})


p("C01", "The final verdict tells exactly whether the test went as expected",
  "After any history, the check reports success exactly when, since the last init, no call was unexpected, out of order (while order checking was on) or rejected by a matcher, and every mocked function was called exactly as many times as it was expected. On failure error text is available, with one error per function called a wrong number of times that tells both numbers; on success there is none.",
  ["histories", "inputs"], "every interleaving of expectations, calls, inits, checks and option changes over several mocked functions, with every argument value",
  "The tests run a handful of fixed histories, mostly one expectation followed by one call with one set of values.",
  [FW + "src/easyMock.cpp", FW + "src/MockedFunction.c", CT], [("verifyEasyMock", FW + "src/easyMock.cpp"), ("MockedFunction_verify", FW + "src/MockedFunction.c"), ("generated verify function", CT)], ["easyMock_check", "easyMock_getErrorStr"])
p("C02", "The n-th call is matched against the n-th expectation of that function",
  "The n-th call of a mocked function since init is compared with, returns the value of, and writes the output values of the n-th expectation set for that function, whatever other functions were expected or called in between. Exactly one error, naming the function and the number of the call, is reported per parameter whose matcher rejects the actual value; parameters without a matcher are never compared.",
  ["histories", "inputs"], "every order in which expectations and calls of several functions alternate, every expected, actual, return and output value, every choice of matchers",
  "Tests queue the same few values and rarely alternate expectations with calls, so an off-by-one or a mix-up of queue entries with equal values goes unnoticed.",
  [FW + "src/MockedFunction.c", FW + "include/MockedFunction.h", CT], [("MockedFunction_addExpectedCall / MockedFunction_getCurrentCallParam", FW + "src/MockedFunction.c"), ("generated function body", CT)], ["return value and output parameters of the mock", "easyMock_getErrorArr"])
p("C03", "A call without an expectation left is reported, exactly once, and does nothing",
  "A call of a mocked function for which no expectation is left adds exactly one error that says so and names the function, consumes nothing, and writes no output parameter. A call for which an expectation is left is never reported as unexpected.",
  ["histories", "inputs"], "every history of expectations and calls, calls before any expectation and after all are used up, with and without call stacks and order checking",
  "Tests make one unexpected call on an empty queue; they do not alternate it with later expectations or other functions.",
  [FW + "src/MockedFunction.c", CT], [("MockedFunction_addActualCall", FW + "src/MockedFunction.c"), ("generated unexpected-call branch", CT)], ["easyMock_getErrorArr", "output parameters"])
p("C04", "Order checking reports exactly the calls made out of the expected order",
  "With order checking on, a call is reported as out of order exactly when the next expected call, among all mocked functions together, is of another function; the error names both functions. With it off no such error appears, and switching it at any time keeps track of the position in the sequence.",
  ["histories"], "every interleaving of expectations and calls of several functions, including unexpected calls, and every point at which the option is switched",
  "Tests check one fixed swapped pair; sequences in which unexpected calls or option changes shift the position are not sampled.",
  [FW + "src/easyMock.cpp", FW + "src/cstring.c", CT], [("popCurrentCall / addCall", FW + "src/easyMock.cpp"), ("generated order check", CT)], ["easyMock_getErrorArr"])
p("C05", "Init leaves nothing of an earlier test behind",
  "After init the framework behaves as if nothing had happened before: no error, no expectation, no count and no position in the call order is left, whatever state the earlier test ended in. Init also gives back all memory of the earlier test, so that repeating a test does not make memory grow.",
  ["histories"], "every history before the init (unused expectations, failed and unexpected calls, a check in between), any test after it, and any number of repetitions",
  "Tests init before each case but almost always after clean runs; memory growth is not looked at.",
  [FW + "src/easyMock.cpp", FW + "src/MockedFunction.c", CT], [("init", FW + "src/easyMock.cpp"), ("MockedFunction_reset", FW + "src/MockedFunction.c"), ("generated reset function", CT)], ["easyMock_init", "easyMock_getErrorArr", "easyMock_check", "heap"])
p("C06", "Every reported error is listed once, in order, word for word",
  "The error array holds exactly the errors reported since init, in order, terminated by a null pointer, each exactly as formatted (followed, if asked for, by a line break and the call stack); the error text is their concatenation with a line break after each. Reading them changes nothing, and both are null exactly when there is no error.",
  ["histories", "inputs"], "every sequence of reports, reads, checks and inits, any message text and length, with and without call stack",
  "Tests compare a few short fixed messages; empty, long and percent-laden messages and repeated reads are not sampled.",
  [FW + "src/easyMock.cpp"], [("addError / getErrorArr / getErrorStr", FW + "src/easyMock.cpp")], ["easyMock_getErrorArr", "easyMock_getErrorStr"])
p("C07", "A mock keeps up to 256 expectations intact and refuses more loudly",
  "Up to the documented capacity every expectation's data, of any size, is handed back unaltered and in order and never more than was stored; nothing outside the mock's own memory is touched. An expectation beyond the capacity, or one for which memory cannot be had, ends the program with an error status instead of being dropped or written elsewhere.",
  ["inputs", "fault_sequences", "histories"], "every number of expectations up to and beyond the capacity, several data sizes with arbitrary content, every failing allocation",
  "Tests never fill the queue nor make an allocation fail.",
  [FW + "src/MockedFunction.c", FW + "include/MockedFunction.h"], [("MockedFunction_addExpectedCall", FW + "src/MockedFunction.c")], ["MockedFunction API", "exit status"])
p("C08", "Init and check reach every registered mock exactly once",
  "After any sequence of registrations and unregistrations, init resets and check verifies exactly the mocks still registered, each once and even after another one failed, and check succeeds only if all of them do. Headers with the same name are distinct, and unregistering one leaves the others.",
  ["histories"], "every sequence of registrations and unregistrations of several headers, every combination of verdicts",
  "Registration happens in constructors of one or two loaded mocks; unregistering and failing combinations are not exercised.",
  [FW + "src/easyMock.cpp"], [("registerMock / unregisterMock", FW + "src/easyMock.cpp")], ["callbacks of the registered mock"])
p("C09", "The framework's string type is a faithful string at every length",
  "A string holds exactly the concatenation of what was appended, whatever its length and wherever it stops fitting its internal buffer, also after being handed over by value; length, content and comparison agree with it. Its memory is released once by the free operation, and an allocation failure ends the program with an error status.",
  ["inputs", "fault_sequences"], "every content, lengths around each representation switch, sequences of appends, copies and frees, every failing allocation",
  "Tests append a few fixed strings; exact boundary lengths and failing allocations are not covered.",
  [FW + "src/cstring.c", FW + "include/cstring.h"], [("cstring_append", FW + "src/cstring.c")], ["cstring API", "heap", "exit status"])
p("C10", "The C-library glue copies and formats exactly as the C library does",
  "The copy helper copies exactly the requested bytes and nothing else; the formatting helper writes and returns exactly what the C library's formatting does for the same format, arguments and buffer size, never past that size.",
  ["inputs"], "arbitrary content and destination, sizes from 0 up, formats mixing integers, floating point and strings beyond the register arguments",
  "The helpers are only exercised through generated comparators with small fixed values.",
  [FW + "src/easyMock_glueStdlib.c"], [("easyMock_memcpy / easyMock_snprintf", FW + "src/easyMock_glueStdlib.c")], ["destination buffer", "return value"])
p("C11", "A built-in comparator accepts exactly the equal values",
  "Each built-in comparator, for values and for pointed-to values, reports equality exactly when the language's own equality of that type holds (content equality for strings, identity for pointers), for every pair of values including NaN, signed zeros and extreme values.",
  ["inputs"], "every pair of values of each supported type",
  "Tests compare a few hand-picked pairs per type; a comparison in too narrow a type or sign is invisible to them.",
  [FW + "src/easyMock_matcher.cpp"], [("IMPLEMENT_MATCHER and the string and 128-bit comparators", FW + "src/easyMock_matcher.cpp")], ["return value of the comparator"])
p("C12", "A rejection message is bounded and shows the parameter and both values",
  "When a built-in comparator rejects, its message is terminated within its 256-byte buffer, names the parameter, and shows the actual and the expected value, each exactly and in this order, as far as the buffer allows; when it accepts, the buffer is left alone.",
  ["inputs"], "every pair of values of each type, parameter names and strings longer than the buffer",
  "Tests compare the text for a few small values; long names, extreme floating-point values and 128-bit values with leading zeros are not sampled.",
  [FW + "src/easyMock_matcher.cpp", FW + "include/easyMock.h"], [("message formatting of the comparators", FW + "src/easyMock_matcher.cpp")], ["errorMessage buffer"])
p("C14", "Call stacks never disturb an error, whatever can be found out about them",
  "Call stacks are on until they are turned off, and stay as set. With call stacks on, the message stays in front, the walk shows each frame after it once, in order and from that frame's own address, up to the last available one, a frame whose source is known is shown with function, file and line, and every debug-information session opened is used properly and closed. This holds whichever of the stack or debug-information queries fail, and whatever file names they return.",
  ["inputs", "fault_sequences"], "every combination of answers and failures of the stack walking and debug information services, arbitrary file names",
  "In the tests all queries succeed or fail the same way on the machine at hand.",
  [FW + "src/easyMock.cpp"], [("append_backtrace / debugInfo", FW + "src/easyMock.cpp")], ["easyMock_getErrorArr"])
p("G01", "Matchers and callers see every parameter and return value unaltered",
  "For every function declared in a mocked C header whose parameters and return value are of supported kinds (arithmetic types including bool, signed char and 128-bit integers, structures, unions, bit fields, enumerations, pointers, arrays, function pointers, typedefs of them), whatever the spelling of its declaration (macros for storage classes and types included) and the names of its parameters (none at all included, to_return and out_* excluded), the mock compiles; the matcher of a parameter is given exactly the actual value, the expected value and the parameter's name; the call returns exactly the value of its expectation, and every matcher given is asked once. Not covered: parameters that are pointers to arrays, to volatile-qualified types or to variadic functions, arrays of arrays, vector, complex, atomic and extended floating types, and types declared only inside a parameter list.",
  ["inputs", "configs"], "every value and bit pattern of every parameter and return value, for 196 functions covering the kinds of types, spellings, system types, up to 17 parameters and long, similar or local-looking names; which functions, is enumerated",
  "Tests use each type with one or two small values and their parser and generator tests look at the same simple declarations; truncation, a lost sign or a mix-up of two parameters passes with small equal values.",
  [CT, LP, "src/easyMockGenerate/src/EasyMock_CType.cpp"], [("generated function body and data structure", CT), ("type mapping of the parser", LP)], ["arguments of the matchers", "return value of the mock"])
p("G03", "A call writes exactly the outputs its expectation gave, nothing else",
  "A call matched by an expectation with outputs writes, for each parameter that was given an output, exactly the bytes of the pointed-to object (for pointers to void or to a type which the header leaves incomplete, exactly the given number of bytes) to where the actual argument points. Nothing is written for parameters whose output was null, for expectations set without outputs, for calls without an expectation, or outside those bytes.",
  ["inputs", "configs"], "every content of the outputs, every choice which of them are given, sizes of untyped outputs from zero, for 27 functions with one to six pointer parameters",
  "Tests look at the written value of one small output, never at the bytes around it or at a mix of given and missing outputs.",
  [CT], [("generated output section", CT)], ["memory behind the pointer arguments"])
p("G04", "A generated comparator accepts exactly the objects whose fields are all equal",
  "The comparator generated for a structure or union, and the one for pointers to it, returns zero exactly when every member, looked at in its own type, is equal in both objects: through nested, anonymous and embedded members, bit fields, every element of one-dimensional arrays and every member of a union, never looking at padding. When it rejects, it names the parameter and a member that really differs, with its index if it is an array element, within its 256-byte message buffer; when it accepts, it writes nothing. Multi-dimensional array members are not covered.",
  ["inputs", "configs"], "every bit pattern of both objects, short and over-long parameter names, for 35 structures and unions covering the kinds of members, and for the same types written by --generate-types",
  "Tests build a few objects and change one field at a time; a member left out, compared in the wrong width, or a last array element passed over is found only when exactly that part differs.",
  [CT, "src/easyMockGenerate/src/ComposableType.cpp"], [("generateAllFieldStructCompare / generateBodyStructCompare", CT)], ["return value of cmp_* and cmp_deref_ptr_*", "errorMessage buffer"])
p("G05", "The message of a generated comparator shows the two values of the field",
  "When a generated comparator rejects because of one member, its message ends with the actual and then the expected value of that member, each printed as the C library prints a value of that type (integers of every width and sign, non-null characters, floating point, pointers, enumerations with non-negative constants). Members of _Bool, long double and 128-bit types and members inside arrays of aggregates are not covered.",
  ["inputs"], "every value of each member against fixed other values, for the members of 35 structures and unions, and of the same types written by --generate-types",
  "Tests compare the text for small positive values, where a wrong width or sign of the conversion does not show.",
  [CT, "src/easyMockGenerate/src/EasyMock_CType.cpp"], [("setStructCompareStringFormat", CT)], ["errorMessage buffer"])
p("G06", "Generated types are the types of the header, bit for bit",
  "With --generate-types, the types written out have the size, alignment and members of the original: each member is found at the same place with the same width, sign and qualification, each enumeration constant has the same value and its enumeration the same size and sign. Mocks used with the generated types alone behave as with the original header. Packed or explicitly aligned types, multi-dimensional array members and enumeration constants above the signed 64-bit range are not covered.",
  ["inputs", "configs"], "every bit pattern of an object of 27 types read through both definitions, 12 enumerations, and the values and outputs of 157 mocked functions",
  "Tests check the generated declarations of simple structures by name; that two definitions read all objects alike is never looked at.",
  [CT, LP, "src/easyMockGenerate/src/Enum.cpp"], [("generateDeclarationOfComposableType / generateEnum / generateSimpleTypeDef", CT)], ["generated type definitions"])
CLP = "src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp"
MAIN = "src/easyMockGenerate/src/main.cpp"
p("P01", "A command line means exactly what its options say",
  "For every command line of EasyMockGenerate: each value given to -i, -o, --cwd and the repeatable options is recovered exactly, in whatever order the options come; flags are set exactly when given; all other words reach the parser unchanged and in order. A line is rejected exactly when an option other than -i or -o lacks its value, -i, -o or --cwd is given twice, or -i is not a regular file or -o not a directory, relative paths taken from --cwd; with one mistake the message is the one for it. Help asked for on a correct line is given. Lines where -i or -o lacks its value are only claimed not to be accepted without both.",
  ["inputs"], "every command line of up to three options around -i and -o in any order, or of up to five words, with arbitrary values and any kind of file at the paths",
  "Tests use one option at a time with fixed values; interactions of options, repeated values and values that look like options are not sampled.",
  [CLP, "src/easyMockGenerate/include/CommandLineParserItf.h"], [("CmdLineParser::getParsedArguments", CLP)], ["EasyMockOptions"])
p("P02", "The tool does what its command line asks and its exit status tells so",
  "EasyMockGenerate parses exactly the header given to -i with exactly the arguments and lists given for the parser, and generates into exactly the directory given to -o, with what the parser found and exactly the lists and flags given for the generator; with --cwd, after changing to that directory. The exit status is zero exactly when help was asked for or the mock was generated: not when the line is wrong, the directory cannot be changed, parsing fails without --ignore-parser-error, or generating fails; nothing is generated before or despite such a failure.",
  ["inputs", "fault_sequences"], "every command line of up to one (thorough: two) options around -i and -o or up to four words, arbitrary values, every verdict of changing directory, parsing and generating",
  "The tests drive the classes separately; the way from the command line through both to the exit status, and failures on it, are not exercised.",
  [MAIN, "src/easyMockGenerate/src/MainCodeGenerator.cpp", "src/easyMockGenerate/src/CodeGeneratorItf.cpp"], [("main", MAIN), ("MainCodeGenerator::generateCode", "src/easyMockGenerate/src/MainCodeGenerator.cpp")], ["exit status", "calls of the parser and the generator"])
p("P03", "A mock's two files are written completely, or generating fails",
  "Generating writes the source easyMock_<name>.c (.cpp for C++ mocks) and the header easyMock_<name>.h into the given directory, <name> being the file name of the mocked header without directory and last extension, each holding exactly the text generated for it, and closes both. If opening, writing or closing either of them fails, generating reports failure; if nothing fails, it reports success.",
  ["inputs", "fault_sequences"], "arbitrary directory, header and text characters, empty texts and texts with conversion specifications, every combination of failing file operations",
  "Tests write to a directory with space left; no file operation ever fails, and header names are plain.",
  [CT], [("CodeGeneratorCTemplate::generateCodeToFile / generateCodeImplementation", CT)], ["files in the output directory", "result of generateCode"])
p("G11", "Mocks of several headers work together and stay apart",
  "Mocks of headers with different names, dots and dashes in them included, can be included and linked into one test: each function uses only its own expectations and matchers, init and check cover all of the headers, unexpected calls and missing calls in any of them are accounted for, and the order of calls is followed across the headers.",
  ["histories", "inputs"], "every history of up to five (thorough: six) expectations, calls, inits and checks over three functions of three headers, all values arbitrary",
  "The end-to-end tests load one or two mocks and never mix their calls.",
  [CT, FW + "src/easyMock.cpp"], [("generated registration and include guards", CT), ("init and check of all mocks", FW + "src/easyMock.cpp")], ["easyMock_check", "easyMock_getErrorArr", "include guards"])
p("G12", "Equality and hashes of types and functions take in every detail",
  "In the generator's model two types, fields, parameters, attributes or functions compare equal exactly when they are of the same kind and agree in every detail that is part of them (names, kinds, members, array sizes, bit widths, constants, qualifiers, parameters, declared texts, namespaces, flags); the names of parameters make no difference. Equality does not depend on the order and is the opposite of inequality. Equal objects have equal hashes, no detail is left out of a hash, and caching a hash, also before a type it is made of changes its sign, never changes it. The views of a type (its raw type, the type under its qualifier, what it points to or defines, its kind) give what it was made of. A type made signed or unsigned becomes the type of the other sign where there is one, and nothing else.",
  ["inputs", "sequences"], "every pair of objects of bounded shape: types under up to two (thorough: three) pointers, references, qualifiers and typedefs, with up to one (thorough: two or three) members, constants, parameters or attributes; every name, value, width, size and flag arbitrary",
  "Tests compare what the parser gives for a fixed set of headers with expected objects; two objects which differ in a detail no test varies, or which only collide in a container, go unnoticed.",
  [GEN + "" + "TypeItf.cpp", GEN + "" + "FunctionDeclaration.cpp", GEN + "" + "ComposableType.cpp"], [("equality and hashes of types", GEN + "" + "TypeItf.cpp"), ("equality and hashes of functions", GEN + "" + "FunctionDeclaration.cpp"), ("caching of hashes", "src/easyMockGenerate/include/EasyMock_Hashable.h")], ["operator==", "getHash", "getRawType", "setUnsigned"])
p("C13", "The C++ matcher rejects exactly what operator== tells apart and shows both",
  "EasyMock::cmp<T> rejects a parameter exactly when its value and the expected value are not equal by T's operator==. When it rejects, the message names the parameter and shows both values as T's output operator prints them; when it accepts, it writes nothing.",
  ["inputs"], "every pair of values of the integer and character types, of pointers to two objects, of short strings, of a class with its own comparison and output, with arbitrary parameter names",
  "Tests compare the same two small integers.",
  [FW + "include/easyMock.h"], [("EasyMock::cmp", FW + "include/easyMock.h")], ["result and message of the matcher"])
p("G02", "Exactly the functions that the options ask for are mocked",
  "The mock of a C header that is included by the program defines each function which the header declares, is not static or inline, is defined nowhere in it and has no macro of its name, exactly once, however often and in whatever form it is declared, whatever #line directives the header contains and wherever it lies; with --generate-types, where the header itself is not used, also the static, inline and defined functions; of included headers only with --generate-included-functions; with --mock-only only those named, with --ignore-generation-of not those named. Every mocked function behaves as a mock; all other functions are the program's own, so that mock, header and program compile and link together.",
  ["configs", "inputs"], "every argument and return value, for five headers of 36 functions and more under twelve combinations of the options; the functions and the combinations are enumerated",
  "The tests of the options look for one function in the parser's result; they never link a mock with the program's own functions.",
  [CT, LP], [("fillInTemplateVariables", CT), ("VisitFunctionDecl", LP)], ["symbols the mock defines", "behaviour of the functions"])
p("G07", "Attributes of functions come through: a weak mock gives way, others do not",
  "For C functions declared with attributes, in whatever place and through whatever macro, the mock compiles and behaves as a mock. The program's own definition takes the place of the mock of a function declared weak, when the original header is used or --generate-types is given with --generate-attribute weak, however the attribute is spelled (weak or __weak__); with --generate-types alone no mock is weak. Attributes whose parameters are themselves parameters of a macro are not covered when they are asked for. Functions declared noreturn are not mocked when the original header is used, and otherwise are mocked without that attribute unless it is asked for.",
  ["configs", "inputs"], "every argument and return value, for 23 functions declared with attributes under five combinations of the options; the functions and the combinations are enumerated",
  "The tests compare texts of parsed attributes; they never link a mock with a definition of the same function.",
  [CT, LP], [("generateFunctionAttributes", CT), ("getFunctionReturnValue", LP)], ["which definition is linked", "behaviour of the functions"])
p("G08", "Comparators are generated exactly for the types and over the fields asked for",
  "--generate-comparator-of T generates the comparator of the structure or union T, or with EasyMock_all_comparators those of all, that is defined and used by a parameter of a mocked function, once each, and no other comparator. A comparator rejects exactly when a compared field differs, through nested types; the fields of a type named with --ignore-field-generation-of are not compared, those of all other types are. The mocks themselves do not depend on either option.",
  ["configs", "inputs"], "every bit pattern of both objects, for nine structures and unions, one inside the other, under eight combinations of the options; the types and the combinations are enumerated",
  "Tests use EasyMock_all_comparators, or one type, and compare one pair of objects.",
  [CT, LP], [("generateComposedTypedCompareSection", CT), ("setting the fields of a type", LP)], ["symbols the mock defines", "verdicts of the comparators"])
p("G09", "Mocks of C++ functions and methods see every argument and result unaltered",
  "For every supported C++ function (free, overloaded, in namespaces, with C linkage, variadic, with default arguments) and public, protected, private, virtual or overloaded method of a class, structure or union declared outside of other classes: the mock compiles with the header, whatever constructors, operators, templates and defined functions it contains; functions of the same name and signature in different namespaces or classes have mocks of their own, also in the order of calls; the matcher of a parameter is given the actual value, the expected value and the parameter's name; the call returns exactly the value of its expectation, references being to the very object given; outputs are written to exactly where the pointer arguments point; objects that own memory are copied with their own operations, so that everything they own is released exactly once; a call on another object than the one expected, if one was given, is reported. Not covered: static, noexcept, constexpr, reference- or volatile-qualified functions, trailing return types, two methods that differ only in const, types declared in namespaces or classes, wchar_t, char16_t and char32_t, rvalue references, and callback parameters declared without a typedef.",
  ["inputs", "configs"], "every value of arguments, results and outputs, every verdict of the matchers and choice of objects, for 25 methods and 50 functions; which functions, is enumerated",
  "The tests mock one function of one parameter at a time, with one value; a mix-up of two parameters, objects or references passes.",
  [CT, LP], [("C++ templates of the generated mock", CT), ("getNamespace, getFunctionReturnValue", LP)], ["arguments of the matchers", "return value, referred object and outputs", "easyMock_getErrorArr"])
p("G10", "C++ mocks keep the history guarantees of C mocks",
  "For mocks generated with --mock-cpp the guarantees C01 to C06 hold as well: the n-th call is matched against the n-th expectation of that function, unexpected calls and rejected parameters are reported exactly once, order checking reports exactly the calls out of order, the verdict of the check is right, and init resets everything.",
  ["histories", "inputs"], "every history of up to five (thorough: six) expectations, calls, inits and checks over three functions, all values and verdicts arbitrary",
  "Tests of C++ mocks make one expectation and one call.",
  [CT, FW + "src/easyMock.cpp"], [("generated C++ function body", CT), ("C++ mocked functions", FW + "include")], ["return value", "easyMock_check", "easyMock_getErrorArr"])

# How each property is decided: what is executed symbolically, against what oracle, what the bound leaves out.
_CORE = " The three functions of shapes/core.h (int foo(int), void bar(int), one with an output and a pointer result) stand for all mocks; that mocks of other signatures share the scheme is what G01, G03 and G09 add."
ORACLE = {
    "C01": "Framework and generated mock run the history; the oracle is a bookkeeping model in the harness (core.c: counts per function, unexpected, order and matcher errors since the last init), compared with the result of the check, the error text and the errors it adds. The verdict of the matchers is symbolic." + _CORE,
    "C02": "As C01; the oracle is a queue per function of symbolic expected, return and output values; each call's return value, output and mismatch errors must be those of the n-th entry." + _CORE,
    "C03": "As C01; the oracle counts expectations and calls and tells for each call whether one was left; number and text of errors, the output buffer and the remaining queue are compared." + _CORE,
    "C04": "As C01; the oracle is the global sequence of expected function names with its position, moved on by every call which had an expectation, whether or not order is checked at the time." + _CORE,
    "C05": "Each history is run, then init, and repeated; every later observation must be that of a fresh start (the oracle of C01 to C04 is reset), and the number of live heap bytes after init must not grow between repetitions." + _CORE,
    "C06": "Errors are reported through the framework interface (symbolic text, formats with strings and numbers) and through mocks; the oracle keeps the list of expected texts and compares array, terminator, text and repeated reads byte by byte.",
    "C07": "MockedFunction itself is driven with symbolic data; the oracle is the array of data given. Redzones around the object and the byte-precise heap show writes elsewhere; exit is intercepted.",
    "C08": "Records with counting callbacks of symbolic verdicts are registered and unregistered; the oracle is a set.",
    "C09": "Strings of symbolic characters are appended; the oracle is a flat buffer; the heap model shows leaks and double frees; allocation failures are symbolic.",
    "C10": "The helpers are compared with the C library model (replayed against the real library) on the same symbolic arguments.",
    "C11": "Each comparator is called with two symbolic values; the oracle is the language's == on the type (floats: Z3 floating-point).",
    "C12": "As C11; the message buffer sits between guard bytes; the oracle's text is made with the C library from the same values, and by hand for 128-bit values.",
    "C13": "The template is instantiated for each type with symbolic values; the oracle is == and <<.",
    "C14": "libunwind and libdwfl are replaced by models whose every answer is symbolic; the oracle makes the frame lines from those answers and counts sessions.",
    "G01": "Every mock gets two expectations and two calls with all bytes of all values symbolic; matchers are the harness's own: they record what they are given and return a symbolic verdict.",
    "G02": "Mock, header and the program's own functions are linked as one program: duplicate or missing definitions fail to link; each function is called with symbolic values and must behave as a mock or as the program's own, as the table of the harness says for the options.",
    "G03": "Destination buffers with guard bytes, sources and sizes symbolic; after each call every byte is compared with what the oracle says it must hold.",
    "G04": "Two objects of symbolic bytes; the oracle compares member by member with != as written by tools/mkcmp.py from the table the header is also written from; the comparators for pointers as well. With and without --generate-types.",
    "G05": "As G04 with one member differing; the oracle formats both values with the conversion for the member's type.",
    "G06": "One object of symbolic bytes is read through the original type in one translation unit and through the generated type in another, member by member, with sizes, offsets (by writing), signs and enumerator values; and the mocks of G01 and G03 are checked again with the generated types alone.",
    "G07": "As G02, with definitions of the program replacing the weak ones.",
    "G08": "The harness declares each comparator weak, so its absence shows at run time; verdicts on objects of symbolic bytes are compared with the table of compared fields for the options.",
    "G09": "As G01 for C++ mocks: symbolic arguments, references compared by address, the object on which the method is called against the one expected.",
    "G10": "The oracle of C01 to C06 on mocks generated with --mock-cpp.",
    "G12": "Each object is made from a list of choices and symbolic values, kept beside it as its description: two objects are equal when their descriptions are. For the symbolic runs boost::hash_combine is replaced by one without collisions (it pairs a running number with every different sequence of inputs), so that equal hashes mean that the same details went in; replays use the real one.",
    "G11": "The oracle of C01 to C06 on mocks of three headers in one program.",
    "P01": "CmdLineParser runs on symbolic words; the oracle is a second reading of the line, written from the documentation, in the harness; file kinds are symbolic.",
    "P02": "main, MainCodeGenerator and CmdLineParser are executed with a recording stand-in for the parser and the generator; chdir, stat and both verdicts are symbolic; the oracle relates line, recorded calls and exit status.",
    "P03": "generateCode runs with the template engine replaced by one that yields symbolic text and a file system model whose operations may fail; the oracle is the content of the two files and the verdict.",
}
