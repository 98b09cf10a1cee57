#!/usr/bin/env python3
# Writes properties.jsonl from the table below (kept as code so the anchors stay readable).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

p("C01","Linear-memory round trip of component values",
 "Storing a component value into linear memory at an aligned, in-bounds address and loading it back with the same type gives an equal value, whatever the other contents of memory. A float that is a NaN comes back as the canonical NaN. This holds for every value type without handles: numbers, bools, chars, records, tuples, variants, unions, enums, options, results, flags and lists.",
 ["inputs","configurations"],"for all types (nested to the stated depth), all values of the type, all aligned addresses, all prior memory contents",
 "The round-trip tests use a handful of hand-written values per type at one address in zeroed memory; they reach one payload per variant case, no dirty memory, and no type nesting besides the listed ones.",
 ["abi/io/store.go","abi/io/load.go","abi/io/size.go","abi/io/alignment.go","abi/io/despecialize.go"],
 [("Store and its per-type helpers","abi/io/store.go"),("Load and its per-type helpers","abi/io/load.go")],["abi/io.Store","abi/io.Load"])
p("C02","Flat (core value) round trip of component values",
 "Lowering a component value to its flat sequence of core values and lifting that sequence back with the same type gives an equal value and consumes the whole sequence. The lowered sequence has exactly the number and kinds of core values that the type flattens to, including the widened slots of variants whose cases flatten differently.",
 ["inputs","configurations"],"for all types (nested to the stated depth, handles excluded) and all values of the type, under every reachable choice of variant case",
 "Tests check a few literal values for each flat shape; the variant slot widening (i32/i64/f32/f64 joins, sign and bit reinterpretation, padding) is exercised for a handful of payloads only.",
 ["abi/io/lower.go","abi/io/lift.go","abi/io/flatten.go","abi/values/coerce_value_iterator.go","abi/values/value.go"],
 [("LowerFlat family","abi/io/lower.go"),("LiftFlat family","abi/io/lift.go"),("join/flatten","abi/io/flatten.go"),("coercing iterator","abi/values/coerce_value_iterator.go")],
 ["abi/io.LowerFlat","abi/io.LiftFlat","abi/io.FlattenType"])
p("C03","Size, alignment and flattening follow the canonical ABI layout",
 "For every component type the reported alignment, byte size, discriminant width and flattened core types are those of the Canonical ABI: fields in order at their aligned offsets, sizes rounded up to the alignment, discriminants of 1, 2 or 4 bytes by case count, flags of 1, 2 or 4n bytes, and joined slots for variants. Rounding an address up to an alignment gives the least multiple that is not smaller, or an error when that multiple exceeds 32 bits.",
 ["inputs","configurations"],"for all type trees to the stated depth and width, all case and label counts, all addresses representable in 32 bits",
 "The tests list about forty concrete types; counts at the 1/2/4-byte boundaries and nested combinations are only sampled.",
 ["abi/io/size.go","abi/io/alignment.go","abi/io/flatten.go","abi/io/despecialize.go"],
 [("Size/SizeRecord/SizeVariant/SizeFlags","abi/io/size.go"),("Alignment/AlignTo/DiscriminantType","abi/io/alignment.go"),("FlattenType/FlattenFuncType*","abi/io/flatten.go")],
 ["abi/io.Size","abi/io.Alignment","abi/io.FlattenType","abi/io.FlattenFuncTypeLift","abi/io.FlattenFuncTypeLower"])
p("C04","Stores stay inside their destination and reject bad addresses",
 "Storing a value changes no byte of memory outside the value's own bytes and the blocks obtained from the guest allocator. A destination or an allocator result that is misaligned, or whose bytes do not all lie inside memory (also when address plus length exceeds 32 bits), is refused with an error, never a crash. A host value that does not belong to the type is refused with an error, too.",
 ["inputs","configurations","fault_sequences"],"for all addresses in 32 bits, all allocator answers, all values and memory sizes within the bound",
 "Tests only store at valid aligned addresses with a well-behaved bump allocator; no test passes a bad or wrapping address.",
 ["abi/io/store.go","abi/io/lower.go","abi/io/canon_lower.go"],
 [("StoreValidate","abi/io/store.go"),("list and string stores","abi/io/store.go"),("LowerValuesToTuple","abi/io/canon_lower.go")],["abi/io.Store","abi/io.LowerFlat"])
p("C05","Loading from untrusted guest memory is total and in-domain",
 "Loading a value of any type from any address of any memory contents terminates and returns either a value that belongs to the type or an error; it never crashes. Pointers and lengths read from memory that are misaligned or reach outside memory, discriminants that name no case, and numbers that are not valid characters are errors.",
 ["inputs","configurations"],"for all memory contents, all 32-bit addresses, pointers and lengths, all types within the bound",
 "Tests load a few hand-written layouts and a few bad ones; wrap-around of pointer plus length, truncated memory and invalid discriminants nested in other types are not reached.",
 ["abi/io/load.go","abi/io/size.go"],
 [("Load bounds and alignment checks","abi/io/load.go"),("LoadListFromRange, LoadStringFromRange, LoadVariant, ConvertU32ToRune","abi/io/load.go")],["abi/io.Load"])
p("C06","Lifting arbitrary core values is total, in-domain and reduces correctly",
 "Lifting any sequence of core values with any type returns a value of the type or an error, never a crash; a sequence that is too short or of the wrong kinds is an error. Narrow integers take the value of the low bits with the right signedness, any nonzero number is true, flags ignore bits beyond their labels, and bad characters or discriminants are errors.",
 ["inputs","configurations"],"for all core value bit patterns, all types within the bound, sequences of every length up to and one past the flattened length",
 "Tests give a few literals per type, and never a short sequence or a wrong kind.",
 ["abi/io/lift.go","abi/values/value.go","abi/values/coerce_value_iterator.go"],
 [("LiftFlat family","abi/io/lift.go"),("value iterator","abi/values/value.go")],["abi/io.LiftFlat"])
p("C07","Floats cross the boundary bit-exactly, and every NaN becomes canonical",
 "A float moved in either direction between a component value and core values or memory keeps its exact bits when it is not a NaN, and becomes the canonical NaN of its width when it is. This includes floats that travel through widened integer slots of variants.",
 ["inputs"],"for all 2^32 float32 and all 2^64 float64 bit patterns, both directions, flat, memory and variant paths",
 "The NaN tests sample a handful of patterns per width.",
 ["abi/io/canonicalize.go","abi/io/lift.go","abi/io/lower.go","abi/io/load.go","abi/io/store.go"],
 [("canonicalisation","abi/io/canonicalize.go"),("coercions","abi/values/coerce_value_iterator.go")],["abi/io.LiftFlat","abi/io.LowerFlat","abi/io.Load","abi/io.Store"])
p("C08","Strings survive storing and loading in every guest encoding",
 "A valid Unicode string stored by a guest of any supported string encoding and loaded back is the same string, and the length written next to the pointer counts code units of that encoding, tagged when the dual encoding chose UTF-16. A string length or pointer that does not fit the memory, or is misaligned for the encoding, is an error and not a crash.",
 ["inputs","configurations"],"for all strings up to the stated number of code points (every code point class), all encodings, all pointers and lengths",
 "Tests use a fixed list of about ten strings; they do not vary code points at class boundaries, surrogates or wrap-around lengths.",
 ["abi/io/store.go","abi/io/load.go","abi/io/code_units.go","encoding/codec.go","encoding/utf8.go","encoding/utf16.go","encoding/latin1.go","encoding/factory.go"],
 [("StoreStringIntoRange/StoreStringDynamic","abi/io/store.go"),("LoadStringFromRange","abi/io/load.go"),("tagged code units","abi/io/code_units.go"),("codecs","encoding/")],["abi/io.Store","abi/io.Load","encoding.EncodeString","encoding.DecodeString"])
p("C09","Handle tables never confuse live handles",
 "After any sequence of additions and removals every index returned by an addition that has not been removed still yields exactly the handle that was added, and every removed or never-issued index is an error. An addition never returns an index that is still live, and tables of different resource types do not affect each other.",
 ["histories","inputs"],"for all histories of add, get and remove, with all index arguments, on one or several resource types (inductive step over all valid table states)",
 "The one handle test runs a single fixed script of operations and looks only at lengths.",
 ["abi/types/handle.go"],
 [("HandleTable.Add/Get/Remove","abi/types/handle.go"),("HandleTables","abi/types/handle.go")],["abi/types.HandleTable","abi/types.HandleTables"],
 [("Array","slots, nil when free","abi/types/handle.go"),("Free","indices available for reuse","abi/types/handle.go")])
p("C10","Ownership and borrowing of resource handles is enforced",
 "Lifting an owned handle removes it from the source and refuses borrowed, lent or unknown handles; lifting a borrow counts one lend against the owner until the call ends; lowering creates a handle with the right ownership in the receiver. A call cannot finish while borrows it received are outstanding, and dropping a handle refuses lent or unknown handles and runs the destructor exactly once for an owned handle.",
 ["histories","inputs"],"for all handle states (own or borrow, any lend count, any scope), all indices, all outcomes of the destructor",
 "The tests exercise one happy path per operation, and no lent, borrowed or foreign handle.",
 ["abi/io/lift.go","abi/io/lower.go","abi/io/canon.go","abi/types/context.go","abi/types/handle.go"],
 [("LiftOwn/LiftBorrow","abi/io/lift.go"),("LowerOwn/LowerBorrow","abi/io/lower.go"),("CanonResourceNew/Rep/Drop","abi/io/canon.go"),("call context lenders and borrow count","abi/types/")],["abi/io.LiftFlat","abi/io.LowerFlat","abi/io.CanonResourceDrop"])
p("C11","Cross-component calls deliver arguments and results unchanged and in order",
 "Calling a lifted function with component values delivers exactly those values to the core function and its results back to the caller, in parameter order. This also holds when there are more values than fit the flat limit, so that they travel through memory as one tuple.",
 ["inputs","configurations"],"for all parameter and result lists up to the stated count (below, at and above the flat limits 16 and 1), all values",
 "Tests call functions with a few small signatures, below the flat limits.",
 ["abi/io/canon_lift.go","abi/io/canon_lower.go","abi/io/flatten.go"],
 [("LiftValues/LowerValues","abi/io/canon_lift.go, abi/io/canon_lower.go"),("CanonLift/CanonLower","abi/io/canon_lift.go, abi/io/canon_lower.go")],["abi/io.CanonLift","abi/io.CanonLower","abi/io.LiftValues","abi/io.LowerValues"])
p("C12","Component instance entry and exit guards are enforced",
 "A call into an instance that may not be entered, or out of an instance that may not be left, is refused before any guest code runs. While an instance calls an import it may not be re-entered. While guest code is lowering values the instance may not be left; after any call that succeeds the instance has the same entry and exit permissions as before, and post-return runs exactly once after the results are lifted.",
 ["inputs","histories","fault_sequences"],"for all combinations of permission flags, values and outcomes (success or failure) of the guest function, conversions and post-return",
 "Tests only start from instances with both permissions set and a callee that succeeds.",
 ["abi/io/canon_lift.go","abi/io/canon_lower.go","abi/types/component_instance.go"],
 [("may-enter / may-leave flags","abi/io/canon_lift.go, abi/io/canon_lower.go")],["abi/io.CanonLift","abi/io.CanonLower"])
p("C13","LEB128 encoding round trips and is minimal",
 "Encoding any 32-bit unsigned number writes its shortest LEB128 form and reports the number of bytes written. Decoding those bytes, followed by anything, gives back the number and reports exactly that many bytes consumed, with every decoder. An error of the writer is returned.",
 ["inputs"],"for all 2^32 values and all following bytes",
 "Tests sample eight values.",
 ["leb128/encode.go","leb128/decode.go"],[("Encode","leb128/encode.go"),("Decode, DecodeReader, DecodeSlice","leb128/decode.go")],["leb128.Encode","leb128.Decode","leb128.DecodeReader","leb128.DecodeSlice"])
p("C14","LEB128 decoders agree and reject malformed input",
 "On every byte sequence the stream, buffered and slice decoders agree on the value, the number of bytes consumed and whether there is an error. Input that ends inside a number, a number longer than five bytes, and a number that does not fit 32 bits are errors; this does not depend on how the reader splits or ends its data.",
 ["inputs","fault_sequences"],"for all byte sequences to the stated length, all reader behaviours allowed by the reader contract (data together with end-of-file, or before it, short reads)",
 "Tests give valid encodings only.",
 ["leb128/decode.go"],[("Decode, DecodeReader, DecodeSlice","leb128/decode.go")],["leb128.Decode","leb128.DecodeReader","leb128.DecodeSlice"])
p("C15","Binary module reader reproduces the encoded module",
 "Reading the binary encoding of a module made of the supported sections returns a document with the same function types, functions with their types, locals and instructions, and exports with names and indices, in order. Unsupported sections are skipped as a whole without affecting the rest, and the layer and version of the preamble decide between module and component. A section or function body whose declared size disagrees with its contents, a byte that is no type form, value type, export kind or instruction where one is required, a truncated module, and function and code sections of different length are errors.",
 ["inputs"],"for all modules within the stated counts, all value types, indices, names and instruction sequences, with any skipped section contents between sections",
 "Tests read three fixed files.",
 ["binary/read.go","binary/binary.go"],[("Read, ReadModule and section readers","binary/read.go")],["binary.Read"])
p("C16","Binary reader is total and bounded on arbitrary bytes",
 "Reading any sequence of bytes terminates with a document or an error and never crashes. The memory it asks for is proportional to the input it has actually read, not to counts or sizes the input merely claims (only the locals of a function are written as counts; they are limited to 50000).",
 ["inputs","fault_sequences"],"for all byte strings to the stated length, including all claimed counts and sizes up to 2^32-1",
 "Tests read well-formed files only.",
 ["binary/read.go","leb128/decode.go"],[("section and vector readers","binary/read.go")],["binary.Read"])
p("C17","WebAssembly text tokens tile the source with exact positions",
 "Lexing any source text ends, and the tokens returned before the end of stream, put end to end, are exactly the source, each token non-empty and starting where the previous one stopped. Line and column of each token are those of its first character, and text that belongs to no token (such as an unterminated string or comment) is an error, not silently dropped.",
 ["inputs"],"for all byte strings to the stated length, and longer ones made of strings, comments and line breaks with any bytes inside",
 "Tests lex about seventy chosen inputs of one or a few tokens and mostly look at the token type.",
 ["wat/lex/lexer.go","wat/lex/dfa.go","wat/lex/string.go","wat/lex/state.go"],[("longest-match rules","wat/lex/lexer.go"),("automata","wat/lex/dfa.go")],["wat/lex.Lexer.Next"])
p("C18","WebAssembly text tokens are classified as the grammar says",
 "Every lexed word is classified as integer, float, identifier, string, keyword or reserved exactly when the WebAssembly text grammar says so (the keywords being those that start a document), including signs, underscores, hexadecimal forms, exponents, inf and nan payloads. The longest match wins.",
 ["inputs"],"for all words to the stated length over all bytes",
 "Tests list about forty words; number grammar corner cases (underscore placement, exponent forms, payload digits) are sampled.",
 ["wat/lex/lexer.go","wat/lex/dfa.go"],[("isInteger/isFloat classification","wat/lex/lexer.go")],["wat/lex.Lexer.Next"])
p("C19","Looking ahead and cloning never change what a lexer returns",
 "Peeking any number of times, at any point, does not change the tokens or errors that follow, and reports what the next read will return. A clone continues independently from the same point, and errors in the text are returned as errors by peek as by next, never as a crash.",
 ["inputs","histories"],"for all source strings to the stated length and all interleavings of peek, next and clone to the stated length, in both text lexers",
 "Peek and Clone are only used indirectly by parser tests on valid input.",
 ["wat/lex/lexer.go","wit/lex/lexer.go"],[("Peek/Next/Clone","wat/lex/lexer.go, wit/lex/lexer.go")],["wat/lex.Lexer","wit/lex.Lexer"])
p("C20","Numeric constants in module text denote their exact value",
 "An integer or float constant written in the text format parses to the value the WebAssembly specification gives it: decimal and hexadecimal, signs, underscores, wrap-around of the unsigned range, correctly rounded floats, signed zero, infinities and NaN payloads. Values that do not fit the type are errors.",
 ["inputs"],"for all literals of the stated shapes and all their digits, 32- and 64-bit integers and floats",
 "Tests parse a few dozen constants.",
 ["wat/parse/parser.go"],[("parseInt32/parseInt64/parseFloat32/parseFloat64","wat/parse/parser.go")],["wat/parse.ParseInt32","wat/parse.ParseInt64","wat/parse.ParseFloat32","wat/parse.ParseFloat64","wat/parse.Parse"])
p("C21","Module text parser is total",
 "Parsing any text as a module, component or script terminates and returns either a syntax tree without holes or an error; it never crashes and never hangs.",
 ["inputs"],"for all token sequences to the stated length over the parser's vocabulary, and all byte strings to the stated length",
 "Tests parse valid inputs, and a few invalid ones.",
 ["wat/parse/parser.go","wast/parse/parser.go","wat/lex/lexer.go"],[("recursive descent with recover","wat/parse/parser.go, wast/parse/parser.go")],["wat/parse.Parse","wast/parse.Parse"])
p("C22","Module text parser keeps structure: what is written is what is returned",
 "The syntax tree of a valid module text contains every function with its identifier, parameters, results, locals and instructions with their operands in order, and every memory, table, type and export declaration with the written numbers and names. Whitespace and comments between tokens make no difference.",
 ["inputs"],"for all module texts generated from the stated grammar fragment, with symbolic choices of production, identifiers and numbers",
 "Tests compare a limited list of modules, each with one layout of whitespace.",
 ["wat/parse/parser.go","wat/ast/ast.go"],[("section and instruction parsers","wat/parse/parser.go")],["wat/parse.Parse"])
p("C23","Script parser returns every directive with its expected values",
 "Parsing a test script returns each directive in order, with the invoked function name, the constant arguments and the expected results or messages exactly as written.",
 ["inputs"],"for all scripts of the stated directive forms, with symbolic names, constants and number of arguments and results",
 "Tests parse five short scripts.",
 ["wast/parse/parser.go","wast/ast/ast.go"],[("directive parsers","wast/parse/parser.go")],["wast/parse.Parse"])
p("C24","WIT tokens tile the source with exact positions and right kinds",
 "Lexing any WIT text ends, and the tokens put end to end are the source text, with exact line, column and offset; keywords, identifiers (also escaped), integers, punctuation and nested comments are classified as the grammar says. Text that belongs to no token is an error.",
 ["inputs"],"for all byte strings to the stated length",
 "Only lexing of a few single tokens is tested.",
 ["wit/lex/lexer.go","wit/token/types.go"],[("WIT lexer","wit/lex/lexer.go")],["wit/lex.Lexer.Next"])
p("C25","WIT parser is total and rejects text outside the grammar",
 "Parsing any WIT text terminates and returns a syntax tree or an error, never a crash; text that is not a sequence of complete WIT items, or names something that is not a type where a type is required, is an error rather than being accepted with parts missing.",
 ["inputs"],"for all token sequences to the stated length over the WIT vocabulary",
 "The parser tests need data that is not in the repository and do not run.",
 ["wit/parse/parser.go"],[("recursive descent with recover","wit/parse/parser.go")],["wit/parse.Parse"])
p("C26","WIT parser keeps structure: what is written is what is returned",
 "The syntax tree of valid WIT text contains every item in order with its names and types: package identifiers with versions, interfaces, worlds, functions with parameters and results, records, variants, enums, flags, resources, uses and type aliases, and primitive and container types with their element types.",
 ["inputs"],"for all WIT texts generated from the stated grammar fragment, with symbolic choices of production and types",
 "The parser tests need data that is not in the repository and do not run.",
 ["wit/parse/parser.go","wit/ast/ast.go"],[("item, type and path parsers","wit/parse/parser.go")],["wit/parse.Parse"])
p("C27","Instantiating a module gives every function its own address",
 "Instantiating a module appends exactly its functions to the store, leaves the functions already there unchanged, and records for each function index an address at which the store holds that very function. The instance has the types of the module, and looking up an export by name gives the address of the exported function; other names are not found, and a module that exports a function it does not have is refused.",
 ["inputs","histories"],"for all modules and pre-existing stores within the stated function counts, and all export names looked up",
 "There is no test of instantiation.",
 ["runtime/instance.go","instance/","address/"],[("NewModuleInstance/GetExport","runtime/instance.go")],["runtime.NewModuleInstance"])
p("C28","Codecs encode and decode text faithfully in every encoding",
 "Encoding valid Unicode text with any codec gives exactly the bytes of that encoding and decoding those bytes gives the text back, however the reader splits its data; text that the encoding cannot represent is an error, and errors of the reader and the writer are returned. Malformed or truncated text is refused or marked with the replacement character, never dropped. Looking a codec up by name gives the codec of that name with its code unit size and alignment, and an unknown name is an error.",
 ["inputs"],"for all texts to the stated number of characters, all byte strings to the stated length and all codec names to the stated length",
 "The tests round-trip a few fixed strings read in one piece.",
 ["encoding/codec.go","encoding/factory.go","encoding/helper.go","encoding/latin1.go","encoding/utf8.go","encoding/utf16.go"],[("codec and factory","encoding/codec.go")],["encoding.EncodeString","encoding.DecodeString","encoding.DefaultFactory"])
p("C29","Module text and scripts outside the grammar are refused",
 "A text is parsed without an error exactly when it belongs to the supported part of the WebAssembly text grammar: declarations and instructions have all their parts, each as often and in the order the grammar has it, every index, type, number and string stands where one is required, and parentheses match. The same holds for test scripts and their directives. Nothing that was written is accepted and then dropped.",
 ["inputs"],"for all token sequences over the vocabulary to the stated length in every context, all orders of the parts of declarations, all single-token edits of complete texts, and words of any letters in every context",
 "The tests parse well-formed texts only.",
 ["wat/parse/parser.go","wast/parse/parser.go"],[("recursive descent with recover","wat/parse/parser.go"),("script directives","wast/parse/parser.go")],["wat/parse.Parse","wast/parse.Parse"])
p("C30","Text decoder accepts exactly one module or component",
 "Decoding text from a reader gives a module or a component, whichever is written, when the text is exactly one of them (with whitespace and comments around it), and an error otherwise, never a crash or a nil directive. The result does not depend on how the reader splits its data, and an error of the reader is returned. The decoded module has the functions of the text.",
 ["inputs","fault_sequences"],"for all bytes to the stated number in front of, inside and behind modules and components, and a reader failing at any place",
 "There is no test of the text decoder.",
 ["wat/decoder.go"],[("Decode","wat/decoder.go")],["wat.Decoder.Decode"])
p("C31","Core value iterators return every value once, in order and as its kind",
 "Reading core values one after another returns them in order, each exactly once and with its exact bits, when it is asked for by its own kind; asking for another kind, or past the end, is an error, and index and length tell how many were read and how many there are. Read through the widened slots of a variant a value is reinterpreted without loss: 32-bit integers as floats, and 64-bit slots by their low 32 bits or all bits, as the wanted kind has it.",
 ["inputs"],"for all sequences of core values to the stated length, of all kinds and with all bits, and all kinds asked for",
 "There is no test of the iterators; they are only used by lifting tests with matching kinds.",
 ["abi/values/"],[("NewIterator/NewCoerceValueIterator/Zero","abi/values/")],["abi/values.NewIterator","abi/values.NewCoerceValueIterator","abi/values.Zero"])
p("C32","Lexer rules match exactly their pattern, and the first rule listed wins",
 "A lexer rule made of a string, or of the automaton for a string, starts with the first byte of that string, continues with exactly its bytes in order, accepts exactly when all of them have been read, and takes nothing after that. Of two rules that match the same text the one listed first gives the token its type.",
 ["inputs"],"for all patterns and texts to the stated lengths, with both kinds of rule",
 "The tests only lex with the built-in rules, of which two are strings of one character.",
 ["wat/lex/string.go","wat/lex/dfa.go","wat/lex/lexer.go"],[("StringRule/DfaRule/FromString","wat/lex/string.go, wat/lex/dfa.go")],["wat/lex.StringRule","wat/lex.DfaRule","wat/lex.FromString"])
p("C33","Values, documents and text share no storage with what they were made from",
 "A value that was loaded or lifted, a module that was read and a text that was decoded stay the same when the memory or the bytes they came from are overwritten later, or when another value made from the same memory is changed. Storing, lowering, reading and encoding leave the host value, the core values and the bytes they are given as they were. Flattened types, lowered sequences and encoded texts are not changed by later calls.",
 ["inputs","histories"],"for all types to two levels, all values, all memory contents before and after, and all texts and modules within the stated bounds",
 "No test changes memory or input after loading, or looks at what was passed in.",
 ["abi/io/","abi/values/","binary/read.go","encoding/codec.go","encoding/helper.go"],[("loaded values and memory","abi/io/load.go"),("flattened types","abi/io/flatten.go"),("documents and bytes","binary/read.go")],["abi/io.Load","abi/io.Store","abi/io.LiftFlat","abi/io.LowerFlat","abi/io.FlattenType","binary.Read","encoding.Encode","encoding.Decode"])
p("C34","Results do not depend on what was processed before",
 "Lexing, parsing, reading binary modules, encoding and decoding text, and storing, loading, lowering and lifting values give the same result whatever was processed before, successfully or not. Two lexers can be used in turns, a codec and a call context can be used again after a failure, and numbers written one after another are read one after another.",
 ["inputs","histories"],"for all inputs to the stated size, each before and after an operation on another input out of the stated families, malformed ones included",
 "Every test uses fresh lexers, codecs and contexts for one input.",
 ["wat/lex/lexer.go","wat/parse/parser.go","wast/parse/parser.go","wit/lex/lexer.go","wit/parse/parser.go","binary/read.go","encoding/codec.go","abi/io/","leb128/"],[("lexer rules shared by lexers","wat/lex/lexer.go"),("codecs","encoding/codec.go"),("call contexts","abi/types/context.go")],["wat/lex.Lexer.Next","wit/lex.Lexer.Next","wat/parse.Parse","wast/parse.Parse","wit/parse.Parse","binary.Read","encoding.EncodeString","abi/io.Load"])
open(__import__("os").path.dirname(__import__("os").path.abspath(__file__))+"/../properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
