#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Parser accepts exactly the KDL 1.0 language",
 "Parsing a text to an AST succeeds if and only if the text is a KDL 1.0 document: every construct of the specification is accepted wherever the grammar allows it (identifiers, quoted and raw strings, numbers, keywords, type annotations, comments, escaped newlines, slashdash, children, every whitespace, newline and identifier character) and everything else is rejected with an error. Block comments whose text contains `//*` or `/*/` are excluded, because the KDL 1.0 grammar is ambiguous about them.",
 ["inputs"], "all texts (nesting up to 100 levels), both span types",
 "Unit tests try a few hundred short literals; the language is infinite and acceptance depends on interactions of whitespace, comments, escapes, slashdash and all 1.1M Unicode scalars.",
 ["src/grammar.rs", "src/wrappers.rs"],
 [("character classes ws_char/newline/id_char", "src/grammar.rs"), ("nodes/prop_or_arg/node_terminator combinators", "src/grammar.rs"), ("validate/try_map rejections", "src/grammar.rs")],
 ["Result of knuffel::parse_ast"])
prop("C02", "AST is a faithful image of the document",
 "For every accepted document the AST contains exactly the nodes, arguments, properties and children blocks that are not commented out by `/-`, in source order, each with its exact name and type annotation, at its own nesting level. When a property is repeated on a node the last value wins, and the children field is present exactly when the node has a (non commented) brace block, even an empty one.",
 ["inputs"], "all accepted documents",
 "Tests compare a handful of small trees; losing, duplicating, reordering or misplacing elements can depend on counts, positions, duplicates and slashdash combinations.",
 ["src/grammar.rs", "src/ast.rs"],
 [("node assembly from PropOrArg items", "src/grammar.rs nodes()"), ("slashdash filtering", "src/grammar.rs"), ("type names", "src/ast.rs TypeName")],
 ["public fields of ast::Document/Node/Value"])
prop("C03", "Literals denote exactly the value written in the source",
 "A string, raw string, identifier, boolean, null, integer (any radix, sign, underscores) or decimal in the source yields exactly the value that KDL 1.0 assigns to it, through the AST and through decoding into the Rust scalar types (all integer widths, f32, f64, String, PathBuf, Arc<str>, Arc<Path>, bool). A number that does not fit the target integer type is an error, never a wrapped, truncated or saturated value.",
 ["inputs"], "all literals, all builtin scalar types",
 "Tests have a few dozen literals; escapes, code points, digit counts, radixes and boundary values of ten integer types form an unbounded space.",
 ["src/grammar.rs", "src/convert.rs", "src/ast.rs"],
 [("esc_char/raw_string/number parsers", "src/grammar.rs"), ("TryFrom<&Integer>/TryFrom<&Decimal>, DecodeScalar impls", "src/convert.rs")],
 ["Literal of the AST", "decoded field values"])
prop("C04", "Layout and comments never change the meaning of a document",
 "Two documents that differ only in insignificant layout parse to the same AST (ignoring spans): amount and kind of whitespace, kind of newline, `;` versus newline versus line comment as terminator, line continuations, block and line comments, blank lines, a byte order mark, and inserted `/-` commented nodes, arguments, properties or children blocks. Permuting differently named properties, and moving properties relative to arguments, does not change it either.",
 ["inputs"], "all pairs of equivalent layouts of a document",
 "Tests fix one layout per case; the property relates two executions over unboundedly many layouts.",
 ["src/grammar.rs"],
 [("ws/node_space/line_space/esc_line/node_terminator", "src/grammar.rs"), ("slashdash filtering", "src/grammar.rs")],
 ["ast::Document of both parses"])
prop("C05", "Parsing, decoding and error rendering are total",
 "For every text and every derived target type, parsing and decoding return either a value or an error carrying at least one diagnostic; they never panic and never abort. Every returned error can be rendered (graphical, narrated, JSON, debug) without panicking and the rendering can read the source snippet.",
 ["inputs"], "all texts with nesting of children and comments up to 100 levels on a default-size stack; all derived types of the corpus",
 "Panics hide in rare inputs (unusual escapes at end of input, merges of unlike parse errors, multi-byte characters next to an error); tests only exercise known ones.",
 ["src/grammar.rs", "src/errors.rs", "src/wrappers.rs", "src/decode.rs", "src/convert.rs", "src/containers.rs", "src/convert_ast.rs", "derive/src/node.rs"],
 [("ParseError::merge and span arithmetic", "src/errors.rs, src/span.rs"), ("error recovery in strings", "src/grammar.rs"), ("emit_error with placeholder values", "src/convert.rs, src/decode.rs")],
 ["Result of parse/parse_ast, unwinding, exit status of the process, miette handlers"])
prop("C06", "Parsing and decoding cost grows about linearly with input size",
 "The number of instructions executed and the memory allocated to parse and decode a document of a given shape grow no faster than about n log n with the size of the document, whether it is valid or not. In particular no repeated construct (unclosed comments, strings, braces, slashdash, duplicate properties, long lines, many errors) makes work grow quadratically or exponentially.",
 ["inputs"], "repetition families of all constructs, sizes up to hundreds of kilobytes (nesting up to 100 levels)",
 "Tests use tiny inputs and never measure cost; super-linear backtracking only shows on large or adversarial documents.",
 ["src/grammar.rs", "src/span.rs", "src/traits.rs", "derive/src/node.rs"],
 [("bounded lookahead and non-overlapping alternatives", "src/grammar.rs"), ("incremental span tracking", "src/span.rs")],
 ["instruction count of the process under valgrind", "bytes allocated by the parse"])
prop("C07", "AST spans delimit exactly the source text of their element",
 "Every span in the AST is the exact byte range of its element: names and literals cover their token including quotes and raw string hashes, type names cover their parentheses, children blocks cover `{` to `}`, and a node covers its type name or name up to and including its terminator. Consequently spans lie on character boundaries, nest like the elements and are ordered like the source.",
 ["inputs"], "all accepted documents, including multi-byte characters, CRLF and comments",
 "Tests check a couple of ASCII spans; offsets depend on every preceding character and on the layout around every element.",
 ["src/grammar.rs", "src/span.rs", "src/traits.rs"],
 [("OffsetTracker", "src/span.rs"), ("spanned()/map_with_span placement", "src/grammar.rs")],
 ["Spanned::span() of every AST element"])
prop("C08", "Line and column positions agree with the source text",
 "Parsing with line tracking spans gives the same result as with byte spans: same acceptance, same AST and the same byte offsets. The line of each position is the number of KDL newlines before it (CRLF counts once) and its column is the display width of the line up to it (a tab counts 8, control characters 0), both zero-based.",
 ["inputs"], "all accepted documents, all newline kinds and character widths",
 "Only one test looks at a LineSpan; line and column depend on the entire prefix of the document.",
 ["src/span.rs", "src/traits.rs"],
 [("LineTracker::next_span", "src/span.rs"), ("LineSpan chumsky::Span impl", "src/span.rs")],
 ["LineSpan of every AST element"])
prop("C09", "Syntax errors point at the place of the error",
 "Every diagnostic of a syntax error lies within the source on character boundaries, names the character or token that is really at its position, and the first one does not start past the token in which the text stops being a prefix of a KDL document (identifiers used as arguments, numbers and keywords used as property names and bad escapes are checked after parsing and may be preceded by a later error). When nothing but a closing delimiter is missing, the unterminated string, raw string, block comment or brace block is reported as unclosed, with labels on its opening delimiter and on the end of input.",
 ["inputs", "fault_sequences"], "all texts obtained from documents by injecting a syntax fault; both span types",
 "Tests pin the message of some forty inputs; the location must be right for every fault at every place of every document.",
 ["src/grammar.rs", "src/errors.rs", "src/span.rs"],
 [("map_err_with_span -> Unclosed", "src/grammar.rs"), ("ParseError::merge, Unexpected spans", "src/errors.rs"), ("at_start/at_end/before_start", "src/span.rs")],
 ["miette labels and messages of knuffel::Error"])
prop("C10", "Decode errors point at and describe the offending element",
 "When a well-formed document does not match the target type, every diagnostic is labelled with the exact span of an element that is really wrong (the literal, type name, property name or node that is unexpected or invalid; the node that lacks something) and its message names what was expected and found there. A document with a single fault is reported at that fault and nowhere else.",
 ["inputs", "fault_sequences"], "all documents with injected type, arity, range, naming and presence faults, over a corpus of derived types",
 "Tests check messages for about thirty fixed documents, mostly without positions.",
 ["src/decode.rs", "src/convert.rs", "src/errors.rs", "derive/src/node.rs", "derive/src/variants.rs", "derive/src/scalar.rs"],
 [("DecodeError constructors", "src/errors.rs"), ("generated error branches", "derive/src/node.rs, derive/src/variants.rs")],
 ["miette labels and messages of knuffel::Error"])
prop("C11", "Arguments and properties decode into the declared fields",
 "A derived struct receives positional arguments in field order with the rest in the `arguments` field, and each property by its (kebab-case or explicit) name with the rest in the `properties` field, independent of the order of properties. Missing or null values of optional fields become None, missing values with a default become the default (and an explicit null of an optional field overrides the default), and a missing required or a surplus one is an error.",
 ["inputs", "programs"], "all documents and all struct definitions in the corpus (cross product of field kinds, scalar types, optionality and defaults, named and tuple structs)",
 "Tests have one struct per attribute; combinations of fields, orders, omissions and nulls are not sampled.",
 ["derive/src/node.rs", "derive/src/definition.rs", "src/containers.rs"],
 [("decode_args/decode_props generated code", "derive/src/node.rs"), ("attribute parsing and naming", "derive/src/definition.rs")],
 ["decoded values or error"])
prop("C12", "Children decode into the declared fields",
 "`child`, `children`, `children(name=..)`, `unwrap(..)` and boolean children put every child node into the field whose name matches (catch-all children take the rest), preserving document order. Absence of an optional, defaulted, boolean or list child is not an error, while a missing required child, a duplicate of a single child and a node nobody asked for are errors.",
 ["inputs", "programs"], "all documents and all struct definitions of the corpus, as a node and as a document root",
 "Tests sample one child list per attribute; routing depends on names, order, multiplicity and nesting of all siblings.",
 ["derive/src/node.rs", "derive/src/definition.rs", "src/containers.rs", "src/decode.rs"],
 [("decode_children/unwrap_fn generated code", "derive/src/node.rs"), ("check_flag_node", "src/decode.rs"), ("DecodeChildren for Vec", "src/containers.rs")],
 ["decoded values or error"])
prop("C13", "Flattened fields behave as if declared in the outer struct",
 "A struct with `flatten(child)`, `flatten(property)` or both accepts exactly the documents, and decodes exactly the values, of the struct that lists the optional properties and children of the flattened part directly. This holds for several flattened parts, nested flattening and flattened parts behind Box. Where several fields have the same name, the one declared first takes it.",
 ["inputs", "programs"], "all documents over the flatten corpus",
 "Two tests with two documents each; the statement relates two definitions over all documents.",
 ["derive/src/node.rs", "src/containers.rs", "src/traits.rs"],
 [("insert_child/insert_property (DecodePartial)", "derive/src/node.rs"), ("forwarding for Box/Rc/Arc", "src/containers.rs")],
 ["decoded values or error of flattened and inlined definitions"])
prop("C14", "Enums select exactly the variant named by the node or string",
 "A derived enum decodes a node to the variant whose kebab-case name equals the node name and to no other, with the contents decoded by that variant (unit, tuple fields, nested or optional nested struct); an unknown or skipped name is an error at the node name listing expected variants. A derived scalar enum decodes exactly the strings that are kebab-case names of its variants.",
 ["inputs", "programs"], "all node names and strings, all enum definitions of the corpus",
 "Tests try the happy path of three variants; confusion between similar names, skipped variants and variant shapes is not sampled.",
 ["derive/src/variants.rs", "derive/src/scalar.rs", "derive/src/definition.rs"],
 [("generated match on node name", "derive/src/variants.rs"), ("generated match on string", "derive/src/scalar.rs"), ("kebab-case naming", "derive/src/definition.rs")],
 ["decoded values or error"])
prop("C15", "str and bytes modes convert exactly and reject everything else",
 "A `str` field holds exactly what FromStr makes of the string literal, and a `bytes` field holds exactly the UTF-8 bytes of the string, or the bytes encoded by a string typed `(base64)`; optional ones accept null. Any other literal kind, any other type name, text rejected by FromStr and anything that is not valid standard padded base64 is an error.",
 ["inputs"], "all strings, all base64 texts, all literal kinds and type names, in arguments, properties, and unwrapped children",
 "Tests decode three fixed strings.",
 ["src/decode.rs", "derive/src/node.rs"],
 [("decode::bytes", "src/decode.rs"), ("decode_value for Str/Bytes", "derive/src/node.rs")],
 ["decoded values or error"])
prop("C16", "node_name, type_name and span fields report the node itself",
 "A `node_name` field holds the (parsed) node name, a `type_name` field the (parsed) type name or None, and a `span` field the span of the whole node as in the AST, converted to the declared span type, for any node at any depth and together with any other fields. A name rejected by the field type, or a missing required type name, is an error on that node.",
 ["inputs", "programs"], "all nodes with arbitrary names, type names and layout, over structs and enum variants",
 "Three tests with one document each.",
 ["derive/src/node.rs", "src/span.rs", "src/traits.rs"],
 [("decode_specials", "derive/src/node.rs"), ("DecodeSpan", "src/traits.rs, src/span.rs")],
 ["decoded values or error"])
prop("C17", "Nothing in the document is silently ignored or accepted on error",
 "Decoding into a derived type succeeds only if every argument, property, child node and type name of the document was consumed by some field that allows it; adding any single unexpected element anywhere to a document that decodes makes decoding fail. A decode that reports any error never yields a value, also when the error was only emitted into the context by a custom decoder.",
 ["inputs", "programs"], "all documents that decode and all single insertions into them",
 "Tests check a few unexpected elements at fixed places.",
 ["derive/src/node.rs", "derive/src/variants.rs", "src/decode.rs", "src/convert.rs", "src/wrappers.rs"],
 [("unexpected argument/property/node/type name branches", "derive/src/node.rs, derive/src/variants.rs"), ("has_errors gate", "src/wrappers.rs, src/decode.rs")],
 ["Ok/Err of knuffel::parse and decode::node"])
prop("C18", "Independent errors are all reported, in document order",
 "When a document decodes as a list of nodes, each faulty top-level node contributes at least one diagnostic of its own and no correct node contributes any, with diagnostics grouped in document order. Unless decoding of that struct stopped at another error, all unknown child nodes, all surplus elements of boolean or unit nodes and all builtin scalars of a wrong kind, range or type name of one struct are reported together.",
 ["inputs", "fault_sequences"], "all lists of nodes with any subset of them faulty",
 "No test has more than two errors in a document.",
 ["src/containers.rs", "src/decode.rs", "src/convert.rs", "src/wrappers.rs", "derive/src/node.rs"],
 [("Vec::decode_children emits and continues", "src/containers.rs"), ("Context::emit_error", "src/decode.rs")],
 ["related diagnostics of knuffel::Error"])
prop("C19", "Results depend only on the input, not on history or threads",
 "Parsing or decoding the same text with the same type gives the same value or the same list of diagnostics every time: in any order relative to other calls, after failures and panics elsewhere, on any thread and concurrently with other parses. A clone of an AST decodes like the original.",
 ["histories", "schedules", "inputs"], "all interleavings of calls over a mixed workload of valid and invalid documents and types",
 "Tests run each input once in a fresh state.",
 ["src/wrappers.rs", "src/grammar.rs", "src/decode.rs", "src/span.rs"],
 [("no shared state; fresh Context per call", "src/wrappers.rs")],
 ["results and diagnostics of repeated and concurrent calls"])
prop("C20", "CBOR encoding of an AST is lossless",
 "With the minicbor feature, encoding any AST (Document, Node, Value, Literal, TypeName, spans of both kinds) and decoding it back gives an AST equal in every element, value, type name and span; the decoded AST decodes into Rust types exactly like the original. Truncated encodings are rejected without a panic.",
 ["inputs"], "all ASTs of accepted documents, both span types",
 "There is no test of the CBOR support.",
 ["src/ast.rs", "src/span.rs"],
 [("minicbor derives", "src/ast.rs, src/span.rs"), ("TypeName codec", "src/ast.rs")],
 ["decoded AST"])
prop("C21", "Decoding into AST types keeps the whole subtree",
 "Decoding nodes into the AST node type, and values into the AST value and literal types, reproduces the parsed subtree exactly: names, type names, arguments, properties, children and all spans, including conversion from line spans to byte spans. This holds at any depth, under any wrapper and mixed with other fields.",
 ["inputs"], "all accepted documents",
 "One test compares one span.",
 ["src/convert_ast.rs", "src/containers.rs", "src/span.rs"],
 [("Decode for Node/SpannedNode, DecodeScalar for Value/Literal", "src/convert_ast.rs")],
 ["decoded AST values"])
prop("C22", "Wrapper types are transparent",
 "Replacing a type T by Box<T>, Rc<T>, Arc<T> or Spanned<T, _>, in scalar, child, children and document positions where they are supported, accepts the same documents with the same diagnostics and yields the same value; Spanned additionally carries the span of the literal. Option<T> as a scalar differs from T only in accepting null as None.",
 ["inputs", "programs"], "all documents over wrapped and unwrapped twins of definitions",
 "No test uses Rc, Arc or Spanned.",
 ["src/containers.rs"],
 [("Decode/DecodeChildren/DecodeScalar/DecodePartial for Box, Rc, Arc, Option, Spanned", "src/containers.rs")],
 ["decoded values or error"])
prop("C23", "Entry points agree and context reaches every decoder",
 "Parsing a text directly into a type gives the same value or the same diagnostics as parsing it to an AST and decoding that, with the given file name and the full text as the source of the error. A value put into the context is visible, by its type, to every custom decoder run for the document, the latest value of a type wins, other types do not interfere, and nothing leaks into a later call.",
 ["inputs", "histories"], "all documents, types and sequences of context operations",
 "Tests never compare entry points and never use a context.",
 ["src/wrappers.rs", "src/decode.rs"],
 [("parse/parse_with_context/parse_ast", "src/wrappers.rs"), ("Context::set/get", "src/decode.rs"), ("decode::node", "src/decode.rs")],
 ["values, diagnostics, source code of errors, context seen by decoders"])
prop("C24", "Value semantics of AST building blocks are lawful",
 "Spanned values compare, order, hash and borrow exactly like the wrapped value, regardless of span. Type names round-trip between text and TypeName, builtin type names correspond one to one to their text, equality follows the text, and literal equality holds exactly for equal kinds and values as written; node iteration, map and map_span preserve content.",
 ["inputs"], "all pairs of names, type names, literals and spans",
 "No test covers these traits.",
 ["src/span.rs", "src/ast.rs"],
 [("PartialEq/Ord/Hash/Borrow for Spanned", "src/span.rs"), ("TypeName/BuiltinType conversions", "src/ast.rs")],
 ["results of the public trait methods"])
prop("C25", "Optional features do not change the meaning of documents",
 "With any combination of the crate features (derive, base64, line-numbers, minicbor) the same documents are accepted with the same AST, diagnostics and decoded values. The only difference is that without base64 a value typed `(base64)` for a bytes field is reported as unsupported instead of being decoded.",
 ["configurations", "inputs"], "feature combinations x documents",
 "Tests run with all features only.",
 ["Cargo.toml", "src/lib.rs", "src/decode.rs", "src/span.rs", "src/ast.rs"],
 [("cfg(feature) gates", "src/decode.rs, src/span.rs, src/ast.rs, src/lib.rs")],
 ["outputs of the same workload built under each feature set"])
prop("C26", "Derives accept documented declarations and reject contradictory ones",
 "Every struct, tuple struct, new type, enum or scalar enum declared as the documentation of the derives allows compiles and implements the decoding traits the documentation promises, whatever mix of field kinds, attributes, wrappers, defaults, collections, generics with a span type and field names it uses. A contradictory declaration (two modes, decode modes, defaults or unwraps on a field; an argument, property or child field after the catch-all of its kind; str or bytes on something that is not a scalar; unnamed property or child in a tuple; optional flatten; unknown or misplaced attribute; a derive on an unsupported kind of item) is rejected by a compile error at that declaration. A type with required fields cannot be flattened and one with arguments or properties cannot be used as a document.",
 ["programs"], "all declarations of types that use the derives",
 "The tests compile some 60 valid declarations and no invalid one.",
 ["derive/src/definition.rs", "derive/src/node.rs", "derive/src/variants.rs", "derive/src/scalar.rs"],
 [("attribute and field rules", "derive/src/definition.rs"), ("emitted trait implementations", "derive/src/node.rs, derive/src/variants.rs, derive/src/scalar.rs")],
 ["diagnostics of the compiler for each declaration"])
for p in P: print(json.dumps(p, ensure_ascii=False))
