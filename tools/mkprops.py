#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one-off authoring helper; the jsonl is the committed artefact)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or [],hook_needed=None)))
I=["inputs"]
p("C01","Types: printed text parses back to the same type",
  "Printing any FIRRTL type (ground types with any optional width or point, clocks, both reset kinds, vectors, bundles with plain and flipped fields, nested arbitrarily) yields text which the type parser accepts completely and turns into an equal type. Field names, orientations, widths, vector lengths and the order of fields all survive.",
  I,"every value of the type AST whose names are legal names, including every combination of present and absent widths",
  "quickcheck samples a few hundred small random types and never generates reset types; a variant whose writer and reader disagree only for one combination is not sampled",
  ["src/types/parsers.rs","src/types/ground.rs","src/types/type.rs","src/types/display.rs","src/display.rs","src/parsers.rs"],
  [("type and field parsers","src/types/parsers.rs"),("Display for Type, BundleField, GroundType","src/types/type.rs, src/types/ground.rs"),("comma separated lists","src/display.rs")],["Type::to_string / circuit parse"])
p("C02","Expressions: printed text parses back to the same expression",
  "Printing any expression the parser can produce (literals, references, sub-fields, sub-indices, sub-accesses, mux, validif and every primitive operation, nested arbitrarily) yields text which the expression parser accepts completely and turns into an equal expression. Every operand and every integer parameter keeps its position, and no operation is read back as another one.",
  I,"every expression tree over resolvable references",
  "random expression trees are small and drawn by a generator which never builds several operations; operand swaps between operations of equal shape go unnoticed unless sampled",
  ["src/expr.rs","src/expr/primitive.rs","src/expr/parsers.rs","src/parsers.rs"],
  [("expression parser","src/expr/parsers.rs"),("Display for Expression and Operation","src/expr.rs, src/expr/primitive.rs")])
p("C03","Statements: printed text parses back to the same statement",
  "Printing any statement (connections, partial connections, skip, wire and node declarations, invalidation, attach, conditionals with else and else-when chains, stop, printf) at any indentation yields text which the statement parser accepts completely and turns into an equal statement. The attached info and the optional names, in both present and absent form, survive. The one exception is an empty branch of a conditional, which is written as, and thus read back as, a single `skip`.",
  I,"every statement the parser can produce whose references resolve, at every indentation level, with and without info",
  "the test generator never attaches info to statements and samples small random blocks",
  ["src/stmt.rs","src/stmt/parsers.rs","src/stmt/display.rs","src/info.rs"],
  [("statement parsers","src/stmt/parsers.rs"),("DisplayIndented for Statement","src/stmt.rs"),("entity declarations and statement lists","src/stmt/display.rs")])
p("C04","Memories, registers, ports, instances: printed text parses back the same",
  "Printing any memory, register, simple (CHIRRTL) memory, simple memory port, module instance or module port yields text which the matching parser accepts completely and turns into an equal value. Depths, latencies, read-under-write behaviour, resets, clocks, addresses, directions, data types and the order of ports survive.",
  I,"every such value over resolvable references, with every optional part present or absent",
  "each kind is sampled by random generation only; optional parts (reset, read-under-write, info) are combined rarely",
  ["src/memory/mem.rs","src/memory/display.rs","src/memory/register.rs","src/memory/simple.rs","src/memory/common.rs","src/memory/parsers.rs","src/module.rs","src/module/parsers.rs"],
  [("memory entry parsers","src/memory/parsers.rs"),("Display impls","src/memory/*.rs, src/module.rs")])
p("C05","Modules and circuits: printed text parses back to the same design",
  "Printing any module or external module (ports, body, defname, parameters) yields text which the module parser accepts completely and turns into an equal module, and a printed circuit starts with a header which the circuit parser accepts and which preserves the top module's name and the circuit's info. Info attached to modules and ports and the value and kind of every parameter survive.",
  I,"every module over resolvable references, every parameter value, every header",
  "the generator never produces floating point parameters or info on modules; only small random circuits are sampled",
  ["src/module.rs","src/module/parsers.rs","src/circuit.rs","src/circuit/parsers.rs"],
  [("module parser","src/module/parsers.rs"),("circuit header parser","src/circuit/parsers.rs"),("DisplayIndented for Module, Display for Circuit, ParamValue","src/module.rs, src/circuit.rs")])
p("C06","Quoted text survives printing and parsing character by character",
  "For every character, the escaped form written into info attributes, string parameters and printf format strings is read back as exactly that character, and never terminates the quoted text early nor is taken for a format specifier. The reader and the writer of each quoted context agree on the complete escape table and on the mapping of format specifiers.",
  I,"every Unicode character at every position of an info text, a string parameter and a printf literal",
  "tests only draw printable ASCII texts, a handful of characters each",
  ["src/info.rs","src/parsers.rs","src/module.rs","src/module/parsers.rs","src/stmt/display.rs","src/stmt/parsers.rs"],
  [("unquoted_string","src/parsers.rs"),("fmt_string_part","src/stmt/parsers.rs"),("Display for Info, ParamValue, FormatString","src/info.rs, src/module.rs, src/stmt/display.rs")])
p("C07","Everything the parser produces can be printed",
  "Printing never reports a formatting error of its own for a value which a parser returned: an error only ever originates in the output sink. Every AST variant for which printing is rejected is one no parser constructs.",
  I,"every parseable input",
  "tests print generated values, not parsed ones, and the rejected variants are excluded from generation",
  ["src/expr/primitive.rs","src/stmt/display.rs","src/expr/parsers.rs","src/stmt/parsers.rs"],
  [("rejecting arms","src/expr/primitive.rs, src/stmt/display.rs")])
p("C08","Primitive operations have the result type the FIRRTL specification gives",
  "For every primitive operation, every legal combination of operand kinds and every known or unknown operand width, the reported type has the kind, width and binary point of the FIRRTL specification, as far as the width is representable; an unknown operand width never yields a known result width where the specification needs it. Operand kinds for which an operation rejects are reported as errors carrying the offending expression.",
  I,"all operations x operand kinds x known/unknown widths and parameters",
  "the typing test only compares the typing against the generator's own idea of a result and covers few operations, all with matching operand kinds",
  ["src/expr/primitive.rs","src/types/ground.rs","src/types/combinator.rs"],
  [("Typed for Operation","src/expr/primitive.rs"),("MaxWidth, FnWidth","src/types/ground.rs, src/types/combinator.rs")])
p("C09","References and structured expressions have the declared type",
  "A literal, reference, sub-field, sub-index, sub-access, mux or validif expression has the type which follows from the declarations it refers to, and selecting a missing field or indexing a non-vector is an error. Instances expose their ports as fields (inputs flipped), memories expose one flipped bundle per port with the data, mask, mode, address, enable and clock fields of its kind, and registers, nodes, wires, ports and memory ports have their declared or derived type.",
  I,"every expression form and every kind of declared entity",
  "entity typing of memories and instances is only exercised indirectly on small random samples",
  ["src/expr.rs","src/stmt/entity.rs","src/module.rs","src/memory/mem.rs","src/memory/simple.rs","src/memory/register.rs","src/types.rs"],
  [("Typed for Expression","src/expr.rs"),("Typed for Arc<Entity>, Instance, Memory, Port","src/stmt/entity.rs, src/module.rs, src/memory/*.rs")])
p("C10","Flow of expressions and entities follows the FIRRTL flow rules",
  "Input ports, nodes, instances, memories and read ports are sources; output ports and write ports are sinks; wires, registers and read-write ports are duplex. A sub-field selection turns the flow around exactly when the selected field is flipped, sub-index and sub-access keep the flow of their base, every other expression is a source, and sources can only be read, sinks only be driven.",
  I,"every expression form, every entity kind, every combination of flow and orientation",
  "flow is only checked for expressions built by a generator that relies on the same function",
  ["src/expr.rs","src/stmt/entity.rs","src/module.rs","src/memory/mem.rs","src/memory/register.rs","src/memory/simple.rs"],
  [("flow","src/expr.rs"),("Reference impls","src/stmt/entity.rs, src/module.rs, src/memory/*.rs")])
p("C11","Type equivalence and passivity are structural and mind orientation",
  "Two types are equivalent exactly if they are ground types of the same kind (widths ignored, reset kinds distinguished), vectors of equal length over equivalent elements, or bundles with the same number of fields where corresponding fields agree in name, orientation and equivalent type; hence every type is equivalent to itself and equivalence is symmetric. A type is passive exactly if no field at any depth is flipped, and combining or flipping orientations is addition modulo two, applied to every nested leaf.",
  I,"every pair of types",
  "type equivalence is only tested for reflexivity of derived equality; pairs differing in one aspect are not enumerated",
  ["src/types/type.rs","src/types/ground.rs","src/types/oriented.rs","src/types/orientation.rs"],
  [("TypeExt impls","src/types/type.rs, src/types/ground.rs, src/types/oriented.rs"),("Orientation add","src/types/orientation.rs")])
p("C12","Combining types keeps structure and combines widths leaf by leaf",
  "Combining two types succeeds exactly if they have the same shape (kinds, vector lengths, field names, orientations and order), yields that shape again, and its ground types carry the combination of the corresponding widths, with an unknown width whenever one of the two is unknown. Combining is symmetric for symmetric width functions, and a failure reports the pair that could not be combined.",
  I,"every pair of types and every width function",
  "only combining a value with itself is tested",
  ["src/types/combinator.rs","src/types/ground.rs","src/types/type.rs"],
  [("Combinator impls","src/types/combinator.rs, src/types/ground.rs, src/types/type.rs")])
p("C13","No input makes parsing, printing or typing panic",
  "Parsing an arbitrary text, printing any value and asking for the type, flow or any other attribute of any value never panics: no failing unwrap or expect, no arithmetic overflow, no out-of-range index and no explicit panic is reachable. Malformed or over-large input is reported as an error.",
  I,"every input text and every AST value",
  "tests only feed well-formed, small values",
  ["src"],
  [("panic sites","src/expr/parsers.rs, src/expr/primitive.rs, src/indentation.rs, src/types.rs")])
p("C14","Parsing always terminates",
  "Every repetition in a parser consumes input on each round, and no parser calls itself again, directly or through others, without having consumed input. Iterating over the modules of an input ends after finitely many items, also after an error.",
  I,"every input text",
  "non-termination needs inputs no test contains",
  ["src/parsers.rs","src/types/parsers.rs","src/expr/parsers.rs","src/stmt/parsers.rs","src/memory/parsers.rs","src/module/parsers.rs"],
  [("repetition combinators and recursive parsers","src/*/parsers.rs"),("Modules iterator","src/module/parsers.rs")])
p("C15","Parsing a circuit consumes everything or reports an error",
  "If reading a circuit succeeds, then all of the text has been consumed by the circuit and its modules: a syntax error anywhere, including inside or after the top module, a missing top module or an input/output failure is reported as an error and never silently truncates the design. A failing module parse yields exactly one error item and ends the sequence of modules.",
  I,"every input text and every failure of the reader",
  "tests only parse well-formed text",
  ["src/circuit.rs","src/circuit/parsers.rs","src/module/parsers.rs","src/error.rs","src/memory/parsers.rs","src/stmt/parsers.rs"],
  [("into_circuit, from_read, ModuleConsumer","src/circuit.rs"),("Modules::next","src/module/parsers.rs")])
p("C16","References resolve to the entity declared earlier under that name",
  "A parsed reference denotes the latest entity declared before it in its module under exactly that name, ports counting as declared first and declarations within branches of conditionals staying visible after the branch; instances denote a module defined earlier in the input and memory ports a memory declared earlier. A name which was not declared before is a parse error, and every declared wire, register, node, memory, memory port, instance and module becomes available to what follows it.",
  I,"every sequence of declarations and uses, every nesting of conditionals",
  "generated tests pre-populate the lookup and never use declaration order or undeclared names",
  ["src/stmt/context.rs","src/stmt/parsers.rs","src/module/parsers.rs","src/expr/parsers.rs","src/memory/parsers.rs"],
  [("TopContext, SubContext","src/stmt/context.rs"),("stmts","src/stmt/parsers.rs"),("Modules","src/module/parsers.rs")])
p("C17","Traversals visit every sub-expression, declaration and instance",
  "Enumerating an expression's operands or references visits each operand of every expression form and primitive operation exactly once; enumerating a statement's declarations or instantiations visits every statement in both branches of conditionals at any depth; a module's referenced modules are exactly those instantiated anywhere in its body.",
  I,"every expression and statement tree",
  "traversals are only used as helpers by the tests, over randomly chosen forms",
  ["src/expr.rs","src/expr/primitive.rs","src/stmt.rs","src/module.rs"],
  [("sub_exprs, AutoTransIter impls","src/expr.rs, src/expr/primitive.rs, src/stmt.rs"),("referenced_modules","src/module.rs")])
p("C18","A printed circuit defines every module once, before its uses",
  "Printing a circuit writes the top module and every module reachable from it through instances, each exactly once and after all modules it instantiates, below a header naming the top module. No reachable module is left out.",
  I,"every instance graph",
  "random circuits have few modules and rarely shared ones; order errors only show on particular graphs",
  ["src/circuit.rs","src/module.rs"],
  [("fmt_module","src/circuit.rs")])
p("C19","Printing is deterministic",
  "The printed text of a value depends only on the value: it never depends on the iteration order of a hash table, on addresses, on time, environment or earlier calls. Printing an equal value again, also in another process, yields the same text.",
  ["inputs","histories"],"every value, every process and hash seed",
  "tests compare parsed values, not texts, and within one process",
  ["src/module.rs","src/circuit.rs","src/memory","src/stmt"],
  [("HashMap/HashSet uses in Display code","src/module.rs, src/circuit.rs")])
p("C20","Constructors, builders and accessors are coherent",
  "What a value was constructed or updated with is what its accessors return: every `new`, `with_*`, `set_*`, `add_*`, `without_*` function of the public data types changes exactly the part it names and leaves all others untouched, and every accessor returns the part it names, including defaults of freshly constructed values.",
  I,"every public data type, builder, accessor and argument",
  "few accessors are exercised by tests at all",
  ["src/types/type.rs","src/memory/mem.rs","src/memory/register.rs","src/memory/simple.rs","src/module.rs","src/circuit.rs","src/stmt.rs","src/info.rs","src/types/ground.rs"],
  [("builders and accessors","src/**")])
p("C21","Indentation: nested blocks nest strictly and lines of a block align",
  "A nested block's indentation is strictly deeper than its parent's, all lines of one block use the same depth, and locking an already fixed indentation never changes it. The indentation parser accepts a run of spaces exactly if it is longer than the parent's for a block's first line or equals the established depth afterwards, and a rejected line leaves the established depth of a block unchanged.",
  I,"every depth, every sequence of lines",
  "the single test checks one accept case per sample",
  ["src/indentation.rs"],
  [("Indentation, IndentationParser, OwningParser","src/indentation.rs")])
p("C22","The library is pure and its data can be shared between threads",
  "Parsing, printing and typing have no effect besides their results and the given reader or sink: there is no global or thread-local state, no interior mutability in AST values, no unsafe code, and no file, process, environment, network or clock access. Every AST type can be sent to and shared between threads.",
  ["inputs","schedules","histories"],"every use from any number of threads",
  "no test uses threads or observes effects",
  ["src"],
  [("crate-wide absence of effects","src/**")])
p("C23","Consuming modules one by one equals reading the circuit at once",
  "Iterating a module consumer yields the very items of the underlying module sequence, in order and unchanged; a circuit is available exactly once the module with the top name was seen, and is the first such module with the header's info. Turning a consumer into a circuit never depends on how many modules were taken from it before.",
  ["inputs","histories"],"every module sequence and every interleaving of iteration and queries",
  "tests only use the one-shot path",
  ["src/circuit.rs"],
  [("ModuleConsumer","src/circuit.rs")])
p("C24","Equality of AST values is structural",
  "Two AST values compare equal exactly if they are the same variant and all their components, including info, names, widths and orientations, are equal; a clone equals its original component by component. Comparing a type with a ground type is equality with that ground type.",
  I,"every pair of AST values",
  "all round-trip tests trust equality; none tests inequality",
  ["src"],
  [("PartialEq and Clone impls","src/**")])
p("C25","Write errors surface and stop the printing",
  "If the sink reports an error at any point while something is printed, printing returns an error and writes nothing more; no part of the output is skipped silently. A read error while reading a circuit is returned to the caller.",
  ["inputs","fault_sequences"],"every value, every position at which the sink fails",
  "tests print into strings, which never fail",
  ["src"],
  [("Display and DisplayIndented impls","src/**"),("from_read","src/circuit.rs")])
p("C26","Number literals mean what their notation says",
  "Decimal literals and `b`, `o` and `h` prefixed quoted literals are read in base 10, 2, 8 and 16 respectively, with an optional sign, and an explicitly given width is kept. Without an explicit width, an unsigned literal gets the number of bits of its value and a signed literal one more, and a value which needs more bits than can be represented is a parse error.",
  I,"every literal text, every value",
  "round-trip tests only print decimal literals with explicit widths",
  ["src/expr/parsers.rs","src/parsers.rs"],
  [("num_lit, expr","src/expr/parsers.rs")])
p("C27","Parsing uses stack space bounded independently of the input",
  "Parsing, printing and dropping arbitrarily deeply nested input never exhausts the call stack.",
  I,"every nesting depth",
  "tests never nest deeply",
  ["src/expr/parsers.rs","src/stmt/parsers.rs"],[("recursive descent","src/*/parsers.rs")])
p("C28","Parsing time is polynomial in the input length",
  "The time to parse an input is bounded by a polynomial in its length, whatever its nesting and however often alternatives are retried.",
  I,"every input",
  "tests parse tiny inputs",
  ["src/expr/parsers.rs","src/stmt/parsers.rs"],[("ordered choice with backtracking","src/*/parsers.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
