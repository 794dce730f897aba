NOTE = "held on the executions observed, counted in the evidence; trusts the reference model in the harness, the Go toolchain and runtime"

prop("C01", "A template renders and changes exactly what the language defines",
 "For every template of the supported language over defined, correctly typed variables (text, references, #set, #if/#elseif/#else, #foreach, #for, #evaluate, comments, raw blocks, built-in functions, method and function calls), Compile and Exec succeed, render exactly the text the language defines, leave the host data exactly as its assignments define and write nothing to the standard output. "
 "Where the language defines a failure (a text that is not a number assigned to a number) Exec returns that error.",
 ["programs", "inputs", "configurations"],
 "every generated well-typed template (statements nested up to 4 deep, expressions, all directives) over every generated data value and planner option (EscapeHTML, CacheSize, BufferSize); the domain excludes the documented unsupported forms listed in DESIGN.md",
 "The tests render a few dozen fixed templates; the property ranges over all compositions of directives, expressions and data, where most of the defects were found (mixed precedence, nested assignment, conversions).",
 ["planner.go", "compile.go", "stmt.go", "expr.go", "binary.go", "unary.go", "precedence.go", "evaluate.go", "parser/*.go", "est/**/*.go", "functions/*.go"],
 [("Compile", "compile.go"), ("statement and expression planning", "stmt.go, expr.go, binary.go"), ("execution of the plan", "est/stmt, est/expr, est/op")],
 "runtime monitoring: differential oracle (reference interpreter) over random programs, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "host data after Exec", "error of Compile and Exec"])

prop("C02", "Text outside directives and references is copied byte for byte",
 "Every byte of a template that is not part of a directive, a defined reference or a ## comment is rendered unchanged, in order and exactly as many times as its enclosing blocks execute. "
 "A raw block #[[...]]# renders its content unchanged, a comment renders nothing, and the source of a reference to an undefined variable is rendered as it stands.",
 ["inputs"],
 "every template put together of arbitrary bytes (any byte value, brackets, quotes, lone $ and #), raw blocks, comments, undefined references and nested blocks whose conditions are known",
 "Tests use short ASCII texts; the property is about any byte sequence at any position next to any directive.",
 ["parser/parser.go", "parser/lex.go", "parser/matcher/*.go", "est/stmt/select.go", "stmt.go"],
 [("matching of text up to the next directive or reference", "parser/parser.go"), ("raw blocks and comments", "parser/lex.go")],
 "runtime monitoring: output oracle computed while the template is generated", NOTE,
 observe=["output buffer after Exec"])

prop("C03", "A reference reaches exactly the field, element or entry it names",
 "For every Go type of variables (nested structs, pointers, slices, maps, embedded structs and pointers, recursive types, velty name/names/prefix tags), every path in a template reads exactly the place Go's reflection finds for it, or the zero value when it leads through a nil pointer or an absent key. "
 "A #set through such a path changes that place and nothing else; defining and compiling always succeed and terminate.",
 ["inputs", "programs", "configurations"],
 "every generated struct type (up to 4 levels, random field order and kinds, embedded and tagged fields, recursive static types), defined with DefineVariable or EmbedVariable, with random data, and random paths through it",
 "Offsets are computed with unsafe arithmetic per type; tests use a handful of types, a wrong offset shows only for particular combinations of embedding, pointers, order and tags.",
 ["planner.go", "cyclic.go", "selector.go", "tag.go", "est/type.go", "est/op/selector.go", "est/op/upstream.go", "est/state.go"],
 [("selectors of nested fields", "planner.go"), ("fields of a type met before", "cyclic.go"), ("address arithmetic", "est/op/upstream.go")],
 "runtime monitoring: reflection oracle over random types, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "host data behind pointers after Exec"])

prop("C04", "Operators compute what their definition says for every pair of operand types",
 "Every arithmetic, comparison and logical operator the language defines for a pair of operand types (int, float, narrow and unsigned integers, string, bool and pointers to them) yields the value of the same Go operation, with integers widened to float when mixed with one and numbers turned to text when added to a string; an operand is the same wherever it comes from. "
 "A chain without parentheses is evaluated with the precedence * / over + - over < <= > >= over == != over && over ||, from left to right within a level.",
 ["inputs", "configurations"],
 "every pair of 28 operand types the compiler combines, at every place an operand can be taken from, over boundary and random values, and every chain of up to 12 operands; integer division by zero, equality with nil pointers and operand pairs the compiler refuses are excluded",
 "Each pair of types and places selects its own compiled closure (unsafe reads of the operand's memory); tests touch a small fraction of the combinations and no boundary values.",
 ["binary.go", "unary.go", "precedence.go", "est/expr/*.go", "est/op/operand.go"],
 [("operand unification", "binary.go"), ("precedence of chains", "precedence.go"), ("operators", "est/expr")],
 "runtime monitoring: arithmetic oracle over a systematic operand matrix, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec"])

prop("C05", "Blocks run and operands are evaluated as often and in the order defined",
 "The taken branch of #if/#elseif/#else is the first whose condition holds; #foreach runs its body once per element in order (ranges exclude their end and may descend) and #for as long as its condition holds, with the loop variable bound to the value of the iteration. "
 "Conditions, lists, bounds and calls are evaluated exactly once per use and in source order.",
 ["programs", "inputs"],
 "every generated nest (up to 3 deep) of #if, #foreach over ranges, variables, fields and function results of 13 list types and #for with every post operator, over random and empty lists; both operands of && and || are always evaluated",
 "Tests compare the rendered text of a few loops; double or missing evaluation and wrong bindings in nested blocks only show when the calls themselves are observed.",
 ["stmt.go", "parser/if.go", "parser/range.go", "range.go", "est/stmt/if.go", "est/stmt/for.go", "est/stmt/foreach.go", "est/stmt/block.go"],
 [("control flow", "est/stmt"), ("binding of loop variables", "stmt.go")],
 "runtime monitoring: trace of recording functions compared with the trace of a reference, plain and checkptr builds", NOTE,
 observe=["calls of registered functions", "output buffer after Exec"])

prop("C06", "#set stores the converted value at its place and touches nothing else",
 "#set stores the value, converted to the type of its target (numbers wrap or truncate as in Go, texts are parsed, numbers and booleans become text, anything scalar has a truth value), in the variable, field, field behind pointers, slice element or field of it that the target names. "
 "Every other byte of the data and every other variable stays as it was.",
 ["inputs", "configurations"],
 "every pair of target and source type the compiler accepts (14 scalar kinds, pointers, structs, slices, maps) with every kind of target place and source place, boundary values, between guard fields of random sizes; a float out of the range of an integer target is excluded",
 "An assignment writes through unsafe pointers with a width chosen per type; a wrong width or address damages neighbouring data, which no test looks at.",
 ["stmt.go", "est/stmt/assign/*.go", "est/op/selector.go", "est/op/upstream.go", "est/op/slice.go"],
 [("conversion of the assigned value", "stmt.go"), ("stores", "est/stmt/assign")],
 "runtime monitoring: model of the data (frame condition) compared after the execution, plain and checkptr builds", NOTE,
 observe=["host data after Exec", "output buffer after Exec"])

prop("C07", "#evaluate renders its template in place, whatever was evaluated before",
 "#evaluate renders what its template renders with the current values of the variables, whatever was evaluated before, how often, by which planner sharing the cache and whatever size the cache has. "
 "A template that does not compile renders nothing each time it is evaluated and has no effect on the rest of the execution or on other templates.",
 ["histories", "programs", "configurations"],
 "every history of evaluations (up to 3 executions by each of two planners) over generated pools of good, broken and nested templates with cache sizes from none up, with variables of equal names and different types in the two planners; a #set inside an evaluated template is visible only inside it",
 "Tests evaluate one or two fixed templates with a fresh cache; stale, mixed up or poisoned cache entries need a history of several templates, evictions and failures.",
 ["evaluate.go", "stmt.go", "block.go", "cache.go", "planner.go"],
 [("evaluation and its cache", "evaluate.go"), ("planner with the variables of the scope", "planner.go")],
 "runtime monitoring: reference without a cache over histories of evaluations, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "error of Exec", "host data after Exec"])

prop("C08", "One compiled template may be executed by any number of goroutines at once",
 "Executions of one compiled template that overlap, each with a State of its own (new or taken from a pool), neither race nor influence each other: each renders what it renders alone. "
 "Data and functions shared between them are only read by what the template only reads.",
 ["schedules", "programs"],
 "every generated template without #evaluate, executed by 2 to 8 goroutines with different data and some shared read-only data, with delays injected inside the calls of functions",
 "The tests run executions one after the other; a race needs overlapping executions of a template that uses the shared part.",
 ["compile.go", "est/execution.go", "est/state.go", "est/buffer.go", "pool.go", "est/stmt/**/*.go", "est/op/*.go", "functions/*.go"],
 [("compiled closures shared by executions", "est/stmt, est/expr, est/op"), ("state of an execution", "est/state.go")],
 "runtime monitoring: race detector and sequential oracle over overlapping executions with injected delays", NOTE,
 observe=["output buffer of every execution", "host data after the executions", "reports of the race detector"])

prop("C09", "Evaluating templates from many goroutines at once shares the cache safely",
 "Executions that overlap and evaluate templates through one cache, by one or several planners, neither race nor influence each other: each renders, and fails with, what it renders and fails with alone.",
 ["schedules", "histories", "configurations"],
 "every generated pool of templates (broken and nested ones included) evaluated by 2 to 8 goroutines at once through a cache of random size, with delays injected inside the calls of functions",
 "The tests evaluate sequentially; a half-built or foreign cache entry is only seen when two executions meet at the same source.",
 ["evaluate.go", "cache.go", "planner.go", "block.go"],
 [("cache of evaluated templates", "cache.go, evaluate.go")],
 "runtime monitoring: race detector and sequential oracle over overlapping evaluations with injected delays", NOTE,
 observe=["output buffer and error of every execution", "reports of the race detector"])

prop("C10", "A State is exclusive to its holder and as good as new after Reset",
 "A pool never hands one State to two holders at a time, and a State taken from it renders without any trace of what was rendered before, also after executions that failed or panicked. "
 "After Reset a State renders exactly the output, and only that, that a State with the same values of the variables renders.",
 ["schedules", "histories"],
 "every history of takes, executions (failing and panicking ones included) and returns by 2 to 8 goroutines over pools of size 0 to 4, and every history of executions, resets and changes of values of one State over generated templates",
 "Tests take a state once; double hand-outs and left-over output or errors need interleaved and repeated use.",
 ["pool.go", "est/state.go", "est/buffer.go", "est/execution.go"],
 [("pool", "pool.go"), ("reset", "est/state.go, est/buffer.go")],
 "runtime monitoring: ownership log of states and reference over histories, plain build and race detector", NOTE,
 observe=["output buffer after Exec", "who holds which state"])

prop("C11", "Parsing and compiling any input ends with a result or an error",
 "For every byte string Parse and Compile end in bounded time and memory with a result or an error, without a panic and without a change to the input, and give the same result every time. "
 "A template with an unclosed block is rejected.",
 ["inputs"],
 "every byte string up to a few hundred bytes: random bytes, random sequences of tokens of the language, generated templates damaged by up to 8 edits; ranges with more than a million elements are excluded",
 "Tests parse well formed templates and a few errors; the property is about all malformed ones.",
 ["parser/*.go", "parser/matcher/*.go", "compile.go", "stmt.go", "expr.go", "binary.go", "unary.go"],
 [("parser", "parser"), ("compiler", "compile.go, stmt.go, expr.go")],
 "runtime monitoring: fuzzing (bytes, tokens, damaged templates) with totality and determinism monitors, plain and checkptr builds", NOTE,
 observe=["tree and error of Parse", "error of Compile", "processor time", "memory"])

prop("C12", "Data of a template stays intact whenever the garbage collector runs",
 "Everything a template, its State and the data it changed can still reach stays alive and unchanged whenever the garbage collector runs, also in the middle of an execution or between executions. "
 "Every access of an execution stays within the object it is meant for.",
 ["schedules", "inputs", "programs"],
 "every generated template over data only its State holds, with collections running all the time and forced between statements and inside calls, freed memory overwritten",
 "The engine keeps data behind unsafe pointers; the tests hold all of it on their own stacks and never run a collection during an execution.",
 ["est/state.go", "est/op/*.go", "est/stmt/**/*.go", "est/expr/*.go", "planner.go", "est/type.go"],
 [("unsafe addressing of variables", "est/op"), ("memory of a State", "est/state.go")],
 "runtime monitoring: checkptr build under constant garbage collection with clobberfree, reference as oracle", NOTE,
 observe=["output buffer after Exec", "host data after Exec and another collection", "faults of the runtime and checkptr"])

prop("C13", "The output buffer holds exactly what was appended, in order",
 "After any history of appends and resets the output buffer holds exactly the bytes appended since the last reset, in order, with numbers written as the standard library formats them and, where escaping is on, with strings escaped once. "
 "Whatever its initial size, an append writes nothing outside its memory, and a text read from it stays as it was.",
 ["histories", "inputs", "configurations"],
 "every history of appends of every kind of value, resets and reads of buffers with initial sizes from 0 up, with and without escaping; every integer in every base written into a window of any position",
 "Growth depends on the exact number of bytes left when a value is appended; tests write short texts into large buffers.",
 ["est/buffer.go", "utils/itoa.go"],
 [("growth and append", "est/buffer.go"), ("formatting of integers", "utils/itoa.go")],
 "runtime monitoring: buffer model over histories of appends, guarded memory, plain and checkptr builds", NOTE,
 observe=["content of the buffer after every step", "memory around the written window"])

prop("C14", "With EscapeHTML every rendered value is escaped exactly once",
 "With EscapeHTML every value a reference, a call or an expression renders is escaped exactly once, wherever it is rendered (blocks, loops, evaluated templates) and whatever its type; everything else of the template is copied without a change. "
 "Escaping has no effect on data, on conditions, on arguments of functions or on the values assigned.",
 ["programs", "inputs"],
 "every generated template over strings full of special characters, executed with and without EscapeHTML",
 "The tests render one escaped string; each kind of value and place renders through a way of its own, one of which may miss or repeat the escaping.",
 ["est/buffer.go", "est/stmt/select.go", "stmt.go", "block.go", "evaluate.go", "options.go"],
 [("rendering of values", "est/stmt/select.go"), ("escaping", "est/buffer.go")],
 "runtime monitoring: relation between the outputs of the two modes, values delimited by markers, plain and checkptr builds", NOTE,
 observe=["output buffers of both executions", "host data after both executions"])

prop("C15", "Failures and panics of functions reach the caller of Exec",
 "Exec returns the first error a function called during it returned, from wherever it was called (conditions, bounds, lists, arguments, evaluated templates), and nil when none failed. "
 "With PanicOnError nothing of the template happens after that error, without it the execution goes on; a panic of a function reaches the caller of Exec, and the next execution is not affected by any of it.",
 ["programs", "fault_sequences", "configurations"],
 "every generated nest of blocks and evaluated templates whose every call may return an error or panic, with and without PanicOnError; a panic with an error as its value is excluded under PanicOnError, where Exec returns it",
 "Tests let one function fail at one place; the property ranges over every place of a failure, and over several.",
 ["est/execution.go", "est/state.go", "est/op/func.go", "est/expr/errors.go", "evaluate.go", "compile.go", "options.go"],
 [("first error of an execution", "est/state.go"), ("failing calls", "est/op/func.go"), ("recovery", "est/execution.go")],
 "runtime monitoring: injected faults, trace of calls, output and error compared with a reference, plain and checkptr builds", NOTE,
 observe=["calls of registered functions", "output buffer after Exec", "error and panic of Exec"])

prop("C16", "A call runs the function once with exactly the arguments written",
 "A call of a registered function, method or function of a namespace calls it exactly once, in order, with the receiver and arguments written, converted to the types of its parameters (variadic ones included), and yields its result wherever it is used. "
 "A call whose arguments do not fit the function is an error and the function is not called.",
 ["inputs", "programs", "configurations"],
 "every signature of up to 4 parameters (those called directly and those called by reflection, variadic, with an error), registered every way, with arguments from every place: literals, variables, fields, pointers, elements, interfaces, results of calls",
 "Each signature and each place of an argument has code of its own; tests use a few of them.",
 ["functions/func.go", "est/op/func.go", "est/op/discovery.go", "est/op/types.go", "est/op/iface.go", "planner.go", "stmt.go", "expr.go"],
 [("direct and reflective callers", "est/op/func.go"), ("registration", "planner.go, functions")],
 "runtime monitoring: recording functions, log of calls and output compared with a model, plain and checkptr builds", NOTE,
 observe=["calls of registered functions with their arguments", "output buffer after Exec", "error of Exec"])

prop("C17", "Built-in functions give what the Go functions they stand for give",
 "Every function of the built-in namespaces ($strings, $math, $strconv, $slices, $types, $maps, $json, $time, $errors) and HasKey and IndexBy give in a template what the operation of the Go library they stand for gives, for every argument. "
 "Where that operation fails, Exec returns the error, and no argument is changed by a function that only reads it.",
 ["inputs", "programs"],
 "every built-in function with random and boundary arguments from every place, nested in each other, up to 4 calls per template; IndexBy by own, promoted and tagged fields, over nil items, items with a nil key, and by fields that cannot be a key",
 "Tests call a minority of the functions with one argument each.",
 ["functions/*.go", "keys/*.go", "init.go"],
 [("built-in functions", "functions"), ("normalized keys", "keys")],
 "runtime monitoring: standard library as oracle over random calls in templates, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "error of Exec", "arguments after Exec"])

prop("C18", "An index yields exactly the element its key names, never other memory",
 "An index of a slice, map or interface yields exactly the element its key names, for keys of every integer type, texts and pointers to them, at any depth of nesting; an absent key, nil map or nil pointer yields the zero value. "
 "A position out of range is a panic naming it and an index that is not a number is an error; memory that is not part of the indexed value is never read.",
 ["inputs", "programs"],
 "every generated nest of slices, maps, interfaces, structs and pointers, with up to 4 indices, each a literal, variable, expression, call or another indexed value, in range or not, present or not",
 "Each element type and key type is addressed by code of its own; tests use in-range literals on a few types.",
 ["est/op/slice.go", "est/op/map.go", "est/op/iface.go", "est/op/upstream.go", "selector.go", "keys/*.go", "planner.go"],
 [("addressing of elements", "est/op/slice.go, est/op/map.go"), ("keys", "keys/key.go, keys/normalize.go")],
 "runtime monitoring: reflection oracle over random nests and paths, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "panic or error of Exec", "arguments of recorded calls"])

prop("C19", "A State holds exactly the values it was given",
 "After any history of values set, executions and resets on several States, each variable of each State holds the value last given to it there (converted when its type allows), or assigned by an execution on it, and the zero value before; States do not share variables. "
 "A value that does not fit a variable and a name that is not defined are errors that change nothing.",
 ["histories", "inputs"],
 "every history of up to 20 SetValue, EmbedValue, Exec, Reset and #set steps on up to 4 States of planners with up to 12 variables of random types, defined before and between two templates, alternative names and embedded types; a template compiled after a State was created is not executed on it",
 "Tests set each variable once with a value of its exact type on one State.",
 ["est/state.go", "est/copier.go", "est/type.go", "planner.go", "pool.go"],
 [("typed values of variables", "est/state.go"), ("layout of the state", "est/type.go")],
 "runtime monitoring: model of the variables of every state over histories, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec", "errors of SetValue and EmbedValue"])

prop("C20", "What a planner compiled or derived before has no influence on a template",
 "A template renders what its own planner's variables and functions define, whatever templates that planner compiled or rejected before or after, whatever planners were derived from it or it was derived from, and whenever its States were created after it. "
 "Variables defined by one planner do not exist in those derived earlier or in its parent.",
 ["histories", "programs"],
 "every tree of up to 5 planners and up to 9 generated templates compiled in random order between rejected ones, executed on States created before and after the others were compiled, with variables of equal names and other types in different planners",
 "Tests compile one template with one planner.",
 ["planner.go", "compile.go", "est/type.go", "est/control.go", "evaluate.go", "const.go"],
 [("derived planners", "planner.go"), ("snapshot of the layout", "est/type.go")],
 "runtime monitoring: reference ignorant of the history over trees of planners, plain and checkptr builds", NOTE,
 observe=["output buffer and error of every execution", "error of Compile"])

prop("C21", "An ill-typed or unreadable template is rejected, wherever its error is",
 "A template with a reference, operation, assignment, list, condition or call that does not type, or with anything but one expression where a block directive takes one, is rejected by Compile with an error, wherever in the template it stands and whether it would ever be executed. "
 "A call whose arguments do not fit its function makes Exec return an error exactly when it is executed. Nothing of it panics, and the planner goes on compiling other templates.",
 ["programs", "inputs"],
 "every generated well-typed template with one ill-typed piece inserted at any depth, itself built into further operands, arguments and indices; references to undefined variables and functions in the text (rendered as they stand), conversions the language defines and operands with a truth value are not ill-typed",
 "Tests reject a handful of templates, each with one error at the outermost level.",
 ["compile.go", "stmt.go", "expr.go", "binary.go", "unary.go", "planner.go", "selector.go", "est/op/func.go", "parser/*.go"],
 [("typing of expressions", "expr.go, binary.go, unary.go"), ("typing of references and calls", "planner.go, est/op/func.go"), ("end of an expression", "parser/expr.go")],
 "runtime monitoring: mutation of generated templates with ill-typed pieces, error oracle, plain and checkptr builds", NOTE,
 observe=["error of Compile", "error of Exec", "output of the planner afterwards"])

prop("C22", "Whatever compiles can be executed, with the same effects each time",
 "Every template Compile accepts, however ill-considered, and whatever types and nil values its data has, executes to an output or an error, and to the same output, error and data when executed again on equal data. "
 "The only panics are a position out of range, an integer division by zero and those of called functions; memory that does not belong to the data is neither read nor written.",
 ["programs", "inputs"],
 "every generated template whose references, members, literals and operators were exchanged with others at random or whose text was damaged, over hosts of some 50 types (nil parts, arrays, functions, channels, complex numbers, interfaces, pointers to pointers, maps with struct keys); unbounded loops and #evaluate are left out",
 "Tests execute templates that make sense over data without nil parts.",
 ["compile.go", "stmt.go", "expr.go", "binary.go", "unary.go", "planner.go", "est/op/*.go", "est/expr/*.go", "est/stmt/*.go", "functions/*.go"],
 [("acceptance by the compiler", "expr.go, binary.go, planner.go"), ("unsafe access", "est/op/upstream.go, est/stmt/assign")],
 "runtime monitoring: panic, fault and repeatability monitor over mutated templates, plain and checkptr builds", NOTE,
 observe=["panic, error and output of two executions", "data after them"])

prop("C23", "A value stays the same value wherever it is taken from and goes to",
 "A value of any Go type that a template takes from a variable, item, field, element, entry, interface or result, behind any holders, arrives identical (type, bits and references) in functions, methods, new and existing variables and fields, and is rendered as the same value in a plain variable is. "
 "Its methods are called on that value.",
 ["inputs", "programs"],
 "every value of a random type of up to 3 levels (all kinds, named types with methods, structs and arrays an interface holds directly, functions, channels, interfaces with and without methods, types without size, nil), behind up to 4 random holders, with up to 3 of 11 uses",
 "The representation of a value (address, word of an interface, pointer) depends on its type, place and use; tests combine few of them.",
 ["est/op/*.go", "est/stmt/assign/*.go", "est/stmt/select.go", "est/state.go", "est/copier.go", "planner.go"],
 [("representation of values", "est/op/operand.go, est/op/upstream.go, est/op/func.go"), ("assignment", "est/stmt/assign/assign.go")],
 "runtime monitoring: identity of values captured by functions over random types and places, plain and checkptr builds", NOTE,
 observe=["arguments of recorded calls", "fields assigned to", "output buffer after Exec"])

prop("C24", "Memory does not grow with the number of executions and evaluations",
 "Executing a template on one State, on new ones or on those of a pool, evaluating ever other templates with any cache size, and making, deriving and dropping planners takes no more memory after many repetitions than after a few, and leaves no goroutine behind, failing and panicking executions and broken evaluated templates included.",
 ["programs", "histories"],
 "every program the generator produces repeated hundreds of times, with and without #evaluate of the same or ever other templates, cache sizes 0 to 20, pools of 0 to 3, failing or panicking functions; compiling repeatedly with one planner, whose variables stay by design, is left out",
 "A leak of a few bytes per execution is invisible in a test that executes once, and depends on the cache size and the kind of template.",
 ["cache.go", "stmt.go", "planner.go", "pool.go", "est/state.go", "est/buffer.go", "est/control.go"],
 [("evaluated templates", "stmt.go, cache.go"), ("states", "est/state.go, pool.go")],
 "runtime monitoring: heap and goroutine monitor over repeated executions, evaluations and planners", NOTE,
 observe=["bytes and objects of the heap after garbage collections", "number of goroutines"])

prop("C25", "Planners used by different goroutines do not notice each other",
 "Goroutines may make, configure and use planners of their own at the same time, those derived from one planner included: registering functions, defining variables, compiling (what is rejected too), evaluating and executing gives each what its planner gives on its own, without data races, whatever names, types, sources and evaluated templates they have in common.",
 ["schedules", "programs", "configurations"],
 "every schedule of 2 to 8 goroutines with up to 3 generated programs each, on planners of their own or derived from a common one, with functions, kinds, types, namespaces and evaluated sources of the same names that mean something else to each; one planner used by two goroutines without a lock is left out, except for executions (C08, C09)",
 "Tests use one goroutine, one planner at a time.",
 ["planner.go", "compile.go", "cache.go", "evaluate.go", "est/op/func.go", "parser/*.go", "functions/*.go"],
 [("functions shared by derived planners", "est/op/func.go"), ("evaluate cache", "cache.go, evaluate.go"), ("matchers of the parser", "parser/matcher.go")],
 "runtime monitoring: race detector and reference outputs over concurrent planners with injected delays", NOTE,
 observe=["data race reports", "output buffer and error of every execution", "error of Compile", "data after the executions"])

prop("C26", "A call reaches the function its name has for what it is called on",
 "A call reaches, in this order, the method of its receiver (own, promoted or of its interface type), the function of the receiver's kind, the function of that name or of the receiver's exact type; without a receiver the function, the standalone function or the namespace's method of the calling planner. "
 "The last function of a name counts, standalone and type functions and namespaces cannot be registered twice; a call of a receiver that has nothing of that name does not compile; a result has the type declared for it or execution fails.",
 ["configurations", "programs", "inputs"],
 "every set of registrations of 6 names as functions, kinds, types, standalone functions and namespaces over 22 receiver types, in random order, repeated, in 2 or 3 planners before or after others were derived, called in templates from random places",
 "Tests register each function once, under a name nothing else has.",
 ["est/op/func.go", "planner.go", "functions/*.go"],
 [("order of lookups", "est/op/func.go"), ("calls", "planner.go")],
 "runtime monitoring: model of the registrations over random planners and calls, plain and checkptr builds", NOTE,
 observe=["output buffer after Exec, in which every function names itself and its arguments", "error of Compile and of Exec", "error of registration"])
