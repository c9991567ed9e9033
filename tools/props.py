COMMITS = []
TB = "Trusted: the gowp verifier, go/ssa, the SMT solvers; opaque library functions (strconv, fmt) are uninterpreted."
PROPS = [
dict(id="C01", title="Tokens partition the source: every byte, in order, with its exact meaning",
 statement="For every source string, tokenization terminates, never panics, and gives tokens that follow each other without gap or overlap from the first byte to the last: each token starts where the previous one ends, its sequence is the text it covers, its position has the right index, line and column, and its type and literal are the ones the lexical rules give for that place: the longest run of text, whitespace, #, or quotes, a line continuation with the whitespace after it, or an escape with at most 3 octal, 2, 4 or 8 hexadecimal digits and the character it stands for.",
 quant="all source strings, of any length and content, including malformed UTF-8",
 why="Tests tokenize a few short strings; that no source is lost, duplicated, misplaced or makes the tokenizer loop or panic must hold for every byte sequence.",
 files=["src/core/tokenizer.go"], mech=[("Tokenizer.Next", "src/core/tokenizer.go"), ("Tokenizer.addText", "src/core/tokenizer.go"), ("Tokenizer.Tokenize", "src/core/tokenizer.go")],
 note=TB),
dict(id="C06", title="Indexing is total: element in range, default or error otherwise",
 statement="Selecting an element of a list or a byte of a string by index succeeds exactly when the index value converts to an integer i with 0 <= i < length, and gives that element. Otherwise it gives the supplied default, or an error when there is none; it never panics, whatever the 64-bit index.",
 quant="all lists, strings, index values (any type) and defaults",
 why="Tests sample a few indexes around the bounds; the guarantee is for every value and every 64-bit index.",
 files=["src/core/values.go"], mech=[("StringAtOrDefault", "src/core/values.go"), ("ListAtOrDefault", "src/core/values.go")],
 note=TB),
dict(id="C07", title="List operations are sequence operations for every operand and index",
 statement="For every list and every 64-bit index, list length, at, range, append, remove, insert and replace give exactly the sequence defined by clamping the bounds to the list, keep the identity and order of the elements, and never panic. Wrong arity or operands that do not convert give an error result. Append accepts any number of operands and yields their concatenation.",
 quant="all list values, index values, operand counts",
 why="Tests use short lists with small indexes; overflow and clamping must hold for every 64-bit index and every length.",
 files=["src/helena_dialect/lists.go"], mech=[("listRangeCmd.Execute", "src/helena_dialect/lists.go"), ("listAppendCmd.Execute", "src/helena_dialect/lists.go"), ("listReplaceCmd.Execute", "src/helena_dialect/lists.go")],
 note=TB),
dict(id="C08", title="String operations are byte-sequence operations for every operand and index",
 statement="For every string and every 64-bit index, string length, at, range, append, remove, insert and replace give exactly the byte sequence defined by clamping the bounds to the string and never panic; append concatenates any number of operands in order. The comparison operators compare the string values of their operands byte by byte and accept any pair of values. Wrong arity or operands without a string form give an error result.",
 quant="all string values, index values, operand counts",
 why="Tests use short strings with small indexes; overflow and clamping must hold for every 64-bit index and every length.",
 files=["src/helena_dialect/strings.go"], mech=[("stringRangeCmd.Execute", "src/helena_dialect/strings.go"), ("stringReplaceCmd.Execute", "src/helena_dialect/strings.go"), ("binaryCmd.Execute", "src/helena_dialect/strings.go")],
 note=TB),
dict(id="C09", title="Dictionary operations are map operations and leave their operands unchanged",
 statement="A key-value list converts to the dictionary in which the last value of each key wins. For every dictionary and every operand count, dict size, has, get (with a default or with a tuple of keys), add, remove, merge, keys, values and entries give exactly the result of the same operation on finite maps: add sets one entry and keeps every other, remove drops exactly the listed keys, merge lets the last dictionary that has a key win, keys lists every key once. The operand dictionaries are left unchanged. Bad keys, wrong arity and operands that do not convert give an error result, never a panic.",
 quant="all dictionaries, keys, operand counts, map iteration orders",
 why="Tests use small dictionaries and a few keys; the frame (every other entry is kept, operands unchanged) and the merge order must hold for every key and operand count.",
 files=["src/helena_dialect/dicts.go"], mech=[("valueToMap", "src/helena_dialect/dicts.go"), ("dictMergeCmd.Execute", "src/helena_dialect/dicts.go"), ("dictRemoveCmd.Execute", "src/helena_dialect/dicts.go")],
 note=TB),
dict(id="C20", title="Number commands compute left-associative arithmetic and exact comparisons",
 statement="A number command applied to operands evaluates + - * / with products binding tighter than sums, each from left to right, for any operand count; the comparison operators give the float comparison of both operands; a lone number gives its own value, as an integer when it is whole. A missing operand, an unknown operator, or an operand that does not convert to a number gives an error result, never a panic, and operands are left unchanged.",
 quant="all numbers, operand sequences of any length and type",
 why="Tests use a few short expressions; precedence, sign and error handling must hold for every operator sequence and every operand value.",
 files=["src/helena_dialect/numbers.go"], mech=[("arithmetics", "src/helena_dialect/numbers.go"), ("numberCommand.Execute", "src/helena_dialect/numbers.go"), ("floatToValue", "src/helena_dialect/numbers.go")],
 note=TB+" Float arithmetic is IEEE 754 binary64 (SMT floating point)."),
dict(id="C11", title="Names resolve local, constant, variable; constants are never overwritten",
 statement="Looking a name up gives its local value, else its constant, else its variable, else nothing (the default, or an error). Defining a constant succeeds only for a name that is none of the three; setting a variable succeeds only for a name that is neither a local nor a constant; unsetting succeeds only for a variable. A successful operation changes exactly the one binding it names, a failed one changes none, and clearing the locals of a loop scope drops every local value and nothing else. New root, child and local scopes see exactly the bindings of their definition.",
 quant="all scopes, names, values and operation sequences",
 why="Tests try a few names in a few scopes; that every other binding is kept, and that constants survive every sequence of operations, must hold for every scope.",
 files=["src/helena_dialect/core.go"], mech=[("Scope.ResolveVariable", "src/helena_dialect/core.go"), ("Scope.SetNamedConstant", "src/helena_dialect/core.go"), ("Scope.UnsetVariable", "src/helena_dialect/core.go")],
 note=TB),
dict(id="C13", title="Logic and conditional commands stop at the first operand that settles them",
 statement="true, false and ! give the choice or negation of their operand. && and || evaluate their operands from left to right, running script operands, and stop at the first that settles the result; if, when and while run the tests in order and the body of the first clause whose test is true (else, the default body), and while repeats until its test is false, giving the last body result. break ends a while loop with the last result, continue goes on, every other result of a test or body is passed on unchanged. A test that is no boolean, an ill-formed clause or a body that is no script gives an error. The pooled state of a running command belongs to that command alone: it is never read or changed after its release, and released exactly once when the command ends.",
 quant="all operand lists, clause counts, script results (codes and values), and continuation histories",
 why="The commands run as chains of continuations over pooled state; tests run a few clauses on one thread, while the chain has to hold for every clause count, every result code and concurrent interpreters.",
 files=["src/helena_dialect/logic.go", "src/helena_dialect/controls.go"], mech=[("andCmdNext", "src/helena_dialect/logic.go"), ("ifCmdTest", "src/helena_dialect/controls.go"), ("whenCmdTest", "src/helena_dialect/controls.go"), ("whileCmdTest", "src/helena_dialect/controls.go")],
 note=TB+" Script compilation is trusted (a program that depends on the script only)."),
dict(id="C15", title="catch runs exactly the handler of the body's code, then finally",
 statement="catch runs its body; when a handler is given for the code of the body's result (return, yield, error, break, continue) it runs that handler, the first in order, and no other, in a local scope where the handler's name has the body's value when the code has one, and gives the handler's result; else it gives the body's result. pass in a handler gives the body's result back: a yielded body waits and resumes where it was. The finally handler runs last, whenever the command would give the body's or an OK handler's result, and that result stands when it ends normally; any other result of a handler or of finally is given as it is. A yield in the body with a handler, in a handler or in finally suspends the command; resuming gives the value to that very process and goes on from that step. With only a body, the result is the tuple of the code's name and the value. Ill-formed handlers and bodies that are no scripts give an error before anything runs in them.",
 quant="all handler lists, body, handler and finally results, and every suspension and resumption history",
 why="The command is a state machine over suspended processes; tests try single yields, while the guarantee is for every sequence of codes, suspensions and nested commands.",
 files=["src/helena_dialect/controls.go"], mech=[("catchCmd.run", "src/helena_dialect/controls.go"), ("catchCmd.Resume", "src/helena_dialect/controls.go"), ("catchCmd.findHandlerIndex", "src/helena_dialect/controls.go")],
 note=TB+" Process.Run, Scope.PrepareProcess and script compilation are trusted: running a process gives a well-formed result and leaves the state of other suspended commands alone."),
dict(id="C16", title="Selectors apply element by element, in order, and never change their operand",
 statement="An index selects a list element or string byte, a key a dictionary entry or namespace variable; a value without that capability, an unknown or malformed key or index gives an error. A keyed selector asks each key, in order, of what the one before selected, stops at the first failure and gives that failure. A value's own selection takes precedence over the selector's. A tuple answers any selection with a new tuple of the same length holding the answer of each element in place, or with the failure of an element. Selecting from a qualified value gives a new qualified value with the same source and one more selector, successive keys merged into one selector in order; several values built from one base never affect each other or the base. Empty selectors and nil indexes are refused. No selection changes its operand or panics. Tuple length, at and conversions follow the same elements.",
 quant="all values (including foreign ones), nestings, tuple lengths, selectors and chains of selections",
 why="Tests select from a few short values; that no selection disturbs its operand or another value built from it must hold for every chain of selections, and sharing shows only after several of them.",
 files=["src/core/selectors.go", "src/core/values.go", "src/helena_dialect/tuples.go"], mech=[("KeyedSelector.Apply", "src/core/selectors.go"), ("TupleValue.SelectKey", "src/core/values.go"), ("QualifiedValue.SelectKey", "src/core/values.go"), ("ApplySelector", "src/core/selectors.go")],
 note=TB+" Foreign values may answer a selection as they like, but with a value when they succeed and without changing anything reachable."),
dict(id="C05", title="The VM's frames are disjoint stacks; resolution is by element and selector",
 statement="A program state is a stack of values cut into frames, each with a result of its own. Opening a frame adds an empty one with no result (nil); pushing and popping touch only the last value; expanding replaces the last value, when it is a tuple, by its elements in order; closing a frame gives exactly its values, in order, and leaves the outer frames, their values and results as they were; setting a result changes the current frame's only; resetting leaves one empty frame and nothing of the run before. Resolving a name gives what the resolver answers, or an error; resolving a tuple gives a new tuple with each element resolved in place, or the failure of one; resolving a qualified value applies its selectors, in order, each to what the one before gave, and stops at the first failure. The values resolved are left unchanged.",
 quant="all program states, frame depths, values, tuples, selector chains and resolvers",
 why="Tests run whole programs with shallow nesting; that each step keeps the outer frames, and that resolution never changes a program's constants or a variable's value, must hold for every state.",
 files=["src/core/compiler.go"], mech=[("ProgramState.CloseFrame", "src/core/compiler.go"), ("ProgramState.Expand", "src/core/compiler.go"), ("Executor.resolveTuple", "src/core/compiler.go"), ("Executor.resolveQualified", "src/core/compiler.go")],
 note=TB+" Resolvers may answer as they like. The opcode loop (ExecuteUntil) itself is not under contract."),
dict(id="C10", title="Value conversions are total and mean the same from every source type",
 statement="Every value either converts to a string, integer, number, boolean or list, or gives an error result; never a panic. Strings are themselves, booleans true or false, integers their decimal form, reals their shortest decimal form, scripts their source when they have one; nothing else has a string form. A value converts to an integer when it is one or when its string form is a decimal 64-bit integer, to a number when it is a number (an integer exactly as the nearest float) or when its string form is a decimal float, to a boolean when it is one or when its string form is true or false, and to a list when it is a list or a tuple, with the same elements. Conversions with a default give it exactly when there is no string form. A value that already has the wanted type is given as it is.",
 quant="all values of all types, including foreign ones, and all strings and 64-bit numbers",
 why="Every command depends on these conversions; tests try a few literals, while corner forms (signs, prefixes, large integers, sourceless scripts) decide whether the same value means the same everywhere.",
 files=["src/core/values.go"], mech=[("ValueToString", "src/core/values.go"), ("ValueToInteger", "src/core/values.go"), ("ValueToFloat", "src/core/values.go"), ("ValueToBoolean", "src/core/values.go")],
 note=TB+" strconv.ParseInt (base 10, 64 bits), ParseFloat, FormatInt and FormatFloat are taken as the meaning of decimal forms."),
]
NA = [
dict(id="C02", title="Display of a parsed word reads back as the same word",
 statement="The display form of a value made of nil, booleans, numbers, strings, lists, dictionaries, qualified names and scripts is a source text that parses and evaluates to an equal value, whatever characters the strings contain.",
 quant="all values with a source form", why="Quoting and escaping must be right for every string content.",
 files=["src/core/display.go", "src/core/values.go"], mech=[("Display", "src/core/display.go")],
 reason="The postcondition relates Display to the composition of tokenizer, parser, syntax checker, compiler and opcode loop. Only the tokenizer has a complete functional contract (C01); without one for the others the round trip is not an obligation over contracts."),
dict(id="C03", title="The parser builds the tree its token stream denotes, or reports an error",
 statement="For every token stream the parser terminates with either a script whose words cover the tokens in order with balanced, correctly nested delimiters, or a parse error naming the offending token; it never panics.",
 quant="all token streams", why="Nesting depth, delimiters and stream ends combine without bound.",
 files=["src/core/parser.go"], mech=[("Parser.Parse", "src/core/parser.go")],
 reason="The parser keeps a stack of contexts that share ownership of nodes through interfaces and parent pointers. gowp has no separation or ownership contracts for recursive heap structures of unbounded depth, so the frame of one step over all open contexts could not be stated inductively in the time available."),
dict(id="C04", title="Compiled programs leave one result per sentence and balanced frames",
 statement="For every script the compiler emits a program whose execution opens and closes frames in matching pairs, reads only constants that exist, and leaves exactly the result of its last sentence.",
 quant="all scripts", why="Nesting of words, blocks, expressions and selectors is unbounded.",
 files=["src/core/compiler.go"], mech=[("Compiler.emitScript", "src/core/compiler.go")],
 reason="Stack balance of an emitted program is an inductive property of mutually recursive emitters over a heap-allocated syntax tree; its contract needs a stack-effect measure of the whole opcode list built so far and a well-formedness predicate of the tree, and the tree has no contracts (see C03). Single instructions of the machine are decided by C05."),
dict(id="C12", title="Argument specs accept exactly the arities they declare and bind in order",
 statement="An argument spec accepts an argument count exactly when it is at least the number of required arguments and, without a remainder, at most the total; values bind left to right, optional ones while any are left over, the remainder taking the rest.",
 quant="all specs and argument lists", why="Positions of optional and remainder arguments combine without bound.",
 files=["src/helena_dialect/argspecs.go"], mech=[("Argspec.CheckArity", "src/helena_dialect/argspecs.go")],
 reason="Binding goes through setter callbacks that run guards and defaults as programs (arbitrary commands); contracts for them were not completed."),
dict(id="C14", title="A resumed process continues exactly where it yielded",
 statement="A process suspended by a yield, at any depth of nested scripts, continues after Resume with the same frames and variables and gives the result an uninterrupted run would.",
 quant="all programs and yield points", over=["schedules"], why="Yields may occur at any depth and any number of times.",
 files=["src/helena_dialect/core.go"], mech=[("Process.Run", "src/helena_dialect/process.go")],
 reason="Process.Run calls continuations of arbitrary commands that may push and pop on the same process stack; its invariant needs a contract for every Command implementation, open-ended in this design. The per-command links of the induction are decided in C13 and C15; the loop itself is trusted."),
dict(id="C17", title="Ensemble subcommands dispatch to the right command and arguments",
 statement="Calling an ensemble with its declared arguments and a subcommand name runs that subcommand with the ensemble values first and the remaining arguments in order, for every arity and nesting.",
 quant="all ensembles and calls", why="Nested ensembles and arities are unbounded.",
 files=["src/helena_dialect/ensembles.go"], mech=[("EnsembleCommand.Execute", "src/helena_dialect/ensembles.go")],
 reason="Dispatch depends on CollectArguments of the ensemble's argument spec (C12) and on an arbitrary command found in a scope; C12's contracts are not complete."),
dict(id="C18", title="Modules expose exactly their exports",
 statement="Importing from a module binds exactly the exported names requested, to commands that run in the module's scope; circular imports give an error.",
 quant="all module graphs", over=["histories"], why="Import graphs are unbounded.",
 files=["src/helena_dialect/modules.go"], mech=[("importCmd.Execute", "src/helena_dialect/modules.go")],
 reason="Import reads the file system and runs whole scripts; cycle detection is a property of the history of nested runs, which a function contract reaches only with contracts for arbitrary commands (see C14)."),
dict(id="C19", title="Aliases and leading tuples behave as the expanded call",
 statement="Calling a tuple or alias runs the command its expansion designates with the expanded arguments, including through suspension and resume.",
 quant="all tuples, aliases and arguments", why="Nesting of tuples is unbounded.",
 files=["src/helena_dialect/core.go", "src/helena_dialect/aliases.go"], mech=[("ExpandPrefixCommand", "src/helena_dialect/core.go")],
 reason="Expansion ends in an arbitrary command; the state object passed to its Resume is shared with that command without an ownership discipline that could be stated."),
dict(id="C21", title="Closures and macros run in the right scope",
 statement="A closure runs its body in the scope where it was created, a macro in the scope where it is called, each with its own locals for its arguments.",
 quant="all closures, macros and call sites", why="Scopes and calls nest without bound.",
 files=["src/helena_dialect/closures.go", "src/helena_dialect/macros.go"], mech=[("closureCommand.Execute", "src/helena_dialect/closures.go")],
 reason="Needs the argument specs (C12) and the guards that run as programs; name resolution in a given scope is decided by C11."),
dict(id="C22", title="Coroutines alternate values with their caller in order",
 statement="Each wait and yield on a coroutine exchanges exactly one value in order until the body ends; a finished coroutine refuses to be resumed.",
 quant="all bodies and sequences of calls", over=["histories"], why="The number of exchanges is unbounded.",
 files=["src/helena_dialect/coroutines.go"], mech=[("coroutineCommand.Execute", "src/helena_dialect/coroutines.go")],
 reason="The state of a coroutine is the state of its process (C14)."),
dict(id="C23", title="Picol commands follow Tcl's rules on every operand",
 statement="The picol arithmetic, comparison and control commands give an error result, never a panic, on operands of the wrong type or count.",
 quant="all operands", why="Operand types and counts combine freely.",
 files=["src/picol_dialect/picol_dialect.go"], mech=[("PicolScope", "src/picol_dialect/picol_dialect.go")],
 reason="The dialect is one file of closures that run scripts through the core compiler and machine; it is a secondary dialect and was left out to cover the main one first."),
dict(id="C25", title="Native bindings convert values both ways without loss",
 statement="Each native command (regexp and others) accepts the operands it documents and turns failures of the wrapped library into error results.",
 quant="all operands", why="Wrapped libraries accept arbitrary input.",
 files=["src/native/"], mech=[("regexp", "src/native/")],
 reason="The wrapped libraries (regexp and others) have no contracts; assuming one for each would leave only argument counting to verify."),
]

