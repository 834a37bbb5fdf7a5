"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = [x.strip() for x in observe.split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


C = "src/c/"
prop("P01", "Core expressions evaluate as lexically scoped, applicative-order Scheme",
     "Every expression built from constants, variables, lambda, if, define, set!, let/let*/letrec/named let, do, begin, cond, case, and, or and procedure calls yields the value that lexically scoped, left-to-right, applicative-order Scheme semantics prescribes, with every subexpression evaluated exactly as often as and in the order those semantics say. "
     "Closures keep the variables of the place where they were created, a definition or assignment affects exactly the binding it names, and a later top-level form sees precisely the bindings the earlier ones left behind.",
     ["programs", "histories"], "all nestings of the special forms up to a depth and all sequences of top-level definitions, assignments and calls up to a length",
     "The tests evaluate a few hundred fixed expressions; scoping and evaluation-order errors appear only in particular nestings of forms (shadowing, capture, re-entry of a body) whose number grows exponentially.",
     [C + "eval.cc", C + "apply.cc", C + "let.cc", C + "do.cc", C + "cond.cc", C + "case.cc", C + "define.cc", C + "environment.cc"],
     "recursive evaluator over cons cells with association-list environments and one global table",
     [("environment chain", "which binding a name denotes")], "printed value of each top-level form, the trace of side effects")
prop("P02", "Continuations re-enter exactly the captured computation, any number of times",
     "Invoking a continuation obtained from call-with-current-continuation (or call/cc) abandons the current computation and makes the capturing call return the given value, with every pending evaluation step of that moment resumed, whether the continuation is invoked before the call returns, after it returned, once or many times, and from the same or a later top-level form or another procedure. "
     "Values already computed by pending calls are those computed before the capture, and assignments made since then stay visible.",
     ["programs", "histories"], "all placements of captures and invocations among evaluation contexts up to a depth, and all sequences of captures and re-entries up to a length",
     "The tests contain a handful of generator and escape examples; copying the native stack is right or wrong depending on what is pending at the capture and what ran since, which they do not vary.",
     [C + "continuation.cc", C + "eval.cc", C + "apply.cc", C + "map.cc", C + "for_each.cc"],
     "setjmp/longjmp plus copying of the native stack between the capture and the stack bottom",
     [("saved stack image", "the pending computation")], "result of each top-level form and the effect trace")
prop("P03", "dynamic-wind guards run in order on every entry and exit",
     "Whenever control leaves the body of a dynamic-wind, by normal return, by a continuation or by a caught or uncaught error, its after thunk runs exactly once, innermost first; whenever control enters the body, initially or by a continuation, its before thunk runs exactly once, outermost first; and a transfer between two points runs only the guards that are not common to both. "
     "The body's value is the value of the whole expression.",
     ["programs", "histories"], "all nestings of dynamic-wind with captures, re-entries, throws and catches up to a depth, and all transfer histories up to a length",
     "The tests try a few single-level examples; the property is about every pair of points between which control can be transferred.",
     [C + "dynwind.cc", C + "continuation.cc", C + "throw.cc"],
     "a global list of active guards compared at each transfer", [("wind list", "the guards currently entered")], "order of the guards' effects")
prop("P04", "A throw reaches the innermost matching handler, with its arguments",
     "A throw of a key transfers control to the dynamically innermost active catch (or handler) for that key or for #t, the handler receives the key and exactly the thrown arguments, and its value becomes the value of that catch expression; catches already exited, or for other keys, never see it. "
     "Errors detected by the system itself are thrown the same way, and after any number of caught and uncaught errors the set of active handlers is exactly the set of catch expressions being evaluated.",
     ["programs", "histories"], "all nestings of catch, throw, rethrow, errors and continuations up to a depth and all sequences of top-level forms that throw",
     "The tests throw from one or two levels; what a handler stack does after particular interleavings of non-local exits is not sampled.",
     [C + "throw.cc", C + "error.cc", C + "eval.cc"],
     "a stack of jump buffers with associated keys", [("catch stack", "handlers that are active now")], "value of each form and handler trace")
prop("P05", "An embedding host survives every error and can keep using the interpreter",
     "Whatever expression or text is given to the evaluate and parse entry points of the embedding interface, they return control to the host, reporting a failure by their documented result, and afterwards the interpreter behaves as if the failing form had simply stopped at the error: earlier definitions are intact, later evaluations give the same results as without the failed ones, and the reported error key is that of the latest failure.",
     ["histories", "fault_sequences", "inputs"], "all sequences, up to a length, of successful and failing evaluations drawn from every class of error",
     "The tests exercise each error in isolation; corrupted evaluator state shows only in what a later evaluation does.",
     [C + "throw.cc", C + "error.cc", C + "init.cc", C + "eval.cc", C + "parse.cc"],
     "a top-level catch around each entry point and global evaluator state that must be reset", [("evaluation stack, current module, wind list, catch stack", "must be restored after an error")], "results of later evaluations")
prop("P06", "Garbage collection is invisible to programs, whenever it happens",
     "The result and output of a program are the same whichever of its allocations trigger a garbage collection: no value that the program can still reach, whether through variables, partially evaluated calls, native primitives in progress, captured continuations, ports, hash tables or parsed input, is ever reclaimed or altered by a collection.",
     ["programs", "schedules"], "every allocation of every program of a covering set, taken one at a time as the point of a forced collection (and all of them at once)",
     "Collections happen only after megabytes of allocation, so ordinary tests run without any; the property quantifies over every point where one could occur.",
     [C + "gc.cc", C + "gc.h", C + "continuation.cc", C + "environment.cc", C + "hash_table.cc"],
     "conservative mark and sweep of the native stack with registered roots and per-type trace functions", [("roots", "what keeps an object alive")], "program result under a collection at allocation k")
prop("P07", "The collector reclaims what is unreachable and keeps memory bounded",
     "After a collection every object that is reachable from a registered root or the stack is intact and usable, blocks of unreachable objects can be allocated again, no block is handed out while it is in use, and a program whose reachable data stays bounded can allocate without limit in bounded memory.",
     ["histories"], "all sequences of allocations of every size class, root changes and collections up to a length",
     "Tests do not allocate enough to collect; reuse and coalescing errors depend on particular allocation histories.",
     [C + "gc.cc", C + "gc.h"], "segregated free lists over heap segments, mark bits and a threshold", [("free lists", "blocks that may be handed out")], "addresses and contents of allocated blocks")
prop("P08", "Hash tables behave as finite maps under their key equivalence",
     "After any sequence of insertions, updates, removals, lookups and traversals, a hash table contains exactly the associations that a finite map keyed by the table operation's equivalence (equal, eqv or eq) would contain, for keys of every type, and a traversal visits each association exactly once. "
     "A key that is equivalent to a stored key finds it, whatever other keys are present.",
     ["histories", "inputs"], "all sequences of operations over a set of keys of every type up to a length, with small table sizes so that keys collide",
     "Tests insert a few distinct symbols or strings; agreement of the hash with the equivalence and chain handling needs all combinations of key types and operation orders.",
     [C + "hash_table.cc", C + "eq.cc"], "bucket array of association lists", [("bucket chains", "the associations")], "results of lookups and folds")
prop("P09", "List and association-list operations match their mathematical definition",
     "On all proper lists, improper lists and association lists, the list operations (construction, access, length, append, reverse, tails, membership, association lookup, update and removal, in place or copying) return what their definition prescribes, leave their arguments unchanged unless they are documented to modify them, and report an error rather than a value when an argument is outside their domain.",
     ["inputs", "histories"], "all lists over a small alphabet up to a length, nested and improper, and all sequences of destructive operations up to a length",
     "Tests use one or two lists per primitive; boundary shapes (empty, single, improper, shared) are not combined.",
     [C + "list.cc", C + "alist.cc", C + "eq.cc"], "recursive and iterative walks over cons cells", None, "printed results and later views of shared structure")
prop("P10", "String, character and symbol operations match their definition",
     "For all strings over any characters (including empty strings, spaces, digits, letters of both cases and non-letters), string, character and symbol operations return the results their definitions prescribe, comparisons are total orders consistent with equality, conversions between strings, symbols, numbers, characters and lists are mutually inverse where defined, mutations affect exactly the addressed characters, and indices out of range are reported as errors.",
     ["inputs", "histories"], "all strings over a small alphabet up to a length with all indices, and all sequences of mutations up to a length",
     "Tests use a few words; boundary indices, empty strings and case or sign boundaries need enumeration.",
     [C + "string.cc", C + "char.cc", C + "symbol.cc"], "length-counted byte strings", None, "printed results")
prop("P11", "Vectors hold exactly what was last stored at each index",
     "After any sequence of constructions, stores, fills and conversions, reading any index of a vector yields the value last stored there (or the fill), its length never changes, distinct vectors never share storage, conversions to and from lists preserve order and content, and an index outside the vector is reported as an error without touching any storage.",
     ["histories", "inputs"], "all sequences of vector operations over small vectors and all indices around the bounds up to a length",
     "Tests read back single stores; aliasing and bounds need operation sequences.",
     [C + "vector.cc"], "arrays of object pointers", [("elements", "contents")], "printed results")
prop("P12", "eq?, eqv? and equal? are nested equivalence relations",
     "On all pairs of values eq? implies eqv? and eqv? implies equal?; each is reflexive, symmetric and transitive; equal? compares pairs, vectors and strings by their contents and nothing else; and eq? and eqv? distinguish separately created pairs, vectors, procedures and hash tables while identifying every object with itself wherever it is stored (as documented by this implementation's tests, numbers are compared by value, also 1 with 1.0, and strings by content).",
     ["inputs"], "all pairs and triples of values of every type up to a size",
     "Tests compare a dozen pairs; equivalence is a statement about all pairs and triples.",
     [C + "eq.cc", C + "predicate.cc"], "type-directed structural comparison", None, "truth of the predicates")
prop("P13", "Arithmetic is exact on integers and rationals and consistent on reals",
     "For all exact integers and fractions whose results are representable, arithmetic and comparison give the mathematically exact result in lowest terms; operations that mix exact and inexact arguments give the inexact result; quotient, remainder, modulo, gcd and lcm satisfy their defining equations for every combination of signs; and division by exact zero is reported as an error.",
     ["inputs"], "all tuples of operands over a range of integers, fractions and reals, including signs, zero and boundaries",
     "Tests compute with a few positive numbers; sign and type combinations are what break.",
     [C + "number.cc"], "64-bit integers, ratios and doubles with promotion", None, "printed results")
prop("P14", "The reader accepts exactly the datum syntax and never fails to return",
     "For every text the reader returns the sequence of data that the datum syntax assigns to it or reports a failure in bounded time; it never crashes, hangs, reads outside the text, or yields a datum for a malformed text, and comments and white space never change the result.",
     ["inputs"], "all texts over the alphabet of significant characters and tokens up to a length",
     "Tests parse a few well-formed texts; the reader's behaviour is defined on all texts.",
     [C + "parse.cc"], "recursive-descent parser over the text", None, "parsed data or failure")
prop("P15", "What write prints, the reader reads back as the same value",
     "For every value composed of lists, vectors, numbers, strings, characters, symbols (whose names do not start with a dot or contain a null character) and booleans, reading the text produced by write (also through a port) yields an equal value (floats with up to the 14 significant digits that are printed), display prints the characters of a string or character itself and any list as write does, and printing does not modify the value.",
     ["inputs"], "all values up to a size, with every character in strings and character literals",
     "Tests print a few values; escapes and nesting need enumeration.",
     [C + "print.cc", C + "parse.cc", C + "port.cc"], "printer and reader pair", None, "printed text and the value read from it")
prop("P16", "Ports deliver exactly the data written and read, in order",
     "For every sequence of operations on input, output, string and file ports, reading delivers exactly the characters of the source in order, each once, peeking never consumes, end of input is reported exactly when everything was delivered and stays so, everything written appears in the sink in order and completely once closed or flushed, what is read or written without naming a port uses the current port, soft ports call their procedures once per operation, the use of a closed port is an error, and operations on distinct ports do not affect each other.",
     ["histories", "inputs"], "all sequences of port operations up to a length over small contents",
     "Tests perform one scripted sequence per port type.",
     [C + "port.cc", C + "print.cc", C + "load.cc"], "buffered file, string and soft ports", [("port position", "what was delivered")], "characters returned and sink contents")
prop("P17", "Modules isolate names and share exactly what they export",
     "A name defined in one module is visible in another only if the second uses the first and the first exports the name (a module that exports nothing shows all its names); the two then share one variable, also when it is defined, exported, assigned or redefined after the use. "
     "Code finds a free name in the module it was written in, wherever it is called from: a local variable first, then the module's own definition, then the modules it uses, the latest first, then what is defined globally; definitions inside a procedure stay local to it. "
     "A module is loaded from its file once however often and in whatever order it is used, also by modules that use each other; a name declared with #:autoload loads its module when it is first looked up, and the binder of a module is asked for a name only when nothing else defines it. "
     "After a use of a module, successful, failed or left by a continuation, evaluation continues in the module where it was.",
     ["histories", "programs"], "all sequences of module definitions, exports, uses, assignments and references over two and three modules up to a length, all pairs of module files from a grammar, all points at which a load can fail",
     "Tests load two fixed modules.",
     [C + "module.cc", C + "environment.cc", C + "load.cc", C + "eval.cc", C + "macro.cc"], "per-module symbol tables with use lists and export tables", [("current module", "where definitions go")], "values of names in each module")
prop("P18", "Macros and quasiquotation rewrite exactly as written",
     "A quasiquoted template evaluates to the template with exactly its unquoted parts replaced by their values and its spliced parts by the elements of their lists, at the right nesting level, and leaves the template itself unchanged; a macro use evaluates, in the environment of the use, the form its transformer returns for the unevaluated operands, once per use.",
     ["programs"], "all templates up to a size with unquotes and splices at every position and all macro definitions of a family applied in every context",
     "Tests contain a dozen templates.",
     [C + "quasiquote.cc", C + "macro.cc", C + "eval.cc"], "template walk and transformer call", None, "values of the expressions")
prop("P19", "Promises are forced at most once and keep their first value",
     "Forcing a promise evaluates its expression in the environment of its creation at most once to a value; every force of it, including recursive and re-entrant forces while it is being computed, yields the value first obtained, and an error while forcing leaves the promise unforced. "
     "Creating a promise evaluates nothing.",
     ["programs", "histories"], "all sequences of creations and forces, with nested, recursive, failing and escaping bodies, up to a length",
     "Tests force one promise twice.",
     [C + "delay.cc"], "promise objects with a done flag", [("done flag", "value computed")], "force results and effect trace")
prop("P20", "Procedures receive exactly their arguments, however they are called",
     "A procedure of any kind (lambda with required and rest parameters, built-in, continuation, or parameterised by the host) called directly or through apply, map, for-each, call-with-values or a callback-taking primitive receives exactly the given argument values, each evaluated once, in order; a wrong number of arguments is an error that runs nothing of the body; and map and for-each call the procedure once per position, in order, with the corresponding elements of the lists.",
     ["programs", "inputs"], "all combinations of procedure kinds, arities, argument counts and ways of calling up to a size",
     "Tests call each primitive with one or two argument counts.",
     [C + "apply.cc", C + "procedure.cc", C + "map.cc", C + "for_each.cc", C + "values.cc"], "argument binding and native call dispatch", None, "received arguments and results")
prop("P21", "Host-defined procedures, variables and object types work like built-in ones",
     "A procedure, variable or object type registered through the embedding interface is visible to programs under its name, and in the module it was defined in, with its arity enforced however it is called; its callbacks are called with exactly the program's arguments, its results reach the program unchanged, and errors, continuations and dynamic-winds pass through them as through procedures of the program; "
     "the host finds by name what the program would find; values converted between host and program survive the round trip; objects of a host type are printed, compared and called by the operations the host gave, keep their data, and are of their own type only; an error in a host operation is reported to the host (and to its error handler once) and changes nothing else.",
     ["histories", "inputs"], "all sequences of registrations, definitions, lookups, module changes, calls with every argument count, conversions, object operations, failing host operations and port changes up to a length, also with a collection at every allocation",
     "Tests register a few procedures and one object type.",
     [C + "smob.cc", C + "procedure.cc", C + "pscm_api.cc", C + "module.cc", C + "variable.cc", C + "number.cc", C + "apply.cc", C + "throw.cc"], "tables of native functions and type hooks", [("type table", "hooks per type")], "callback traces, results and error reports")
prop("P22", "No call of a primitive can bring the process down",
     "Calling any primitive with any number of arguments of any types either returns a value or reports an error to the program; it never crashes, aborts, loops forever or corrupts memory.",
     ["inputs"], "every primitive applied to all argument tuples up to length three over values of every type",
     "Tests call primitives with arguments of the expected types.",
     [C + "*.cc"], "argument checks in every primitive", None, "process status and sanity of later evaluations")

prop("P23", "A script or an interactive session evaluates all of its forms in order",
     "The command line program evaluates every expression of the script it is given, or of what is typed into it, exactly once and in order, however the expressions are laid out on lines (several on one, one over many, comments, strings, characters and symbols that contain parentheses, lines of any length), and prints the value of each. An error that nobody catches is reported on the error output and what follows is evaluated as if the failed form had only had the effects it had; text that cannot be read is reported, evaluates nothing of a script and does not end a session; exit ends the program at once with the status it is given, the end of the input ends it with status 0, and wrong options or files that cannot be read with a failure; whatever the program wrote to files is in them then, and standard input that the session has not taken is the program's.",
     ["inputs", "histories"], "all layouts of pairs of forms, all sessions of up to three (thorough four) lines, scripts, sizes, options, input for the program",
     "Tests give a fixed set of well-formed scripts; the interactive session has no test.",
     ["src/main.cc", C + "repl.cc", C + "exit.cc", C + "pscm_api.cc", C + "parse.cc"], "main, do_eval, repl, exit", None, "standard output, error output and exit status of the program")

prop("P24", "A call in tail position uses no stack, so loops can run for ever",
     "A call in tail position, at the end of a procedure's body, of either branch of if, of a clause of cond (=> included) or case, of and, or, begin, let, let*, letrec, named let, the result of do, or of the expansion of a macro, however these are nested and wherever the loop is run, takes no stack: a loop made of such calls, of one procedure, several that call each other, procedures passed as values or in modules, runs for any number of rounds and yields its exact value.",
     ["programs"], "all loops through up to two (thorough three) nested tail contexts and ten ways of calling, pairs of loops that call each other, with the stack measured in every round",
     "Tests loop a few dozen times, which any stack is large enough for.",
     [C + "eval.cc", C + "cond.cc", C + "case.cc", C + "do.cc", C + "let.cc", C + "macro.cc"], "eval_with_env's loop, the helpers that hand it the last expression", None, "values, and the depth of the stack in each round")
prop("P25", "Recursion without end and deep or long data never bring the process down",
     "Recursion that uses up the stack raises an error like any other, through whatever it recurses: a catch gets it, dynamic-winds are left once each, the effects that were made stay, and whatever is evaluated afterwards behaves as always, also a second time. Recursion that ends gives its exact value; data nested more deeply than the stack allows is handled exactly or with such an error by every operation, and lists of any length, and as many data as there is memory for, are handled exactly.",
     ["programs", "inputs"], "all ways of recursing nested two (thorough: three) deep under all ways of handling the error; all operations on all shapes of deep and of long data",
     "Tests recurse a few levels.",
     [C + "error.cc", C + "eval.cc", C + "print.cc", C + "eq.cc", C + "quasiquote.cc", C + "list.cc", C + "throw.cc", C + "dynwind.cc"], "stack guard in the recursive functions", None, "values, handlers' and winders' effects, later evaluations, status of the process")

prop("P26", "Data know where they were read, and errors say where they happened",
     "Every datum that is read from a text or a file carries the file, the line and the column it begins at, whatever the layout (comments, blank and long lines, strings over several lines, any nesting); a text that ends inside a datum is refused with the place of its end, a closing parenthesis too many with its own place. The message of an error that an expression raises begins with the place of that expression, or of one that it is evaluated in place of (its last part), in the file its code was read from, also when it is called from another file, after handled errors, continuations and winds, and inside callbacks; the expansion of a macro has the place of the use, part by part as far as the two correspond.",
     ["inputs", "programs"], "all data up to a size in all layouts of a family, all failing expressions in all pairs (thorough: triples) of contexts, layouts and ways of catching",
     "Tests look at the place of a handful of errors in one layout.",
     [C + "parse.cc", C + "source_location.cc", C + "error.cc", C + "eval.cc", C + "macro.cc", C + "load.cc"], "source locations of data, the context of the evaluation", [("location", "where the datum began")], "recorded places of data, places in error messages")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
