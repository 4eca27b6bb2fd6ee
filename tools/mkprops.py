#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
m = lambda n, w: dict(name=n, where=w)
s = lambda n, me, w: dict(name=n, meaning=me, where=w)

p("C01", "A failing writer gets a true prefix and its failure is reported",
  "Rendering any expression, part of an expression or number, for display or for debugging, into a writer that fails at any point returns that failure, without panicking and without claiming success. By then the writer has been handed exactly the beginning of the text that a healthy writer gets, and it is not written to again after it failed. A healthy writer always gets the whole text, however small the pieces it accepts, however often it is interrupted, and however many earlier renderings failed.",
  ["inputs", "fault_sequences"],
  "every expression and every public renderable type, every format flag, every byte or call at which the sink can fail, every sequence of earlier failures",
  "the single rendering test compares 28 complete strings from a String sink, which never fails; no test ever sees a writer return an error",
  ["src/sym_fmt.rs", "src/atom.rs", "src/rational.rs", "src/utils.rs", "src/polynomial.rs"],
  [m("every write is propagated with ?", "src/sym_fmt.rs SymbolicFormatter"), m("hand-written Debug impls", "src/atom.rs Sum, Prod, Pow"), m("derived Display and Debug", "src/atom.rs Atom, Func, Real, Irrational, Var, Expr; src/rational.rs Rational; src/polynomial.rs")],
  [s("writer position", "how much of the text the sink has accepted", "caller's fmt::Write or io::Write")],
  ["fmt::Display", "fmt::Debug", "io::Write::write_fmt"])

p("C02", "What is saved through any stream is what is loaded back",
  "An expression, or a part of one, that is saved to a byte stream and loaded back is the same one: same structure and argument order, same names and exact numbers, same text, equal to and hashed like the original, and giving the same results in further operations, however the streams split or interrupt the transfers. When a stream fails or fills up, saving or loading returns that failure without panicking, and what was written is the beginning of the full record. This holds for every nesting the stream format's own reader accepts.",
  ["inputs", "fault_sequences"],
  "every serializable value, every way of splitting reads and writes, every interruption, I/O error and full disk at every byte",
  "no test serializes anything; the stream behaviour is a quantifier over transfer sizes and error points that a sampled test does not vary",
  ["src/atom.rs", "src/rational.rs", "src/transforms.rs"],
  [m("derived Serialize and Deserialize", "src/atom.rs Expr, Atom, Sum, Prod, Pow, Func, Real, Irrational, Var"), m("Rational serialization", "src/rational.rs")],
  [s("record", "serialized bytes on the simulated disk", "caller's io::Write / io::Read")],
  ["serde::Serialize", "serde::Deserialize"])

p("C03", "Torn or damaged records never pass for a different expression",
  "A record saved as JSON text and cut short at any point is rejected and never loads as some other expression, so a log of records cut by a crash yields exactly its complete records, in order. A record with a single flipped bit is either rejected or loads with the same structure, differing at most in a name or a number. No damage makes loading panic or run on, and whatever does load is well-formed: exact numbers in lowest terms with a positive denominator, and it renders, compares with itself, and saves and loads again unchanged.",
  ["inputs", "crash_points", "fault_sequences"],
  "every record, every cut, every flipped bit, overwritten, lost, zeroed, duplicated or transposed range, every crash point while a log of records is being appended",
  "no test loads anything, let alone damaged bytes; the space of cuts and flips has to be searched",
  ["src/atom.rs", "src/rational.rs"],
  [m("self-delimiting record encoding with mandatory fields", "derived Deserialize in src/atom.rs"), m("number validation on load", "src/rational.rs Rational")],
  [s("durable bytes", "what survives the simulated crash", "simulated disk")],
  ["serde::Deserialize"])

p("C04", "An interrupted operation changes nothing and can be repeated",
  "When an operation is cut short by a failing allocation, by a panic in code the caller passed in, or by a panic of its own, every expression that existed before it still has exactly the value it had, including the target of a compound assignment and everything sharing parts with it. Only an expression being edited in place through a caller's callback, or a bare sum or product being added to term by term, may be left partly edited. Repeating the operation without the interruption gives what it would have given the first time.",
  ["inputs", "crash_points", "histories", "fault_sequences"],
  "every operation, every allocation and every callback invocation at which it can be cut short, every history of earlier operations and interruptions, every sharing of subexpressions",
  "no test interrupts an operation: the tests' allocations never fail and their callbacks never panic",
  ["src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/rational.rs", "src/sym_fmt.rs"],
  [m("operators compute a new value and only then store it", "src/algos.rs ops::*Assign"), m("copy on write", "src/atom.rs Expr::atom_mut"), m("editing of a private clone", "src/algos.rs substitude, reduce, expand")],
  [s("shared expression nodes", "reference-counted nodes held by several expressions", "src/atom.rs Expr")],
  ["Expr operators and methods"])

p("C05", "Memory is given back, whether operations finish or are cut short",
  "All memory that operations take is given back once the expressions they returned are dropped, whether the operations finished or were cut short by a failing allocation or a panic. Repeating work of the same kind, also with other names or on other threads, never makes the memory in use grow round after round.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of operations, every interruption point, every number of rounds and threads",
  "no test measures memory, repeats work or interrupts an operation",
  ["src/atom.rs", "src/algos.rs", "src/sym_fmt.rs", "src/polynomial.rs"],
  [m("reference counting without cycles", "src/atom.rs Expr"), m("per-thread constants released at thread exit", "src/atom.rs Expr thread_local")],
  [s("live memory", "bytes and blocks not yet returned", "global allocator")],
  ["global allocator"])

p("C06", "Sharing is invisible: no holder sees another holder's changes",
  "Copying an expression, or building a larger one from it, and then changing one holder's copy in place (by compound assignment, by editing its arguments, or by replacing subexpressions through a callback) never changes what any other holder observes, in whatever order the holders act and even while one of them is part-way through walking its copy. Every result is the same as if each holder had a private deep copy of everything it uses.",
  ["histories", "schedules", "inputs"],
  "every history of operations over shared expressions, every order in which the holders act, every sharing pattern",
  "the tests build each expression once and never change a copy while another holder still uses it",
  ["src/atom.rs", "src/algos.rs"],
  [m("copy on write", "src/atom.rs Expr::atom_mut (make_mut)"), m("in-place editing", "src/atom.rs args_mut, map_args; src/algos.rs for_each_compl_sub_expr, try_for_each_compl_sub_expr")],
  [s("shared expression nodes", "reference-counted nodes held by several expressions", "src/atom.rs Expr")],
  ["Expr::clone", "Expr::atom_mut", "Expr::args_mut", "compound assignment"])

p("C07", "Results depend on the arguments alone, not on history or environment",
  "What an operation returns (values, argument order, text, and the order of lists, sets and maps it returns) depends only on its arguments. It does not depend on which operations the process performed before, how many, or whether they were cut short, nor on the thread or stack depth it runs at, random hash keys, memory addresses and their reuse, clocks, environment variables, arguments and number of the process, names of threads, working directory and files, terminals, the number of processors or the logging level.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "every operation and arguments, every preceding history including interrupted operations, every choice of hash keys, addresses, clock readings, process surroundings and log level",
  "each test computes each result once, in one process history and one environment",
  ["src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/utils.rs", "src/sym_fmt.rs", "src/rational.rs"],
  [m("fixed hash function for sets and maps", "src/utils.rs BuildHasher"), m("no mutable global state", "whole crate"), m("set contents sorted by cost", "src/algos.rs simplify")],
  [s("per-thread constants", "lazily created shared constants", "src/atom.rs Expr thread_local"), s("hash tables", "iteration order reaches results", "src/algos.rs simplify; src/atom.rs variables; src/polynomial.rs coeffs")],
  ["every public operation"])

p("C08", "Threads working at once get the results each would get alone",
  "Threads that work at the same time on their own expressions each get the results they would get alone, under every interleaving. Each thread finishes its operations in a bounded number of its own steps, even while other threads are stopped for good in the middle of an operation or have been killed there by a panic.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the threads' steps, every point at which a thread stalls for good or dies, every set of operations",
  "the test runner's threads interleave as the machine pleases: no interleaving is chosen, none repeats, and no thread is stopped inside an operation",
  ["src/atom.rs", "src/algos.rs", "src/polynomial.rs", "src/sym_fmt.rs"],
  [m("constants are per thread", "src/atom.rs Expr thread_local"), m("no shared mutable state", "whole crate")],
  [s("per-thread constants", "lazily created shared constants", "src/atom.rs Expr thread_local")],
  ["every public operation"])

p("C09", "Operations work at every moment of a thread's life",
  "Operations give their usual results at every moment at which caller code can run: as the first thing a thread does, inside a writer, hasher, logger, callback or conversion that the library itself is calling, in destructors that run while a panic unwinds, and in destructors and exit handlers that run while the thread or the process shuts down, in whatever order the thread's state is torn down.",
  ["schedules", "crash_points", "inputs"],
  "every operation, every such moment, every order of initialization and destruction of per-thread state, every allocation at which the surrounding operation is cut short",
  "the tests call operations only from the middle of a healthy thread",
  ["src/atom.rs", "src/algos.rs", "src/sym_fmt.rs"],
  [m("per-thread constants are looked up on every use", "src/atom.rs Expr::zero, one, min_one, undef, ..."), m("no borrowed global state held across callbacks", "whole crate")],
  [s("per-thread constants", "created on first use, destroyed at thread exit", "src/atom.rs Expr thread_local")],
  ["every public operation"])

p("C10", "Loading the integration rules reports the same rules every time",
  "Loading the integration rule table at compile time reports the same definitions in the same order every time, whatever random hash keys the process got, however many loads came before it in the same process, whether or not those were cut short, and whichever threads load it at the same time.",
  ["configurations", "histories", "schedules", "fault_sequences"],
  "every choice of hash keys, every history of completed and interrupted loads in one compiler process, every interleaving of concurrent loads",
  "the macros crate has no tests, and one build is one choice of hash keys",
  ["macros/src/rubi.rs", "macros/src/lib.rs"],
  [m("definitions listed per file in source order", "macros/src/rubi.rs func_defs_from, func_def"), m("fresh parser state per load", "macros/src/rubi.rs load_rubi")],
  [s("rule tables", "hash maps from names to definitions", "macros/src/rubi.rs WolframContext")],
  ["integration_rules!"])

p("C21", "Expanding a macro yields the same code every time",
  "Expanding the expression macro or the arithmetic attribute on the same input yields the same tokens, or the same rejection, every time: whatever hash keys, addresses, clock and environment the compiler process has, however many expansions came before in that process, accepted, rejected or cut short, with whatever inputs, on whichever thread, and whatever expands on other threads at the same time.",
  ["configurations", "histories", "schedules", "fault_sequences"],
  "every history of completed, rejected and interrupted expansions in one compiler process, every interleaving of expansions on several threads",
  "the macro crate has no tests, and a build expands each input once in one process",
  ["macros/src/lib.rs"],
  [m("parser state is local to one expansion", "macros/src/lib.rs Expr::parse_bin_expr, gen_expr_stream"), m("rejections are returned as tokens, nothing is kept of them", "macros/src/lib.rs expr, arith_ops")],
  [],
  ["expr!", "arith_ops"])

PURE = "pure function of its input"
p("C11", "Simplifying and rewriting preserve the value of an expression",
  "Reducing, expanding, distributing, factoring, rationalizing, cancelling, and rewriting trigonometric, exponential and logarithmic parts of an expression never changes its mathematical value wherever both sides are defined.",
  ["inputs"], "every expression and every assignment of values to its variables",
  "the tests compare a few dozen hand-picked rewrites",
  ["src/algos.rs", "src/atom.rs"], [m("rewrite rules", "src/algos.rs")])
p("C12", "Derivatives are correct",
  "The derivative computed for any expression with respect to any variable equals its mathematical derivative wherever both are defined, and is free of variables that do not occur in it.",
  ["inputs"], "every expression and variable", "a dozen textbook derivatives are tested",
  ["src/algos.rs", "src/atom.rs"], [m("differentiation rules", "src/algos.rs derivative; src/atom.rs Func::derivative")])
p("C13", "Number arithmetic is exact and never silently wraps",
  "Arithmetic on exact numbers, including powers, gcd and division with remainder, gives the exact mathematical result or refuses; it never returns a rounded or wrapped number.",
  ["inputs"], "every pair of numbers", "the number type has no tests of its own",
  ["src/rational.rs"], [m("rational arithmetic over 128-bit integers", "src/rational.rs")])
p("C14", "Equality, ordering and hashing of expressions agree",
  "Equality of expressions is an equivalence, their ordering is a total order consistent with it, and equal expressions hash alike.",
  ["inputs"], "every triple of expressions", "no test compares orderings or hashes",
  ["src/atom.rs"], [m("Ord, PartialEq, Hash", "src/atom.rs")])
p("C15", "Reduction is stable and confluent for sums and products",
  "Reducing an already reduced expression changes nothing, and sums and products that differ only in the order or grouping of their terms reduce to equal expressions.",
  ["inputs"], "every expression and every regrouping of its terms", "the tests reduce 36 fixed pairs",
  ["src/algos.rs"], [m("sorted merging of terms", "src/algos.rs reduce_rec, merge_args")])
p("C16", "Rendered text is unambiguous",
  "Two expressions that render to the same text have the same mathematical meaning under the usual precedence rules.",
  ["inputs"], "every pair of expressions", "28 strings are tested",
  ["src/sym_fmt.rs"], [m("precedence-driven parentheses", "src/sym_fmt.rs fmt_w_prec")])
p("C17", "Polynomial views are consistent with the expression viewed",
  "The degree, coefficients and collected terms reported for an expression viewed as a polynomial recombine to an expression of equal value, and are refused for expressions that are not polynomials in those variables.",
  ["inputs"], "every expression and set of generalized variables", "a few polynomials of small degree are tested",
  ["src/polynomial.rs"], [m("monomial and polynomial views", "src/polynomial.rs")])
p("C18", "The expression macro builds what the written formula means",
  "The expression macro turns every formula it accepts into the expression that formula means under the usual precedence and associativity, and rejects the rest at compile time.",
  ["programs"], "every formula accepted by the macro", "it is exercised only through the formulas other tests happen to use",
  ["macros/src/lib.rs"], [m("precedence climbing parser", "macros/src/lib.rs parse_bin_expr")])
p("C19", "Substitution replaces every occurrence and nothing else",
  "Substituting in an expression replaces exactly the occurrences of the replaced expression, simultaneously or one after the other as asked, and leaves everything else as it was.",
  ["inputs"], "every expression and every list of replacements", "substitution has no tests",
  ["src/algos.rs"], [m("traversal with replacement", "src/algos.rs substitude, seq_substitude, concurr_substitude")])
p("C20", "Every operation ends without panicking on every well-formed input",
  "Every public operation on a well-formed expression of moderate size returns, in time and memory bounded by a function of that size, without panicking.",
  ["inputs"], "every expression and operation", "the tests use inputs known to work",
  ["src/algos.rs", "src/atom.rs", "src/polynomial.rs", "src/rational.rs"], [m("structural recursion", "src/algos.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
