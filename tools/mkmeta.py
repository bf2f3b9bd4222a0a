#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  na=na, note=note))

SIM = "Assumes the simulated kernel and allocator are faithful stand-ins for Linux and glibc in what ethos uses; seeded sampling, so a quiet run is evidence and not proof."

prop("C01", "Input faults never turn into acceptance",
     "If opening or reading any input (the file on the command line, an included file, a reference file, standard input) fails at any point, the run ends with an error and a non-zero status and prints no success verdict. Everything printed before the failure is a prefix of what the same run prints without the fault.",
     ["fault_sequences", "inputs", "crash_points"],
     "every session, every input of it, every byte offset and open at which the operating system reports an error (EIO, EISDIR, EACCES, EMFILE, EINTR, ...), transient or lasting",
     "The tests read good local files only; no test makes a read or an open fail, and the failing point ranges over every byte of every input.",
     ["src/input.cpp", "src/lexer.cpp", "src/parser.cpp", "src/main.cpp", "src/state.cpp"],
     [("stream state is checked when the lexer refills its buffer", "src/lexer.cpp"), ("a file that cannot be opened is fatal", "src/state.cpp includeFile, src/input.cpp")],
     ["exit status", "stdout"])
prop("C02", "The outcome does not depend on how the bytes arrive",
     "The verdict, the exit status and everything printed on standard output depend only on the bytes of the inputs. They are the same for every fragmentation of reads, every buffer or block size, every delay, every interrupted call, and when a proof is a file or comes over standard input piecewise.",
     ["schedules", "inputs"],
     "every session and every delivery schedule of its bytes (chunk sizes, message boundaries, delays, EINTR, block sizes)",
     "Each test delivers one file at one speed; boundaries between two reads fall anywhere within tokens, strings, comments and multi-byte sequences only under other schedules.",
     ["src/lexer.cpp", "src/lexer.h", "src/input.cpp", "src/main.cpp"],
     [("buffered character source with one-character pushback", "src/lexer.h nextChar/saveChar"), ("file and text inputs behind one interface", "src/input.cpp")],
     ["exit status", "stdout", "error position"])
prop("C03", "A truncated session is never accepted as complete",
     "If the input of an accepted session is cut off at an arbitrary byte, the run never crashes or hangs, and prints nothing but a prefix of the outputs of the whole session. It is accepted only if the cut falls between complete top-level commands outside every assumption scope, and then its verdict is the one of the remaining session.",
     ["crash_points", "inputs"],
     "every accepted session, every file of it and every byte offset at which its tail is lost",
     "Tests use whole files; the number of cut points is the number of bytes of all inputs.",
     ["src/lexer.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp", "src/main.cpp"],
     [("end of file inside a command is an error", "src/cmd_parser.cpp, src/expr_parser.cpp"), ("open assumption scopes at the end of a file are an error", "src/state.cpp includeFile, src/main.cpp")],
     ["exit status", "stdout"])
prop("C04", "Acceptance is exactly what the rules justify",
     "A session is reported correct if and only if every command in it is well formed, well typed and every step follows, by the declared rule applied to the given premises and arguments with all its requirements, and proves exactly the stated conclusion. Losing, duplicating, reordering or corrupting any part of a session never makes the checker accept a step that the remaining text does not justify, nor reject one that it does.",
     ["histories", "inputs", "fault_sequences"],
     "every history of declarations, rules, programs, assumptions and steps, including those obtained from a good one by losing, duplicating, delaying, swapping or corrupting commands and characters",
     "The tests hold a few hundred fixed proofs, nearly all of them correct; the guarantee is about every wrong proof as well.",
     ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/type_checker.cpp", "src/state.cpp", "src/literal.cpp", "src/expr.cpp"],
     [("rules are programs from arguments and premises to a conclusion", "src/cmd_parser.cpp DECLARE_RULE/STEP"), ("matching and evaluation of programs", "src/type_checker.cpp match/evaluate/evaluateProgramInternal"), ("application building with attributes", "src/state.cpp mkExpr/mkApplyAttr")],
     ["exit status", "verdict line"])
prop("C05", "The outcome does not depend on memory layout",
     "The verdict, the exit status and everything printed on standard output are the same wherever the allocator and the operating system place objects: for every order, gap and reuse of addresses, every content of fresh memory and every stack position.",
     ["schedules", "inputs"],
     "every session and every policy by which the allocator chooses addresses and reuses freed ones",
     "A test sees the one layout the allocator happens to give; maps keyed by address iterate differently under others.",
     ["src/expr.h", "src/expr.cpp", "src/state.cpp", "src/type_checker.cpp", "src/expr_trie.h", "src/stats.cpp"],
     [("maps keyed by ExprValue pointers", "src/state.h, src/type_checker.h"), ("terms are shared by structure", "src/expr_trie.h")],
     ["exit status", "stdout"])
prop("C06", "Freed or uninitialised memory is never used",
     "No session, accepted or refused, makes the checker read or write memory that it has freed, that lies outside its objects, or act on memory it has not initialised. This holds for every order in which terms lose their last reference.",
     ["histories", "inputs", "schedules"],
     "every history of creating, sharing, scoping, shadowing and dropping terms, with every policy of the allocator",
     "Reference counting errors show only if the released object is used again in a particular order; ordinary runs keep working on stale memory.",
     ["src/expr.h", "src/expr.cpp", "src/state.cpp", "src/expr_trie.h"],
     [("reference counts and delayed deletion", "src/expr.h, src/state.cpp markDeleted"), ("removal from the term database", "src/expr_trie.h remove")],
     ["signals", "stdout"])
prop("C07", "Running out of memory never yields a verdict of its own",
     "If memory allocations fail at any point of a run, the run ends without a success verdict, or with the verdict it has without the failure. It never prints other results than without the failure, parts of diagnostics excepted.",
     ["fault_sequences", "crash_points"],
     "every session and every allocation of it failing, once, several times or from then on",
     "No test makes an allocation fail, and an exception can surface at any of the thousands of allocations of a run.",
     ["src/main.cpp", "src/state.cpp", "src/lexer.cpp", "src/cmd_parser.cpp"],
     [("no handler swallows std::bad_alloc", "src"), ("the verdict is printed last", "src/main.cpp")],
     ["exit status", "stdout"])
prop("C08", "A success status means the full output was delivered",
     "If the run exits with status 0 then every byte of its output, the verdict included, has been accepted by the operating system in order. If writing to standard output fails at any byte, the exit status is non-zero; short writes alone change nothing.",
     ["fault_sequences", "crash_points"],
     "every session and every byte of its output at which writing fails (ENOSPC, EPIPE, EIO, ...) or is cut short",
     "No test has a full disk or a closed pipe as its output.",
     ["src/main.cpp", "src/state.cpp", "src/stats.cpp"],
     [("the output stream is flushed and checked before the end", "src/main.cpp")],
     ["exit status", "stdout"])
prop("C09", "Interactive sessions make progress command by command",
     "When commands arrive on standard input one at a time, each command is processed before more input is needed: a peer that sends the next command only after it has seen the answer of the previous one is never left waiting. The run ends as soon as the input ends or (exit) is processed, with the same output as for the whole text at once.",
     ["schedules", "histories"],
     "every session and every schedule of a peer that waits for the answer to a command (for at most the bytes of the command) before it sends more",
     "Tests redirect a complete file; a read-ahead that blocks on a live pipe cannot show there.",
     ["src/lexer.cpp", "src/input.cpp", "src/main.cpp", "src/cmd_parser.cpp", "src/state.cpp"],
     [("standard input is read through a line- or byte-wise source", "src/lexer.h"), ("echo flushes", "src/state.cpp echo")],
     ["stdout while the run waits", "progress"])
prop("C10", "Each file is included once, where its includer says",
     "An include reads the file named relative to the directory of the file that contains it, wherever the run was started. Each file is read at most once in a run however its path is spelled, also with cyclic includes; commands run in the order of the depth-first reading of the files; and a missing file is an error.",
     ["inputs", "histories", "configurations"],
     "every tree of directories and files, every include graph over it (cycles, diamonds, missing files) and every spelling of paths",
     "The tests use a few fixed include chains within one directory tree.",
     ["src/state.cpp", "src/util/filesystem.cpp", "src/util/filesystem.h", "src/main.cpp", "src/cmd_parser.cpp"],
     [("canonical paths and the set of included files", "src/state.cpp includeFile, src/util/filesystem.cpp")],
     ["order of echoed output", "exit status"])
prop("C11", "Proofs use only assumptions of the reference",
     "Once a reference problem has been read, an assumption is accepted if and only if it is, after the declared normalisation, an assertion of that problem. This holds whatever files are included before and after the reference, for assumptions in any file and scope, and for every set and order of assertions; assertions may go unused.",
     ["histories", "inputs", "fault_sequences"],
     "every reference problem and every proof, its assumptions lost, duplicated, reordered or altered, in every placement of the reference and of includes",
     "There are three fixed reference tests, all accepted.",
     ["src/cmd_parser.cpp", "src/state.cpp", "src/main.cpp"],
     [("assertions of the reference are recorded", "src/state.cpp addReferenceAssert"), ("assume consults them", "src/state.cpp addAssumption")],
     ["exit status", "verdict line"])
prop("C12", "Scopes restore exactly what was there before",
     "After a scope is closed (pop, step-pop), names have exactly the meanings they had before it was opened: later commands are accepted or refused as if the scope's declarations had never been made, and names from inside cannot be used. A proof from an assumption scope leaves only through the step that discharges the assumption, scopes are properly nested, and no assumption scope is open at the end of an accepted file.",
     ["histories", "fault_sequences"],
     "every history of opening and closing scopes, declaring, overloading and shadowing names, and every such history with commands lost, duplicated or reordered",
     "The tests have a handful of shallow scopes; a leak shows only when a name of a closed scope is used later.",
     ["src/state.cpp", "src/cmd_parser.cpp", "src/state.h"],
     [("declarations are recorded per scope and unbound on pop", "src/state.cpp pushScope/popScope/bind"), ("assumption scopes", "src/state.cpp pushAssumptionScope/popAssumptionScope")],
     ["exit status", "verdict line", "echo"])
prop("C13", "A use of an unproven rule makes the verdict incomplete",
     "An accepted session is reported incomplete if and only if one of its executed steps uses a rule marked as unproven, in whatever file, scope or position that step is, and whatever follows it. Declaring such a rule without using it leaves the verdict correct.",
     ["histories", "fault_sequences"],
     "every history of steps with and without unproven rules over several files, scopes and resets",
     "Two tests use an unproven rule; neither in a scope, an included file, nor followed by much.",
     ["src/cmd_parser.cpp", "src/state.cpp", "src/main.cpp"],
     [("rules marked :sorry and the rules executed are recorded, and compared at the end", "src/state.cpp markProofRuleSorry/isProofRuleSorry, src/stats.cpp, src/main.cpp")],
     ["verdict line"])
prop("C14", "A reset session behaves like a fresh one",
     "After (reset) the commands that follow are accepted or refused, and print, exactly as in a run of their own: no declaration, rule, program, overload, literal type, assumption, scope, included file or other trace of the commands before it remains. Only the reference problem stays in force, and a run that used an unproven rule stays incomplete.",
     ["histories"],
     "every pair of an accepted history before and an arbitrary history after the reset",
     "One test uses reset, with a short history on either side.",
     ["src/state.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"],
     [("State::reset clears and rebuilds the symbol tables", "src/state.cpp reset")],
     ["exit status", "stdout"])
prop("C15", "The clock never influences the result",
     "The verdict, the exit status and all output but reported times are independent of the clocks: of clocks that stand still, run backwards, jump or differ, also while statistics are collected, and no time makes a run fail or hang.",
     ["schedules", "fault_sequences"],
     "every session and every sequence of values the clocks return",
     "Tests run with the one clock of the machine and without statistics.",
     ["src/stats.cpp", "src/main.cpp", "src/cmd_parser.cpp", "src/state.cpp"],
     [("times are read for statistics only", "src/stats.cpp")],
     ["exit status", "stdout without times"])
prop("C16", "Equal terms stay identical, distinct terms distinct",
     "Throughout a run two terms are identical if and only if they are spelled the same up to definitions and normalisation, however many other terms are created and dropped in between. Until a reset, the hash of a term never changes and is not shared with another, and the order by which terms are compared is total, antisymmetric and transitive, and never changes.",
     ["histories", "schedules"],
     "every history of creating and dropping terms between two looks at the same terms, with every policy of address reuse",
     "Tests create a term and look at it at once; identity is at risk only after terms were deleted and their memory reused.",
     ["src/state.cpp", "src/expr_trie.h", "src/expr.cpp", "src/literal.cpp", "src/type_checker.cpp"],
     [("hash-consing of terms in a trie, with removal", "src/expr_trie.h"), ("term identifiers handed out on demand", "src/state.cpp getHash")],
     ["acceptance of steps that require the equality"])
prop("C17", "The first bad command stops the run",
     "If a command is ill-formed, ill-typed or not justified, the run ends with an error naming the place and a non-zero status, without effects of that or any later command: nothing that follows is printed and no verdict is given. This holds wherever the command is (file, standard input, included file, any scope) and whatever follows it.",
     ["histories", "inputs", "fault_sequences"],
     "every accepted history, every position in it and every kind of bad command put there",
     "Failing tests check one error each, mostly as the last command of a file; the guarantee is over all positions and all that follows.",
     ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/base/check.cpp", "src/lexer.cpp", "src/main.cpp"],
     [("errors are fatal and end the process", "src/base/check.cpp"), ("the position is printed", "src/lexer.cpp parseError")],
     ["exit status", "stdout", "stderr position"])

prop("C18", "The command line means what it says",
     "Options and files given on the command line, in any order, take effect as documented: each option and its --no- form is set by its last occurrence, set-option commands act like the options they name, --include and --reference files are read in the order given (each once) before the input, options stay in force over resets and included files, and options that only concern output change nothing else. --help and --show-config print what they are for, whatever else is given beside them (unless an argument before them is wrong), and read nothing; unknown options, two inputs and files that cannot be read are errors.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of arguments, every session over files and standard input whose acceptance depends on them, set-option and reset commands anywhere in it, and disturbed systems",
     "The tests run with two or three fixed combinations of options; none varies their order, repetition, negation or the session they apply to.",
     ["src/main.cpp", "src/base/options.h", "src/state.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/lexer.cpp"],
     [("parsing of arguments", "src/main.cpp"), ("the options", "src/state.cpp Options"), ("where they act", "src/expr_parser.cpp, src/cmd_parser.cpp, src/lexer.cpp")],
     ["exit status", "verdict line", "help text"])
prop("C19", "Statistics count what happened",
     "With --stats the numbers printed after the verdict are those of the session: each proof rule is listed with exactly the number of steps and step-pops that used it, over all files, scopes and resets; times are those that the clock showed between, rules are sorted by them, percentages are of their sum; programs are only listed with --stats-all; counts of terms are consistent with each other; the compact form says the same; and nothing is printed that was not asked for.",
     ["histories", "inputs", "schedules"],
     "every accepted session over files and standard input, every clock, both forms and all combinations of the options",
     "The tests never look at what is printed, and the times need a clock that is under control.",
     ["src/stats.cpp", "src/stats.h", "src/main.cpp", "src/cmd_parser.cpp", "src/state.cpp", "src/type_checker.cpp"],
     [("Stats::toString/toStringCompact", "src/stats.cpp"), ("RuleStat increment, timing of steps", "src/cmd_parser.cpp, src/stats.cpp"), ("counting of terms", "src/state.cpp, src/expr.cpp")],
     ["stdout"])
prop("C20", "Literal arithmetic is exact",
     "The builtin operations on numerals, decimals and rationals, binary and hexadecimal literals and strings (eo::add, eo::mul, eo::zdiv, eo::concat, eo::extract, eo::to_bin, eo::find, eo::is_neg, ...) give the mathematically exact result for operands of every size, and stay unevaluated exactly where they are undefined. A session whose steps depend on such a result is accepted if and only if the result is the exact one.",
     ["inputs", "histories", "fault_sequences"],
     "every literal operand, of every size and spelling, every nesting of operations and every session built on the results, also under short reads, disturbed clocks and other memory layouts",
     "The tests compute a few dozen fixed results on small operands; rounding, signs, widths, boundaries and growth beyond a machine word need operands nobody wrote down.",
     ["src/literal.cpp", "src/util/integer.h", "src/util/integer.cpp", "src/util/rational.h", "src/util/rational.cpp", "src/util/bitvector.cpp", "src/util/string.cpp", "src/type_checker.cpp"],
     [("Literal::evaluate", "src/literal.cpp"), ("operators on literals are evaluated during type checking", "src/type_checker.cpp evaluateLiteralOp")],
     ["exit status", "verdict line"])
prop("C21", "Exactly the well-typed terms are accepted",
     "A term is accepted if and only if it is well typed by the declarations in force, its dependent, quoted, implicit, opaque and overloaded parts instantiated consistently, and the type it is given is the one the declarations prescribe. Terms, declarations, definitions and programs that are ill typed are refused wherever they occur.",
     ["inputs", "histories", "fault_sequences"],
     "every signature of parametric, dependent and overloaded symbols, every term over it and every session, also with commands lost, repeated, swapped or corrupted in delivery",
     "The tests hold a fixed set of signatures, nearly all used as intended; a checker that forgets one consistency condition still passes them.",
     ["src/type_checker.cpp", "src/state.cpp", "src/expr_parser.cpp", "src/cmd_parser.cpp"],
     [("types of applications, with instantiation of parameters", "src/type_checker.cpp getTypeInternal/getTypeAppInternal"), ("overloads are resolved by the arguments", "src/state.cpp getOverloadInternal/mkExpr")],
     ["exit status", "verdict line"])
prop("C22", "N-ary syntax denotes exactly the declared term",
     "An application of a symbol declared :right-assoc(-nil), :left-assoc(-nil), :chainable, :pairwise, :arg-list or :binder (and of their variants with a non-ground nil) denotes exactly the curried term that its attribute prescribes, for every number of arguments and every list-typed parameter among them; partial applications with _ denote what is written.",
     ["inputs", "histories", "fault_sequences"],
     "every attribute, every number and kind of arguments, list parameters bound to lists of every length, in terms, programs, rules and patterns, also with commands lost, repeated, swapped or corrupted in delivery",
     "The tests use each attribute with two or three arguments; lists of other lengths, nested lists and lists among patterns are combinations they do not hold.",
     ["src/state.cpp", "src/expr_parser.cpp", "src/type_checker.cpp"],
     [("building of applications by attribute", "src/state.cpp mkExpr/mkApplyAttr"), ("list operators", "src/type_checker.cpp evaluateLiteralOp")],
     ["exit status", "verdict line"])
prop("C23", "A printed conclusion reads back as itself",
     "The conclusion that an error message prints for a step can be put into the proof as it is, and the step is then accepted: every term is printed so that it reads back, in the same scope, as the same term, however large it is, whatever its symbols are called, and with or without sharing of its parts. (Decimals, which are printed with the marker :decimal, hexadecimal literals whose width is no multiple of four, symbols of the form _v<number> and symbols that hide or overload others are left out.)",
     ["inputs", "histories", "schedules"],
     "every term a step can prove, in every signature and scope, over files and standard input, with every fragmentation of the output, with --no-print-dag and without",
     "The tests only look at the exit status; none of them reads what was printed.",
     ["src/expr.cpp", "src/expr.h", "src/literal.cpp", "src/util/string.cpp", "src/cmd_parser.cpp", "src/lexer.cpp"],
     [("printing of terms with shared parts as definitions", "src/expr.cpp printDebug/printDebugInternal/computeLetBinding"), ("quoting of symbols and strings", "src/expr.cpp, src/util/string.cpp")],
     ["stderr", "acceptance of what was printed"])
prop("C24", "Datatypes have the documented symbols",
     "A datatype declaration yields exactly the constructors and selectors written in it, and for them the testers is-<constructor> and the updaters update-<selector>, with the types that follow; eo::dt_constructors and eo::dt_selectors return exactly these, in order, for plain and parametric datatypes and for constructors disambiguated with as, and are undefined for everything else. Declarations that are ill formed are refused.",
     ["inputs", "histories", "fault_sequences"],
     "every (mutual, nested, parametric) datatype declaration and every use of its symbols in terms, programs, rules and scopes, also with commands lost, repeated, swapped or corrupted in delivery",
     "The tests declare a few datatypes with distinct names and a few uses each.",
     ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp", "src/type_checker.cpp"],
     [("parsing and binding of datatypes", "src/expr_parser.cpp parseDatatypesDef"), ("constructor and selector lists kept per type", "src/state.cpp, src/type_checker.cpp")],
     ["exit status", "verdict line"])
prop("C25", "A plugin sees everything, changes nothing unless it decides to, and is obeyed when it does",
     "With a plugin attached, the events it is told (files read, symbols bound and marked, programs and definitions, literal types, scopes opened and closed, assumptions, steps with their rule, number of premises and arguments and whether a conclusion is given, messages, resets, the end) are exactly those of the session, each once, in order, and true: what is bound for an assumption or a step is the proof that was announced. A plugin that decides nothing, or evaluates terms just as the checker does, changes neither the verdict nor the output. A plugin that does decide is obeyed: a step it refuses fails, an answer it gives is taken if it is an evaluated formula that equals the stated conclusion, a message it keeps is not printed, and what it computes for a program application is its value.",
     ["histories", "inputs", "schedules"],
     "every session over files and standard input, every watching, evaluating, answering, refusing or silencing plugin, every allocator policy",
     "The repository has no plugin, so none of its tests attaches one.",
     ["src/plugin.h", "src/state.cpp", "src/type_checker.cpp", "src/cmd_parser.cpp", "src/main.cpp"],
     [("callbacks of the state", "src/state.cpp"), ("evaluation by a plugin", "src/type_checker.cpp evaluate/evaluateProgramInternal")],
     ["plugin callbacks", "exit status", "stdout"], note="The plugin is part of the harness (sim/plugin.cpp); it is attached by a hook in main.cpp that is compiled in under ETHOS_SIM_PLUGIN only. ")
prop("C26", "Size and sharing change nothing",
     "What holds for small inputs holds for large ones: thousands of arguments, premises, steps, nested scopes, names, overloads, files, constructors, program cases, digits or characters, tens of thousands of terms with a number, more than 65536 references to one term, terms thousands of levels deep. Such sessions are accepted or refused, and answer, just as small ones. Terms that share their parts are handled as the graphs they are: parsing, typing, matching, substituting, evaluating, binding, comparing and printing errors end promptly even if the tree that is written out would have 2^100 nodes.",
     ["inputs", "histories", "schedules"],
     "every size of every construct, at which counters wrap, buffers fill or recursion deepens, under every allocator policy and delivery",
     "The tests are small, so that neither a narrow counter nor an exponential traversal shows in them; real proofs are megabytes of shared terms.",
     ["src/expr.cpp", "src/expr.h", "src/type_checker.cpp", "src/state.cpp", "src/expr_parser.cpp", "src/lexer.cpp", "src/expr_trie.h", "src/cmd_parser.cpp"],
     [("traversals with a set of visited terms, explicit stacks instead of recursion", "src/expr.cpp, src/type_checker.cpp"), ("reference counts", "src/expr.h"), ("memoised evaluation", "src/type_checker.cpp evaluate")],
     ["exit status", "verdict line", "stdout", "that runs end"])

CLAIMED = os.environ.get("CLAIMED", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26").split()
with open(here + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("na", "note")}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] not in CLAIMED:
        na.append(dict(property=p["id"], reason="not claimed yet: its check is under construction"))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique="deterministic simulation with fault injection (seeded search)",
                           level="exploration", level_note=(p["note"] or "") + SIM))
m = dict(version=1, setup_cmd="./setup.sh", hooks=dict(guard="ETHOS_SIM_PLUGIN", enable="sim/build.sh compiles src/main.cpp with -DETHOS_SIM_PLUGIN, so that main attaches the plugin of the harness (used by C25 only; without one the run is unchanged). Everything else needs no hook: the simulator sits under the program at the system-call and allocator boundary (static link, seccomp trap, malloc replacement).", source_commits=["b0d065a"]),
         checks=checks, not_applicable=na,
         notes="check.sh rebuilds /repo's working tree with the simulator on every run. A replay file is run with build/simhost-release replay FILE. Known and repaired defects: known-findings.txt. See DESIGN.md.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
