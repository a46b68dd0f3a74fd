#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (python3 tools/manifest.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, technique, note, level="exploration", na=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, na=na, hook=hook))


LEX = ["skull/parse/token.c", "skull/parse/classify.c"]
PAR = ["skull/parse/ast_node.c"] if True else []
SEM = ["skull/semantic/entry.c", "skull/semantic/expr.c", "skull/semantic/func.c", "skull/semantic/flow.c",
       "skull/semantic/assign.c", "skull/semantic/shared.c", "skull/semantic/scope.c", "skull/semantic/symbol.c"]
LLVM = ["skull/codegen/llvm/core.c", "skull/codegen/llvm/expr.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/flow.c",
        "skull/codegen/llvm/assign.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/write.c"]
CGEN = ["skull/codegen/c/core.c", "skull/codegen/c/expr.c", "skull/codegen/c/func.c", "skull/codegen/c/flow.c",
        "skull/codegen/c/assign.c", "skull/codegen/c/types.c", "skull/codegen/c/shared.c"]
DRV = "the real compiler from /repo's tree, run in one process per worker by harness/driver.c"
MC = "bounded exhaustive enumeration of programs run through the real compiler, "
TRUST = "Exhaustive within the stated grammar and size bounds; trusts the reference front end (vlib/ref.py), written from docs/ and the pinned tests. "

prop("C01", "Any input ends in a compiled program or a diagnosis, never a crash",
     "For every sequence of bytes given as a source file, and every combination of options, the compiler terminates normally: it neither "
     "crashes, hangs, aborts inside a library, nor reads or writes memory it does not own. A file it refuses is refused with at least one "
     "message and a failing status.",
     ["inputs", "programs", "configurations"], "every byte string and every option set", "Tests feed a few dozen well-formed snippets; malformed text, odd bytes and "
     "deep or long inputs are not reached, and no test runs under a memory checker.",
     LEX + ["skull/parse/ast_node.c", "skull/pipeline.c", "skull/common/io.c"] + SEM + LLVM,
     [("tokenising and classification", "skull/parse"), ("statement and expression parsing", "skull/parse"), ("error list and early return", "skull/pipeline.c")],
     ["exit status", "messages", "address and undefined-behaviour sanitizer reports"],
     MC + "under address and undefined-behaviour sanitizers",
     "All byte strings, token strings, statement placements and edits of programs up to the stated sizes, plus size ladders. Memory errors are what the sanitizers see.")
prop("C02", "Success means valid output; failure means a message and no output",
     "Whenever the compiler reports success, what it produced is a well-formed module: it passes the LLVM verifier, can be assembled, and every function "
     "and block in it is complete. Whenever it reports failure it says why and produces nothing, and a file that compiles with verification switched off compiles with it on.",
     ["programs", "configurations"], "every program and option set", "Tests compare a few IR files with golden copies; they never verify modules from unlisted programs.",
     ["skull/pipeline.c", "skull/real_main.c"] + LLVM, [("verification before output", "skull/codegen/llvm/write.c"), ("early return on errors", "skull/pipeline.c")],
     ["exit status", "messages", "produced module, assembly and object"], MC + "output verified by LLVM",
     "Every listed program is compiled to IR, object and assembly under each option set; trusts LLVM's verifier and object writer.")
prop("C03", "Exactly the language's programs are accepted",
     "A source text is accepted by the syntax of the language if and only if it follows the documented grammar: every statement form in its documented shape, nothing left over, "
     "nothing missing, and blocks only where a block belongs. A text that breaks the grammar is refused with the error for its first fault.",
     ["inputs", "programs"], "every token sequence", "Tests sample one or two texts per statement form; combinations and near-misses are not covered.",
     LEX + ["skull/parse/ast_node.c", "skull/semantic/entry.c"], [("statement recognition", "skull/parse"), ("expression parsing", "skull/parse")],
     ["exit status", "messages"], MC + "against a reference parser", TRUST)
prop("C04", "Every ill-typed program is refused, every well-typed one accepted",
     "An expression, assignment, condition, argument, return value or explicit type annotation is accepted exactly when its types are the ones the language requires, at every nesting depth "
     "and in every kind of block. No accepted program applies an operator or function to a value of another type, and no well-typed program is refused.",
     ["programs"], "every program", "Tests try one wrong type per operator; the product of operators, types, positions and contexts is not covered.",
     SEM, [("type checks of expressions", "skull/semantic/expr.c"), ("assignment and definition checks", "skull/semantic/assign.c"), ("call and return checks", "skull/semantic/func.c")],
     ["exit status", "messages"], MC + "against a reference type checker", TRUST)
prop("C05", "Names resolve to the declaration that is in scope",
     "Every use of a variable, function, alias or namespace member refers to the declaration visible at that point under the scoping rules (nested blocks, functions, namespaces, export and external); "
     "a name that is not visible, or not the right kind, is refused. Redefining or shadowing a name in scope is refused, and a name whose scope has ended can be defined again independently.",
     ["programs"], "every program", "Tests check one shadowing and one undefined case each; visibility histories across nested scopes and namespaces are not enumerated.",
     ["skull/semantic/scope.c", "skull/semantic/symbol.c", "skull/semantic/shared.c", "skull/semantic/assign.c", "skull/semantic/func.c"],
     [("scope chain", "skull/semantic/scope.c"), ("symbol lookup", "skull/semantic/symbol.c")], ["exit status", "messages", "values printed at run time"],
     MC + "all declaration/use histories against a reference scope model", TRUST)
prop("C06", "Immutable data is never changed",
     "A variable not declared mutable, a parameter, or data reached through a reference that is not mutable can never be assigned or modified, in any scope, by any path. A mutable variable can always be assigned a value of its type.",
     ["programs"], "every program", "Tests reassign one constant; parameters, references, nested scopes, aliases and namespaces are not combined.",
     ["skull/semantic/assign.c", "skull/semantic/expr.c", "skull/parse/ast_node.c"], [("mutability checks", "skull/semantic/assign.c")],
     ["exit status", "messages", "values printed at run time"], MC + "against a reference checker and interpreter", TRUST)
prop("C07", "Control statements are accepted only where they make sense",
     "break and continue are accepted exactly inside a loop of the same function, return exactly inside a function or at top level with a value of the type the enclosing function returns, "
     "else and elif exactly after an if; unreachable code is refused, and a function that returns a value does so on every path.",
     ["programs"], "every program", "Tests check each rule once in the simplest context; nesting of loops, branches, namespaces and functions is not enumerated.",
     ["skull/semantic/flow.c", "skull/semantic/func.c", "skull/semantic/entry.c"], [("flow checks", "skull/semantic/flow.c"), ("return checks", "skull/semantic/func.c")],
     ["exit status", "messages"], MC + "all control-statement trees against a reference checker", TRUST)
prop("C08", "Operators compute their documented values",
     "Every operator gives the documented result for all operand values of the types it accepts, whether the operands are literals, constants, variables, parameters or results of calls, and wherever the expression stands. "
     "Operands are evaluated left to right and once each.",
     ["inputs", "programs"], "every operator, operand value and operand form", "Tests compare IR for one example of each operator and rarely run it.",
     ["skull/codegen/llvm/expr.c", "skull/shim.ll", "skull/semantic/expr.c"], [("operator lowering", "skull/codegen/llvm/expr.c"), ("run-time helpers", "skull/shim.ll")],
     ["values the compiled program passes to external functions", "exit code"], MC + "executed and compared with a reference interpreter",
     TRUST + "Operand values are boundary sets; overflow, shifts past the width and division by zero are unspecified and excluded.")
prop("C09", "Operators group by their documented precedence",
     "An expression without parentheses means the same as the one parenthesised according to the documented precedence, operators of equal precedence group from the left, and parentheses always override. This holds for every combination of unary and binary operators, calls and references.",
     ["programs"], "every operator chain", "Tests check a handful of two-operator expressions.",
     ["skull/parse/ast_node.c"], [("precedence climbing", "skull/parse/ast_node.c")], ["values and effects at run time", "exit status"], MC + "executed and compared with a reference parser and interpreter", TRUST)
prop("C10", "Control flow follows the program text",
     "A compiled program executes its statements in the order if, elif, else, while, break, continue, return and calls prescribe, for every outcome of every condition; each taken statement runs once and no other runs.",
     ["programs", "histories"], "every control-flow tree and every sequence of condition outcomes", "Tests compare IR of isolated if/while forms; no test executes all paths.",
     ["skull/codegen/llvm/flow.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/core.c"], [("block construction", "skull/codegen/llvm/flow.c")],
     ["sequence of external calls at run time"], "stateless model checking of compiled programs: every control-flow tree up to a size, every decision sequence, against a reference interpreter",
     TRUST + "Conditions are answered by an external function that enumerates all decision sequences to a depth.")
prop("C11", "Variables hold the last value assigned to them",
     "Reading a variable, directly or through a reference, gives the value last assigned to that instance of it, for every history of assignments, calls, loop iterations and recursive invocations, for every type and every place a variable can be declared. "
     "Each entry to a scope starts its variables afresh.",
     ["programs", "histories"], "every operation history up to a length", "Tests compare IR of single assignments.",
     ["skull/codegen/llvm/assign.c", "skull/codegen/llvm/assign.c", "skull/codegen/llvm/expr.c", "skull/codegen/llvm/func.c"],
     [("variable storage", "skull/codegen/llvm/assign.c"), ("assignment", "skull/codegen/llvm/assign.c")], ["values passed to external functions"],
     "model checking of operation histories executed by compiled programs against a store model", TRUST)
prop("C12", "Literals denote exactly the value written",
     "Every Int, Float, Bool, Rune and Str literal that the language accepts has at run time exactly the value its spelling denotes, in every base and with every escape, and a spelling that denotes no representable value is refused. Every string reaches the program byte for byte.",
     ["inputs"], "every literal spelling", "Tests use a few spellings per literal kind.",
     ["skull/parse/classify.c", "skull/semantic/expr.c", "skull/common/str.c", "skull/codegen/llvm/expr.c"], [("literal evaluation", "skull/semantic/expr.c"), ("escapes", "skull/common/str.c")],
     ["values passed to external functions", "messages"], MC + "executed and compared with a reference literal evaluator", TRUST)
prop("C13", "Optimisation and debug options never change behaviour",
     "For every program, compiling with any optimisation level and with or without debug information gives the same verdict, the same messages and a program with the same observable behaviour.",
     ["programs", "configurations"], "every program, every combination of -O and -g", "Tests run each option once on one file.",
     ["skull/codegen/llvm/write.c", "skull/codegen/llvm/debug.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/expr.c"], [("optimisation passes", "skull/codegen/llvm/write.c"), ("debug information", "skull/codegen/llvm/debug.c")],
     ["exit status", "messages", "external call sequence"], MC + "executed under every option set (differential and against the reference interpreter)", TRUST)
prop("C14", "The C backend means the same as the native backend",
     "For every accepted program, the C code that --c-backend writes compiles (as C23 with GNU extensions) and, compiled, behaves exactly like the natively compiled program: the same external calls with the same values in the same order, and the same result (of a value returned at top level, its low 32 bits), with and without -g. "
     "Left out, and recorded as known findings: names reserved in C, one name for several functions or for a function and a variable, qualified names of namespace members, functions nested in a block or function that use the block's variables or call the enclosing function, expressions with more than one side effect or with a call to the right of and/or, >> of negative numbers, arithmetic on literals alone that leaves 32 bits, and top-level definitions initialized through a dereference.",
     ["programs"], "every program of the subset", "Tests compare C text with golden text and never compile or run it.",
     CGEN, [("C emission", "skull/codegen/c")], ["generated C compiled and executed"], MC + "generated C compiled with gcc and executed on every decision script against the reference interpreter",
     TRUST + "Each known difference is represented by one program and printed as KNOWN-FINDING while it lasts.")
prop("C15", "Messages point at the exact place of the fault",
     "Every error and warning names the file, the line and the column of the token at fault, counted in characters from 1, whatever precedes it: comments, strings, blank lines, tabs, non-ASCII text or line continuations. Messages quote the offending name or text exactly.",
     ["inputs", "programs"], "every refused program, every layout", "Tests check columns on single-line snippets.",
     ["skull/common/errors.c", "skull/parse/token.c"] + SEM, [("location tracking", "skull/parse/token.c"), ("message formatting", "skull/common/errors.c")],
     ["messages"], MC + "every fault in every layout against a reference checker", TRUST)
prop("C16", "Warnings, quiet mode and warnings-as-errors are consistent",
     "A program is warned exactly once about each constant condition (a literal), each redundant explicit type of a variable initialized with a literal, a byte order mark, and, outside of function bodies, each variable that is never read (exported ones excepted), each function that is never called and each mutable variable that is never reassigned, and about nothing else; warnings alone never change the verdict. With quiet mode no warning is printed but every error still is, and with warnings treated as errors a program fails exactly when it has a warning or an error.",
     ["programs", "configurations"], "every program under each mode", "Tests check one warning per kind, at top level only.",
     ["skull/common/errors.c", "skull/semantic/entry.c", "skull/semantic/shared.c", "skull/pipeline.c"], [("warning list", "skull/common/errors.c"), ("werror and quiet handling", "skull/pipeline.c")],
     ["messages", "exit status"], MC + "against a reference checker in each mode", TRUST)
prop("C17", "Command-line options do what they say, in any order and combination",
     "For every combination and order of options and whatever the file's name, the command either performs exactly the requested step, writes exactly the requested files in the documented places and returns 0, or explains what is wrong, leaves every file as it was and returns non-zero. Contradictory, repeated or unknown options and additional file names are refused; the help text's options are all accepted; arguments after -- reach cc unchanged; every output is the same whichever options that do not concern it are given.",
     ["configurations"], "every option sequence up to a length", "Tests run about twenty command lines.",
     ["skull/cli.c", "skull/real_main.c"], [("option parsing", "skull/cli.c"), ("output naming", "skull/real_main.c")],
     ["exit status", "stdout and stderr", "files created"], "bounded exhaustive enumeration of command lines of the real executable against a model of the command", "All option sequences up to the stated length; trusts the model of the command line.")
prop("C18", "Compiling is a function of the source and options",
     "The output, messages and status of a compilation depend only on the source text, its modules and the options: not on what was compiled before in the same process, the environment, memory contents or the working directory. Compiling twice gives byte-identical results.",
     ["histories", "configurations"], "every ordered history of compilations up to a length, every listed environment", "Tests run each program once in a fixed order.",
     ["skull/pipeline.c", "skull/semantic/shared.c", "skull/common/errors.c", "skull/codegen/llvm/shared.c", "skull/build_data.c"], [("state reset between compilations", "skull/pipeline.c")],
     ["exit status", "messages", "bytes of every output"], "exhaustive enumeration of compilation histories on the real compiler (differential)", "All ordered pairs and listed triples of the program set.")
prop("C19", "An I/O or resource failure is reported, never swallowed",
     "If any file operation, child process, allocation or write the command depends on fails at any point, the command prints a message and returns non-zero; it never reports success with a missing, truncated or stale output and never crashes. (A temporary file that cannot be removed is only reported, and transfers that are merely short have no effect.)",
     ["fault_sequences", "configurations"], "every single failing operation of each kind of run", "Tests inject no faults.",
     ["skull/common/io.c", "skull/real_main.c", "skull/cli.c", "skull/codegen/llvm/write.c", "skull/codegen/c/write.c", "skull/common/malloc.c"], [("error checks of file operations", "skull/common/io.c"), ("output writing", "skull/codegen/llvm/write.c")],
     ["exit status", "stderr", "files"], "exhaustive single-fault injection into the real command", "Every file, process and memory operation of every listed run is failed once with each error, alone and together with all later ones of its kind. Allocations inside libLLVM are not failed.", level="fault_enumeration")
prop("C20", "Collections and text helpers behave like their mathematical counterparts",
     "The compiler's growable lists, name tables and text helpers behave as sequences, finite maps and strings for every sequence of operations: no element is lost, duplicated or reordered, every stored name is found and no other, growth never changes contents, and joining, copying, trimming and decoding keep every character.",
     ["histories", "inputs"], "every operation sequence up to a length", "Unit tests run one short sequence per helper.",
     ["skull/common/vector.c", "skull/common/hashtable.c", "skull/common/str.c", "skull/common/io.c"], [("growth", "skull/common/vector.c"), ("collision handling", "skull/common/hashtable.c")],
     ["results of the real functions"], "explicit-state enumeration of operation sequences on the real code against mathematical models", "All operation sequences to the stated lengths, over keys that collide; with the address sanitizer on.", level="model_checking")
prop("C21", "Layout and comments never change meaning",
     "Changing the amount of white space between tokens or around brackets, commas, `*` and `&`, indenting differently, adding blank lines or comment lines between statements (anywhere, including before elif and else), changing what comments say, or, after a statement that is not a definition or an external declaration, adding a comment on its line or writing a comma instead of the line break, never changes the verdict, the errors of a refused program, or the warnings and behaviour of an accepted one.",
     ["inputs", "programs"], "every program, every gap between tokens, every kind of layout", "Tests contain a few comments and fixed layouts.",
     LEX + ["skull/parse/ast_node.c"], [("trivia handling", "skull/parse/token.c")], ["exit status", "messages", "IR"], MC + "every layout edit at every gap (metamorphic, and against the reference)", TRUST)
prop("C22", "Linkage: exports are visible under their name, everything else is private",
     "An exported function or variable `x` of module `m.sk` can be used from C under exactly the name `m.x` with the C types that correspond to its Skull types (int64_t, double, bool, 32-bit rune, char pointer), the module's top-level code is the function `.m`, an external function calls exactly the C function of that name with those types, and nothing else a module defines is visible, takes a name it did not declare, or can clash with another module's names. The C that --c-backend writes exports and needs the same names with the same types, besides its own main and helpers.",
     ["programs"], "every set of declarations up to a size", "Tests link one C file with one Skull file.",
     ["skull/codegen/abi.c", "skull/codegen/llvm/func.c", "skull/codegen/llvm/assign.c", "skull/real_main.c"], [("symbol naming", "skull/codegen/abi.c"), ("linkage", "skull/codegen/llvm/func.c")],
     ["symbol tables of objects", "values exchanged with C"], MC + "objects read back, linked with C and executed", TRUST)
prop("C23", "Every output form of a program is the same program",
     "The executable, object file, assembly text and IR produced from one source behave identically, an executable's exit status is the value returned at top level (0 otherwise), and each requested form contains the whole program.",
     ["programs", "configurations"], "every program, every output form", "Tests check that files exist.",
     ["skull/codegen/llvm/write.c", "skull/real_main.c", "skull/codegen/llvm/core.c"], [("emission", "skull/codegen/llvm/write.c"), ("linking", "skull/real_main.c")],
     ["behaviour of the linked program"], MC + "native programs linked, executed and compared with the reference interpreter", TRUST)
prop("C24", 'Debug information leads back to the source',
     'In a program compiled with -g (and no -O), every function carries its own name and the line it is declared on, every call, assignment and return is attributed to the line and column it is written at, inside the function and the blocks it is written in, and every parameter and variable is described in its block with its name, its type and the line of its declaration. So at every moment of an execution a debugger shows the true chain of calls with the lines they are made on, and the true values of the parameters and mutable variables in scope (of other variables the true value or none; global ones always). The C that --c-backend -g writes gives the same chain of calls by line, and true values.',
     ['programs', 'histories'], 'every accepted program, every execution, every point at which it calls an external function, both backends', 'Tests compare the emitted metadata of one file with itself; whether lines and values are those of the program depends on what precedes them, on nesting and on the state of the execution.',
     ['skull/codegen/llvm/debug.c', 'skull/codegen/llvm/assign.c', 'skull/codegen/llvm/func.c', 'skull/codegen/llvm/flow.c', 'skull/codegen/llvm/write.c', 'skull/codegen/c/debug.c'], [('locations and descriptions', 'skull/codegen/llvm/debug.c'), ('line directives', 'skull/codegen/c/debug.c')],
     ['debugger backtraces', 'debugger variables', 'emitted metadata'], 'bounded exhaustive enumeration of programs and decision scripts; each execution is run under a debugger and every stop compared with the reference interpreter, and every instruction emitted for larger families with the reference tree', 'Exhaustive within the stated program families and decision depth; trusts the reference interpreter, gdb and (for the C backend) gcc.', level='exploration')
prop("C25", "An import is accepted exactly if the module is there",
     "A file that imports a module compiles exactly if a file named after the module, with the extension .sk, is found in the directory of the importing file and can be opened; otherwise it is refused with a message that names the module and says why. The working directory, how the file's path is spelled (relative, absolute, through links or ..), files elsewhere, what the module contains, other imports, and where the statement stands make no difference.",
     ["configurations", "programs"], "every placement of files and links in three directories, every spelling of the path, every order of imports", "Tests import one existing and one missing module, from one directory.",
     ["skull/semantic/import.c", "skull/semantic/entry.c", "skull/parse/ast_node.c"], [("directory of the importing file", "skull/semantic/import.c"), ("opening the module", "skull/semantic/import.c")],
     ["exit status", "messages"], "bounded exhaustive enumeration of file-system layouts, paths and import sequences, each run with the real command and compared with a model",
     "Exhaustive over the stated layouts, paths and statement forms. Modules that are directories or named pipes are left out.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            for fn in p["files"]:
                if not os.path.exists("/repo/" + fn):
                    print("missing", p["id"], fn)
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["tests"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}}
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m vlib.build",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --thorough",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "python3 check.py <ID> [--thorough]; replay a reported case with python3 check.py <ID> --replay replay/<file>.json. No hooks in /repo."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
