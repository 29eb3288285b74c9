#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or ["stdout/stderr/exit status of `bic -s FILE`"],
                          hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

EV = "src/evaluate.c"; PA = "src/parser.m4"; LX = "src/lex.m4"; GC = "src/gc.c"; FC = "src/function-call.c"
RE = "src/repl.c"; CS = "src/cscript.c"; LA = "src/c.lang"

p("C01", "Integer operators give the value C gives",
  "For every pair of operand types among the ten integer types and every operand value, each arithmetic, bitwise, shift, relational, equality and logical operator, increment/decrement and compound assignment yields the value the C language defines, whenever C's own evaluation is defined and no intermediate result wraps around. This includes truncation of division toward zero, sign of remainder, sign-preserving right shift of negative values and full-range unsigned values.",
  ["inputs", "programs"], "all operators x all pairs of integer types x all pairs of boundary and small values, plus all two-operator compositions over a value alphabet",
  "The tests use a handful of positive operands of one or two types per operator; operand sign, width and boundary values are not covered, and the result has to be right for every value.",
  [EV, PA], [("eval_add .. eval_n_eq, eval_logic_*, eval_inc/dec", EV), ("make_int_from_live_var", EV), ("tree_make_binmod", "src/tree.h")])

p("C02", "Expressions group, sequence and short-circuit as in C",
  "Every expression is grouped by C's precedence and associativity rules regardless of spacing and redundant parentheses, and its operands are evaluated as C requires: `&&`, `||` and `?:` evaluate only the operands C evaluates, `,` evaluates left to right, and every operand that is evaluated is evaluated exactly once. Prefix and postfix increment and assignment yield the value C defines and leave the side effect C defines.",
  ["programs"], "all expression shapes with up to three (quick) / four (thorough) operators over the supported operator set, with side-effecting operands, with and without whitespace",
  "The tests contain few multi-operator expressions and none that records which operands were evaluated; the number of shapes is far beyond hand-written samples.",
  [PA, LX, EV], [("expression grammar ladder", PA), ("operator tokens", LX), ("eval_logic_or/eval_logic_and/eval_infix/eval_comma/eval_expr_list", EV)])

p("C03", "Storing or casting converts to the destination type as in C",
  "Whenever a value of a scalar type is stored into an object of another arithmetic type - by assignment, initialiser, parameter passing, function return or explicit cast - the object receives the value C's conversion rules give: modular truncation to narrower integers, sign or zero extension to wider ones, truncation of floating values toward zero, and exact or correctly rounded floating conversion. The result of an assignment used as a value is the converted value, and reading an object never depends on bytes outside it.",
  ["inputs", "programs"], "all ordered pairs of the twelve arithmetic types x all boundary values representable in the source x the five conversion sites",
  "The cast test checks four positive-ish values; implicit conversion between objects of different width is not tested at all although most programs rely on it.",
  [EV], [("assign_integer/assign_float/assign_ptr", EV), ("eval_cast / DEFCAST table", EV), ("convert return value", EV)])

p("C04", "Statements execute in C's order, whatever the nesting",
  "For every program built by nesting blocks, `if`/`else`, `while`, `for`, `break` and `return` (braced or not), the sequence of executed statements, the iteration counts and the final variable values are those of C: `break` leaves exactly the innermost enclosing loop from any depth of nested `if`s and blocks, and `return` leaves exactly the current function.",
  ["programs"], "all structured programs up to a statement-count and nesting bound, times all relevant condition outcomes",
  "The break test has break as a direct child of a loop; nothing tests break or return below an if, unbraced bodies, or what runs afterwards.",
  [EV, PA], [("__evaluate / eval_break / eval_return", EV), ("eval_loop_for / eval_loop_while / eval_if", EV), ("setjmp/longjmp + pop_ctx", EV)],
  [("cur_ctx", "current evaluator context; must be back at the enclosing one after every statement", EV), ("SHOULD_BREAK", "pending break flag of a context", LA)])

p("C05", "Every function call runs on its own arguments, result and locals",
  "Each call of an interpreted function evaluates every argument once, in the caller's scope, binds it to the parameter of the same position, executes the body with fresh locals and yields the value of the executed `return` converted to the declared return type; the outcome depends only on the arguments and global state, never on how often or by whom the function was called before. This holds for recursion, mutual recursion, calls nested in arguments and calls with the same names in caller and callee, and after the call the caller's variables are unchanged.",
  ["programs", "histories"], "all call graphs over up to three functions, all argument permutations with colliding names, all call sequences up to a depth, all recursion depths up to a bound",
  "Tests call mostly void functions, once, with distinct names; one call history per program.",
  [EV], [("eval_fn_call", EV), ("eval_return/longjmp", EV), ("push_ctx/pop_ctx", EV)],
  [("T_RETURN node", "AST node shared by all activations of a function", EV)])

p("C06", "Identifiers resolve lexically to the innermost declaration in scope",
  "Every use of an identifier refers to the innermost declaration visible at that point of the source: block, loop and parameter scopes shadow outer ones and end with their construct, function bodies see file-scope names rather than their caller's locals, and tag names of structs and unions are separate from ordinary names. Re-entering a scope starts with fresh objects.",
  ["programs"], "all placements of declarations and uses of one or two names over nested scopes (file, parameter, function, block, if, loop, for-init) and call edges up to a bound",
  "Existing tests shadow a name once; which of several same-named objects is read or written in each combination of scopes is never enumerated.",
  [EV, "src/typename.c"], [("__resolve_identifier", EV), ("push_ctx/pop_ctx", EV), ("map_identifier/map_compound", EV)],
  [("E_CTX.ID_MAP/STRUCT_ID_MAP/UNION_ID_MAP/PARENT_CTX", "scope chain", LA)])

p("C07", "Static and file-scope objects live and keep their value for the whole run",
  "An object declared `static` inside a function or block is initialised once, before its first use, keeps its value between executions of its scope and across calls and recursion, and is distinct from every other object of the same name; file-scope objects are shared by all functions. No sequence of calls makes a static object lose, share or re-initialise its value.",
  ["histories", "programs"], "all call sequences up to a depth over functions containing static objects in different scopes, from all reachable counter states",
  "static_ints runs one fixed history (three calls) of one function.",
  [EV], [("handle_static_decl", EV), ("eval_evaluator_ctx", EV)],
  [("T_DECL rewritten to E_CTX", "storage of the static objects, hung into the AST", EV)])

p("C08", "Object layout and sizeof match the platform compiler",
  "For every type expressible - the basic types, pointers, arrays, structs and unions and their nestings - `sizeof` (of the type name, and of an object, an element, a member or what a pointer points to) and the offset of every member equal what the system C compiler uses, so that aggregates can be exchanged with compiled code. Distinct struct members do not overlap, and union members start at the union's first byte.",
  ["inputs", "programs"], "all struct/union member sequences up to a length over the member-type alphabet, with nesting up to depth two, and arrays of them",
  "struct_torture and struct_array_alignment check a few layouts; alignment and padding depend on the sequence of member types and there are thousands of short sequences.",
  [EV], [("eval_decl_compound offset loop", EV), ("get_alignment_for_type", EV), ("eval_sizeof/get_array_size", EV)],
  [("tDECL_OFFSET / tCOMP_DECL_SZ", "member offset and size of a compound", LA)])

p("C09", "Loads and stores touch exactly the object they designate",
  "Through any chain of array indexing, member access, address-of, dereference, pointer arithmetic and pointer assignment, a store changes exactly the bytes of the designated object, a later load through any alias sees it, and every other object keeps its value. Pointer arithmetic and increments move by whole elements of the pointed-to type.",
  ["histories", "programs"], "all operation sequences up to a depth over a small memory (scalars, arrays, struct with array and pointer members, pointers that alias them) against a byte-accurate reference",
  "Tests execute one fixed access sequence each; aliasing bugs need particular sequences of address-taking, stores and loads.",
  [EV], [("eval_array_access/eval_comp_access/eval_addr/eval_deref", EV), ("instantiate_struct/instantiate_array", EV), ("live_var_add/live_var_sub", EV)])

p("C10", "Native functions receive their arguments and return values intact",
  "A call to a function of a loaded library passes every argument, in position, with the value and type its prototype declares - for variadic functions with C's default promotions - for every combination of argument types and any number of arguments up to the documented limit, and the returned value is delivered with the declared return type. Behaviour is the same through a declared name and through a function pointer.",
  ["inputs", "programs"], "all signatures up to four parameters over the scalar types, selected long signatures that spill to the stack, all return types, constants/variables/expressions as arguments, fixed and variadic",
  "The tests call printf, puts and a few libc functions; how a value is marshalled depends on its type, its position and on whether it is a literal, variable or temporary.",
  [FC, EV, "src/genffitypes.cpp"], [("do_ext_call/push_arg", FC), ("eval_fn_call (external branch)", EV), ("handle_extern_fn/eval_ext_func", EV)])

p("C11", "Interpreted functions work as callbacks of native code",
  "The address of an interpreted function is a valid native function pointer for as long as the program runs: native code that calls it, any number of times, nested or after arbitrary other evaluation, passes its arguments through unchanged and receives the value the function returns. Taking the address repeatedly yields pointers that behave identically, and interpreter state after the call is as before it.",
  ["histories", "programs"], "all callback signatures up to three parameters over the scalar types and all return types, all call sequences up to a depth including re-entrant callbacks and collections in between",
  "function_pointer only calls void functions with int and pointer parameters, through bic itself, immediately after taking the address.",
  [FC, EV], [("get_entry_point_for_fn/closure_entry", FC), ("handle_addr_fn_def", EV), ("T_CLOSURE lifetime", GC)])

p("C12", "Garbage collection never changes what a program does",
  "At whatever allocation the collector runs, and however often, a program's output, exit status and object values are the same as without collection, and no memory is used after it was released. Objects that the program can still reach through variables, pointers to live objects, static storage, function pointers or pending evaluation are never reclaimed.",
  ["schedules", "programs"], "for each program of a corpus covering every evaluator construct: every single collection point, every period, and collection at every allocation",
  "A test run hits at most a few collection points (every 2000 allocations), usually none, so a missing root is invisible.",
  [GC, "src/gengc.cpp", EV], [("collect/mark_stack/mark_static/sweep", GC), ("generated mark_object", "src/gengc.cpp"), ("track_alloc/E_ALLOC", EV)],
  [("allocs/alloc_ptr", "table of all tree objects", GC)], hook="collection point chosen by the harness (BIC_VERIF)")

p("C13", "Declaration specifiers denote the C type in any order",
  "Every sequence of type-specifier keywords that C accepts - in any order, mixed with storage-class specifiers and qualifiers - denotes the C type with its size, signedness and arithmetic, and every sequence that C rejects is rejected with a diagnostic. The same holds in variable, member, parameter, typedef, cast and sizeof positions.",
  ["inputs"], "all sequences of up to four (quick) / five (thorough) specifier keywords in every declaration position",
  "The sizeof test spells a few common combinations in their usual order.",
  [LA, "src/genspecresolver.cpp", PA], [("resolve_decl_specs_to_type (generated)", "src/genspecresolver.cpp"), ("defspecifier table", LA)])

p("C14", "Enumeration constants have the values C assigns",
  "For every enumeration, each enumerator has its explicit value or one more than its predecessor's, starting from zero; the constants, and variables of the enumeration type, behave as integers in expressions, conditions, array sizes and calls in every scope where the enumeration is visible.",
  ["inputs", "programs"], "all enumerator lists up to length four over implicit, positive, zero, negative, repeated and constant-expression initialisers, tagged/untagged, at file and block scope",
  "basic_enum checks one list.",
  [EV, PA], [("eval_enumerator", EV), ("enum_specifier grammar", PA)])

p("C15", "Literals denote their C value",
  "Every integer constant (decimal, octal, hexadecimal), floating constant, character constant and string literal in the supported syntax denotes the value C gives it, byte for byte, independent of what surrounds it; a string literal designates the same unmodified bytes each time it is evaluated. Text that is not a valid literal is rejected with a diagnostic rather than read as something else.",
  ["inputs"], "all character-constant and string-literal bodies up to a length over an alphabet of all escapes and representative plain characters; all integer spellings up to a length plus boundary values",
  "Tests use plain ASCII strings with newline escapes and decimal numbers.",
  [LX], [("INTEGER/FLOAT_CST rules", LX), ("lex_char", LX), ("str_lit start condition", LX)])

p("C16", "A script sees exactly its arguments and its exit status is reported",
  "For every argument vector, a script's `main` (or its top-level code) receives argc and argv exactly as given after `-s`, with argv[0] the script name, whatever the arguments look like; top-level code runs once, in order, and the value returned by `main` or by a top-level `return` becomes the exit status. A file that mixes `main` with top-level statements is refused before anything runs.",
  ["inputs", "configurations"], "all argument vectors up to length three over an alphabet of ordinary, empty, option-like and special strings x main signatures/top-level code x option prefixes; all exit values",
  "No test passes arguments or looks at the exit status.",
  ["src/main.c", CS], [("parse_args", "src/main.c"), ("create_arguments/add_call_to_main/__evaluate_cscript", CS), ("cscript_exit", CS)],
  observe=["output and exit status of `bic [opts] -s FILE ARGS`"])

p("C17", "A REPL session behaves as one growing program and echoes values exactly",
  "After any sequence of lines, declarations, definitions brought in by includes and assignments made earlier in the session are in force for later lines, each line is evaluated exactly once, and the value printed for an expression is its C value formatted according to its type, including aggregates member by member and strings. A line that fails to parse is reported and leaves the session's state unchanged.",
  ["histories"], "all line sequences up to a depth over an alphabet of declarations, assignments, expressions, includes and malformed lines, against a reference session",
  "The expect scripts send a few fixed lines and accept any output that contains the expected digits.",
  [RE, "src/pretty-printer.c", "src/preprocess.c"], [("bic_repl/repl_parse_line/run_cpp_on_line", RE), ("pretty_print", "src/pretty-printer.c")],
  [("repl_parse_head, include_chain, include_ctx", "session state", RE)],
  observe=["transcript of `bic` with lines on standard input"])

p("C18", "Tab completion offers exactly the names that can follow",
  "At any point of a session, completing a prefix offers exactly the visible identifiers that begin with it, and completing after `.` or `->` offers exactly the members of that object that begin with the typed prefix, each spelled as the full replacement text. Completing never changes the session: no variable, declaration or later result is affected.",
  ["histories", "inputs"], "all prefixes over the session's names x all sessions of declarations up to a depth, with completions interleaved at every position",
  "No test exercises completion.",
  [RE, EV], [("bic_completion/split_compound_access_text/create_matches_array", RE), ("find_global_identifiers/match_identifiers_for_idmap", EV)],
  observe=["readline completion callback", "session transcript"])

p("C19", "The inspector describes each object truthfully",
  "`?name` reports, for every kind of variable (an array is described as the pointer it decays to, with the array's size), its type, its current value, the size in bytes the compiler would give and the file and line of its declaration (in a session: the number of the line in the session), for functions that they are functions and where they were declared, and reports unknown names as not found. This holds for objects of every storage duration, wherever they were declared. Inspecting never changes the object or the session.",
  ["inputs", "histories"], "all variable types x values x declaration places (REPL line, script line, include), interleaved with assignments",
  "No test uses the inspector.",
  ["src/inspect.c", EV], [("inspect/print_object_type/print_sizeof_object/print_object_locus", "src/inspect.c"), ("eval_inspect", EV)],
  observe=["transcript of `bic` REPL"])

p("C20", "Erroneous programs stop with a located diagnostic and no further effect",
  "A program that comes to evaluate an undeclared identifier or type, a second declaration of a name (or definition of a tag) in the same scope, an assignment to or modification of something that isn't an object, a call with the wrong number of arguments, a dereference, member access, call or arithmetic operation on a value (a structure, a floating value, a void object) that has no such operation, a division by zero, an object of type void or of negative size, a structure with two members of one name, or an invalid combination of specifiers is stopped at that point: a diagnostic naming the file and the line - of the failing expression itself, when an expression extends over several lines - is printed, the exit status is 1, everything before the error has taken effect and nothing after it is executed. A syntactically malformed program is refused, with a located diagnostic and status 1, before anything of it is executed. Each of these is detected wherever in the program, header, startup file or session it occurs, and none of them crashes the interpreter.",
  ["programs"], "all error kinds x all nesting contexts (file scope, function, block, if, loops, argument, initialiser, condition) x position in a statement sequence",
  "All tests are valid programs.",
  [EV, CS, PA], [("eval_die", EV), ("cscripterror", CS), ("map_identifier duplicate check", EV)])

p("C21", "Declarators and typedef names mean the type C gives them",
  "Every declaration combining pointers, arrays, function pointers and typedef names of any depth gives the declared name the type C gives it, so that a use through the typedef and a use of the spelled-out type are interchangeable; several declarators in one declaration are independent. A typedef name, once declared, is recognised as a type in declarations, parameters, casts and sizeof.",
  ["programs", "inputs"], "all declarator shapes up to depth three x base types x typedef chains up to depth three x use positions",
  "simple_typedef, struct_typedef and function_ptr_typedef each test one chain.",
  [EV, PA, "src/typename.c"], [("map_typedef/resolve_ptr_type/handle_declarator", EV), ("find_ids_to_map_to_typenames", PA), ("add_typename/is_typename", "src/typename.c")])

p("C22", "AST dumps show the whole program and execute nothing",
  "With -T (text) or -T -D (graphviz) bic prints the syntax tree of any accepted program and exits successfully without executing any of it: every identifier, constant and string of the source appears in the dump (type qualifiers, which bic ignores, aside), structurally different programs dump differently and equal programs dump equally, and the dot output is well-formed with every edge between declared nodes.",
  ["programs", "configurations"], "all programs of the statement/expression enumeration up to a bound x {text, dot}",
  "No test uses -T or -D.",
  ["src/gendump.cpp", "src/gendot.cpp", "src/main.c", CS], [("tree_dump (generated)", "src/gendump.cpp"), ("tree_dump_dot (generated)", "src/gendot.cpp"), ("evaluate_cscript dump branch", CS)],
  observe=["stderr/stdout of `bic -T [-D] -s FILE`"])

p("C23", "Headers and libraries named on the command line or in the session are usable",
  "Headers reachable through the system path or through any number of -I directories (searched in the order given) and libraries given with -l (by file name or by short name) provide their types, macros and functions to scripts and to REPL sessions, in any order and combination; including further headers never invalidates names or types obtained from earlier ones, nor the session's own objects, and a name that the session itself declares denotes the session's object even where a header declares it, too (objects that headers themselves define start anew: the code documents that the headers are evaluated again). A header or library that cannot be found is reported and the exit status is non-zero.",
  ["configurations", "histories"], "all subsets and orders of a set of small interdependent headers and -I directories, all include sequences up to a depth interleaved with uses, library options by name and path",
  "Tests include standard headers once, at the top of a script.",
  ["src/preprocess.c", "src/main.c", EV, "src/typename.c"], [("run_cpp/preprocessor_add_include_dir", "src/preprocess.c"), ("eval_cpp_include", EV), ("open_library", "src/main.c")],
  observe=["output of `bic -I .. -l ..` in script and REPL mode"])

p("C24", "A REPL statement in a script runs a session in the scope where it stands",
  "Whenever the statement `<REPL>;` of a script is executed - at top level, in a function, block, loop, branch or recursion, any number of times - the script stops for a session in which exactly the names visible at that point have their current values; assignments made in the session are seen by the script, names declared in it belong to that scope, calls made in it may stop in turn, and when the input ends the script continues with the next statement as if it had not stopped. Errors in the session end the script with status 1, malformed lines don't.",
  ["inputs", "histories"], "scripts with stops at every kind of place x all sequences of lines up to a bound spread over the sessions in every way",
  "No test drops into the REPL.",
  ["src/repl.c", EV], [("eval_repl", EV), ("bic_repl/repl_interrupt", "src/repl.c")],
  observe=["transcript of `bic -s FILE` with lines on standard input"])

os.chdir(os.path.join(os.path.dirname(__file__), ".."))
with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
