import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
LEX="src/parser/lexer.rs";EXP="src/parser/expression.rs";LIT="src/parser/literals.rs";FLOW="src/parser/flow_control.rs";DEF="src/parser/define.rs";PAR="src/parser.rs";SI="src/source_info.rs";LV="src/lvar_collector.rs";MAIN="src/main.rs";LIB="src/lib.rs";TOK="src/token.rs";ERR="src/error.rs";NODE="src/node.rs"
p("C01","Damaged source never crashes or hangs the parser",
 "Whatever UTF-8 text storage or transport faults leave behind (a file cut short at any byte, lost, zeroed, duplicated or reordered blocks, flipped bits, two versions mixed), parsing it with any of the entry points returns either a tree or an error: it never panics, aborts, overflows or loops, and the work done grows no faster than the text warrants. The position carried by a returned error lies inside the text, in order, starts on a character, and can be turned back into a line and an excerpt.",
 ["inputs","fault_sequences"],
 "Every program text and every sequence of truncations, lost/duplicated/reordered/torn blocks, bit flips and mixed versions applied to it that still decodes as UTF-8, for parse, eval and binding entry points; nesting up to what the caller's stack holds.",
 "The tests parse a few hundred intact programs and about ten hand-written errors; none parses a truncated or corrupted text, so panics on lexer errors, arithmetic overflow, out-of-bounds slices and endless loops are out of their reach.",
 [LEX,PAR,EXP,LIT,DEF,FLOW,LIB,ERR],
 [("every lexer and parser routine returns Result instead of panicking","src/parser/lexer.rs, src/parser/*.rs"),("errors carry a Loc and the source","ParseErr, src/error.rs"),("each token read advances the position","Lexer::read_token, src/parser/lexer.rs")],
 [("pos / token_start_pos / heredoc_pos","read positions in the text","Lexer, src/parser/lexer.rs")],
 ["return value of Parser::parse_program / parse_program_eval / parse_program_binding","panics, signals and step count of the parsing thread"])
p("C02","Results and errors can be reported on any terminal",
 "For every result or error and every position inside its text, producing the located message and the line number always succeeds whatever the terminal answers (any width including zero or one, no terminal, a failing size query, a resize between two reports), with any file name and any characters in the text. The message names the file and the 1-based line that contains the start of the position, every excerpt line is text of the named line and not of another, a caret line follows it, and when the line fits the terminal the carets stand under the start of the position; the line-number query returns that same line.",
 ["inputs","configurations","fault_sequences"],
 "Every text, every position produced by a parse (and every in-bounds position), every file name, every sequence of terminal sizes, resizes and failures.",
 "No test calls the reporting functions at all except through the CLI tests that need the network; terminal width is an environment answer the unit tests never vary.",
 [SI,ERR,LIB],
 [("wraps the excerpt by terminal width","SourceInfo::get_location, src/source_info.rs"),("finds the line of a position","SourceInfo::get_line / get_lines, src/source_info.rs")],
 None,["return value of SourceInfo::get_location, get_line, short_file_name, stderr of show_loc"])
p("C03","Incomplete input is recognised as incomplete",
 "When a program that parses is delivered piecewise, line by line, the text so far is reported as unexpected end of input exactly while some construct (definition, block, bracket, string, heredoc, literal or operand) is still open, never as a definite syntax error, and it is accepted as soon as the construct is closed. A text that breaks off at any byte inside an open bracketed, quoted or keyword-delimited construct is never accepted as complete.",
 ["inputs","histories","crash_points"],
 "Every valid program, every line boundary and every byte position at which its delivery can stop, every mix of piece sizes, losses of the tail and resumptions.",
 "The tests only parse complete programs; two assert an error for an unclosed parameter list without looking at its kind, and nothing feeds a program incrementally.",
 [PAR,LEX,EXP,LIT,FLOW,DEF,ERR],
 [("end of input met while a token is required is UnexpectedEOF","Parser::get, Lexer::get, error_eof"),("closing tokens are required","expect_punct / expect_reserved, src/parser.rs")],
 None,["ParseErr.kind of every prefix","Ok of the completed text"])
p("C04","A session parsed chunk by chunk equals the whole program",
 "Parsing a program as a sequence of statement chunks, each with the variable table the previous chunk returned and the same caller context, gives the same trees (up to the shift of positions) and the same final variable table as parsing the whole text at once, and the table only ever grows by appending. Chunks that fail, are cancelled, retried or repeated, crashes followed by a replay of the accepted chunks, and other sessions running in between leave no trace in the session.",
 ["histories","fault_sequences","crash_points"],
 "Every program, every partition of its statements into chunks, every interleaving of several sessions, and every placement of failed, cancelled, retried, duplicated chunks and of crash-and-replay.",
 "No test calls the binding entry point at all; the unit tests are single-shot.",
 [PAR,LV,EXP,LIT,FLOW],
 [("binding parse starts from the caller's table","Parser::parse_program_binding / LvarScope::new_block"),("names are looked up before they are inserted","LvarCollector::insert, add_local_var_if_new")],
 [("LvarCollector","per-scope variable table handed from chunk to chunk","src/lvar_collector.rs")],
 ["ParseResult.node, ParseResult.lvar_collector of each chunk and of the whole"])
p("C05","Parses running at the same time do not affect each other",
 "Any number of parses (and reports about their results) running at the same time in different threads of one process, switched at arbitrary points, each return exactly what they return when run alone, and all of them finish. This holds for parses that fail and parses whose caller context is consulted in the middle of a switch.",
 ["schedules","inputs"],
 "Every set of concurrently running parses and every interleaving of their steps, including preemption inside the lexer, in context callbacks and while an error is being built.",
 "The test runner happens to run tests on several threads, but each asserts only its own fixed tree under whatever timing occurs; no test controls or explores interleavings.",
 [PAR,LEX,SI,LIB,LV,TOK],
 [("all parser state lives in the parser value; no statics","Parser, Lexer (src/parser.rs, src/parser/lexer.rs)"),("results own their text","SourceInfo, src/source_info.rs")],
 None,["digest of each thread's result","termination of every thread"])
p("C06","A failed, unwound or nested parse leaves no trace",
 "In a process that performs any long sequence of parses, where some fail, some are unwound by a panic of the caller's own context callback, some are started from inside such a callback and some results are kept alive or dropped in any order, every parse returns what it returns in a fresh process. Results obtained earlier never change, and a panic raised by the callback reaches the caller unchanged.",
 ["histories","fault_sequences"],
 "Every finite history of successful, failing, re-entrant and unwound parses and of reports and drops of their results.",
 "Each test parses a program once in a fresh state and never unwinds or nests a parse.",
 [PAR,LEX,SI,LV],
 [("parser state is created per call and dropped on unwind","parse / Parser::new, src/parser.rs"),("results share only immutable source text","SourceInfoRef, src/source_info.rs")],
 None,["digest of each parse's result against a fresh process","digest of kept results at the end of the history","panic payload"])
p("C07","Parsing depends on and touches nothing but its arguments",
 "The outcome of a parse is a function of the text, the path, the variable table and the context's answers alone: hash seeds, the clock, environment variables, the current directory, address layout, stack and heap garbage and earlier activity make no difference. Parsing opens no file or socket, starts no process or thread, writes nothing, and consults the context only about names that occur in the text.",
 ["configurations","inputs","fault_sequences"],
 "Every program and every environment: random seeds, clock readings (including jumps backwards), environment variables, locale, working directory, memory contents, call-stack position.",
 "Tests run in one environment each and compare with fixed trees; they neither vary the environment nor observe what the parser touches.",
 [PAR,LEX,LIB,TOK,LV,MAIN],
 [("no statics, no environment, clock or file access in the library","src/*.rs except src/main.rs"),("path is only stored","Parser.path, SourceInfo.path")],
 None,["digest of the result across simulated environments","calls seen at the operating-system seam"])
p("C08","The command parses exactly the file's content or reports failure",
 "Given a file argument, the command either prints the tree of the file's complete content, exactly as parsing that text gives it, and succeeds, or says on standard error what went wrong and exits with a failure status. Failing lookups, opens and reads, interrupted and short reads, invalid UTF-8 and files replaced or removed around the load never make it print the tree of a part or a mixture of contents, print a tree and fail, or succeed with nothing printed.",
 ["fault_sequences","inputs","crash_points"],
 "Every file content and every sequence of results the operating system gives to the lookup, open and read calls (errors, interruptions, any split into short reads, replacement before the open, removal at any point).",
 "The only tests of the command fetch programs from the network and so do not run; none involves a file.",
 [MAIN],
 [("loads the whole file before parsing","load_file, src/main.rs"),("reports load errors","main, src/main.rs")],
 None,["stdout, stderr and exit status of the command"])
p("C09","The command exits with success only if all its output was written",
 "The command exits with success if and only if the text it was given parses and the complete tree and location have been delivered to standard output; otherwise it exits with a failure status. A standard output or error that is closed, full, interrupted, or accepts only part of a write never leads to success with missing, repeated or reordered output, a parse error is reported with its kind and place, and running out of memory ends in failure, not in a wrong tree.",
 ["fault_sequences","inputs","configurations"],
 "Every program given by argument, file or default, and every sequence of results of the write calls (errors at any byte, interruptions, any short-write split), terminal sizes and allocation failures.",
 "No test that runs here executes the command.",
 [MAIN,SI],
 [("prints the whole tree, panics on write failure","parse_and_output, src/main.rs"),("parse errors become a panic with the located message","parse_and_output, src/main.rs")],
 None,["stdout, stderr and exit status of the command"])
p("C10","Names resolve against the caller's live frames as answered",
 "A bare name is a local variable exactly when, at the point of its occurrence, it has been assigned or bound as a parameter earlier in an enclosing block scope, or the caller's context has answered that it exists in a frame, and its depth is the number of block scopes between the use and the binding, the context's answer being counted from the outermost parsed scope. Method, class and module bodies see neither enclosing variables nor the caller's frames, assigning to a visible variable never creates a second one, and every scope's table lists each of its own variables once in order of first appearance.",
 ["inputs","histories","schedules"],
 "Every program, nesting of scopes, initial table and caller context, including contexts whose frames gain and lose variables between two consultations of the same parse.",
 "Two or three tests contain local variables in nested blocks; none passes a context or looks at depth through one, and none changes frames during a parse.",
 [PAR,EXP,LV,LIT,FLOW,DEF],
 [("walks the scope stack, then asks the context","Parser::is_local_var, src/parser.rs"),("assignment looks up before inserting","Parser::add_local_var_if_new / check_lhs")],
 [("scope stack","scopes entered, innermost last","Parser.scope, src/parser.rs")],
 ["LocalVar / Ident / call nodes of the tree by position","variable tables in the tree and the result","log of context questions and answers"])
p("C11","Memory is bounded, returned, and its exhaustion never gives a wrong result",
 "When an allocation fails at any point of a parse, the process either stops or returns exactly the result it returns with ample memory, never a different tree or error. The peak memory of a parse is bounded in proportion to what its text warrants, and once result, error and context are dropped everything the parse allocated has been released, also after errors and unwinding, so repeating parses does not grow the process.",
 ["fault_sequences","histories","inputs"],
 "Every program and every index of the failing allocation; every repetition of successful, failing and unwound parses.",
 "Tests neither fail allocations nor measure memory.",
 [PAR,LEX,NODE,SI,LIB],
 [("plain owned data and one reference-counted source text","ParseResult, src/parser.rs; SourceInfoRef, src/source_info.rs"),("allocation failure aborts","Rust alloc error handler")],
 None,["exit status and result digest of the parse with the k-th allocation failed","live and peak bytes at the allocator seam"])
# not applicable: pure functions
p("C12","Trees follow Ruby's grammar, precedence and associativity",
 "For every valid program the tree denotes the structure Ruby's grammar gives it: operator precedence and associativity, modifiers, argument, block and parameter forms.",
 ["inputs","programs"],"Every valid Ruby program in the supported subset.",
 "Tests sample a few hundred snippets, most only for absence of an error.",
 [EXP,PAR,FLOW,DEF],[("recursive descent by precedence level","src/parser/expression.rs")])
p("C13","Numeric literals have the value they denote",
 "Every integer, float, imaginary, hexadecimal, octal and binary literal yields exactly the number Ruby gives it, of any size.",
 ["inputs"],"Every numeric literal.","Tests sample a few literals.",
 [LEX],[("read_number_literal and friends","src/parser/lexer.rs")])
p("C14","String-like literals have the content they denote",
 "The content of every string, symbol, regexp, %-literal and heredoc, with every escape and continuation, is the one Ruby gives it.",
 ["inputs"],"Every string-like literal.","Tests sample a few literals.",
 [LEX,LIT,LIB],[("read_interpolate, read_escaped_char, read_heredocument","src/parser/lexer.rs")])
p("C15","Every tree node carries the span of its own text",
 "The location of every node is the span of source text it was built from, and children lie within their parents.",
 ["inputs"],"Every program and node.","Tests compare a handful of locations.",
 [EXP,PAR,NODE,LEX],[("Loc::merge of token locations","src/source_info.rs, src/node.rs")])
p("C16","Programs outside the grammar are rejected",
 "Complete texts that are not programs of the supported language (misplaced parameters, duplicated arguments, invalid assignments, class bodies in methods, nested numbered parameters) are rejected with an error.",
 ["inputs"],"Every complete invalid program.","About ten rejection tests.",
 [PAR,EXP,LEX],[("error_unexpected at each decision","src/parser/*.rs")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import re
for x in P:
    assert len(x["title"])<=80
    n=len(re.findall(r'[.](?:\s|$)',x["statement"]))
    print(x["id"],n,x["title"])
