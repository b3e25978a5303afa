import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/jomlib/"+f if '/' not in f else f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Physical lines are joined into the same logical lines for every file layout",
 "The makefile text handed to the rest of jom depends only on the characters of the file: a final line without newline reads like one with newline, lines starting with # vanish, a trailing backslash or caret continues the line, and an escaped or doubled backslash at the end does not. The result is the same whatever the line lengths are relative to any internal buffer, and the same for a plain 8-bit file and a UTF-8 file with the same text. Reading never touches memory outside the data it holds.",
 ["inputs"],"for every file content (bytes) up to the bound, including lines that straddle the read-buffer boundary at every offset, and for both encodings",
 "The tests read a handful of small fixture files; none places a continuation, a missing newline or a comment at the buffer boundary, and none compares the two readers.",
 ["makefilelinereader.cpp","makefilelinereader.h","preprocessor.cpp"],
 [("8-bit line reader with growing buffer","makefilelinereader.cpp readLine_impl_local8bit/growLineBuffer"),("Unicode line reader","makefilelinereader.cpp readLine_impl_unicode"),("joining of continued lines","preprocessor.cpp joinLines")],
 ["sequence of lines delivered by the line reader and by the preprocessor"])

p("C02","Comments are removed exactly where they start and escaped # survives",
 "In macro definitions, directives, dependency lines and dot directives the text from the first unescaped # to the end of the line is ignored; ^# stands for a literal #, and a # inside double quotes or after the command separator ; of a dependency line is not a comment there. Everything before the comment is kept unchanged apart from surrounding white space and the removed escape characters.",
 ["inputs"],"for every line of text up to the bound over the alphabet of significant characters and ordinary characters",
 "The tests contain a few lines with one comment each; interactions of quotes, several escapes, a semicolon and several # signs are not sampled.",
 ["preprocessor.cpp","parser.cpp"],
 [("inline comment removal","preprocessor.cpp removeInlineComments"),("comment/command separator search","parser.cpp removeCommentsAndFindCommandSeparator")],
 ["macro values","targets, dependents and commands of the parsed makefile"])

p("C03","Macro expansion equals the documented expansion for every text and macro table",
 "Expanding a text yields the text with every $(name) and $x replaced by the fully expanded value (empty if undefined), $$ by one dollar, and $(name:a=b) by the value with every occurrence of a replaced by b; file-name macros are left for later. An unterminated or nameless invocation, an invalid character after $, or a self-referential chain of macros is reported as an error, and expansion always terminates. Expansion changes no macro.",
 ["inputs","configurations"],"for every text up to the bound and every macro table whose names and values are arbitrary strings up to the bound, including mutually recursive ones",
 "Expansion is recursive over user-controlled tables; the tests sample about thirty concrete pairs.",
 ["macrotable.cpp"],
 [("recursive expansion","macrotable.cpp expandMacros"),("cycle detection","macrotable.cpp cycleCheckedMacroValue"),("substitution parsing","macrotable.cpp parseSubstitutionStatement/applySubstitution")],
 ["expanded text or error"])

p("C04","Macro definitions obey the precedence of their sources in every order",
 "A macro given on the command line keeps that value against the makefile and the environment; a makefile definition overrides an inherited environment variable unless environment override (/E) is requested, in which case the environment value stays. Command-line macros also define their upper-case form unless that is given explicitly, and reach the environment of started commands; an environment variable redefined in the makefile is passed to commands with the new value. Undefining a macro and defining it again behaves like a first definition.",
 ["histories","configurations"],"for every sequence of definitions of up to the bound from the four sources, names differing in case, values referring to the macro itself, with and without /E",
 "The tests fix single definition orders.",
 ["macrotable.cpp","options.cpp","makefilefactory.cpp"],
 [("read-only and source marks","macrotable.cpp internalSetMacroValue, setMacroValueImpl, defineEnvironmentMacroValue"),("command-line macros","options.cpp readCommandLineArguments"),("environment import","makefilefactory.cpp readEnvironment")],
 ["macro values after reading","environment handed to commands"])

p("C05","Exactly the active branch of every conditional is read",
 "For every nesting of !IF, !IFDEF, !IFNDEF, !ELSE, !ELSE IF..., and !ENDIF the lines delivered are exactly those of the first branch of each conditional whose condition is true (or the else branch), and definitions in skipped branches have no effect. A conditional directive without its partner is an error, and reading never delivers a line twice, loses an active line or fails to terminate.",
 ["inputs","programs"],"for every sequence of up to the bound lines drawn from the directive forms, macro definitions and text lines, with arbitrary truth values of the conditions",
 "The tests use fixed files with a few nestings; the skip automaton's state space is the set of all directive sequences.",
 ["preprocessor.cpp"],
 [("conditional stack and skip scan","preprocessor.cpp parsePreprocessingDirective, skipUntilNextMatchingConditional, enterConditional, exitConditional"),("lines put back","preprocessor.cpp basicReadLine")],
 ["delivered lines, macro table, errors"])

p("C06","Preprocessor expressions evaluate as specified and never crash",
 "The value of every constant expression is that of the grammar (unary, * / %, + -, shifts, relational, then bitwise and logical operators) over 32-bit integers, string comparison is exact, and defined(x)/== forms give 0 or 1. A malformed expression, a division or remainder by zero is reported as an error rather than a crash, and no operand value brings jom down.",
 ["inputs"],"for every token sequence up to the bound and, per operator, for all pairs of 32-bit operand values",
 "The tests evaluate fixed expressions with small operands.",
 ["ppexprparser.cpp","ppexpr_grammar.cpp","ppexpr-lex.inc"],
 [("LALR table parser with value stack","ppexprparser.cpp parse"),("lexer","ppexpr-lex.inc")],
 ["value or error of an expression"])

p("C07","A dependency line is parsed into the targets, dependents and commands it names",
 "Every dependency line is split at its separator colon (one or two; drive letters, also at the start of a quoted name, and macro modifiers in parentheses do not count) into the named targets and dependents; quotes only group. Commands given after ; or on following indented lines belong to each named target; with :: blocks of one target accumulate, mixing : and :: is an error, and repeated : lines accumulate dependents but keep the first commands.",
 ["inputs","histories"],"for every line up to the bound over the significant characters and every sequence of up to the bound dependency lines for two targets",
 "The tests parse fixed lines.",
 ["parser.cpp","makefile.cpp"],
 [("separator search","parser.cpp isDescriptionBlock"),("name splitting","parser.cpp splitTargetNames"),("accumulation rules","parser.cpp parseDescriptionBlock")],
 ["targets, dependents and commands of the parsed makefile"])

p("C08","Dependency cycles are always reported and acyclic makefiles always accepted",
 "For every dependency graph the makefile is rejected with a cycle error if and only if a cycle is reachable from the targets to be built. The check terminates and leaves no trace that changes a later check or build.",
 ["inputs","programs"],"for every directed graph up to the bound in nodes, including self loops, and every non-empty selection of active targets",
 "The tests contain two example cycles.",
 ["parser.cpp"],
 [("depth-first cycle check with marks","parser.cpp checkForCycles, resetCycleChecker")],
 ["accept or error of reading a makefile"])

p("C09","Every needed target is built once, and only after everything it depends on",
 "With any number of parallel jobs and any completion order, the commands of a target start only after all targets it depends on have finished, the commands of each out-of-date target run exactly once, targets not needed are not built, and at no time do more commands run than jobs allowed. A build in which every command succeeds terminates with exit code 0.",
 ["schedules","inputs"],"for every acyclic dependency graph up to the bound in nodes, every job count and every order in which running commands finish",
 "Schedules are nondeterministic; execution tests run a few graphs once and do not run in this environment.",
 ["dependencygraph.cpp","targetexecutor.cpp"],
 [("leaf set of the dependency graph","dependencygraph.cpp internalBuild, findAvailableTarget, removeLeaf"),("start loop","targetexecutor.cpp startProcesses, buildNextTarget, onChildFinished")],
 ["order of command starts and finishes","exit code"])

p("C10","Failures stop or contain the build, and the exit code tells",
 "After a command fails no further command is started, running ones are awaited and the exit code is non-zero; with /K exactly the targets that depend on a failed one are left unbuilt, everything else is built, and the exit code is still non-zero. Completion is reported in every case, only after every started command has ended, and never as a success once a command has failed.",
 ["schedules","fault_sequences"],"for every acyclic graph up to the bound, every subset of failing targets, both modes, every job count and completion order",
 "The tests sample single failing makefiles and never a failure racing with other completions.",
 ["targetexecutor.cpp","dependencygraph.cpp","commandexecutor.cpp"],
 [("abort path","targetexecutor.cpp onChildFinished, waitForProcesses, finishBuild"),("unbuildable marking","dependencygraph.cpp markParentsRecursivlyUnbuildable")],
 ["set of executed targets","exit code","number of completion reports"])

p("C11","A target is rebuilt exactly when it is missing or older than a dependent",
 "For all file timestamps, a target without dependents is up to date iff it exists; otherwise it is up to date iff it exists and no dependent (file, built target or pseudo target) is missing or newer. A dependent target that did not exist and has commands counts as newer; one without commands that does not exist has the age of its newest dependent; one that was rebuilt has the age its file has afterwards. With the build-all option every target is rebuilt regardless of timestamps.",
 ["inputs","configurations"],"for all 64-bit timestamps and existence patterns of a target and up to the bound dependents, each being a plain file or a target with or without commands",
 "The timestamp tests need a Windows file system, do not run here, and sample a few orderings.",
 ["dependencygraph.cpp","filetime.cpp","fastfileinfo.cpp"],
 [("timestamp comparison","dependencygraph.cpp isTargetUpToDate"),("time value order","filetime.h/.cpp")],
 ["decision to build or skip a target"])

p("C12","The applicable inference rule of highest suffix priority is chosen",
 "A target without commands gets the commands of the inference rule whose target extension and path match, whose inferred source exists, and whose source extension comes first in the suffix list; rules with a suffix not listed are never used, and the last definition of an identical rule wins. The inferred source becomes a dependent and $< stands for it. Batch rules pass each inferred source exactly once.",
 ["inputs","configurations"],"for every subset of existing sources, every order of rules and suffixes up to the bound, and batch mode on or off",
 "The tests have fixed rule sets and need execution, which does not run here.",
 ["parser.cpp","makefile.cpp"],
 [("rule preselection","parser.cpp findRulesByTargetName, preselectInferenceRules"),("rule filter and order","makefile.cpp filterRulesByDependent, applyInferenceRules, calculateInferenceRulePriorities")],
 ["commands and dependents of a target after rule application"])

p("C13","Command prefixes select exactly the documented exit-code tolerance and echo",
 "Prefix characters -, -n, @ and ! in any order and number are stripped from a command and set exit-code tolerance (n, or any code for a bare -), silence and per-dependent execution; the rest of the command is unchanged. A command fails iff its exit code exceeds the tolerance (a crash exceeds every number, a bare - tolerates it as well), and the default tolerance is 0 (any code under the ignore option or directive).",
 ["inputs"],"for every command text up to the bound and every 32-bit exit code",
 "The tests sample a few prefixes and exit codes.",
 ["makefile.cpp","commandexecutor.cpp","parser.cpp"],
 [("prefix evaluation","makefile.cpp evaluateModifiers"),("threshold test","commandexecutor.cpp onProcessFinished")],
 ["command text, tolerance and flags","success or failure of a target"])

p("C14","File-name macros expand to the names, modifiers and quoting they stand for",
 "In the commands of a target $@ is the target, $* the target without extension, $** all dependents, $? those not older than the target; D, B, F, R modifiers and :a=b substitutions apply to each name, names with blanks are quoted, and an escaped macro stays. With the per-dependent prefix the command is run once for each dependent with that single name.",
 ["inputs"],"for every target and dependent name up to the bound, every macro and modifier combination, every command text up to the bound around them",
 "The tests use a few names on Windows file systems and do not run here.",
 ["makefile.cpp","macrotable.cpp"],
 [("file-name macro expansion","makefile.cpp expandFileNameMacros, getFileNameMacroValues"),("deferred-macro marking","macrotable.cpp expandMacros")],
 ["command lines executed"])

p("C15","Inline files contain exactly the given lines and their names replace <<",
 "For each << of a command a file is created that holds the lines up to the closing << with macros expanded and CRLF line ends, under the given or a fresh name, and the command sees that name (quoted if needed) in place of <<. Unless KEEP is given the file is removed after use, but not before its commands have ended, whichever names targets before or beside it use; lines outside the inline text stay part of the makefile.",
 ["inputs","programs"],"for every inline text up to the bound, every number of inline files up to the bound, with and without names and options",
 "The tests check a few inline files.",
 ["parser.cpp","commandexecutor.cpp","preprocessor.cpp"],
 [("inline parsing","parser.cpp parseInlineFiles"),("file creation and removal","commandexecutor.cpp createTempFiles, cleanupTempFiles")],
 ["content, name and lifetime of created files","command line"])

p("C16","Command-line options mean the same to jom and to every sub-jom",
 "Every argument list is split into options, macro definitions and targets, options may be combined after one dash or slash in either case, and unknown options are rejected. The option string exported to child makes sets exactly the same options when read back, including the job count. No argument list crashes the program.",
 ["inputs"],"for every argument list up to the bound in number and length",
 "The tests sample fixed command lines.",
 ["options.cpp","src/app/main.cpp"],
 [("option parser","options.cpp handleCommandLineOption"),("MAKEFLAGS composition","options.cpp readCommandLineArguments")],
 ["option values, targets, exported option string"])

p("C17","Command files and quoted arguments are split losslessly",
 "Splitting a command line yields the arguments separated by white space outside double quotes, with quotes removed and doubled quotes inside quotes kept as one; text is neither lost nor merged. Command files contribute exactly the arguments of all their lines after the explicit ones.",
 ["inputs"],"for every text up to the bound over quotes, blanks and ordinary characters, and command files of up to the bound lines",
 "The tests sample a few command lines.",
 ["helperfunctions.cpp","options.cpp"],
 [("splitter","helperfunctions.cpp splitCommandLine"),("command files","options.cpp expandCommandFiles")],
 ["argument list"])

p("C18","The environment given to commands is complete, case-insensitive and well formed",
 "The environment passed to a process contains every variable exactly once (names compared without case, the last value winning) as NAME=VALUE strings with a double terminator, plus the search path and system root of jom when absent; a search path given to commands is also the one they are searched in. Building it stays inside the allocated block for all names and values.",
 ["inputs","histories"],"for every sequence of up to the bound insertions with arbitrary names and values up to the bound, including empty ones",
 "The tests never inspect the block; it is only built on Windows.",
 ["processenvironment.h","jomprocess.cpp"],
 [("case-insensitive keys","processenvironment.h"),("block serialisation","jomprocess.cpp createEnvBlock")],
 ["environment block handed to process creation"])

p("C19","Buffered command output is printed completely, once and in order",
 "Everything a command writes to standard output or error is printed exactly once on the same stream in the order written, however it is split into reads and whenever buffering is switched off or the command ends. Of two chunks on different streams the earlier one is printed first. The output of exactly one of the running commands is printed as it arrives; that of the others is held back until they end or take its place.",
 ["schedules","histories"],"for every interleaving of up to the bound chunks on the two streams with arbitrary timestamps, sizes and a mode switch at any point",
 "The test for this runs real processes and samples one timing.",
 ["jomprocess.cpp"],
 [("chunk buffers and merge","jomprocess.cpp printBufferedOutput, completionPortNotified, setBufferedOutput"),("chunked write","jomprocess.cpp fwrite_binary")],
 ["bytes written to the two streams"])

p("C20","Job tokens are conserved across jom processes",
 "Beyond its implicit job a jom process starts a command only while holding a job token, and by the time it reports completion it has returned exactly as many tokens as it obtained, whether the build succeeded, failed or was aborted while waiting for a token.",
 ["schedules","fault_sequences"],"for every graph up to the bound, every completion order, every arrival time of granted tokens and every failing subset",
 "The race between a failing command and a pending token request depends on timing that tests do not control.",
 ["targetexecutor.cpp","jobclient.cpp","jobclientacquirehelper.cpp","jobserver.cpp"],
 [("acquire/release accounting","targetexecutor.cpp startProcesses, onChildFinished, waitForJobClient"),("token source","jobserver.cpp start")],
 ["operations on the shared counter"])

p("C21","Each command of a target is executed faithfully, in order, in the right way",
 "The commands of a target run one after the other in the written order; each is started exactly as written (with %% reduced to %), directly if it is a plain program call and through the shell if it uses redirection, pipes, shell built-ins or cannot be started directly. cd and set take effect for the following commands, remarks are skipped, and a dry run starts nothing but prints every command.",
 ["inputs","programs"],"for every sequence of up to the bound commands with arbitrary text up to the bound, and every outcome of starting them",
 "Execution tests need Windows and do not run here.",
 ["commandexecutor.cpp"],
 [("command loop","commandexecutor.cpp start, executeCurrentCommandLine, onProcessFinished"),("built-ins","commandexecutor.cpp exec_cd")],
 ["command lines handed to process creation, their order, working directory and environment","printed text"])

p("C22","Target names are matched without regard to case and separator style",
 "A target is found by any spelling of its name that differs only in letter case, in surrounding quotes or in slashes written for its backslashes, and by no other name; defining it again through such a spelling refers to the same target. The first target of the makefile is the default one.",
 ["inputs"],"for all pairs of names up to the bound",
 "The tests look up a few spellings.",
 ["makefile.h","makefile.cpp","helperfunctions.h"],
 [("normalised key","makefile.h target/append")],
 ["result of looking up a target"])

p("C23","Included files are read in place and include cycles are rejected",
 "The lines of an included file appear exactly at the place of the include directive followed by the rest of the including file, found relative to the current directory, then to the including files, then (angle brackets) the include path, in this order. A file that includes itself directly or indirectly is an error; a missing file is an error; including the same file twice in sequence is fine.",
 ["inputs","programs"],"for every include graph up to the bound in files and lines and every placement of the files in the search locations",
 "The tests include two files and one cycle.",
 ["preprocessor.cpp"],
 [("file stack","preprocessor.cpp internalOpenFile, basicReadLine"),("search","preprocessor.cpp findIncludeFile")],
 ["delivered lines or error"])

p("C24","No makefile text can crash jom or corrupt its memory",
 "Whatever bytes a makefile contains, reading it ends with a makefile or a reported error: no crash, no out-of-range access, no endless loop, no uncaught exception.",
 ["inputs"],"for every byte sequence up to the bound over the alphabet of characters the parser distinguishes",
 "The tests only read well-formed or deliberately slightly wrong files.",
 ["parser.cpp","preprocessor.cpp","macrotable.cpp","makefile.cpp","makefilelinereader.cpp"],
 [("whole reading pipeline","parser.cpp apply")],
 ["normal return or reported error"])

p("C25","Synchronisation points order the dependents around them",
 "In a dependents list with .SYNC every target listed after a synchronisation point is built only after all targets listed before it, in every such list of the makefile; other dependencies are unaffected and a makefile marked not parallel is built with a single job.",
 ["programs","inputs"],"for every dependents list up to the bound in length with synchronisation points at any positions, whether or not the listed names are described targets",
 "The tests have one list with all names described.",
 ["parser.cpp"],
 [("translation to dependencies","parser.cpp parseDescriptionBlock, apply")],
 ["dependents of the targets after reading"])

p("C26","Dot directives take effect from their place on and only as specified",
 ".SILENT and .IGNORE apply to all commands read after them and to none before; .SUFFIXES with names extends the suffix list in order and without names clears it; .PRECIOUS collects its targets. Spaces before the colon are allowed, and an unknown dot name is treated as an ordinary target.",
 ["programs","inputs"],"for every sequence of up to the bound directives and rules",
 "The tests contain one example of each directive.",
 ["parser.cpp"],
 [("dot directive parsing","parser.cpp parseDotDirective, parseCommandLine")],
 ["flags of commands, suffix priorities, precious targets"])

p("C27","File information is never stale after a target was built",
 "A decision about a target's age that is made after its commands finished uses the file's state after the build, and a file that did not exist when first asked for is noticed once it exists. Two spellings of different files never share information.",
 ["histories"],"for every sequence of up to the bound queries, builds and file-system changes over two files with arbitrary timestamps",
 "No test observes the cache.",
 ["fastfileinfo.cpp","targetexecutor.cpp"],
 [("attribute cache and invalidation","fastfileinfo.cpp FastFileInfo, clearCacheForFile")],
 ["existence and time reported for a file"])

p("C28","A dependent with wildcards stands for exactly the matching files",
 "A dependent that contains * or ? is replaced by the existing files of the named directory whose whole name matches, without regard to case, and by nothing else: not by the directory itself or its parent and not by files of another directory. Each match becomes one dependent that leads to the file, at the place of the pattern, and takes part in the decision whether the target must be built like one that was written out.",
 ["inputs"],"for every pattern up to the bound in every kind of directory prefix over directories with arbitrary subsets of files, and for arbitrary ages of the matching files",
 "One test expands one pattern in one directory; directories whose names are prefixes of each other and patterns that match everything are not sampled.",
 ["parser.cpp"],
 [("expansion of wildcards","parser.cpp expandWildcards"),("macros that look like wildcards","parser.cpp containsWildcard")],
 ["dependents of the parsed makefile","whether the target is built"])

p("C29","The jom program runs, reports and shares jobs as its command line demands",
 "Started with any command line, environment and makefile the jom program executes exactly what is asked for and tells the outcome by its exit code: 0 only if everything demanded was done, 1 or 2 after a failed command, 2 for a makefile that cannot be used, 128 for a bad command line; in the last two cases, and for help, version, dry run and graph dumps, nothing is executed. JOMFLAGS, or MAKEFLAGS if it is not set, acts like options on the command line. A jom started by a jom uses its parent's job server unless it is given another number of jobs. .NOTPARALLEL makes one command run at a time. An interrupt by the user ends jom with an error, and however a build ends it leaves no temporary files. Of several goals those before one that cannot be built are built.",
 ["inputs","schedules","crash_points"],"for every command line, environment and makefile of the bound, every order in which commands end and job tokens arrive, and an interrupt at every point in between",
 "No test runs the program itself; its main function is not even linked in the test build.",
 ["main.cpp","application.cpp","jobserver.cpp","targetexecutor.cpp","makefilefactory.cpp"],
 [("the program","main.cpp main, getCommandLineArguments, initJobServer, ConsoleCtrlHandlerRoutine"),("end of the build","targetexecutor.cpp finishBuild, abortBuild, removeTempFiles")],
 ["exit code","commands started and their environment","job server created or opened","files left behind"])

p("C30","A dry run shows exactly what a build would do and changes nothing",
 "For every makefile and every state of the files, jom /N prints exactly the commands that a build started at this point would execute, in this order - including those that only become necessary because commands before them update their targets, those of inference rules whose dependents would have been created, and those of batches - provided that commands create their targets. It executes no command, reports success, and neither creates, changes nor deletes a file; inline files are not written either.",
 ["inputs","histories"],"for every dependency graph, chain of inference rules, batch, presence and 64-bit time stamp of every file of the bound, both echoed and silent commands, with and without /A and /J",
 "The test of the dry run looks at no file and has no outdated chain of targets.",
 ["targetexecutor.cpp","commandexecutor.cpp","dependencygraph.cpp","makefile.cpp"],
 [("dry run of a command","commandexecutor.cpp executeCurrentCommandLine, createTempFiles"),("state of displayed targets","targetexecutor.cpp onChildFinished, findNextTarget; makefile.cpp filterRulesByDependent")],
 ["lines on standard output","processes started","files created, changed or deleted"])

p("C31","Informational output shows what jom really uses and does",
 "/DUMPGRAPH and /DUMPGRAPHDOT show exactly the dependencies between the targets that would be built for the goal, and build nothing. /D shows every target that is considered once, marked * exactly if it is built, before its commands. /P lists every macro with its value, every inference rule and every target with its dependents and commands, and then builds as usual. /U shows the text of inline files as it is written, /W the working directory in quotes before and after the build, whatever its outcome.",
 ["inputs","histories"],"for every dependency graph, presence and 64-bit time stamp of every file, outcome of every command, and choice of macros, rules, targets and inline files within the bound",
 "No test looks at the output of these options.",
 ["dependencygraph.cpp","makefile.cpp","macrotable.cpp","commandexecutor.cpp","src/app/main.cpp"],
 [("graph","dependencygraph.cpp dump, dotDump, displayNodeBuildInfo"),("make information","makefile.cpp dumpTargets, dumpInferenceRules; macrotable.cpp dump"),("inline files","commandexecutor.cpp createTempFiles"),("directory","main.cpp main")],
 ["lines on standard output","processes started"])

p("C32","Makefile errors and messages are reported at their place",
 "An error in a makefile - an unknown or misplaced directive, !ERROR, a line that is no statement, a missing include file, a broken macro invocation or expression, mixed : and :: - makes jom fail with a message that names the file and line where it stands, whatever precedes it, in included files and after them, and no command is started. !MESSAGE prints its text, with the macros as they are at that point, exactly when it stands in an active branch, and in order.",
 ["inputs"],"for every sequence of preceding pieces of makefile text, kind of error and place of it, and every sequence of definitions, messages, conditionals and includes within the bound",
 "Tests look at error messages of a few fixed makefiles only and at no line numbers behind continued lines, inline files and includes.",
 ["preprocessor.cpp","parser.cpp","makefilelinereader.cpp","exception.cpp","src/app/main.cpp"],
 [("place","preprocessor.cpp lineNumber, currentFileName, error; parser.cpp error; exception.cpp toString"),("messages","preprocessor.cpp parsePreprocessingDirective"),("report","main.cpp main")],
 ["standard error","standard output","exit code"])

p("C33","Predefined macros and the error file are as documented",
 "Unless /R is given, the names of the tools (AS, BC, CC, COBOL, CPP, CXX, FOR, PASCAL, RC) and their empty flags are predefined, MAKE is the path of the running jom and MAKEDIR its working directory, each in double quotes exactly if it contains a blank; the command line beats the makefile, and both beat the predefined value. With /R none of them is defined. With /X all errors go to the named file, created anew before anything else happens; a file that cannot be written is an error, and nothing is executed.",
 ["inputs","configurations"],"for every tool macro overridden by makefile, included file or command line, every path of jom and working directory, every spelling and position of /X, makefile and outcome within the bound",
 "No test reads predefined macros or redirects errors; the tests do not run the program.",
 ["macrotable.cpp","makefilefactory.cpp","options.cpp","preprocessor.cpp","src/app/main.cpp"],
 [("predefined macros","macrotable.cpp predefineValue, makefilefactory.cpp apply; options.cpp readCommandLineArguments"),("error file","options.cpp readCommandLineArguments, main.cpp main")],
 ["commands started","files opened","standard error","exit code"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+"\n" for d in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80,d['title']
print(len(P))
