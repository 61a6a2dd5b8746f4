"""The properties: what properties.jsonl and MANIFEST.json say about each (tools/gen.py writes both)."""

TRUST = ('Trusted: clang 18 as front end (IR built from the current sources with the makefiles\' own flags for the Linux and the mingw-w64 '
         'configuration), the model of the C library and Win32 calls in engine/, the call-graph resolution of function pointers by table and signature. ')

PROPS = []


def P(id, module, title, statement, over, quant, why, files, mechanism, technique, note, design, state=None):
    PROPS.append(dict(id=id, module=module, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, design=design, state=state or []))


PATHS = ('Interprocedural path-sensitive abstract interpretation (engine/sym.py) of every function of both configurations, bottom-up over the call graph with '
         'per-case summaries (what holds of arguments, what is returned, released, stored, handed over). Functions that are not in engine/known.txt are '
         'inlined first, so extracting a helper does not change the verdict. Joins bound the states per block; a report that follows a lossy join is '
         're-analysed with eight times the room and kept only if it persists. ')
PNOTE = (TRUST + 'Bug finding over all paths of each function up to state joins (no claim beyond them: values kept only in arrays, in struct fields reached through '
         'several unknown pointers, or released by another thread are considered handed over). Functions cut short by the visit budget are listed in the evidence.')

P('R01', 'props.paths', 'Every allocation is released or handed over on every path',
  'Whatever a command, expansion or internal operation allocates for its own use (heap blocks, dynamic strings, file lists, parameter lists) is released or handed to a longer-lived '
  'owner on every path out of the operation, including error, abort and early-exit paths. An interpreter process that runs commands for an unbounded time does not lose memory per command.',
  ['inputs', 'fault_sequences'], 'every path through every function of the interpreter, its libraries and tools, in both the Linux and the Windows configuration, including each failure of an allocation or of a library call',
  'the tests run five scripts along their success paths and never look at memory; leaks sit on the error and abort paths that need failing calls',
  ['pbat/command', 'pbat/core', 'libpbat', 'modules', 'tea/src', 'dump', 'libcu8/src', 'microgettext', 'libfasteval/lib'],
  [('pBat_EsInit_Cached/pBat_EsFree_Cached', 'pbat/core/pBat_EsCache.c'), ('pBat_GetFileList/pBat_FreeFileList', 'libpbat/dir/pBat_Dir.c'), ('pBat_GetParamList/pBat_FreeParamList', 'pbat/core/pBat_Args.c')],
  'path-sensitive ownership (typestate) analysis over LLVM IR', PNOTE, PATHS +
  'Every heap block, ESTR, file list and parameter list created on a path must, when the last reference to it is dropped, have been released, stored into a longer-lived object, returned or handed to a callee that takes it.')

P('R02', 'props.paths', 'Every file, pipe, directory and descriptor opened is closed on every path',
  'Each stream, pipe stream, directory handle, search handle and raw descriptor that an operation opens for its own use is closed, or handed to a longer-lived owner, on every path out of that operation, '
  'including the paths taken when a later step fails or the user aborts.',
  ['inputs', 'fault_sequences'], 'every path through every function in both configurations, each library call both succeeding and failing',
  'a leaked descriptor only shows after hundreds of failing operations; tests open a handful of files successfully',
  ['pbat/command', 'pbat/core', 'libpbat', 'dump', 'tea/src', 'libcu8/src'],
  [('fclose/closedir/pclose on each exit', 'pbat/command/pBat_Type.c, pBat_Copy.c, pBat_For.c, pBat_Wc.c'), ('redirection streams', 'pbat/core/pBat_Stream.c')],
  'path-sensitive typestate analysis over LLVM IR', PNOTE, PATHS + 'Handles from fopen, fdopen, popen, opendir, open, dup, pipe, FindFirstFile and their wrappers are tracked as in R01.')

P('R03', 'props.paths', 'Nothing is used after release and nothing is released twice',
  'Once an operation has released a heap block, dynamic string, list, stream, directory or descriptor, no path uses it or releases it again; releasing through a variable that was never set does not occur either.',
  ['inputs', 'fault_sequences'], 'every path through every function in both configurations, including failure paths',
  'use after release is silent on most runs; error paths that release early are not exercised by the tests',
  ['pbat/command', 'pbat/core', 'libpbat', 'modules', 'tea/src', 'dump', 'libcu8/src', 'microgettext'],
  [('release conventions of ESTR, FILELIST, PARAMLIST, FILE', 'libpbat/, pbat/core/')],
  'path-sensitive typestate analysis over LLVM IR', PNOTE, PATHS + 'A released object stays tracked: a dereference, a pass to a callee that uses it, or a second release is reported.')

P('R04', 'props.paths', 'A failed or absent result is never dereferenced',
  'The result of an operation that may return nothing (an allocation, opening a file, a search, a line or block lookup, a parser step) is tested before anything is read or written through it, on every path; '
  'a failure ends in a diagnosed error or a clean return, not in a crash.',
  ['inputs', 'fault_sequences'], 'every path through every function in both configurations, with every nullable call returning null',
  'allocation and open failures, missing tokens and unbalanced blocks need fault injection or malformed input that the tests do not contain',
  ['pbat/command', 'pbat/core', 'libpbat', 'modules', 'tea/src', 'dump', 'libcu8/src', 'microgettext', 'libfasteval/lib'],
  [('NULL tests after malloc, fopen, strchr, pBat_GetNextParameterEs, pBat_GetNextBlock', 'throughout')],
  'path-sensitive null-pointer analysis over LLVM IR', PNOTE + ' Nullness of values kept in structure fields across calls is only followed where the analysis can name the cell.',
  PATHS + 'Values that some path makes NULL (library results, internal functions that return NULL on some case) are reported when dereferenced, or passed to a callee that dereferences that argument, without a test on the path.')

P('R05', 'props.paths', 'No variable or buffer is read before something was stored in it',
  'On every path, a local variable, output argument or local buffer is given a value before it is compared, printed, dereferenced, returned or passed on for reading; a function that reports through an output argument sets it on every path after which the caller reads it.',
  ['inputs', 'fault_sequences'], 'every path through every function in both configurations, including failure paths of the calls that set the value',
  'reading indeterminate memory usually yields a plausible value under test; the paths that skip the assignment are error paths',
  ['pbat/command', 'pbat/core', 'libpbat', 'modules', 'tea/src', 'dump', 'libcu8/src', 'microgettext'],
  [('initialisation before use', 'throughout')],
  'path-sensitive definite-assignment analysis over LLVM IR', PNOTE, PATHS + 'Locals and fresh heap blocks start as undefined (clang\'s pattern initialisation marks them in the IR); a use of an undefined value on some feasible path is reported.')

P('L01', 'props.locks', 'Mutexes are released on every path and taken in one order',
  'Every internal mutex an operation takes is released on every path out of that operation, including its early returns and failures, is never released unheld and never taken again by the thread that holds it. '
  'No two mutexes are ever taken in opposite orders, so interpreter threads cannot deadlock on them.',
  ['schedules', 'inputs', 'fault_sequences'], 'every path of every function of both configurations that takes or releases a mutex, callees included',
  'a missing release or an inverted order only shows when two threads meet, which the tests never arrange',
  ['pbat/core', 'pbat/command', 'libpbat', 'microgettext'],
  [('pBat_LockMutex/pBat_ReleaseMutex', 'pbat/core/pBat_Thread.c, pbat/core/pBat_Var.c, pbat/command/pBat_Set.c')],
  'path-sensitive lockset (typestate) analysis over LLVM IR plus a lock-order graph over the call graph', TRUST + 'A mutex is named by the global it lives in. Windows critical sections are re-entrant, so taking one again is reported on Linux only.',
  'Same engine; the tracked fact is the set of held mutexes. All exits of a function must agree; acquisitions while another mutex is held (callees included) are edges of a graph that must have no cycle.')

P('L02', 'props.locks', 'State shared by interpreter threads is only touched under its lock',
  'State an interpreter changes while it runs is either private to its thread or touched by all threads under one common mutex, so interpreters running at the same time (pipes, background blocks, threaded loops) do not see each other\'s '
  'half-made changes; nothing goes through library calls that keep their result in memory all threads share. A message text may be replaced whole while others read it.',
  ['schedules'], 'every access, in every function reachable from a running interpreter thread in both configurations, to every writable variable that is not thread-local',
  'a data race needs a particular interleaving of two interpreter threads; the tests run one at a time',
  ['pbat/core', 'pbat/command', 'pbat/lang', 'libpbat', 'microgettext', 'libcu8/src'],
  [('PBAT_THREAD_LOCAL state', 'pbat/core/pBat_Core.h'), ('mSetLock, mModLock, mRunFile, mLineNoise, mLocaleLock', 'pbat/core, pbat/command')],
  'interprocedural lockset analysis (Eraser-style, static) over LLVM IR', TRUST + 'Only named variables are judged: heap objects handed to two threads are covered by the cloning property. What runs before the first thread starts is exempt; four variables with a stated reason are waived in the evidence.',
  'For each non-thread-local variable that is written after start-up, the intersection over all accesses of the mutexes certainly held (flow analysis inside a function, meet over call sites for its entry) must not be empty.')

P('L03', 'props.clone', 'A new interpreter thread starts with its own copy of its parent\'s state',
  'When an interpreter starts another one in a thread (pipe, background block, threaded loop, external batch), every piece of per-interpreter state - settings, error level, variables, arguments, commands, directory, '
  'directory stack, environment, streams - reaches the new one unchanged as a copy of its own, before it runs anything; or is one of the pieces that start fresh. No object the parent can later change or release is shared, and the thread releases its copy when it ends.',
  ['schedules', 'histories', 'inputs'], 'every per-thread variable of the program in both configurations, every store that fills or restores the hand-over block, every pointer store of every copying function',
  'sharing only shows when the parent changes or frees the object while the child runs; tests have one pipe each', ['pbat/core', 'libpbat/cmdlist'],
  [('pBat_CloneInstance/pBat_DuplicateData/pBat_CloneTrampoline', 'pbat/core/pBat_Clone.c'), ('pBat_EnvDup', 'pbat/core/pBat_Env.c'), ('pBat_DuplicateCommandList', 'libpbat/cmdlist/pBat_CmdList.c')],
  'def-use data-flow (source/sink per field) and escape check over LLVM IR', TRUST + 'The block argument of a thread (its private parameters) is covered by R01/R03, not here. Variables that start fresh are listed with a reason.',
  'The hand-over structure is found from the thread entry. Every thread-local variable of the program must be restored from a field that the parent fills, on all paths, from the same variable; pointers must come out of functions whose result is freshly allocated and which store no pointer of the original into the copy.')

P('D01', 'props.discipline', 'Commands talk through the interpreter\'s streams, never the process\'s',
  'Whatever a command or the interpreter reads or prints goes through the input, output and error stream of the interpreter that runs it, so redirections and pipes apply to all of it; '
  'output streams are only written and the input stream only read, and error reports go to the error stream.',
  ['inputs', 'schedules'], 'every use of a standard stream or of an interpreter stream in every function of both configurations that a running interpreter can reach',
  'a message printed to the wrong stream looks right on a terminal and only differs under a redirection or inside a pipe',
  ['pbat/core', 'pbat/command', 'pbat/errors', 'pbat/lang', 'libpbat', 'libfasteval'],
  [('fInput/fOutput/fError', 'pbat/core/pBat_Stream.c, GUIDELINES.md'), ('pBat_ShowErrorMessage', 'pbat/errors/pBat_Errors.c')],
  'reachability plus def-use data-flow over LLVM IR', TRUST + 'Sites allowed to use the process streams are listed in the evidence with the reason (start-up, forked child, last words before exit, terminal line editor).',
  'Every function reachable from a running interpreter is enumerated; a use of stdin/stdout/stderr, of a stdio call bound to them or of descriptor 0-2 is a violation unless listed. The stream argument of each stdio call is traced to the stream variable and compared with the direction.')

P('D03', 'props.discipline', 'Interpreter environment and directory are kept apart from the process\'s',
  'A running interpreter keeps its environment and its directory to itself: it never reads or changes those of the process, except in the forked child or under the lock that serializes starting programs, where it is undone before others can see it. '
  'A program that is started gets the environment, the streams and the directory of the interpreter that starts it.',
  ['schedules', 'inputs', 'histories'], 'every call or variable access, in every function of both configurations that a running interpreter can reach, that touches the process environment or directory; every place that starts a program',
  'a change of process-wide state is invisible with one interpreter; it needs two running at once or a program that looks at its environment',
  ['pbat/core', 'pbat/command', 'libpbat'], [('lpeEnv, lpCurrentDir', 'pbat/core/pBat_Env.c, GUIDELINES.md'), ('pBat_RunFile/pBat_StartFile', 'pbat/core/pBat_Exec.c'), ('pBat_ApplyEnv/pBat_UnApplyEnv', 'pbat/core/pBat_Env.c')],
  'reachability and dominance analysis over LLVM IR', TRUST + 'Start-up code and a short list of named sites are exempt, with reasons in the evidence. File names that stay relative are a separate property.',
  'All process-wide environment/directory accesses reachable from a running interpreter are enumerated; every path to an exec or shell start must pass the calls that install environment, streams and directory.')

P('L04', 'props.discipline', 'A forked child never continues as a second interpreter',
  'After the interpreter forks to start a program, the child either becomes that program or ends; no path lets it return into the interpreter and run the rest of the script a second time.',
  ['fault_sequences'], 'every path from every fork in the program, including a failing exec',
  'needs an exec that fails in the child, which no test provokes', ['pbat/core'], [('fork/execv', 'pbat/core/pBat_Exec.c')],
  'control-flow analysis over LLVM IR', TRUST, 'The blocks reached only when fork returned 0 are computed by dominance; leaving them other than through exec or a function that ends the process is a violation.')

P('D05', 'props.order', 'What was printed before a program or thread starts comes out first',
  'Everything the interpreter printed before it starts a program or another interpreter thread has been handed to the operating system when that starts, so its output can only come after; '
  'and a stream is only pointed at another file, pipe or terminal once everything printed to it has gone where it was meant to go.',
  ['inputs', 'histories'], 'every path of every function of both configurations from a write to an interpreter output stream to the next start of a program or thread or change of what the stream is connected to',
  'on a terminal each line is flushed anyway; the order only breaks when output goes to a file or pipe and a program or redirection follows',
  ['pbat/core', 'pbat/command', 'libpbat'], [('fflush before fork/CreateProcess/pthread_create', 'pbat/core/pBat_Exec.c, pbat/core/pBat_Clone.c'), ('fflush around dup2', 'pbat/core/pBat_Stream.c')],
  'interprocedural must-analysis (forward data-flow) over LLVM IR', TRUST + 'Streams are the per-interpreter output and error stream; a stdio call on one of them makes it unwritten, fflush or fclose of it makes it clean. Three waived sites are listed in the evidence.',
  'Function summaries (clean / unchanged / unwritten per stream) are iterated over the call graph, function entries take the meet over all call sites, forked children are left out; at each fork, CreateProcess, ShellExecute, pthread_create and at each dup2 over a stream\'s descriptor the stream must be clean.')

P('D04', 'props.status', 'A command that reports an error ends with a non-zero status',
  'When a command reports an error and goes on, it nevertheless ends with a non-zero status once it is done, on every path - the report may concern the first of many files, an option, or a step near the end - and a line that the interpreter itself '
  'rejects leaves a non-zero error level, so that the conditional operators and error-level tests see the failure. Commands that run other commands answer for their own failures only, and warnings do not count.',
  ['inputs', 'fault_sequences'], 'every path from every non-fatal error report to the end of the command or of the line, through all helpers, in both configurations',
  'a lost status needs a failure in the middle of a list of operands, which the tests never provoke, and nothing visible is wrong except the status',
  ['pbat/command', 'pbat/core', 'libpbat', 'modules'], [('pBat_ShowErrorMessage', 'pbat/errors/pBat_Errors.c'), ('lpCmdInfo', 'pbat/command/pBat_CommandInfo.c'), ('iErrorLevel', 'pbat/core/pBat_Run.c')],
  'path-sensitive data-flow (error-status propagation) over LLVM IR', PNOTE + ' Only failures that the program reports are judged: a failure nobody notices is not seen here.',
  PATHS + 'A non-fatal error report marks the path; helpers hand the mark to their callers together with what they return; a command handler (found in the constant command tables) must not return a value that may be 0 on a marked path, and a dispatcher must have stored a value that can not be 0 in the error level or return one its caller looks at.')

P('R07', 'props.arith', 'Integer arithmetic never divides by zero or overflows a division',
  'No integer division or remainder is ever computed with a divisor that may be zero, nor with a divisor of -1 where the dividend may be the smallest integer, whatever the user typed, whatever a file or the terminal said: '
  'a zero that comes from outside is refused or replaced before it is used.',
  ['inputs'], 'every integer division and remainder in every function of both configurations, with every value its divisor may take',
  'a zero divisor ends the whole interpreter with a signal and needs a particular operand, option or terminal size that no test uses',
  ['pbat/command', 'pbat/core', 'libpbat', 'libfasteval/lib', 'tea/src', 'modules', 'libcu8/src', 'microgettext'],
  [('integer division in the evaluator', 'libfasteval/lib/parser.y'), ('columns and tabulations', 'pbat/command/pBat_More.c, libpbat/linenoise/linenoise.c')],
  'path-sensitive interval analysis over LLVM IR', PNOTE + ' Three kinds of sizes the program computes itself and never sets to zero are waived with a reason, and listed in the evidence.',
  PATHS + 'The divisor of every sdiv/udiv/srem/urem must have a range that excludes 0 (and -1 for a dividend that may be the smallest integer). A divisor that is an argument or a structure field is an obligation on every caller or on every store into that field.')

P('D02', 'props.names', 'Relative names are looked up in the interpreter\'s own directory',
  'A file name the user gives, in a command, a redirection, a loop, a label reference or on the command line, is only used to look at, open, create, change or delete something after it has been made absolute against the current directory of the interpreter that runs the line - '
  'each interpreter thread has its own, and the directory of the process is another one. The same holds for file names the program itself makes up.',
  ['inputs', 'schedules'], 'every text that may hold words of the user, followed through all copies and functions up to every call that looks a name up, in both configurations',
  'the two directories differ only after CHDIR or in a second interpreter thread, and the tests run everything where the interpreter was started',
  ['pbat/command', 'pbat/core', 'pbat', 'libpbat'], [('pBat_EsToFullPath, pBat_FullPathDup, pBat_GetFileFullPath', 'pbat/core/pBat_FilePath.c'), ('redirections', 'pbat/core/pBat_Parse.c')],
  'interprocedural taint (origin) analysis over LLVM IR', TRUST + ' A text that holds a full path in part of its bytes (a prefix put together by the program) counts as resolved. Below the command layer, in the directory library and in libcu8, names are taken as given.',
  'Texts carry their possible origins: a parameter or end of line given by the user, a relative literal, resolved. Copies and appends carry the origin of their first part along, the resolving functions clear it, a comparison of the first character with a separator clears it on that edge; summaries say which argument is looked up and which holds what afterwards. A call of the operating system\'s (or of the file search) with an unresolved text is a violation.')

P('R08', 'props.formats', 'What is printed matches its format, and every error has its message',
  'Every text printed with a format is formatted with one the program or its translation tables provide, never with text a user supplied, and every conversion in it, translated ones included, receives a value of the type it expects. '
  'Every error or warning the interpreter reports is one that has a message, and the number or text that completes the message is given as that message expects it.',
  ['inputs', 'histories'], 'every call of a printf-like function, in both configurations, with every format it may receive, and every translation of each; every report of an error with every code it may report',
  'a mismatch only shows in the message that has it, in the language that has it, mostly on a failure, and then as garbage or a crash',
  ['pbat', 'libpbat', 'tea/src', 'modules', 'po', 'batbox', 'libcu8/src'], [('lpErrorMsg, pBat_ShowErrorMessage', 'pbat/errors/pBat_Errors.c'), ('translations', 'po/fr/pbat.po')],
  'constant propagation of formats and type checking over LLVM IR', TRUST,
  'The format argument is traced through phis, tables, gettext and parameters (then judged at each caller) to string constants; each is parsed and its conversions are compared with the LLVM types and debug types of the values passed; translations found in po/ are parsed likewise and compared with their originals. For error reports the code\'s possible values index the message table and the complement must match the conversions.')

P('D06', 'props.restore', 'What is changed for the time of an operation is put back on every way out',
  'What an operation changes only for as long as it runs - the variables, arguments and script of a CALLed batch or label, the local variables of a subroutine, the redirections of a line and the mark that keeps those around it, '
  'the streams and environment a program is given, the mode of the terminal, what SETLOCAL keeps for ENDLOCAL - is put back as it was on every way out, failures and aborts included.',
  ['inputs', 'fault_sequences', 'histories'], 'every path of every function of both configurations that changes one of these and puts it back, to each of its returns, through the functions it calls',
  'the ways out that forget are failures, aborts and end of input in the middle of an operation; the damage shows in whatever runs next', ['pbat/core', 'pbat/command', 'pbat/linenoise', 'libpbat/console'],
  [('pBat_CmdCallFile', 'pbat/command/pBat_Call.c'), ('pBat_RunParsedLine, pBat_RunBlock, pBat_RunCommand', 'pbat/core/pBat_Run.c'), ('pBat_PushEnvStack/pBat_PopEnvStack', 'pbat/core/pBat_EnvStack.c'), ('pBat_Getch, enableRawMode', 'libpbat/console/pBat_Console.c, pbat/linenoise/linenoise.c')],
  'path-sensitive typestate (save/restore) analysis over LLVM IR', PNOTE + ' The console\'s output mode, set once at start, is waived. What the user changes with a pair of commands of its own (PUSHD/POPD) is not meant.',
  PATHS + 'Any per-interpreter variable that a function changes and on some path sets back to what it read there at first must be set back on all paths that return; likewise whole structures copied away and back, and the lock field of the redirection stack, below which nothing pushed may remain when it is given up. '
  'Calls that open something (streams and environment for a program, frame of local variables, a terminal mode other than the one read from it) are matched with those that close it, through callers. Settings saved in a list element must be the same as those restored from it and may not be changed before they are saved.')

P('D07', 'props.failures', 'A command whose operation on a file, directory or program fails has failed',
  'Whatever the command and its input, when an operation it needs fails - opening, reading, writing, removing, renaming, making a directory, starting a program - the command does not end with status 0, whichever of several '
  'operations it was. No program is run in another directory than the one asked for.',
  ['inputs', 'fault_sequences'], 'every path of every command, in both configurations, on which one of these operations has failed, through the functions it calls',
  'the operations fail for lack of permission, space or processes, or on one of several files, which the tests do not provoke', ['pbat/command', 'pbat/core', 'libpbat/file'],
  [('pBat_CmdCopyFile, pBat_CmdDel, pBat_CmdRmdir, pBat_CmdRen, pBat_CmdMkdir, pBat_CmdWc', 'pbat/command'), ('pBat_RunFile, pBat_StartFile', 'pbat/core/pBat_Exec.c')],
  'path-sensitive typestate analysis over LLVM IR', PNOTE + ' Output on the streams of the command (a full disk behind a redirection) is not judged, nor whether a message is shown. Preparatory attempts of which a later operation decides are waived and listed.',
  PATHS + 'Each call of such an operation splits into its outcomes; the failing one marks the path, through summaries, and a command must not return a status that may be 0 on a marked path. Starting a program a second way takes the mark of the first attempt away.')

P('D08', 'props.abort', 'Once GOTO or EXIT asks to leave something, nothing more of it is run',
  'Once a command has asked to go to a label, to leave the script or to end the session, no other command of the line, the block, the loop or the script that this leaves is run and no loop of them goes on, whichever construct they are in. '
  'The request is forgotten only where what it leaves has ended: the block by reading the next line, the script by returning to what called it.',
  ['inputs', 'histories'], 'every pair of commands run one after the other in one activation of any function, in both configurations, and every place that forgets such a request',
  'which commands follow a GOTO or an EXIT, in how many nested blocks, loops and calls, is up to the script', ['pbat/core', 'pbat/command', 'pbat/pBat.c'],
  [('pBat_RunBlock, pBat_RunParsedLine, pBat_RunBatch', 'pbat/core/pBat_Run.c'), ('pBat_CmdFor*', 'pbat/command/pBat_For.c'), ('pBat_CmdGoto, pBat_CmdExit', 'pbat/command')],
  'path-sensitive typestate analysis over LLVM IR', PNOTE + ' Commands run by another thread or process (the sides of a pipe, FOR /F commands) have a request of their own. A helper that runs nothing and looks at the request is taken to be heeded.',
  PATHS + 'The functions that run commands are those that call a handler taken from the table of commands, and their callers. At each call of one, if another such call came before in the same activation, the request must be provably absent; a store that clears it is judged by the values it may hold there, against what has ended: a line was read (block), or the script that was run has returned (level).')

P('R06', 'props.bounds', 'What is written into a buffer or table of fixed size stays inside it',
  'Whatever the length of a name, a line, an argument or a translated message, what is copied, printed or read into a buffer whose size is known fits it, and a text cut to a buffer still has its end. '
  'An element picked by a computed position lies inside its table, and the size a dynamic string remembers is the size of its memory.',
  ['inputs'], 'every library call that writes into a buffer whose size is declared or allocated on the path, every element picked by a computed position in a table of declared size, every growth of a dynamic string, in both configurations; '
  'arguments are bounded at every caller',
  'an overrun needs a name or line exactly as long as the buffer; the tests use short ones', ['pbat/core', 'pbat/command', 'pbat/linenoise', 'libpbat', 'libcu8/src', 'dump', 'modules', 'tea/src', 'microgettext'],
  [('pBat_EsCpy, pBat_EsCat, pBat_EsCatN', 'libpbat/estr/pBat_Estr.c'), ('pBat_SplitPath', 'pbat/core/pBat_SplitPath.c'), ('pBat_EsToFullPath', 'pbat/core/pBat_FilePath.c'), ('linenoise editing', 'pbat/linenoise/linenoise.c'), ('pBat_GetExeFilename', 'libpbat/file/pBat_StdFile.c')],
  'path-sensitive interval and linear-inequality analysis of sizes over LLVM IR', PNOTE + ' Not judged: characters stored through a pointer that walks along a buffer, loads at a position nothing compares with a size, sizes that come back from memory the path does not know; '
  'the evidence counts the sites left unjudged. The generated scanner and parser are left out.',
  PATHS + 'Sizes are linear expressions over values and text lengths; the comparisons decided on the path bound them. A write through an argument becomes an obligation judged at every caller. A dynamic string enters a function with its memory no smaller than the size beside it '
  'and must leave it so. Calls that may leave a text without its end (a cut copy, a link read) must be followed by one.')
