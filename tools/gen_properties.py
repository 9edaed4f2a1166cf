import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
I='include/cli/'
CLI=I+'cli.h'; D=I+'detail/'
p('C01','One entered line has exactly one outcome',
 "Feeding a line that contains at least one token lets at most one command accept it: the session-wide commands are tried first, then the commands of the current menu in insertion order, then the enclosing menus from the inside out; the first command that accepts ends the search. If none accepts, the wrong-command handler (by default a message containing the line on the session's stream) is notified exactly once with the line as entered, and it is not notified otherwise. A line without tokens runs nothing and reports nothing.",
 ['inputs','programs'],'every line, every menu tree, every result returned by each candidate command',
 'The tests feed a few dozen fixed lines to one menu tree; the order and uniqueness must hold for every tree and every combination of accept/refuse results.',
 [CLI],[('session feed','CliSession::Feed'),('menu scan','Menu::ScanCmds, Menu::HandleCommand'),('wrong command report','Cli::WrongCommandHandler')],obs=['handler invocations','wrong command handler'])
p('C02','Whatever a command throws is contained and reported once',
 "Whatever a command handler throws, feeding the line returns normally to the caller. An exception derived from std::exception is passed exactly once, together with the entered line and the session's stream, to the application's exception handler (when none is set its description is printed on the session's stream); any other exception is reported on the session's stream. An exception thrown by a handler is never reported as a wrong command and never makes another command run.",
 ['inputs','programs','fault_sequences'],'every type thrown by every handler, with and without an exception handler',
 'Tests throw two exception types from one command; the guarantee is about every type (including the one the library uses for conversion errors) and every path.',
 [CLI],[('exception barrier','CliSession::Feed'),('report','Cli::StdExceptionHandler'),('conversion failures','VariadicFunctionCommand::Exec')])
p('C03','A handler runs only with exactly the parameters the user typed',
 "A command with typed parameters runs its handler only when the first token equals the command name, the number of remaining tokens equals the number of parameters and every token converts to its parameter type; the handler then runs exactly once with the session's stream followed by the converted values in the order typed. A command with free-form parameters runs exactly once with all remaining tokens, unchanged and in order. In every other case the handler does not run and the command does not accept the line.",
 ['inputs','programs'],'every token list and every parameter signature',
 'Tests try a handful of signatures and lines; wrong order, off-by-one arity or a handler run before all conversions succeeded shows up only for particular signatures.',
 [CLI],[('typed commands','VariadicFunctionCommand::Exec, Select::Exec'),('free-form commands','FreeformCommand::Exec')])
p('C04','A disabled command or menu is inert and invisible',
 "While a command or menu is disabled it accepts no line (neither by name nor through the parent shortcut, nor for the commands inside it), it is not listed by help and it, as well as everything inside it, offers no completion. Enabling it again restores it; disabling has no other effect.",
 ['programs','histories'],'every kind of command, every place it can be reached from, every order of enable/disable',
 'Tests disable two commands and check execution only.',
 [CLI],[('enabled guard','Menu::*, VariadicFunctionCommand::*, FreeformCommand::*, Command::GetCompletionRecursive'),('handle','CmdHandler')])
p('C05','Handles to commands are always safe and remove exactly one command',
 "A handle returned when a command is inserted can be used at any time: enabling, disabling or removing through it after the command or its menu has been removed or destroyed has no effect, and the handle never prolongs the life of the command. Removing takes out exactly the command of the handle and leaves all the others in their order. A command (or the menu being traversed) may be removed by the handler that is running without being destroyed under it.",
 ['histories','programs'],'every order of insertion, removal, destruction and use of handles, also from inside handlers',
 'Lifetime errors need a particular order of removals and show up as undefined behaviour, not as a failed assertion.',
 [CLI],[('weak handles','CmdHandler::Descriptor'),('keep-alive while executing','Menu::ScanCmds, Menu::HandleCommand')])
p('C06','Menu navigation never leaves the menu tree',
 "Entering the name of a menu alone makes that menu current, and the parent shortcut alone makes the enclosing menu current; a menu name (or the shortcut) followed by more tokens hands those tokens, in order, to that menu without changing the current menu. A session refers to its current menu only while that menu exists: once it has been removed, the session continues from the root menu.",
 ['histories','programs'],'every menu tree and every sequence of navigation and removals',
 'Tests navigate one two-level tree and never remove the current menu.',
 [CLI],[('navigation','Menu::HandleCommand, Menu::ExecParent'),('current menu','CliSession::Current, CliSession::CurrentMenu')])
p('C07','The command line is split by one fixed lexical grammar',
 "For every input string the tokens are those of one fixed grammar: outside quotes blanks (space, tab, newline) separate tokens; a single or double quote starts a token of its own, in which everything is literal and which only the same quote ends; a backslash makes a following quote or backslash literal and otherwise stands for itself, inside and outside quotes; an unquoted exclamation mark is a token of its own that ends the word before it; empty tokens are dropped. The split depends only on its input: nothing is carried over from previously split lines, and no input reads or writes out of bounds.",
 ['inputs'],'every byte string',
 'The tests list about forty strings; the grammar is a state machine over unbounded input in which state combinations (escape inside each quote type, exclamation mark after an escape, unterminated quotes) are easily missed.',
 [D+'split.h'],[('state machine','Text::SplitInto, Text::Eval*')],obs=['split'])
p('C08','Integer, bool and char parameters are converted exactly or rejected',
 "For every integer type the conversion of a token returns the value the token denotes when the token is an optional sign (minus only for signed types) followed by decimal digits only and the value is representable, and is rejected as a bad conversion otherwise: it never wraps, truncates or has undefined behaviour, the extreme values of the type included. A bool accepts exactly true, false and the integers 0 and 1, a char exactly the one-character tokens, and a string is passed unchanged.",
 ['inputs'],'every token and every built-in integral parameter type',
 'Tests sample values around some limits for some types; wrap-around shows up only for particular magnitudes and widths.',
 [D+'fromstring.h'],[('digit accumulation with overflow check','unsigned_digits_from_string'),('sign handling','signed_from_string, unsigned_from_string')])
p('C09','Floating point and streamed parameters consume the whole token',
 "A floating point parameter is accepted only when the whole token has been consumed by the conversion and contains no white space, and a parameter of any other type only when extraction succeeded and nothing but white space is left; the value returned is the one extracted. Every failure is reported as a bad conversion, never as another exception and never as a default value.",
 ['inputs'],'every token and every non-integral parameter type',
 'Tests sample a few malformed tokens; partially consumed tokens are unbounded.',
 [D+'fromstring.h'],[('floating point','from_string<float|double|long double>'),('fallback','from_string<T>')])
p('C10','The command history is bounded and its entry numbers are always valid',
 "The history never keeps more entries than the size it was created with (zero included). The listing shows every kept entry once, oldest first, with consecutive numbers, the number of an entry does not change as long as the entry is kept while new commands are added, and recalling a listed number yields exactly that entry. Recalling any other number is reported as an error; no operation in any state accesses an entry that does not exist.",
 ['inputs','histories'],'every sequence of commands, navigation and recalls, every size limit, every number',
 'Tests use a few short sequences with sizes above one; the invariants concern every sequence and the limits 0 and 1.',
 [D+'history.h'],[('ring of entries with base number','History')],state=[('buffer','entries, newest first','History'),('idOfOldest','number of the oldest kept entry','History')])
p('C11','History navigation recalls entries in order and never loses the edited line',
 "Going up first keeps the line being edited (as the newest entry or, when already navigating, in place of the entry shown) and then shows the next older entry, staying on the oldest; going down shows the next newer entry and, from the newest or when not navigating, an empty line. Entering a command ends the navigation: the line kept for the edit is replaced by the command (or dropped when the command equals the newest one), and a command equal to the newest entry is not recorded twice.",
 ['histories'],'every interleaving of up, down and entered commands, in every fill state',
 'The tests walk a few sequences; the state space of position x mode x fill level is unbounded.',
 [D+'history.h'],[('navigation','History::Previous, History::Next, History::NewCommand')])
p('C12','Recalling a command by number runs it as if it had been typed',
 "The recall command itself is not kept in the history; the recalled line is handed back to the session exactly once and so is executed and recorded like a typed line. If the number is not listed nothing is executed and the error is reported.",
 ['inputs','histories'],'every history content and every number',
 'One test recalls one entry.',[CLI,D+'history.h'],[('recall','CliSession::ExecFromHistory, History::ForgetLatest, History::At')])
p('C13','A session exchanges with the history storage exactly its own commands',
 "When a session is created its history starts with the commands of the storage, oldest first. When it exits, it stores exactly once exactly the commands entered in this session and still kept in its history, oldest first: not those loaded at start, not the line that was being edited.",
 ['histories'],'every session history up to the exit, also with navigation in progress and with a full history',
 'Tests check the stored commands for a short plain sequence.',[CLI,D+'history.h'],[('load/store','CliSession::CliSession, CliSession::Exit'),('own commands','History::GetCommands')])
p('C14','Every history storage keeps the newest commands in order',
 "After storing, a storage contains the previously stored commands followed by the new ones, in order, cut to the newest ones up to its size limit; reading returns exactly the content, oldest first, and clearing leaves it empty. The in-memory and the file storage behave the same.",
 ['inputs','histories'],'every sequence of store, read and clear, every limit',
 'Tests use one limit and a few commands.',[I+'volatilehistorystorage.h',I+'filehistorystorage.h'],[('stores','VolatileHistoryStorage, FileHistoryStorage')])
p('C15','The exit of a session happens once and completely',
 "However often and from wherever a session is told to exit, the session's exit action and then the application's exit action run exactly once, with the session's stream, and the commands of the session are stored exactly once; an action that has not been set is skipped. After the exit no prompt is shown any more; before it, entering a session runs the application's enter action and then the session's.",
 ['histories','programs'],'every order of exit command, end of input and exit calls, with any subset of actions set',
 'Tests exit once with all actions set.',[CLI],[('exit','CliSession::Exit, CliSession::Enter, CliSession::Prompt')])
p('C16','A file session feeds every line once and always terminates',
 "A session on streams refuses invalid streams when created. Its loop runs the enter actions once, then feeds every newline-terminated line exactly once and in order, showing the prompt before each, and ends as soon as the session has exited or the input ends or fails, in which case the exit actions run; it never loops without consuming input.",
 ['inputs','fault_sequences'],'every input, every stream state, every effect of the commands on the session',
 'Tests use short well-formed inputs; end of file or failure in the middle of a session is not sampled.',[I+'clifilesession.h'],[('loop','CliFileSession::Start')])
p('C17','The loop scheduler runs posted tasks exactly once, in order, until stopped',
 "Every task posted from any thread is kept and run at most once, in the order posted, by the thread running the scheduler and without any lock held, so that a task may post, stop or run the scheduler; once stopped no further task is started and a waiting scheduler returns. Every access to the shared state is protected by the scheduler's lock, the emptiness and stop conditions are re-evaluated after every wait, and posting or stopping wakes a waiting scheduler.",
 ['schedules'],'every interleaving of any number of posting, stopping and running threads',
 'Races and lost wake-ups depend on the interleaving; tests run two threads under one.',[I+'loopscheduler.h'],[('queue under mutex and condition variable','LoopScheduler')])
p('C18','Input reaches the session only through the scheduler',
 "A key read from the keyboard or from a connection is delivered to the session only by a task posted to the scheduler, exactly one task per key carrying a copy of the key; the thread reading the keyboard never touches the session, its stream or a command handler. Each scheduler runs a posted task later from its own loop, never inside the call that posts it.",
 ['schedules','programs'],'every thread interleaving and every key',
 'A handler run on the wrong thread usually works in a test.',[D+'inputdevice.h',D+'linuxkeyboard.h',D+'genericasioremotecli.h',D+'genericasioscheduler.h'],[('posting','InputDevice::Notify'),('asio executor','*AsioLib::Executor::Post')])
p('C19','The keyboard thread starts after and ends before everything it uses',
 "The thread reading the keyboard is started only when everything it uses is initialised, waits while input is deactivated, and before anything it uses is destroyed it is woken up whatever it is waiting for and joined. The terminal mode saved when input is activated is restored when it is deactivated and at destruction, and the flag shared with the thread is accessed only under its lock.",
 ['schedules'],'every interleaving of activation, deactivation, reading and destruction',
 'The tests never open a terminal.',[D+'linuxkeyboard.h'],[('lifecycle','LinuxKeyboard, InputSource')])
p('C20','Signals and end of input do not confuse the keyboard',
 "A signal interrupting the wait for input is not taken for input, nor for a stop request. When the standard input ends or fails this is notified as end of input and reading stops; it is never turned into an endless flow of keys.",
 ['fault_sequences'],'every result and error of the system calls used to read the keyboard',
 'The tests never open a terminal and inject no system call result.',[D+'linuxkeyboard.h'],[('system call results','InputSource::WaitKbHit, LinuxKeyboard::GetChar')])
p('C21','The line editor keeps buffer, cursor and screen consistent',
 "For every key and every content and cursor position, the edited line and the cursor change exactly as the key says (insert, delete before or under the cursor, move within the line, replace the line), the cursor stays within the line, and what is sent to the terminal leaves it displaying exactly the new line with the terminal cursor at the new position. Enter hands over exactly the edited line and starts an empty one.",
 ['inputs','histories'],'every line, every cursor position and every key',
 'There is no test of the line editor; the effect depends on the unbounded pair (line, position).',[D+'terminal.h'],[('editing','Terminal::Keypressed, Terminal::SetLine')],state=[('currentLine, position','edited line and cursor','Terminal')])
p('C22','Special keys act on the session without losing the line',
 "Enter deactivates the input, feeds the edited line once, shows the prompt and activates the input again, in this order; end of input exits the session; up and down replace the line by what the history yields for it. Tab replaces the line by the only completion followed by a blank, or by the longest common prefix of the completions when that is longer than the line, and otherwise lists the completions; whatever Tab or clear-screen redraw, the edited line is shown again after the prompt, unchanged.",
 ['inputs','histories'],'every line, every set of completions, every key',
 'There is no test of the command processor.',[D+'commandprocessor.h',D+'commonprefix.h'],[('key actions','CommandProcessor::NewCommand'),('prefix','CommonPrefix')])
p('C23','Completion offers exactly the commands that continue the line',
 "The completions of a line, leading blanks ignored, are collected from the session-wide commands, the current menu and its enclosing menus; a command is offered exactly when its name starts with the line, and a menu named (or reached by the parent shortcut) at the start of the line offers its own name, or the shortcut, followed by a blank and the completions of the rest. The result is sorted and free of duplicates.",
 ['inputs','programs'],'every line and every menu tree',
 'Tests check a few completions in one tree.',[CLI],[('completion','Menu::GetCompletions, Menu::GetCompletionRecursive*, CliSession::GetCompletions')])
p('C24','The telnet protocol never leaks into the command line',
 "Received bytes are decoded by one state machine that is independent of how the bytes are split into packets: a doubled escape byte is the data byte 255, any other byte after an escape byte is a command, the byte after a WILL, WONT, DO or DONT is its option and nothing more, the data bytes of a subnegotiation are discarded until it ends, and all other bytes are data delivered exactly once in order. A response is sent only to WILL and DO and is one complete three-byte command about the option requested.",
 ['inputs'],'every byte sequence and every packetisation',
 'There is no test of the telnet decoder.',[D+'genericasioremotecli.h'],[('decoder','TelnetSession::Consume, Data, Command')])
p('C25','Key sequences mean the same on every input device',
 "The local keyboard and the telnet session map byte sequences to keys by tables that agree: the control characters for end of input (4 or 255), backspace (8 or 127) and clear screen (12), and the escape sequences ESC [ followed by A B C D F H or 3 ~ for up, down, right, left, end, home and delete; no other sequence is taken for one of these keys. Enter is byte 10 on the keyboard and byte 13 followed by 0 or 10 on telnet; any other byte outside an escape sequence is delivered unchanged as one ordinary key, and every sequence yields exactly one key and leaves the decoder in its initial state.",
 ['inputs'],'every byte sequence on every device',
 'There is no test of either decoder.',[D+'linuxkeyboard.h',D+'genericasioremotecli.h'],[('decoders','LinuxKeyboard::Get, CliTelnetSession::Output')])
p('C26','Everything a telnet session prints is encoded and sent completely',
 "Whatever is written to the stream of a connection, by blocks or character by character, is sent on the connection once, completely and in order, a telnet session sending a carriage return before every newline and leaving every other byte unchanged. The stream reports the data as written.",
 ['inputs'],'every output and every way the stream library splits it',
 'There is no test of the encoder.',[D+'server.h',D+'genericasioremotecli.h'],[('stream buffer','Session::xsputn, Session::overflow'),('encoder','TelnetSession::Encode')])
p('C27','No deferred callback touches a destroyed object',
 "A callback handed over for later execution (a task posted to the scheduler, the completion of an asynchronous operation) either keeps the object it uses alive or checks that it still exists before using it, and captures nothing of the enclosing function by reference.",
 ['schedules','histories'],'every order of destruction, completion and task execution',
 'Use after destruction needs a destruction between submission and execution.',[D+'inputdevice.h',D+'server.h',D+'genericcliasyncsession.h',D+'genericasioremotecli.h',CLI,D+'commandprocessor.h'],[('ownership in callbacks','lambdas passed to Post, async_*, Register, Insert, ExitAction')])
p('C28','A server serves every connection and survives every network error',
 "After each accepted or failed connection the server starts exactly one new accept; a session is created and started exactly once per accepted connection and none for a failed one. A session starts exactly one new read after each successful read, having consumed exactly the bytes received, and none after an error; network errors while reading, writing or closing never throw out of the library.",
 ['fault_sequences','schedules'],'every sequence of connection results and network errors',
 'Tests open no connection.',[D+'server.h',D+'genericcliasyncsession.h',D+'genericasioremotecli.h'],[('accept loop','Server::Accept'),('read loop','Session::Read, GenericCliAsyncSession::Read')])
p('C29','Output goes to the right sessions only',
 "Everything a session prints in response to a line or a key is printed on the stream the session was created with, and that is the stream handed to handlers and actions. The global output stream writes everything, by blocks or character by character, exactly once to every existing session and to no other: a session joins it when created and leaves it exactly once when destroyed, even when several sessions share a stream.",
 ['histories','programs'],'every set of sessions created and destroyed in any order',
 'Tests use one session per stream.',[CLI],[('global stream','OutStream, CliSession::CliSession, CliSession::~CliSession')])
p('C30','Colours never leak beyond the prompt or the input',
 "Every colour or style that the library switches on for the prompt or for the echoed input is switched off again in the same operation, after the text and on every path; when colours are disabled no colour is switched on.",
 ['inputs','configurations'],'every key, every prompt, colours on or off',
 'No test looks at escape sequences.',[I+'colorprofile.h',CLI,D+'terminal.h'],[('bracketing','beforePrompt/afterPrompt, beforeInput/afterInput')])
p('C31','The asio scheduler manages exactly what it owns',
 "A scheduler created without a context creates one, keeps it running while there is no work, and destroys it exactly once, after everything that uses it; a scheduler created on an application's context never destroys it. Stopping always stops the context; running, polling and stopped-state queries refer to that same context.",
 ['programs','histories'],'both construction modes and every order of operations',
 'Tests do not observe ownership.',[D+'genericasioscheduler.h',D+'newboostasiolib.h',D+'newstandaloneasiolib.h'],[('ownership','GenericAsioScheduler')])
p('C32','Every public header can be used alone and from many translation units',
 "Each public header of the library compiles when included alone and together with the others (of the same asio flavour) in any order, under every supported language standard (C++14 and later), and everything it defines may be included in several translation units of one program without conflicting definitions. No header opens a namespace for the includer.",
 ['programs','configurations'],'every header, every supported standard, every set of translation units',
 'The tests include a few headers in a fixed order with one standard.',[I+'*.h',D+'*.h'],[('header-only discipline','inline/template definitions, include guards')])
p('C33','Optional callbacks may be left unset',
 "Every callback the application may register (enter and exit actions of application, session and server, exception and wrong-command handlers, key handlers, tasks posted to the loop scheduler) may be left unset or set to an empty function: the library then falls back to its documented default instead of calling it. A callback that is set is the one that is called.",
 ['programs','configurations'],'every subset of callbacks set, unset or empty',
 'Tests set the callbacks they use.',[CLI,I+'loopscheduler.h',D+'inputdevice.h',D+'genericasioremotecli.h'],[('guards','Cli::*Handler, CliSession::Enter/Exit, LoopScheduler::ExecOne')])
p('C34','Help lists exactly what can be typed',
 "The help of a session lists, on its stream and each exactly once, the session-wide commands, then the commands of the current menu in insertion order, then the enclosing menu; each entry shows the name, the declared parameter names (or, when none are declared, the parameter types in order) and the description.",
 ['programs'],'every menu tree and every signature',
 'Tests do not check the help text.',[CLI],[('help','CliSession::Help, Menu::MainHelp, *::Help, PrintDesc')])
p('C35','A stored history survives a crash of the process',
 "If the process or the machine stops while a session stores its commands, the history file afterwards contains either the old or the new commands, never a truncated mixture.",
 ['crash_points'],'every point at which the process or machine can stop','No test stops the process.',[I+'filehistorystorage.h'],[('rewrite in place','FileHistoryStorage::Store')])
p('C36','Decimal floating point parameters are converted to the nearest value',
 "The value passed to a handler for a floating point parameter is the representable number nearest to the decimal number typed.",
 ['inputs'],'every decimal token','Tests sample a few numbers.',[D+'fromstring.h'],[('conversion','from_string<double>')])
p('C37','A posted task runs promptly while the scheduler is running',
 "While a thread runs the scheduler and no other task is blocking, a posted task is started within bounded time.",
 ['schedules'],'every schedule of the operating system','Timing depends on the schedule.',[I+'loopscheduler.h',D+'genericasioscheduler.h'],[('wake-up','LoopScheduler::Post')])
p('C38','Global output and session changes may happen on different threads',
 "Writing to the global output stream on one thread while sessions are created, destroyed or printing on others is free of data races.",
 ['schedules'],'every interleaving','Races depend on the interleaving.',[CLI],[('global stream','OutStream')])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
