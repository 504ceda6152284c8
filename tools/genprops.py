"""Writes properties.jsonl (kept as a script because the JSON lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
      why_tests_cant=why, anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
      mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p('F01', 'A debug statement writes exactly the documented line',
  "A completed debug statement writes, to the debug object's stream, exactly: color-on, margin, label padded to the longest channel label, marker, indentation, the text (all bytes of it), with an error channel flag the text ': ENAME (description)' for the errno at the statement's start, color-off and one newline. "
  "The control flags noprefix, nolabel, nonewline, error, and the blank_margin/label/marker flags remove or blank exactly the part they name, in every combination, and no other part. "
  "This holds for every margin, marker, indentation, color string, label, text length and errno value.",
  'inputs configurations', 'all sets of control flags, margins, markers, indents, color codes, labels, errno values and texts (empty, long, binary)',
  'The tests compare a handful of fixed lines; flag combinations, long or binary texts and odd margins or indents are never combined.',
  'src/debug.cxx include/libcwd/control_flag.h include/libcwd/DebugString.h include/libcwd/DebugObject_ThreadSpecificData.h',
  [('line prefix assembly', 'src/debug.cxx write_prefix_to'), ('line completion', 'src/debug.cxx DebugObject_ThreadSpecificData::finish')],
  ['bytes received by the std::ostream of the debug object'])
p('F02', 'Continued and nested debug statements lose, repeat and reorder nothing',
  "Within one thread, for every well-formed history of continued, nested and finishing debug statements, the output equals that of the documented model: a continued line is completed on one line when nothing interrupts it. "
  "When another statement interrupts it, the part written so far is closed with '<unfinished>' and the rest is resumed on a line of its own behind the same prefix and '<continued>', nested statements being indented four further. "
  "Every piece of text appears exactly once and in order, and the margin and indentation are back at their old values after each statement.",
  'histories inputs', 'all well-formed histories (continued lines properly nested, also with Mark objects) of continued/finish/plain/nested statements with flush, cerr, error flags and channel switches in between',
  'The tests run one or two scripted continuations; the interleavings of nesting, flushes, switched-off channels and repeated interruption are unbounded.',
  'src/debug.cxx include/libcwd/ContinuedChannel.inl.h include/libcwd/ChannelSet.inl.h include/private_DebugStack.inl.h',
  [('start/finish state machine', 'src/debug.cxx DebugObject_ThreadSpecificData::start, finish'), ('buffer writeout', 'src/debug.cxx BufferStream::writeto')],
  ['bytes received by the std::ostream of the debug object'])
p('F03', 'Margin, marker, indent and color strings behave as values and stacks',
  "The margin and marker of a debug object behave as byte strings: assign, append, prepend and reserve give exactly the bytes of the corresponding string operations, for all lengths and contents including embedded NULs, and push/pop behave as a stack of such strings. "
  "The indent and color setters read back what was set, and a pop without a push is reported as a fatal core error, not undefined behaviour.",
  'inputs histories', 'all sequences of assign/append/prepend/reserve/push/pop on margin and marker, with strings of any length and content',
  'No test performs more than a few such calls; growth across the capacity steps, binary strings and deep stacks are untouched.',
  'include/libcwd/DebugString.h include/libcwd/DebugString.inl.h src/debug.cxx include/libcwd/DebugObject.inl.h',
  [('DebugString', 'include/libcwd/DebugString.inl.h'), ('push/pop', 'src/debug.cxx DebugObject::push_margin .. pop_marker')],
  ['c_str(), size() and the prefix of the next debug line'])
p('C01', 'Output and argument evaluation happen exactly when switched on',
  "The arguments of a debug statement are evaluated and its line written exactly once if the debug object is on and at least one channel of its channel set is on in the calling thread (the label being that of the first such channel), and otherwise nothing is evaluated or written. "
  "On and off calls of objects and channels nest as counters: n offs are undone by n ons, force_on shows output regardless and restore puts back exactly the state before it. "
  "The later parts of a continued statement follow the on/off state its channels had where it began, whatever happened to the channels since.",
  'histories configurations', 'all histories of on/off/force_on/restore calls and statements over any channel sets, including operator| and conditional channels',
  'Tests toggle a channel once or twice; counter nesting, and sets of several channels with mixed states, need histories.',
  'src/debug.cxx include/libcwd/Channel.h include/libcwd/Channel.inl.h include/libcwd/ChannelSet.h include/libcwd/ChannelSet.inl.h include/libcwd/DebugObject.inl.h include/libcwd/macro_Libcwd_macros.h',
  [('off counters', 'include/libcwd/DebugObject.inl.h, include/libcwd/Channel.inl.h'), ('channel set selection', 'include/libcwd/ChannelSet.inl.h')],
  ['evaluation counters in the arguments; bytes on the stream; is_on()'])
p('C02', 'The channel registry is complete, ordered and consistently padded',
  "Every debug channel created, at start-up or at run time and from any thread, is visited exactly once by ForAllDebugChannels and in label order in list_channels_on, with its correct on/off state for the calling thread. "
  "Looking up a channel by name is case-insensitive and accepts a prefix, and a channel's label is padded to the longest label registered so far wherever it is printed. "
  "Two channels never share on/off state.",
  'programs histories', 'all sets of channel labels and orders of creation, before and after main starts and in any thread',
  'The tests define a few fixed channels; label sets with prefixes, case differences, extreme lengths and creation orders are not covered.',
  'src/debug.cxx include/libcwd/Channel.h include/libcwd/LibcwdForAllDebugChannels.h include/libcwd/max_label_len.h',
  [('registration', 'src/debug.cxx Channel::NS_initialize'), ('lookup', 'src/debug.cxx find_channel'), ('listing', 'src/debug.cxx list_channels_on')],
  ['list_channels_on output, find_channel result, ForAllDebugChannels visits'])
p('T01', 'Lines of concurrent threads are atomic, complete and in thread order',
  "When several threads write through one debug object whose stream has a mutex, every line arrives in the stream exactly once and contiguous, in program order per thread, whatever the schedule. "
  "The stream is only written while that mutex is held, the mutex is released after every statement, and no data race occurs.",
  'schedules programs', 'all schedules of any number of threads using the same or different debug objects, with plain, continued, nested and long lines',
  'The tests run two or more threads on one schedule and inspect nothing about interleaving or races.',
  'src/debug.cxx include/libcwd/set_ostream.inl.h include/libcwd/private/LockInterface.h include/libcwd/DebugObject.h src/threading.cxx',
  [('ostream lock interface', 'include/libcwd/private/LockInterface.h'), ('locked writeout', 'src/debug.cxx BufferStream::writeto')],
  ['writes observed by an instrumented streambuf together with the mutex state; ThreadSanitizer'])
p('T02', 'Debug state is private to each thread',
  "On/off state of objects and channels, margin, marker, indent, colors, location format and continued lines of one thread are never changed by, nor visible in, another thread's statements, whatever the schedule. "
  "A new thread starts with debug objects and channels off, default margin and marker and no indent.",
  'schedules histories', 'all interleavings of state changes and statements of any number of threads, including many short-lived threads reusing slots',
  'No test gives threads different state and compares each thread with what it would print alone.',
  'src/debug.cxx include/libcwd/DebugObject.inl.h include/libcwd/DebugObject_ThreadSpecificData.h include/libcwd/private/ThreadSpecificData.h src/threading.cxx',
  [('per-thread data', 'src/debug.cxx, src/threading.cxx')],
  ['output of each thread compared with a single-threaded run of its own history'])
p('T03', 'Thread creation and exit neither leak, corrupt nor race debug state',
  "Threads may be created and may exit in any number and order while others write debug output: no debug state is used after it is freed, freed twice, leaked or raced on. "
  "A thread that exits releases all debug state it created, and the main thread can write debug output until the process has ended.",
  'schedules histories', 'all orders of thread creation, debug use and exit',
  'Tests start a few threads once; leak and use-after-free defects depend on exit order and repetition.',
  'src/threading.cxx src/debug.cxx include/libcwd/private/ThreadSpecificData.h include/libcwd/threads_created.h',
  [('thread specific data cleanup', 'src/threading.cxx, src/debug.cxx')],
  ['AddressSanitizer/LeakSanitizer, ThreadSanitizer, live allocation counts per thread generation'])
p('T04', 'Incomplete lines of threads sharing a stream are closed and resumed',
  "When a thread leaves a line without a newline (a flushed continued line or a nonewline statement) and another thread writes to the same stream, the open line is closed with '<unfinished>' or '<no newline>' first, and the interrupted thread resumes its continued line behind its own prefix and '<continued>'. "
  "For every sequential order of such statements no line contains output of two threads and no text is lost or repeated.",
  'histories schedules', 'all orders of statements of two or more threads on one stream, with and without flush, nonewline and color strings',
  'No test has two threads leaving lines open on the same stream.',
  'src/debug.cxx include/libcwd/DebugObject.h',
  [('newline bookkeeping per stream', 'src/debug.cxx BufferStream::writeto')],
  ['bytes received by the shared stream under a controlled schedule'])
p('O01', 'Replacing the output stream or its lock is safe at any moment',
  "set_ostream takes effect for every statement that starts after it returns, every line goes as a whole to exactly one of the old and the new stream, and each stream is only ever written under the lock that was set together with it, whatever other threads are writing at that moment. "
  "After the calls return the old stream and its lock are no longer used and every lock is left unlocked.",
  'schedules histories', 'all schedules of set_ostream calls against concurrent writers and all sequences of streams and lock types',
  'The tests call set_ostream once, before threads exist.',
  'include/libcwd/set_ostream.inl.h include/libcwd/private/LockInterface.h src/debug.cxx',
  [('stream swap', 'include/libcwd/set_ostream.inl.h, src/debug.cxx DebugObject::private_set_ostream')],
  ['instrumented streams and mutexes; ThreadSanitizer'])
p('E01', 'Fatal and core channels always deliver their message and end the process',
  "DoutFatal always writes its complete message, even when the debug object or channel is off or the output is in the middle of a continued line, and then ends the process: dc::core by SIGABRT, dc::fatal by exit status 180 and without returning, whatever the other threads do. "
  "When several threads are fatal at once, exactly one takes the process down and the others never continue past their statement, and no non-fatal statement ends the process.",
  'schedules histories', 'all program points at which DoutFatal is reached, nesting inside other statements, and concurrent fatal threads',
  'One test makes threads abort at once and only checks that it ends; message delivery, exit status and nesting are not judged.',
  'src/debug.cxx include/libcwd/FatalChannel.h include/libcwd/FatalChannel.inl.h include/libcwd/macro_Libcwd_macros.h include/libcwd/core_dump.h',
  [('fatal claim and exit', 'src/debug.cxx finish, core_dump')],
  ['exit status, stream contents and markers after the statement'])
p('E02', 'Misuse is reported, and reported as documented, not silently corrupted',
  "dc::finish or dc::continued without a matching continued statement (or in the arguments of a part of that statement), popping an empty margin or marker stack, a label longer than the limit, more channels or debug objects than the limit, turning on a channel that is on by its own on() surplus, or nesting beyond the limit, ends in the library's own diagnosed fatal or core message and never in memory corruption, deadlock or silent loss of later output.",
  'histories programs', 'all histories that violate the calling conventions of the debug macros',
  'Tests only follow the conventions.',
  'src/debug.cxx include/private_DebugStack.inl.h include/libcwd/ContinuedChannel.inl.h include/libcwd/private/LockInterface.h',
  [('misuse diagnostics', 'src/debug.cxx start, finish; include/private_DebugStack.inl.h')],
  ['exit status, message and sanitizer reports of a child process'])
p('R01', 'The rcfile is interpreted exactly as documented, or refused',
  "For every rcfile content, reading it leaves each channel and debug object on or off exactly as the documented grammar says: comments, masks separated by commas and blanks, case-insensitive labels and masks, channels_default before channels_toggle, channels_on/off/toggle applied in order, the last of gdb and xterm. "
  "A line without '=', an invalid value for channels_default, channels_toggle before channels_default, or a missing rcfile ends in a fatal message with exit status 180, never in a crash or a silently different configuration; an unknown keyword is warned about and ignored. "
  "The environment variables that name the rcfile and its override select the file as documented, override settings are applied after the normal ones, and a missing override file is ignored.",
  'inputs configurations', 'all rcfile and override contents, file names, and environment settings',
  'The tests read one fixed valid rcfile.',
  'src/debug.cxx include/libcwd/RcFile.h libcwdrc src/environ.cxx include/Environment.h',
  [('rcfile parser', 'src/debug.cxx RcFile'), ('environment', 'src/environ.cxx')],
  ['channel states after read(), exit status and message'])
p('M01', 'Glob masks match exactly the names the glob language describes',
  "Matching a mask against a name returns true exactly if the name belongs to the language of the mask, where '*' stands for any sequence of characters, and case is ignored as documented. "
  "Only the given mask and name bytes are read, for all masks and names including empty ones and runs of stars.",
  'inputs', 'all pairs of mask and name over any characters and lengths',
  'No test calls the matcher directly; the rcfile used in tests has one trivial mask.',
  'src/utils/match.cxx include/match.h', [('match', 'src/utils/match.cxx')], ['return value; AddressSanitizer on exact-size buffers'])
p('P01', 'Printing characters and buffers is faithful, printable and reversible',
  "char2str and buf2str print every byte as itself if it is printable and as its C escape or octal escape otherwise, so that the output contains only printable characters and the original bytes can be recovered from it. "
  "Exactly the given number of bytes is printed, whatever they are, and the stream's formatting state is left unchanged.",
  'inputs', 'all byte values and buffers of any length, on streams with any formatting flags and locale',
  'No test covers these printers.',
  'src/utils/char2str.cxx src/utils/buf2str.cxx include/libcwd/char2str.h include/libcwd/buf2str.h', [('escape printing', 'src/utils/char2str.cxx')], ['bytes written to the stream'])
p('P02', 'Error numbers translate to their symbolic names',
  "For every integer, the error-name lookup returns the symbolic name that the platform gives to that errno value, and a fixed 'unknown' string for values that are not errno values, never reading outside its table. "
  "The lookup and the debug statements do not change errno in a way that makes an error statement report another error than the one current at its start.",
  'inputs', 'all unsigned values',
  'No test enumerates the table.',
  'src/strerrno.cxx include/libcwd/strerrno.h src/debug.cxx', [('table lookup', 'src/strerrno.cxx')], ['returned string against strerrorname_np()'])
p('D01', 'Demangling yields the same declaration as the platform demangler',
  "For every mangled name or type in the supported grammar, demangle_symbol and demangle_type produce the C++ declaration that the platform ABI demangler gives, up to white space and the spelling of literals and standard substitutions: same names, nesting, qualifiers, pointer, reference, array, function and template structure. "
  "Results are appended to the output string, depend on nothing but the input, and are the same from any thread and any number of earlier calls.",
  'inputs histories', 'all symbols of the Itanium ABI grammar this demangler supports, as produced by compilers and as generated from the grammar',
  'The demangler test compares a fixed list of names.',
  'src/demangle.cxx include/cwd_demangle.h include/libcwd/demangle.h', [('recursive descent demangler', 'include/cwd_demangle.h session'), ('entry points', 'src/demangle.cxx')], ['output strings against abi::__cxa_demangle'])
p('D02', 'Demangling any string is memory safe, terminating and total',
  "For every input string, however malformed, the demangling functions terminate in bounded time and memory, read only the string, have no undefined behaviour, leak nothing, and append either a demangled form or the input itself unchanged.",
  'inputs', 'all NUL-terminated byte strings, in particular truncated, mutated and adversarial mangled names',
  'The tests contain only well-formed names.',
  'include/cwd_demangle.h src/demangle.cxx', [('input bounds and failure propagation', 'include/cwd_demangle.h')], ['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer; output on failure'])
p('I01', 'type_info_of reports the true name and sizes of every type',
  "For every type or expression, type_info_of gives the demangled name of exactly that type, its sizeof, and for pointers the sizeof of what is pointed to, with the right top-level qualifiers. "
  "Equal types give one and the same object whose values never change, also when first used by several threads at once, before main, or across dynamically loaded libraries.",
  'programs schedules', 'all types and expressions, first uses from any thread and at any time',
  'The test checks a few types on one thread.',
  'include/libcwd/type_info.h src/type_info.cxx', [('lazy initialisation', 'include/libcwd/type_info.h'), ('name adjustment', 'src/type_info.cxx')], ['name(), demangled_name(), size(), ref_size(); ThreadSanitizer'])
p('L01', 'lockable_auto_ptr deletes its object exactly once, by its one owner',
  "For every history of constructing, copying, assigning, releasing, locking and destroying lockable_auto_ptr objects, at most one is owner of an object, ownership moves as documented (not when locked), and the object is deleted exactly once when its owner goes, with delete or delete[] as declared. "
  "A pointer that lost or never had ownership deletes nothing, and get() keeps pointing at the object.",
  'histories', 'all histories over any number of pointers, including self-assignment, strict ownership and array form',
  'The test walks one fixed sequence.',
  'include/libcwd/lockable_auto_ptr.h', [('ownership transfer', 'include/libcwd/lockable_auto_ptr.h')], ['construction/destruction counts, is_owner(), get()'])
p('L02', 'A reference counted object is deleted exactly once, by its last reference',
  "An object derived from AIRefCount lives exactly as long as at least one reference or inhibition of its deletion exists, whichever thread drops the last one; its destructor runs once and sees everything that every thread did before it dropped its reference. "
  "The counts that the functions return are exact, a deferred deletion is left to exactly one caller, and copying or assigning objects does not copy counts.",
  'histories schedules', 'all histories of references and inhibitions, from any number of threads',
  'No test uses it.',
  'include/utils/AIRefCount.h', [('reference count', 'include/utils/AIRefCount.h')], ['destructions, returned counts, data races reported by ThreadSanitizer'])
p('S01', 'Overlapping symbol ranges are resolved to the right symbol at every address',
  "After inserting any sequence of symbol address ranges, every address covered by at least one of them maps to a range that contains it and that has the documented precedence (debug-info ranges over ELF ranges, then the smaller), and an address covered by none maps to nothing. "
  "The stored ranges never overlap.",
  'histories inputs', 'all sequences of inserted ranges, with any overlap, sizes, sources and extreme addresses',
  'The test inserts a few fixed configurations.',
  'include/dwarf_symbol_ranges.h src/dwarf.cxx', [('range splitting', 'include/dwarf_symbol_ranges.h')], ['lookup at every boundary address against a brute-force model'])
p('A01', 'Locations name the true file, line, function and object of an address',
  "For every code address in the executable or a loaded shared library with debug information, a Location reports the source file, line, mangled function name and object file of that address, and is explicitly 'unknown' when there is none. "
  "The answer does not depend on the order or number of earlier lookups, on caching, on the current working directory or on the thread that asks, and a lookup leaves errno alone.",
  'inputs programs histories', 'all code addresses of executables and libraries (C and C++, inlined, templates, static functions) and all lookup orders',
  'The tests query a few marked lines once each.',
  'src/dwarf.cxx src/location.cxx include/libcwd/Location.h include/libcwd/Location.inl.h include/libcwd/ObjectFileName.h', [('DWARF line and symbol lookup', 'src/dwarf.cxx'), ('pc to location', 'src/location.cxx')], ['Location accessors against addr2line/elfutils and known labels'])
p('A02', 'Location objects are safe values',
  "Copies, assignments (including self-assignment), clear and re-lookup of Location objects in any order compare, test and print the same as the original and leave the original valid, and nothing is leaked, freed twice or read uninitialised. "
  "(As documented, copies share the path, which one of them owns unless its ownership is locked: reading a copy after the owner was changed or destroyed is not allowed.) "
  "Printing honours exactly the requested format parts and never fails on unknown locations.",
  'histories', 'all histories of construct, copy, assign, clear, pc_location, move into containers, and printing, for known and unknown addresses',
  'Tests print locations but do not exercise copy and clear histories.',
  'include/libcwd/Location.h include/libcwd/Location.inl.h src/location.cxx', [('value semantics', 'src/location.cxx')], ['AddressSanitizer; equality and printed text'])
p('A03', 'Concurrent location lookups are race free and agree with sequential ones',
  "Any number of threads may look up locations, load and unload libraries and write debug output at once: each lookup returns what it returns when made alone, and there is no data race, deadlock or use of unloaded debug information.",
  'schedules', 'all schedules of lookups, dlopen/dlclose and debug output',
  'No test looks up locations from several threads.',
  'src/dwarf.cxx src/location.cxx', [('object file list lock, libdw lock, symbol loading', 'src/dwarf.cxx')], ['ThreadSanitizer; answers compared with a sequential table'])
p('X01', 'Dynamically loaded libraries are tracked across every dlopen/dlclose history',
  "dlopen and dlclose of a path keep their normal return values and effects, and after any history of them a Location in a library that is currently loaded resolves to that library, "
  "for nested, repeated, failed and RTLD_NOLOAD opens and for the dependencies of what was opened alike, while an address in what was unloaded is unknown. "
  "A library whose last reference was closed can be replaced and opened again, at another address, and resolves correctly.",
  'histories configurations', 'all histories of dlopen/dlclose of several libraries with any flags, directly and from library constructors',
  'One test opens and closes one library.',
  'src/dwarf.cxx', [('dlopen/dlclose wrappers', 'src/dwarf.cxx')], ['return values, Location of a symbol in the library, loading messages'])
p('N01', 'Without debugging the macros vanish but fatal statements still act',
  "Compiled without CWDEBUG, debug macros evaluate nothing, need no library and still compile in every statement context; DoutFatal still prints its message and ends the process as documented. "
  "With CWDEBUG they behave as single statements in every statement context: if/else, loops, switch, expressions in arguments containing commas, and inside templates.",
  'programs configurations', 'all statement contexts and macro argument shapes, in both configurations',
  'One test compares one program.',
  'nodebug.h debug.h include/libcwd/macro_Libcwd_macros.h include/libcwd/debug.h', [('macro definitions', 'nodebug.h, include/libcwd/macro_Libcwd_macros.h')], ['behaviour and linkage of compiled programs'])
p('N02', 'Debug output works from static constructors to static destructors',
  "Debug statements, channel and object definitions, and type_info_of may be used from constructors and destructors of global objects in any translation unit order, in shared libraries, and before and after main: no crash, no uninitialised read, and objects and channels that are on produce their complete lines.",
  'programs', 'all link orders of translation units with static constructors and destructors that use debug facilities',
  'One location test uses one global object.',
  'src/debug.cxx src/init_functions.cxx include/libcwd/init_functions.h include/libcwd/DebugObject.h', [('NS_initialize on first use', 'src/debug.cxx, src/init_functions.cxx')], ['output and sanitizer reports of generated programs'])
p('N03', 'A program compiled against a different library configuration is refused',
  "When the configuration or version with which the program was compiled differs from that of the library, starting the debug facilities ends in a fatal message naming the mismatch, and with an equal configuration it never does.",
  'configurations', 'all combinations of the configuration switches and versions of header and library',
  'The tests always use matching headers.',
  'include/libcwd/debug.h src/debug.cxx include/libcwd/config.h.in src/init_functions.cxx include/libcwd/init_functions.h', [('conf_check/version_check', 'include/libcwd/debug.h, src/debug.cxx')], ['exit status and message'])
p('N04', "Macros find the library's or program's own debug channels",
  "Every library and program that follows the manual (debug channels in a namespace of its own, macros of its own built from the Libcwd* macros, own debug.h, own debug objects) finds in each debug statement the channel that the documented lookup gives: its own first, which hides those it uses, also in inline functions and templates compiled as part of another program. "
  "Channels with equal names do not interfere, the output goes to the named debug object, and without CWDEBUG the same sources build without libcwd.",
  'programs', 'all dependency graphs of libraries with any channel and namespace names, used from any enclosing namespace',
  'No test uses more than one channel namespace.',
  'include/libcwd/macro_Libcwd_macros.h include/libcwd/libraries_debug.h include/libcwd/debug.h include/libcwd/cwds_debug.h include/libcwd/LibcwdForAllDebugChannels.h include/libcwd/LibcwdForAllDebugObjects.h nodebug.h', [('channel lookup of the macros', 'include/libcwd/macro_Libcwd_macros.h')], ['output of generated projects'])
p('I02', 'Thread set-up gives each thread the documented margin and channel state',
  "After the thread initialisation call a thread has its own id margin, and its debug object and exactly the channels that the chosen inheritance mode names are on, for any number of threads started in any order and in any mode; a thread's later changes stay its own. "
  "The initialisation of the main program turns on and lists what the rcfile and the caller asked for.",
  'schedules histories configurations', 'all numbers and orders of threads, inheritance modes, thread names and channel settings of the main thread, with channels created before and after',
  'One test starts a few threads in one mode.',
  'src/init_functions.cxx include/libcwd/init_functions.h src/debug.cxx', [('thread init', 'src/init_functions.cxx')], ['channel states, margin and output of each thread'])
p('G01', 'attach_gdb waits until the debugger is attached and changes nothing else',
  "attach_gdb() runs the configured terminal and debugger commands for this process with a command file that breaks right after the call, and returns only after the debugger attached; then the program, its other threads and the state of debug output go on as before, for any number of calls. "
  "When the commands are not configured, are too long or fail, the program ends with a fatal message that names the cause (and the exit code of the command), and nothing too long is ever executed.",
  'configurations schedules', 'all configured commands of any length, ways and delays of attaching or failing, debug states and threads',
  'No test calls attach_gdb, which needs a terminal and a debugger.',
  'src/utils/attach_gdb.cxx include/libcwd/attach_gdb.h', [('attach_gdb', 'src/utils/attach_gdb.cxx')], ['arguments and command file seen by a stand-in for gdb, exit status, output'])
p('G02', 'Start-up messages, loading trace and core limit follow the environment',
  "With LIBCWD_NO_STARTUP_MSGS libcwd prints nothing before main; otherwise, with LIBCWD_PRINT_LOADING, every object file that is mapped or unmapped, at start-up and by dlopen and dlclose, is traced exactly once with its load base and segments whatever is on, and without it only while debugging and the channel are on. "
  "None of this changes what is on or off, and the soft limit of the core size becomes the hard limit, with a warning only when that is neither zero nor unlimited.",
  'configurations histories', 'all settings of both variables, limits, sets of object files and histories of dlopen, dlclose, on and off',
  'The tests set none of these variables.',
  'src/dwarf.cxx src/debug.cxx src/init_functions.cxx', [('ST_init, load_object_file tracing', 'src/dwarf.cxx'), ('NS_init core limit', 'src/debug.cxx')], ['stderr against the dynamic loader\'s list; getrlimit'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
