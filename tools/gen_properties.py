#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

p('C01', 'Debug statements are written completely, once, in order, well formatted',
  'Every debug statement that is switched on appears in the output exactly once, as the concatenation of color-on, margin, the label padded to the common width, marker, indentation, data, optional ": ENAME (text)" of the errno at the start of the statement, color-off and newline, where every control flag changes exactly the part it documents. '
  'A statement executed while another one is still being put together (by a function called from its data) is written first, completely, indented by 4 more spaces per nesting level, and the text of the outer statement is neither lost nor duplicated. '
  'Statements of one thread reach the stream in the order in which they finish.',
  ['inputs', 'histories'], 'All sequences of nested statements, with any combination of control flags, margins, markers, colors and indentation.',
  'The tests check a few fixed outputs; the prefix is a product of 6 flags x nesting x attributes and the nesting/continuation state is carried over an unbounded history.',
  ['src/debug.cxx', 'include/libcwd/macro_Libcwd_macros.h', 'include/libcwd/ChannelSet.h', 'include/libcwd/control_flag.h'],
  [('start/finish of one statement', 'src/debug.cxx: DebugObject_ThreadSpecificData::start/finish'), ('the macro that brackets the data', 'include/libcwd/macro_Libcwd_macros.h')],
  [('stack of unfinished statements', 'statements being put together by this thread', 'DebugObject_ThreadSpecificData.h')], ['the std::ostream given to set_ostream()'])
p('C02', 'Continued debug output resumes correctly after any interruption',
  'Output started with continued_cf is extended by the dc::continued and dc::finish statements that follow it on the same thread and debug object, and when all pieces are uninterrupted they form one line. '
  'When another statement of the same thread is written in between, the open line is closed with "<unfinished>" and continues later on a line that repeats its prefix followed by "<continued> ", such that removing these marks gives back every piece exactly once and in order. '
  'A continued statement that was switched off when it started stays silent until its own dc::finish, also when others are nested inside, and leaves the on/off state of the debug object as it was.',
  ['histories'], 'All properly matched sequences of continued_cf / dc::continued / dc::finish and ordinary statements, on and off, nested inside each other.',
  'continued.cpp exercises about ten fixed sequences; the state machine has unbounded nesting and on/off combinations.',
  ['src/debug.cxx', 'include/private_DebugStack.inl.h', 'include/libcwd/ContinuedChannel.h', 'include/libcwd/ChannelSet.h'],
  [('off count stack', 'src/debug.cxx: ChannelSet::operator|(continued_cf_nt), ChannelSetBootstrap::operator|(ContinuedChannel)'), ('<unfinished>/<continued> insertion', 'src/debug.cxx: start(), Buffer::writeto')],
  [('continued_stack', 'saved off counts', 'DebugObject_ThreadSpecificData.h')], ['the std::ostream given to set_ostream()'])
p('C03', 'A statement prints iff its debug object and one of its channels are on',
  'Output is produced, and the data of a statement is evaluated, if and only if the debug object is on in the calling thread and at least one of the listed channels is (dc::always always is); the label shown is that of the left-most listed channel that is on. '
  'off() and on() of debug objects and channels nest as counters: output returns when on() was called as often as off(), and force_on()/restore() put back exactly the state they found. '
  'Calling on() for a channel that is already on, or restore() in a different state than force_on() left, terminates the program instead of corrupting the state.',
  ['histories', 'inputs'], 'All sequences of on/off/force_on/restore on objects and channels, and all channel lists.',
  'Tests toggle one channel once or twice; the counters and channel lists are unbounded.',
  ['src/debug.cxx', 'include/libcwd/Channel.inl.h', 'include/libcwd/ChannelSet.inl.h', 'include/libcwd/DebugObject.inl.h', 'include/libcwd/AlwaysChannel.inl.h'],
  [('off counters', 'src/debug.cxx: Channel::on/off/force_on/restore; DebugObject::on/off/force_on/restore'), ('channel set operators', 'include/libcwd/ChannelSet.inl.h')],
  [('off counter of each channel and object, per thread', '-1 is on', 'ThreadSpecificData.h')], ['Channel::is_on(), the output, evaluation of the data'])
p('C04', 'Debug state is per thread and per debug object',
  'The on/off state of channels and debug objects, the margin, marker, colors, indentation, location format and unfinished statements belong to one thread (and one debug object): no action of a thread changes what another thread, or another debug object, prints. '
  'A new thread starts from the reset state (everything off, empty margin, marker ": ", no colors, no indentation), whatever earlier threads did, also when it reuses the resources of a thread that ended. '
  'Only the ostream, its lock and the always-flush count of a debug object are shared by all threads.',
  ['schedules', 'histories'], 'All interleavings of threads that start, change state, print and end, with several debug objects.',
  'Tests run a fixed pool of threads that all do the same thing and never compare state across threads.',
  ['src/threading.cxx', 'include/libcwd/private/ThreadSpecificData.h', 'include/libcwd/DebugObject_ThreadSpecificData.h', 'src/debug.cxx'],
  [('lazily created thread specific data', 'src/threading.cxx: ThreadSpecificData::instance'), ('initialisation of per-object data for a new thread', 'src/debug.cxx: debug_tsd_init')],
  [], ['margin()/marker()/get_indent()/is_on() in each thread and the output'])
p('C05', 'Concurrent debug output never mixes text of different threads',
  'When a lock was passed along with the ostream, everything libcwd does to the stream happens while the calling thread holds that lock, every acquired lock is released again, and the text of a statement reaches the stream in one piece. '
  'If a thread prints while another thread left a line open, the open line is terminated first: with "<unfinished>" when it is continued output (which later resumes on a line that repeats its prefix and "<continued> "), or with "<no newline>" when it was ended by nonewline_cf. '
  'No text of any thread is lost, duplicated or reordered with respect to other text of the same thread.',
  ['schedules'], 'All interleavings of writes of any number of threads with flushed continued output, nonewline output and plain lines.',
  'threaded_debug_output.cpp sees the interleavings the scheduler happens to produce.',
  ['src/debug.cxx', 'include/libcwd/DebugObject.inl.h', 'include/libcwd/set_ostream.inl.h'],
  [('one critical area per write', 'src/debug.cxx: Buffer::writeto'), ('lock and ostream are selected as a pair', 'include/libcwd/DebugObject.inl.h: OstreamState::get_locked_os')],
  [('newlineless_tsd_ / unfinished_oss_', 'who left the last line open', 'DebugObject.h')], ['a streambuf and a lock type of the harness passed to set_ostream()'])
p('C06', 'Switching the output destination is atomic and safe',
  'Each statement is written as a whole to one destination, under the lock that was installed together with that destination. '
  'After set_ostream() returns, no thread writes to the previous destination anymore nor uses the previous lock, so both can be destroyed; replacing only the ostream keeps the lock. '
  'Concurrent switching and printing never deadlocks and loses no output, and get_ostream()/has_mutex() report what was installed last.',
  ['schedules'], 'All interleavings of set_ostream() calls (with and without lock) and statements of several threads.',
  'No test calls set_ostream() while another thread is printing.',
  ['include/libcwd/DebugObject.inl.h', 'include/libcwd/set_ostream.inl.h', 'include/libcwd/private/LockInterface.h', 'src/debug.cxx'],
  [('waiting for writers of the old pair', 'include/libcwd/DebugObject.inl.h: OstreamState::replace_with/set_ostream')],
  [('real_os_ / mutex_', 'current destination and its lock', 'DebugObject.h')], ['lock(), unlock() and stream operations seen by a harness lock and streambuf'])
p('C07', 'Fatal output and detected misuse end the program once, after the message',
  'A DoutFatal statement writes and flushes its complete message, also when the debug object is off, and then never returns: dc::fatal ends the process with exit status 180 and dc::core with SIGABRT. '
  'When several threads do this at the same time exactly one of them ends the process while all others wait. '
  'Misuse that libcwd detects (dc::finish or dc::continued without continued_cf, popping an empty margin or marker stack, a channel label that is too long, endless recursion of statements) prints a diagnostic or aborts, promptly and without hanging, instead of continuing with corrupt state.',
  ['schedules', 'histories'], 'All threads racing into fatal statements, all states of the output machine at the moment of a fatal statement or a misuse, all lock types.',
  'concurrent_core_dump_threads.cpp runs one schedule; none of the misuse paths is tested.',
  ['src/debug.cxx', 'include/private_DebugStack.inl.h', 'include/libcwd/FatalChannel.h', 'include/libcwd/DebugObject.inl.h'],
  [('single owner of process termination', 'src/debug.cxx: claim_fatal_termination_ownership'), ('misuse diagnostics', 'src/debug.cxx: start(), print_pop_error, pop_margin, pop_marker')],
  [('fatal_termination_started', 'set by the first fatal path', 'src/debug.cxx')], ['exit status / signal of a child process and its output'])
p('C08', 'init() and init_thread() establish the documented thread state',
  'init() reads the rcfile, remembers which channels it turned on and turns the debug object on for the main thread. '
  'init_thread() turns on, in the calling thread, exactly the channels that were on after reading the rcfile (default), that are on in the main thread at that moment (copy mode, where output stays off if it is off in the main thread), or none together with debug output off (debug_off mode); it installs a lock when none was set and sets the margin to the thread name cut or padded to a fixed width of 16. '
  'This holds however often channels were toggled in the main thread and for any number of threads.',
  ['histories', 'configurations', 'schedules'], 'All rcfile channel states, later changes in the main thread, thread names and init modes.',
  'The tests only use the default mode with one rcfile.',
  ['src/init_functions.cxx', 'include/libcwd/init_functions.h', 'src/threading.cxx'],
  [('remembered rcfile state', 'src/init_functions.cxx: save_dc_states, is_on_in_rcfile'), ('init_thread', 'src/init_functions.cxx')],
  [], ['Channel::is_on(), margin and the output of each thread'])
p('C09', 'The rcfile turns channels on and off as documented',
  'After read_rcfile() each channel is on or off as determined by processing the lines in order: channels_default once per file (later ones are ignored with a warning), channels_on, channels_off and channels_toggle with case-insensitive labels and "*" wildcards, separated by commas or white space; # comments and empty lines have no effect, unknown keywords only warn (or go to an overriding handler), and syntax errors or channels_toggle before channels_default end the program. '
  'The file is looked up under $LIBCWD_RCFILE_NAME (default .libcwdrc) in the current directory, then the home directory, then the installed default; a file named by LIBCWD_RCFILE_OVERRIDE_NAME is processed after it, where its first channels_on or channels_off starts from a fresh state if it contradicts the default. '
  'The values of the gdb and xterm keywords are available verbatim afterwards.',
  ['inputs', 'configurations'], 'All rcfiles (and override files) built from the documented grammar and all search environments.',
  'No test checks rcfile contents beyond one fixed file.',
  ['src/utils/rcfile.cxx', 'include/libcwd/RcFile.h', 'libcwdrc', 'doc/reference-manual/rcfile.md'],
  [('line parser and channel processing', 'src/utils/rcfile.cxx: RcFile::read, process_channels, process_channel'), ('search order', 'src/utils/rcfile.cxx: determine_rcfile_name')],
  [], ['Channel::is_on() of all channels after read(), gdb_bin(), konsole_command()'])
p('C10', 'Wildcard masks select exactly the matching labels',
  'A mask in the rcfile selects a channel if and only if the whole label can be obtained by replacing every "*" of the mask by some (possibly empty) string, all other characters being equal. '
  'This holds for all masks, with any number and position of wildcards, and matching always terminates.',
  ['inputs'], 'All masks and labels over an alphabet with "*".',
  'There is no test of matching; the function backtracks recursively over unbounded input.',
  ['src/utils/match.cxx', 'include/match.h', 'src/utils/rcfile.cxx'],
  [('match', 'src/utils/match.cxx')], [], ['result of the match for every mask/label pair; the channels selected through an rcfile'])
p('C11', 'The channel and debug object registries are complete, ordered and consistent',
  'Iterating over all channels visits every public channel exactly once, in alphabetical order of the labels whatever the order of creation, and never a hidden one; iterating over debug objects visits each exactly once; list_channels_on() lists exactly these channels with their current state. '
  'All labels are padded to the same width, that of the longest label so far but at least 8, and find_channel() returns the alphabetically last channel whose label starts with the given text, ignoring case, or none. '
  'Creating a channel (also in a running program with several threads) changes neither the state nor the label of any other channel, and only the WARNING channel starts on.',
  ['histories', 'schedules', 'inputs'], 'All sets and creation orders of channels, all search prefixes, concurrent creation and iteration.',
  'The tests have a handful of fixed channels created in one order.',
  ['src/debug.cxx', 'include/libcwd/Channel.h', 'include/libcwd/LibcwdForAllDebugChannels.h', 'include/libcwd/LibcwdForAllDebugObjects.h'],
  [('sorted insertion and label padding', 'src/debug.cxx: DebugChannels::initialize_channel'), ('find', 'src/debug.cxx: DebugChannels::find')],
  [('visible_ / hidden_ / WST_max_len', 'registered channels and label width', 'src/debug.cxx')], ['ForAllDebugChannels, find_channel, get_label, list_channels_on'])
p('C12', 'lockable_auto_ptr deletes its object exactly once',
  'An object handed to a lockable_auto_ptr has at most one owner at any time, is destroyed exactly once (with delete[] for arrays) when its owner is destroyed, reassigned or reset while owning it, and never otherwise; after release() the caller is responsible. '
  'Copying and assigning pass ownership on, except from a locked pointer, which keeps it; self-assignment changes nothing, and every copy keeps pointing to the object.',
  ['histories'], 'All sequences of construct, copy, convert, assign, self-assign, lock, unlock, release, reset and destroy on any number of pointers.',
  'lockable_auto_ptr.cpp checks a dozen fixed steps.',
  ['include/libcwd/lockable_auto_ptr.h'],
  [('owner flag transfer', 'include/libcwd/lockable_auto_ptr.h')], [('owner_, locked_', 'ownership', 'lockable_auto_ptr.h')], ['destructor calls of the pointed-to object, get(), is_owner(), strict_owner()'])
p('C13', 'Location objects stay correct under copying, assignment, moving and clearing',
  'A Location created from an address in a known function reports the source file, line and function of that address; one from an unknown address reports that it is unknown, and a cleared one that it is empty, and printing shows exactly the parts selected by location_format of the calling thread. '
  'Before main_reached() a lookup gives at least object file and function, and a new lookup afterwards everything. '
  'Copies share the path of the source file and their ownership of it moves to the copy or assigned object, except when lock_ownership() was called for the original; the path is freed exactly once, when its owner is cleared, looked up anew, assigned another value or destroyed. '
  'Any sequence of these operations, self-assignment and assigning an object that shares the path included, gives the object that it is done to the documented value and leaves the values of all others unchanged as long as the path that they share has not been freed by its owner.',
  ['histories', 'inputs'], 'All sequences of construction, copy, assignment, clear, lookup and destruction on a set of Location objects.',
  'The location tests print single locations; ownership of the path is not tested.',
  ['src/location.cxx', 'include/libcwd/Location.h', 'include/libcwd/Location.inl.h', 'include/libcwd/lockable_auto_ptr.h'],
  [('path ownership', 'src/location.cxx: Location copy, assignment, clear'), ('state of a location', 'include/libcwd/Location.h')], [], ['accessors and printed form of Location; address sanitizer'])
p('C14', 'Overlapping function symbols are resolved per address',
  'After any sequence of insertions of function symbols, an address is attributed to a symbol if and only if at least one inserted symbol contains it; symbols with debug information beat those without, otherwise the one with the smaller original size wins, and between equals the one inserted first. '
  'The stored fragments are non-empty, disjoint, within the range of their symbol, and the insertion reports success exactly when part of the new symbol was stored.',
  ['inputs', 'histories'], 'All sequences of insertions of (possibly overlapping, nested, equal or empty) address ranges.',
  'symbol_range_overlaps.cpp has a few fixed sequences; the outcome depends on all overlaps with all earlier symbols.',
  ['include/dwarf_symbol_ranges.h', 'src/dwarf.cxx'],
  [('insert_function_symbol_range', 'include/dwarf_symbol_ranges.h')], [('FunctionSymbolRanges', 'map from end address to fragment', 'dwarf_symbol_ranges.h')], ['contents of the map after each insertion'])
p('C15', 'Location lookup follows the loading and unloading of shared objects',
  'An address inside the code of an object file that is currently loaded (the program, its startup dependencies, or an object loaded with dlopen) is attributed to that object file and its functions, an address that is in no loaded object is unknown. '
  'Loading the same object repeatedly and unloading it keeps it known until the last handle is closed and makes it unknown afterwards, and the wrappers return what dlopen() and dlclose() return. '
  'All this also holds while several threads load, unload and look up at the same time, for every object that stays loaded during the lookup, and nothing is kept open of objects that were unloaded.',
  ['histories', 'schedules'], 'All sequences and interleavings of dlopen (with any flags), dlclose and lookups.',
  'dlopen.cpp loads one library once.',
  ['src/dwarf.cxx', 'include/cwd_dwarf.h', 'include/libcwd/ObjectFileName.h'],
  [('registry of loaded segments', 'src/dwarf.cxx: ObjectFile'), ('dlopen and dlclose wrappers, synchronize', 'src/dwarf.cxx')], [('object_files_map', 'address ranges of the loaded objects', 'src/dwarf.cxx')], ['Location and pc_mangled_function_name for addresses in the objects'])
p('C16', 'Demangling returns the declaration that the compiler mangled',
  'For every name built from the supported part of the C++ ABI mangling grammar (what C++98 compilers generate; at most 20 nested types of which a substitution or template argument is inserted), demangle_symbol() and demangle_type() append exactly the declaration it encodes: nested and local names, templates and their arguments, substitutions, qualifiers, function and array and member pointers, operators, literals, special names and constructors/destructors. '
  'For NULL they append "(null)" and for anything that is not a valid mangled name they append the input itself. '
  'They terminate, never read past the input, leave what was already in the output alone, and give the same result for the same input regardless of earlier calls or other threads.',
  ['inputs', 'histories'], 'All mangled names of the grammar and all other strings, of lengths that do not exhaust the stack.',
  'demangler.cpp has a fixed list of symbols.',
  ['src/demangle.cxx', 'include/cwd_demangle.h', 'include/libcwd/demangle.h'],
  [('recursive descent demangler', 'include/cwd_demangle.h'), ('entry points', 'src/demangle.cxx')], [], ['the string produced'])
p('C17', 'Margin, marker, colors and indent behave as strings, stacks and counters',
  'Assigning, appending and prepending to the margin, marker and color strings gives the concatenated text with matching size and zero termination, whatever reserve() or earlier sizes were, and the capacity is never smaller than the size. '
  'push/pop of margin and marker restore exactly the pushed text in last-in-first-out order, increasing and decreasing the indentation is exact and never goes below zero, and the scope helpers for indentation, marks and function entry (DoutEntering) undo exactly what they did, also when ended early.',
  ['histories', 'inputs'], 'All sequences of these operations with strings of all lengths.',
  'do.cpp uses each operation once with short strings; reallocation boundaries depend on the history.',
  ['include/libcwd/DebugString.h', 'include/libcwd/DebugString.inl.h', 'src/debug.cxx', 'include/libcwd/debug.h', 'include/libcwd/DebugObject.inl.h'],
  [('capacity management', 'src/debug.cxx: DebugString'), ('push/pop', 'src/debug.cxx: push_margin, pop_margin, push_marker, pop_marker')], [], ['c_str(), size(), capacity(), get_indent() and the output'])
p('C18', 'Characters, buffers and error codes are printed unambiguously',
  'Printing a character or buffer through the escaping helpers writes printable characters as they are and every other byte (and the backslash) as a documented escape or as \\x with two upper-case hexadecimal digits, so that the bytes can be recovered from the text, for every byte value and any buffer size including zero and embedded zero bytes. '
  'strerrno() gives for every error number known to the platform table its macro name (for aliases either), and a fixed text for others.',
  ['inputs'], 'All 256 byte values, all buffers, all integers as error number.',
  'The tests print a few characters.',
  ['src/utils/char2str.cxx', 'include/libcwd/char2str.h', 'include/libcwd/buf2str.h', 'src/strerrno.cxx'],
  [('escape table', 'src/utils/char2str.cxx'), ('error name table', 'src/strerrno.cxx')], [], ['the text produced'])
p('C19', 'Type information describes exactly the requested type',
  'type_info_of<T>() reports the size of T, the size of what it points to, its mangled name and its demangled name (the mangled name itself for types that the demangler does not support, see C16) including top-level and nested qualifiers and references, and type_info_of(object) those of the declared type of the expression without its top-level qualifiers. '
  'The same type always gives equal information, different types give different names, in every order of use, from any thread, also before main() and for types local to functions.',
  ['programs', 'schedules'], 'All types built from fundamental, class, enum, template, function, array and member types with pointers, references and qualifiers.',
  'type_info.cpp checks a fixed list of types.',
  ['include/libcwd/type_info.h', 'src/type_info.cxx', 'src/demangle.cxx'],
  [('exact name extraction', 'src/type_info.cxx: extract_exact_name'), ('lazily initialised info per type', 'include/libcwd/type_info.h')], [], ['demangled_name(), name(), size(), ref_size()'])
p('C20', 'Flushing requests reach the real stream',
  'After a statement with flush_cf, or any statement while always-flush is on, all text written so far by that thread that is not part of a still unfinished outer statement has been passed to the stream and the stream has been flushed before the statement returns; for continued output every piece is. '
  'A flush requested by a nested statement is carried over to the statement it interrupts, flushing is never done more or less when not asked for, and always_flush_on/off nest as counters shared by all threads.',
  ['histories', 'schedules'], 'All sequences of (nested, continued) statements with and without flush requests.',
  'flush.cpp checks a fixed sequence.',
  ['src/debug.cxx', 'include/libcwd/DebugObject.inl.h', 'include/libcwd/control_flag.h'],
  [('flush decision', 'src/debug.cxx: finish(), Buffer::writeto')], [('always_flush_', 'number of outstanding requests', 'DebugObject.h')], ['flush (sync) calls on the stream buffer'])
p('C21', 'Libcwd works in the constructors and destructors of global objects, in any order',
  'Debug output, channels, debug objects, location lookups and demangling can be used from the constructor of any global object after calling initialize() (the first use in a constructor that runs before those of libcwd), from main(), from libraries loaded later and from every destructor that runs at exit, also when exit() is called by another thread or with a fatal message. '
  'initialize() is idempotent: whatever was set before (on/off states, channels, streams with their lock, flushing, margin, indentation, a line that is being continued) is still so when the constructors of libcwd itself run, when main() starts and when the destructors run; nothing is reset, lost or printed twice. '
  'When libcwd starts it raises the soft limit of the core size to the hard limit; the only output that was not asked for is a warning when that limit is a finite positive size, and the messages about loading with LIBCWD_PRINT_LOADING, and neither with LIBCWD_NO_STARTUP_MSGS.',
  ['histories', 'schedules'], 'All orders in which the objects of program and libraries are constructed, with all operations in each constructor and destructor.',
  'Each test program has a single link order, and turns libcwd on in main().',
  ['src/debug.cxx', 'include/libcwd/DebugObject.h', 'include/libcwd/Channel.h', 'include/libcwd/FatalChannel.h', 'src/dwarf.cxx', 'src/environ.cxx', 'src/threading.cxx'],
  [('idempotent initialization', 'src/debug.cxx: initialize(), NS_initialize, NS_init'), ('state in zero initialized memory', 'include/libcwd/DebugObject.h, Channel.h')], [('WNS_initialized, NS_initialized', 'what was initialized', 'DebugObject.h')], ['text on the streams and on standard error in each phase', 'channel list', 'limit of the core size', 'exit status'])
p('C22', 'A location names the source line and innermost function of all machine code',
  'For every instruction of every loaded program or library - whatever compiler, optimization, DWARF version, section layout, link time optimization, compression or separate debug file it was made with - a Location has the source file and line that the instruction was generated from, mangled_function_name() is that of the innermost function in whose source this is, also when that function was inlined (repeatedly, in blocks, in exception handlers, in parts that the compiler moved elsewhere), and pc_mangled_function_name() is that of the function of the object file that contains the instruction. '
  'Without debug information the symbol is found and the line is unknown; for code of which the symbol was stripped the function is unknown - never that of another function, line or file - and in all cases the object file is the one that contains the code, no matter the order of the lookups or the thread.',
  ['inputs', 'schedules'], 'All ways in which functions are nested, inlined and split over the machine code by a compiler.',
  'The tests look up a few addresses of non-inlined functions in their own executable.',
  ['src/dwarf.cxx', 'include/libcwd/Location.h', 'include/libcwd/pc_mangled_function_name.h', 'src/location.cxx'],
  [('lookup of function, inlined function and line', 'src/dwarf.cxx: ObjectFile, ObjectFileData, InlineScopeLookupResult; Location::M_pc_location')], [('functions of a compilation unit', 'address ranges with names and lines', 'src/dwarf.cxx')],
  ['Location::mangled_function_name, filepath, line, object_file', 'pc_mangled_function_name'])
p('C23', 'attach_gdb starts the configured debugger on the caller and waits for it',
  'attach_gdb() runs the command of the rcfile keyword xterm, with that of keyword gdb in the place of %s, exactly once and in full, with as arguments the executable and the process id of the calling process and a command file that sets a breakpoint at the place where attach_gdb() returns, lets the program go and continues; it returns when, and not before, a debugger let it go - however long that takes - with everything else (whether debug output is on) as it was. '
  'When that is impossible (the commands are empty or too long to run in full, or the terminal ended without a debugger attaching) the process ends with a message that says which, it never runs part of a command. '
  'What is being done is only printed while debug output is on.',
  ['inputs', 'histories', 'schedules'], 'All values of the two keywords of every length, and all times it can take until a debugger attaches or the terminal ends.',
  'No test calls attach_gdb().',
  ['src/utils/attach_gdb.cxx', 'include/libcwd/attach_gdb.h', 'include/libcwd/RcFile.h', 'src/utils/rcfile.cxx'],
  [('building the command', 'src/utils/attach_gdb.cxx: attach_gdb')], [('libcwd_attach_gdb_hook', 'nonzero while waiting for the debugger', 'src/utils/attach_gdb.cxx')],
  ['arguments of the debugger, contents of gdb.cmds', 'when attach_gdb() returns', 'debug output', 'exit status'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
