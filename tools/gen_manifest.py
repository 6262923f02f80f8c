#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and what is claimed of them here."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TRACE = 'TLC explores the specification exhaustively within its bounds and checks the property on it; every script it emits, and random longer ones, is run on the real library and the recorded trace is checked against the specification by TLC.'
CLAIMS = {
 'C01': ('DebugOutput.tla', 'Bounded menus of nested statements with all flags; random scripts of 40 operations.'),
 'C02': ('DebugOutput.tla', 'Bounded menus of continued statements; random scripts of 40 operations.'),
 'C03': ('DebugOutput.tla', 'Bounded menus of switches and statements; random scripts of 40 operations.'),
 'C04': ('DebugOutput.tla', 'Two and three threads, two debug objects; operations of the threads interleave, one at a time.'),
 'C05': ('DebugOutput.tla', 'Two and three threads; operations of the threads interleave, one at a time; every access to the stream is checked for the lock.'),
 'C06': ('OutputSwitch.tla', 'The locking algorithm, step by step, with 2-3 threads running all programs from a menu, against the contract (and three wrong variants of it, that have to fail); real threads on the real library with random pauses, every use of a lock or stream recorded and checked against the contract.'),
 'C07': ('Fatal.tla', 'All interleavings of programs of three threads from menus, on two debug objects; all detected misuses in all simple situations; random scripts, and races of up to six threads, in which the thread that ends the process waits to give the others the time to do so too.'),
 'C08': ('InitThread.tla', 'Bounded menus with 2-3 threads; random scripts of 40 operations with 5 threads, of which several start at the same moment.'),
 'C09': ('RcFile.tla', 'All files of 2-3 lines from menus, with overrides of 2; all combinations of present files; random files up to 24 lines, several reads.'),
 'C11': ('Registry.tla', 'All orders of creating up to 4 channels from menus; random scripts of 40 operations; programs of four threads that run at the same time, checked for an order of their operations that explains all results.'),
 'C12': ('AutoPtr.tla', 'All operation sequences on 2-3 pointers of convertible and array types; random scripts of 40 operations; under AddressSanitizer.'),
 'C13': ('LocationObj.tla', 'All operation sequences on 2-3 Location objects and 2-3 addresses; all formats on all kinds of address by two threads; random scripts of 40 operations on 5 objects; with and without main_reached(); under AddressSanitizer.'),
 'C14': ('SymbolRanges.tla', 'All sequences of 3 insertions on 5 addresses; random sequences of 30 on 27 addresses.'),
 'C10': ('Glob.tla', 'All masks of up to 5 characters over {A, B, *} on all labels of up to 4, directly; a quarter of them also by means of an rcfile; random long ones; under AddressSanitizer.'),
 'C15': ('ObjectFiles.tla, LoaderSync.tla', 'All sequences of opening (with flags), closing and looking up in up to 4 shared objects with dependencies among them, up to 2 handles each; random scripts of 30 operations; programs of up to 6 threads at the same time on the real loader; the interleavings of the wrappers with the loader in a small-step model with 2-3 threads (and three wrong algorithms, that have to fail).'),
    'C16': ('Mangle.tla, Reals.tla', 'All names of up to 4-6 steps of the grammar from menus of builtins, names, declarators, members and templates; random ones of 14 steps; random mutations of them; names from the C++ library of this machine; several threads; under AddressSanitizer.'),
    'C17': ('DebugStrings.tla', 'Bounded menus around the capacity borders, for scopes and for stacks; random scripts of 50 operations; under AddressSanitizer.'),
 'C18': ('Text.tla', 'All bytes, all pairs of interesting bytes, random buffers; all error numbers up to 300 and borders; under AddressSanitizer.'),
 'C19': ('TypeInfo.tla, Mangle.tla', 'All types that are built with up to 4-5 steps from menus of declarators, members and templates, all builtin types, classes, enums, local and unnamed-namespace classes and template arguments; random types of 16 steps; in random order, repeatedly, before main(), and for the first time by four threads at the same moment under ThreadSanitizer; otherwise under AddressSanitizer.  The C++ program that asks for them is generated from the specification.'),
    'C20': ('DebugOutput.tla', 'Bounded menus of flushing, nested and continued statements; random scripts.'),
    'C21': ('Startup.tla', 'All scripts of up to 3-5 operations spread over ten phases of the life of a program (constructors of a library that is initialized before or after libcwd, of the program, of a library it loads; main; the destructors), for menus about settings, channels, continued lines, debug objects and environment; with exit by return, exit() and another thread; random scripts.  Each script is run in a new process.'),
    'C22': ('SourceLoc.tla', 'All programs of up to 3-6 instructions (functions of eleven kinds, inlined or called, again from elsewhere, blocks, exception handlers, cold code) for three menus, random programs of 60 instructions; compiled by the check with g++ and clang++ in thirteen ways (-O0..-O3, DWARF 3-5, LTO, compressed, separate debug file, no debug information, stripped, PIE and non-PIE executables); every marked instruction, return address and function start is looked up, in random order, also by two threads.  That the compilers mark instructions with the line that asked for them is assumed.'),
    'C23': ('AttachGdb.tla', 'All sequences of 2-3 attach_gdb() and on/off operations, by the main or another thread, with debuggers that attach at once, after 5.7 seconds or not at all (sampled where that takes more than 5 seconds), three gdb commands in four terminals; all lengths of the commands around those of the buffers.  The terminal and the debugger are scripts; the test program does what the debugger does to the process.'),
}
REASON = 'No check has been built for this property yet.'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 harness/build.py plain', checks=[], not_applicable=[],
         hooks=dict(guard='LIBCWD_VERIF (reserved; no hooks are needed: the drivers use the public interface only)', enable='nothing to enable', source_commits=[]),
         notes='TLA+ with TLC; see DESIGN.md.  Known findings and repaired defects: known-findings.txt.')
for p in props:
    i = p['id']
    if i in CLAIMS:
        mod, note = CLAIMS[i][:2]
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 checks/run.py ' + i,
            technique='TLA+ specification (%s) model-checked with TLC, bound to the code by trace validation of replayed model behaviours' % mod,
            level='model_checking', level_note=TRACE + ' ' + note + ' Trusted: TLC, the driver, the C++ compiler and standard library, and the threadsafe shim (harness/shim) that stands in for the submodule missing from this checkout.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=REASON))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
