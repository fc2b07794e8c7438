# continued from catalog.py

FPD = 'src/fingerprint/'
prop('C14', 'Each letter means what the fingerprint loaded last says',
     'Loading a fingerprint gives its letters its meaning on top of the meanings they had, pushes its name and one, and unloading takes exactly those away again, so that the meaning below is back. '
     'A fingerprint that is not known reflects and changes nothing. What moves, copies or drops meanings of letters does so for those letters only. A child starts with the meanings of its parent. '
     'Fingerprints named on the command line are loaded for every program.',
     ['programs', 'histories', 'configurations'], 'All histories of loads, unloads and exchanges of fingerprints that share letters, in all IPs.',
     'The tests load one fingerprint at a time; shadowing, repeated loads and what children inherit are histories.',
     ['src/FingerprintStrategy.cpp', 'src/Fingerprint.cpp', FPD + 'FingerprintFING.cpp', 'src/Unefunge98Strategy.cpp', FPD + 'FingerprintFungeLib.cpp'],
     [('stacks of meanings', 'src/FingerprintStrategy.cpp'), ('exchange', FPD + 'FingerprintFING.cpp'), ('( and )', 'src/Unefunge98Strategy.cpp')], T,
     MODEL + 'A fingerprint unloaded more often than loaded, and children of an IP that unloaded out of order, are left out.')
prop('C15', 'Fingerprints for bits, logic, numbers and Roman numerals compute exactly',
     'BITW, BOOL, CPLI, FIXP, MODU, ORTH and ROMA give for all operands the results their documentation defines: bitwise and logical operations on whole cells, complex integers, fixed point numbers with four '
     'decimals, remainders, orthogonal moves and access, Roman digits. They take exactly their operands from the stack.',
     ['programs', 'inputs'], 'All operands, stacks and positions.',
     'Tests try each instruction once or not at all.',
     [FPD + 'FingerprintBITW.cpp', FPD + 'FingerprintBOOL.cpp', FPD + 'FingerprintCPLI.cpp', FPD + 'FingerprintFIXP.cpp', FPD + 'FingerprintORTH.cpp', 'fing/MODU.fl', 'fing/ROMA.fl'],
     [('instructions', FPD + 'FingerprintFIXP.cpp')], T,
     MODEL + 'Divisions of complex numbers by zero, random numbers, shifts by 64 and more, and results at the middle between two integers are left out.')
prop('C16', 'Floating point fingerprints follow IEEE 754 in their width, and print as C does',
     'FPSP and FPDP compute in single and double precision with correctly rounded basic operations, conversions and functions, keep each number in one cell as its bits, and read and print decimal text. '
     'FPRT formats numbers and strings as the C library does for the same format, and leaves the text as a string on the stack.',
     ['programs', 'inputs'], 'All numbers (also infinities, subnormals, zeros with sign), texts and formats of the right kind.',
     'Tests convert a few round numbers.',
     [FPD + 'include/FingerprintFloat.h', FPD + 'FingerprintFPRT.cpp'], [('arithmetic', FPD + 'include/FingerprintFloat.h'), ('formats', FPD + 'FingerprintFPRT.cpp')],
     'property-based testing: generated programs, differential against a model built on IEEE arithmetic and the C library',
     MODEL + 'NaN results and formats of the wrong kind are left out. The oracle for functions is the C library of the machine.')
prop('C17', 'String, reference and number base fingerprints keep every character and digit',
     'STRN and JSTR join, cut, find, compare, store and fetch strings exactly, at places that count from the storage offset, and convert numbers both ways; a wrong count reflects. '
     'REFC gives each place its own reference, which gives the place back for good. BASE prints and reads numbers in every base with the digits of that base.',
     ['programs', 'inputs', 'histories'], 'All strings of characters, counts, places, numbers, bases and input words.',
     'Tests use a few short words and small numbers.',
     [FPD + 'FingerprintSTRN.cpp', FPD + 'FingerprintJSTR.cpp', FPD + 'FingerprintREFC.cpp', FPD + 'FingerprintBASE.cpp'],
     [('strings', FPD + 'FingerprintSTRN.cpp'), ('digits', FPD + 'FingerprintBASE.cpp')], T,
     MODEL + 'Of a string comparison only the sign counts.')
prop('C18', 'Stack and area fingerprints move exactly the cells they name',
     'FRTH reaches, rolls and counts the stack as if zeros lay below it. TOYS copies, moves, fills, reads and sets areas of any size and sign, from the low or high end as documented when they overlap, moves whole '
     'lines, shifts, sums and multiplies stacks, and waits at a cell until it has the value. Nothing outside of the named cells changes.',
     ['programs', 'histories'], 'All counts, areas and overlaps in 1 to 3 dimensions.',
     'Tests copy one small area and roll one stack.',
     [FPD + 'FingerprintFRTH.cpp', FPD + 'FingerprintTOYS.cpp'], [('areas', FPD + 'FingerprintTOYS.cpp'), ('roll', FPD + 'FingerprintFRTH.cpp')], T, MODEL)
prop('C19', 'Dimensions grow on demand, and calls return to where they came from',
     'NFUN moves an IP along any dimension by number or letter, both ways, with -finvert-hl exchanging high and low; a space that gains a dimension keeps all its cells, and every instruction that takes or gives '
     'places then has the new number of coordinates. SUBR calls and jumps to absolute or relative places with their arguments, and a return continues after the call with the delta of the caller.',
     ['programs', 'histories', 'configurations'], 'All programs from 1 to 7 dimensions, nested calls with any number of arguments.',
     'Tests stay within three dimensions and one call.',
     [FPD + 'FingerprintNFUN.cpp', FPD + 'FingerprintSUBR.cpp', 'src/Field.cpp', 'src/Vector.cpp', 'src/FungeUniverse.cpp'],
     [('dimensions', FPD + 'FingerprintNFUN.cpp'), ('calls', FPD + 'FingerprintSUBR.cpp'), ('vectors', 'src/Vector.cpp')], T, MODEL)
prop('C20', 'Modes change only what they name, and can be combined and taken back',
     'Hover mode makes directions add to the delta, invert mode pushes at the bottom, queue mode pops from the bottom, switch mode exchanges the brackets that are executed; each is switched on and off '
     'independently, for all stacks and IPs of the program, and with all of them off everything is as before.',
     ['programs', 'histories'], 'All programs that switch modes, in all combinations.',
     'Tests switch each mode once.',
     [FPD + 'FingerprintMODE.cpp', 'src/Stack.cpp', 'src/Unefunge98Strategy.cpp', 'src/Befunge98Strategy.cpp'],
     [('modes', FPD + 'FingerprintMODE.cpp'), ('stack ends', 'src/Stack.cpp')], T, MODEL)
prop('C21', '><> programs run as documented, and the fish smells every mistake',
     'A ><> program does for every stack, register, jump, move and stored cell what its language defines: arithmetic on real numbers, stacks of stacks with a register each, wrapping, reading and '
     'writing cells, output of numbers and characters. Any mistake (too few values, unknown instruction, division by zero) ends it with the message and exit code 1, having printed what came before.',
     ['programs', 'inputs'], 'All ><> programs, stacks and input.',
     'The tests run a few finished programs; wrong programs, real numbers and the interplay of stacks and registers are not sampled.',
     ['src/FishStrategy.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp', 'src/Stack.cpp'], [('instructions', 'src/FishStrategy.cpp'), ('errors', 'src/FungeRunner.cpp')], T,
     MODEL + 'Conversions of numbers beyond 64 bits are left out; of the random direction only that the fish goes on.')
prop('C22', '*><> adds diving, calls, the fisherman, stack selection, files and the clock',
     'A *><> program does all that ><> does, and: between diving and rising it only moves; calls return to where they were made, nested, with the stack below; the fisherman turns the fish and keeps its '
     'direction; selection of deeper stacks works on these; files are read and written whole; the clock tells the local time. FISH gives a Funge-98 program the same.',
     ['programs', 'histories', 'configurations'], 'All *><> programs and all Funge-98 programs with FISH.',
     'The tests use each addition once.',
     ['src/StarfishStrategy.cpp', FPD + 'FingerprintFISH.cpp', 'src/FishStrategy.cpp', 'src/StackStack.cpp'], [('instructions', 'src/StarfishStrategy.cpp'), ('fingerprint', FPD + 'FingerprintFISH.cpp')], T, MODEL)
prop('C23', 'The debugger shows the true state, stops where told, changes what it is asked to',
     'Under -g, or with DBUG, every command line answers from the state of the program: values, positions, deltas, areas of the field, threads, stacks of frames. Execution stops exactly at the breakpoints, '
     'watchpoints and steps asked for, and a program that is only watched runs as it does without the debugger. No command line makes the debugger fail.',
     ['programs', 'histories', 'inputs'], 'All programs with all sequences of debugger commands, well formed or not.',
     'The tests do not use the debugger.',
     ['src/Defunge.cpp', 'src/FungeDebugger.cpp', FPD + 'FingerprintDBUG.cpp', 'src/Vector.cpp'], [('commands', 'src/Defunge.cpp'), ('stops', 'src/FungeDebugger.cpp')],
     'property-based testing: generated programs and command sessions, differential against a model of the program under its debugger', MODEL)
prop('C24', 'The command line means what the documentation says, in every combination',
     'Every option has its documented effect and no other, in any order and repetition: the last one that sets something counts, a standard sets its defaults, the extension of the file decides only where no standard was '
     'given, and what follows the file belongs to the program. Unsupported values, missing names and files that cannot be opened end with their message and error code before anything runs. The exit code is that of the program.',
     ['configurations', 'inputs'], 'All command lines, extensions and programs.',
     'The tests give one standard per program.',
     ['src/Funge.cpp', 'src/include/FungeConfig.h', 'src/FungeUniverse.cpp', 'src/FungeRunner.cpp'], [('options', 'src/Funge.cpp'), ('dialect', 'src/FungeRunner.cpp')],
     'property-based testing: generated command lines on generated programs, differential against an own reading of the options and a reference model', MODEL)
prop('C26', 'IPs move between universes, and every universe keeps its own rules and cells',
     'The universes of an .fmv file, and those a program makes with MVRS, each have their name, space, arguments, dialect and restrictions. An IP that goes from one to another acts from then on in and by the rules of the one it is in, '
     'with its stacks, and only there; cells copied between universes arrive unchanged; what cannot be done reflects; the program ends when no universe has an IP left, with the exit code of the first.',
     ['programs', 'histories', 'schedules', 'configurations'], 'All multiverses, programs in them and moves of their IPs, under all schedules of the threads of the universes.',
     'One test loads one .fmv file; moves, copies and the threads under them are not sampled.',
     ['src/FungeMultiverse.cpp', 'src/FungeUniverse.cpp', FPD + 'FingerprintMVRS.cpp', 'src/Funge.cpp'],
     [('moves', FPD + 'FingerprintMVRS.cpp'), ('hand over', 'src/FungeUniverse.cpp'), ('waiting', 'src/FungeMultiverse.cpp')], T,
     MODEL + 'Schedules are those the machine makes, each case twice; IPs of different universes do not touch the same cells at once.')
prop('C27', 'The timer measures the time that has passed',
     'A reading of the HRTI timer is at least the time that has passed since its mark and at most that until the program ended, in microseconds; readings of one mark never decrease; marks of IPs are their own; '
     'without a mark, or with an erased one, reading reflects; the seconds part is that of the clock, and the granularity at least one microsecond.',
     ['programs', 'schedules'], 'All programs that mark, wait and read.',
     'Time cannot be compared with a fixed expected output.',
     [FPD + 'FingerprintHRTI.cpp'], [('timer', FPD + 'FingerprintHRTI.cpp')],
     'property-based testing: generated programs with known waits, readings checked against bounds from known and outside time',
     'Bounds only: an error smaller than the time a program takes to start does not show.')
prop('C28', 'IPs exchange cells with each other and with nobody else',
     'With IIPC a cell given to another IP arrives on top of its stack, one taken from it is gone there, one looked at stays; IDs and parents are the true ones; an IP that goes dormant does nothing until another '
     'one uses its stack, and then goes on; what names no running IP reflects. Everything else about the IPs stays theirs.',
     ['programs', 'histories'], 'All programs of any number of IPs with any exchange between them.',
     'The tests give one value to one IP.',
     [FPD + 'FingerprintIIPC.cpp', 'src/FungeUniverse.cpp', 'src/FungeRunner.cpp'], [('exchange', FPD + 'FingerprintIIPC.cpp'), ('turns', 'src/FungeUniverse.cpp')], T, MODEL)
prop('C29', 'Native threads run the same programs, under every schedule',
     'With -fthreads=native a program of one IP behaves as without. IPs that do not depend on each other print and store together exactly what they do when they take turns, each has an ID of its own, '
     'no write to the common space is lost, and the program ends with its exit code when its last IP has ended.',
     ['programs', 'schedules'], 'All programs of independent IPs, all schedules of the threads.',
     'No test uses native threads; races show only under some schedules.',
     ['src/FungeUniverse.cpp', 'src/FungeRunner.cpp', 'src/Field.cpp', 'src/FungeMultiverse.cpp'], [('threads', 'src/FungeUniverse.cpp'), ('common space', 'src/Field.cpp'), ('IDs', 'src/FungeRunner.cpp')],
     'property-based testing: generated programs run repeatedly with real threads, results compared up to order with a reference model',
     MODEL + 'Schedules are those the machine happens to make (thousands of runs, many with all IPs splitting or writing at once), not chosen.')
prop('C31', 'Directories are made, entered and removed as asked, and nothing else',
     'DIRF makes, enters and removes exactly the directory named, relative to where the program is; what cannot be done reflects and changes nothing; files read and written, and fingerprints loaded from the library, '
     'afterwards are found as the directory says. Files with content and full directories stay.',
     ['programs', 'histories', 'configurations'], 'All sequences of directory and file operations.',
     'The tests make one directory and remove it.',
     [FPD + 'FingerprintDIRF.cpp', 'src/Unefunge98Strategy.cpp'], [('directories', FPD + 'FingerprintDIRF.cpp')],
     'property-based testing: generated programs in a scratch directory as an unprivileged user, the tree left behind and the output compared with a model', MODEL)
prop('C30', 'Fingerprints of the library do what their Funge code says',
     'A file NAME.fl in the library makes the fingerprint NAME, under the files of the language before the built-in ones: each letter does what its layer of code says on the stacks of the caller, at once from the view of the program, '
     'with its own position, delta and space; the space of the file is kept between the calls. Letters without a layer reflect. Names that are not plain do not leave the library; unloading gives back the earlier meanings.',
     ['programs', 'inputs', 'histories', 'configurations'], 'All library files and programs that use them, also several, nested and by several IPs.',
     'The tests call four letters of the files that come with it.',
     ['src/fingerprint/FungeFingerprint.cpp', 'src/FingerprintStrategy.cpp', 'src/FungeUniverse.cpp', 'fing/TERM.fl', 'fing/ROMA.fl', 'fing/NULL.fl', 'fing/MODU.fl'],
     [('calls', 'src/FingerprintStrategy.cpp'), ('library', 'src/Field.cpp')],
     'property-based testing: generated library files and generated programs that load them, differential against the model that runs the layers in a space of their own', MODEL)
prop('C25', 'No program, file, option or debugger command breaks the interpreter',
     'Whatever the text, format, library, options, arguments, input and debugger commands are, the interpreter runs them by its rules or says what is wrong: it never crashes, never aborts on an exception, and never touches memory that is not its own.',
     ['programs', 'inputs', 'configurations', 'histories'], 'All bytes of programs, files and commands.',
     'Tests give well-formed programs.',
     ['src/Funge.cpp', 'src/Field.cpp', 'src/FungeRunner.cpp', 'src/StackStack.cpp', 'src/FungeDebugger.cpp'], [('field', 'src/Field.cpp'), ('stacks', 'src/StackStack.cpp'), ('debugger', 'src/FungeDebugger.cpp')],
     'fuzzing: random and structured programs, mutations of valid ones from the generators of the other checks, in a build with the address and undefined behaviour sanitizers',
     'Memory used up by a program is not a failure; conversions of doubles out of range and giant shifts are left out (the sanitizer checks for them are off).')
