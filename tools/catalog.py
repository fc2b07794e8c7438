#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, observe=('stdout, stderr and exit code of the interpreter',)):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=list(observe)))


MODEL = ('Exploration: generated programs run in the real interpreter and, independently, in a reference model in Python; nothing is proved. '
         'Trusts the model, which was written from the specification and the documentation of the repository, and the compiler. ')
T = 'property-based testing: lazily generated programs, differential against a reference model'

prop('C01', 'Arithmetic and stack instructions are exact on 64-bit cells',
     'For every stack contents, the arithmetic, comparison, logic and stack instructions of every dialect leave the stack that exact integer arithmetic cut to 64 bits '
     'gives, with an empty stack supplying zeros. Division and remainder by zero give zero and no operand ends the interpreter.',
     ['programs', 'inputs'], 'All programs of these instructions over all 64-bit operands, in each dialect.',
     'The tests compute with a few small numbers; the edges (least integer, overflow, zero divisors, empty stacks) are never reached.',
     ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/Stack.cpp'],
     [('instructions of the base dialects', 'src/Unefunge93Strategy.cpp'), ('stack that is zero when empty', 'src/Stack.cpp')], T,
     MODEL + 'Operands are drawn from edge values and small ones, chains up to 80 instructions.')
prop('C02', 'Fungespace holds whole cells at every place, with tight bounds',
     'After any sequence of stores anywhere in the space, of any dimension, a fetch gives the last value stored there as a whole cell (or the value cut to a character where '
     'cells are characters) and a space where nothing was stored. The bounds that wrapping and the system information use are exactly those of the non-space cells.',
     ['programs', 'histories', 'configurations'], 'All histories of stores and fetches at positive and negative coordinates, in 1 to 3 dimensions, both cell widths.',
     'The tests store a handful of cells near the program; growth in every direction, erasing at the edges and interplay with wrapping need histories.',
     ['src/Field.cpp', 'src/FungeUniverse.cpp', 'src/Vector.cpp'],
     [('sparse field and its bounds', 'src/Field.cpp'), ('get and put of the universe', 'src/FungeUniverse.cpp')], T, MODEL)
prop('C03', 'An IP moves, wraps and jumps the same way back as forth, for every delta',
     'An IP with any delta, in any dimension and from any place, visits the cells the rules of its topology (wrapping past the edge of the program, or a torus of fixed size) name, in order, '
     'passing over spaces and skipped parts at no cost. Direction changes, trampolines and jumps by any amount land where the rules say.',
     ['programs', 'configurations'], 'All programs and deltas in 1 to 3 dimensions and both topologies.',
     'The tests move along axes through small squares; flying deltas, shrinking programs and negative jumps are not sampled.',
     ['src/InstructionPointer.cpp', 'src/FungeUniverse.cpp', 'src/Field.cpp', 'src/Befunge93Strategy.cpp', 'src/Befunge98Strategy.cpp', 'src/Trefunge98Strategy.cpp'],
     [('wrapping', 'src/FungeUniverse.cpp'), ('moves', 'src/FungeRunner.cpp'), ('directions', 'src/Befunge98Strategy.cpp')], T, MODEL)
prop('C04', 'Branches, skips, iteration and random directions follow the specification',
     'Decisions take the branch their operand demands, a skip passes everything between its marks, and iteration executes the next real instruction the given number of times from the place of the iteration. '
     'The random direction is always one of the directions of the dimension, and each of them comes up.',
     ['programs'], 'All programs of decisions, skips, iterations (nested, of jumps, of direction changes, of nothing) and random moves.',
     'Iteration interacts with nearly every other instruction; the tests try a few combinations. Random moves cannot be compared with a fixed output.',
     ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/FungeStateNormal.cpp', 'src/FungeRunner.cpp'],
     [('iterate', 'src/Unefunge98Strategy.cpp'), ('skip', 'src/FungeStateNormal.cpp')], T + '; statistical coverage of random directions by long walks',
     MODEL + 'The fairness of the random direction is only tested for every direction coming up.')
prop('C05', 'The stack of stacks keeps every cell and offset through any history',
     'Opening, closing and transferring between stacks with any counts (negative, zero, larger than the stack) moves exactly the cells the specification names in the order it names, '
     'and storage offsets are saved and restored with them. Every place a program addresses counts from the storage offset of its IP.',
     ['programs', 'histories'], 'All histories of blocks, transfers, clears and stack instructions, with storage offsets anywhere.',
     'Tests open one or two blocks with small counts; nested blocks, negative counts and underflow are the ones that break.',
     ['src/StackStack.cpp', 'src/Stack.cpp', 'src/Unefunge98Strategy.cpp'],
     [('begin, end and under', 'src/Unefunge98Strategy.cpp'), ('stack of stacks', 'src/StackStack.cpp')], T, MODEL)
prop('C06', 'Strings push the characters their style says, along any path',
     'A string pushes one cell for each cell passed, in any direction and over the edge, with runs of spaces treated as the selected style (each space, one space, or C escapes) demands. '
     'Reading or writing the next cell as a character works on the cell ahead in the direction of travel and passes over it.',
     ['programs', 'configurations'], 'All strings over all cell values, deltas and string styles.',
     'Tests have strings of letters in one direction.',
     ['src/FungeStateString.cpp', 'src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp'],
     [('string state', 'src/FungeStateString.cpp')], T, MODEL)
prop('C07', 'A source file is laid out in fungespace as its lines, planes and format say',
     'Each character of a source becomes the cell at its column, line and plane, for any line ending, any mix of lengths, blank lines and form feeds, in each number of dimensions; '
     'other source formats are laid out the same way and give the number of dimensions they name. Which dialect runs follows from the name of the file and the options.',
     ['inputs', 'configurations'], 'All texts of bytes, all file formats and name extensions.',
     'Tests have a few well-formed files.',
     ['src/Field.cpp', 'src/Funge.cpp', 'src/FungeUniverse.cpp'],
     [('parsers', 'src/Field.cpp'), ('choice of dialect', 'src/Funge.cpp')],
     'property-based testing: generated source files, probes of every cell against an independent layout', MODEL)
prop('C08', 'Input and output pass every byte and number unchanged',
     'Programs read exactly the characters and numbers their input holds, in order, and reflect (or read what the dialect says) at its end; what they write comes out as written, byte for byte and number for number. '
     'Numbers span all 64-bit values.',
     ['programs', 'inputs'], 'All inputs of bytes and numbers with any separators, and all mixes of reading and writing.',
     'Tests pipe a few lines in.', ['src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp', 'src/util/FungeUtilities.cpp'],
     [('input', 'src/util/FungeUtilities.cpp')], T, MODEL)
prop('C09', 'File input and output transfers exactly the named area',
     'Reading a file puts its bytes at the named place with the layout of its lines (or as one row in binary) and reports its size; writing an area and reading it back gives the same cells. '
     'A failure reflects and leaves files and fungespace as they were.',
     ['programs', 'inputs'], 'All files of bytes, places, sizes, flags, names and storage offsets.',
     'Tests read and write one small file.', ['src/Unefunge98Strategy.cpp', 'src/Field.cpp', 'src/FungeUniverse.cpp'],
     [('input and output of files', 'src/Unefunge98Strategy.cpp'), ('parse and dump of fields', 'src/Field.cpp')], T, MODEL,
     observe=['stdout, exit code, and the files in the working directory'])
prop('C10', 'Concurrent IPs take turns in the specified order until the last one ends',
     'Every IP executes one instruction per tick in the specified order, a new IP starts behind its parent with copies of its stacks and the opposite delta, and an IP that ends does not disturb the others. '
     'The exit code is that of the quit instruction or zero when the last IP ends.',
     ['programs', 'schedules'], 'All programs with any number of IPs that split, end, quit, wait and share fungespace.',
     'Tests split once; order, dying parents and simultaneous writes depend on the history.',
     ['src/FungeRunner.cpp', 'src/FungeUniverse.cpp', 'src/InstructionPointer.cpp', 'src/FungeMultiverse.cpp'],
     [('scheduler', 'src/FungeUniverse.cpp'), ('split', 'src/Unefunge98Strategy.cpp')], T, MODEL)
prop('C11', 'Disabled features reflect and have no effect; enabled ones work',
     'With execution, files or concurrency switched off (or in the older dialect) the instructions that need them reflect as unknown ones do, change nothing outside the interpreter, and the system information says so. '
     'With execution on, a command runs with exactly the given text and its exit code is pushed.',
     ['programs', 'configurations'], 'All programs under all combinations of the switches and dialects.',
     'Tests try one program per switch.', ['src/Unefunge98Strategy.cpp', 'src/Funge.cpp', 'src/fingerprint/FingerprintPERL.cpp'],
     [('switches', 'src/Unefunge98Strategy.cpp')], T + ', commands limited to a list of harmless ones under an unprivileged user',
     MODEL, observe=['stdout, exit code, and the files in the working directory'])
prop('C12', 'System information tells the truth, item by item and cell by cell',
     'The system information instruction pushes what the specification lists, in its order, for the actual state: flags, dimensions, IP, place, delta, storage offset, bounds, sizes of the stacks, arguments and environment. '
     'Picking one cell gives the same cell as pushing all of them.',
     ['programs', 'configurations', 'inputs'], 'All states of IP, stacks and fungespace, all arguments and environments, all picks.',
     'The smoke test looks at a few items of one state.', ['src/Unefunge98Strategy.cpp', 'src/Field.cpp'],
     [('system information', 'src/Unefunge98Strategy.cpp')], T, MODEL + 'Date, time, version and the path separator are only checked to be consistent.')
prop('C13', 'Unknown and failing instructions reflect, in place, with a true diagnostic',
     'Any cell value that is no instruction of the dialect turns the IP around and leaves stack and fungespace alone, and is reported with its value and place. '
     'An instruction that cannot do its work reflects in the same way without a report.',
     ['programs', 'configurations'], 'All cell values (any 64-bit number) at all places and deltas in each dialect, and all failing instructions.',
     'Tests meet a handful of unknown characters.', ['src/FungeStateNormal.cpp', 'src/FungeState.cpp', 'src/Unefunge93Strategy.cpp', 'src/Unefunge98Strategy.cpp'],
     [('unknown instructions', 'src/FungeStateNormal.cpp')], T, MODEL)

EXTRA = os.path.join(ROOT, 'tools', 'catalog_more.py')
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, 'exec'))


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': [], 'not_applicable': [],
           'notes': 'No hooks: every check builds the interpreter from /repo as it is and observes it from outside.'}
    for p in P:
        if p['na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
            continue
        man['checks'].append({
            'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'].strip()})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
