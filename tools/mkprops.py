#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (kept in one place so they stay in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'source/'
PROPS = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=[D + f for f in files],
                                   mechanism=[dict(name=n, where=D + w) for n, w in mech],
                                   state=[dict(name=n, meaning=m, where=D + w) for n, m, w in state],
                                   observe_at=list(observe), hook_needed=None)))


p('C01', 'Emitted bytecode, interpreter and disassembler agree on every instruction',
  'Every instruction the compiler can emit is decoded by the virtual machine with exactly the operand bytes that were emitted, in the same order, '
  'and execution continues at the byte after it unless it is a jump, call or return. '
  'The disassembler consumes the same number of bytes for every instruction and shows its own mnemonic and the operand values, so listings stay in step with the code.',
  ['programs'], 'every instruction kind in every program, with any operand value',
  'Tests run programs whose instructions are mostly decoded right; a length or operand-order error in a rarely used instruction, or in a disassembler entry, is never reached.',
  ['lib_compiler/codegen.cpp', 'lib_vm/thread.cpp', 'lib_compiler/disassembler.cpp', 'lib_common/instructions.cpp', 'lib_compiler/program_builder.h'],
  [('instruction encoders', 'lib_compiler/codegen.cpp'), ('interpreter operand fetch', 'lib_vm/thread.cpp'), ('disasm', 'lib_compiler/disassembler.cpp')],
  ['compiled program bytes', 'disassembly'])
p('C02', 'Generated code keeps the operand stack balanced',
  'The code generated for any expression leaves exactly one more value on the operand stack than before, and the code generated for any statement leaves the stack as it was, on every control path through it. '
  'No generated code ever consumes values that belong to an enclosing construct, so loops and repeated calls can neither grow nor underflow the stack.',
  ['programs', 'inputs'], 'every syntax tree the compiler accepts and every run-time branch outcome',
  'Programs in the tests nest constructs in a few ways only and stop before a leak or an underflow shows.',
  ['lib_compiler/codegen.cpp', 'lib_vm/thread.cpp', 'lib_vm/value.h'],
  [('code generator visitors', 'lib_compiler/codegen.cpp'), ('stack effects of the handlers', 'lib_vm/thread.cpp')], ['operand stack height'])
p('C03', 'Control flow follows the source: if, while, for, return, blocks',
  'An if runs exactly one of its branches according to the truth of its condition; a while tests before every iteration and runs its body while the condition is true; a for starts its variable at the start value, tests variable < end before every iteration and adds one after it. '
  'Blocks run their statements in order and return leaves the function immediately with its value (none if it has none). '
  'Every jump lands on the intended instruction and falsy values are exactly none, 0, 0.0 and the empty string.',
  ['programs', 'inputs'], 'every nesting of statements, every condition value of every kind',
  'Tests check a few loops and conditions of int type; wrong targets for particular shapes or truthiness of other kinds stay unseen.',
  ['lib_compiler/codegen.cpp', 'lib_vm/thread.cpp', 'lib_vm/value.h'],
  [('if/while/for/return/block visitors and fix-ups', 'lib_compiler/codegen.cpp'), ('jump handlers', 'lib_vm/thread.cpp'), ('as_bool', 'lib_vm/value.h')], ['program results'])
p('C04', 'Every operator computes its documented result for all operand kinds',
  'For every combination of operand kinds, + - * / % , the comparisons, ==, and, or, not and unary minus evaluate left operand then right operand and give the documented result: int/int arithmetic is 32-bit integer arithmetic, a float operand makes the result float, + with a string concatenates, == on none is true only for none. '
  'Unsupported combinations raise a bad-type error and integer division or modulo by zero raises divide-by-zero; nothing else raises an error.',
  ['inputs', 'programs'], 'every operator, all 49 kind pairs, all payload values',
  'The tests use a few operand pairs per operator; mixed kinds and boundary values are a large product they sample thinly.',
  ['lib_vm/thread.cpp', 'lib_vm/value.h', 'lib_compiler/codegen.cpp'],
  [('operator handlers', 'lib_vm/thread.cpp'), ('token to instruction mapping', 'lib_compiler/codegen.cpp')], ['operator results', 'thread error'])
p('C05', 'Compile-time evaluation agrees with run-time evaluation',
  'Whenever the compiler evaluates an operator itself (constant folding in the optimiser, or evaluating constant initialisers) on integer literals, the value is the one the virtual machine would compute at run time, including truth values of comparisons and logic and wrap-around. '
  'Expressions whose evaluation would fail at run time (division or modulo by zero) are never folded into a value, and branches and statements are removed only when a literal condition or a preceding return makes them unreachable.',
  ['programs'], 'every operator and every pair of literal operands',
  'Tests fold a handful of literals; an operator folded with swapped operands or wrong truth value for particular values is not covered.',
  ['lib_compiler/optimize.cpp', 'lib_compiler/sema.cpp', 'lib_vm/thread.cpp'],
  [('optimizer folding', 'lib_compiler/optimize.cpp'), ('constant initialiser evaluation', 'lib_compiler/sema.cpp')], ['program results with and without optimisation'])
p('C06', 'No operation on any kinds of values can crash the host',
  'Whatever kinds of values (none, int, string, array, float, function, builtin reference) a script feeds to an operator, an index, a member access, a call or a builtin, the machine either computes a result or stops that thread with an error. '
  'It never fails an assertion, dereferences a null value or reads a value as a different kind.',
  ['inputs', 'programs'], 'every instruction and builtin times every combination of operand kinds and argument counts',
  'The product of instructions and operand kinds has thousands of entries; tests exercise a few dozen.',
  ['lib_vm/thread.cpp', 'lib_vm/value.h', 'lib_builtins/builtin.cpp'],
  [('kind tests before every access', 'lib_vm/thread.cpp'), ('argument checks', 'lib_builtins/builtin.cpp')], ['process survives', 'thread error'])
p('C07', 'Array and string element access is bounds-checked and exact',
  'Reading or writing element i of an array of n elements succeeds exactly for 0 <= i < n and touches exactly that element; reading character i of a string of n characters succeeds exactly for 0 <= i < n and yields its unsigned byte value. '
  'Any other index raises a bounds error and reads or writes nothing; a non-integer index and a non-indexable object raise their own errors. '
  'Array literals hold their elements in source order, arrays are shared by reference, and the length is the number of elements.',
  ['inputs'], 'every index value, every array and string length, every kind of container and index',
  'Tests index small arrays at a few places; off-by-one and negative indices silently read neighbouring heap cells.',
  ['lib_vm/thread.cpp', 'lib_vm/vm_gc.cpp', 'lib_compiler/codegen.cpp'],
  [('element handlers', 'lib_vm/thread.cpp'), ('array allocation', 'lib_vm/vm_gc.cpp')], ['element values', 'thread error'])
p('C08', 'Integer division can never trap the host process',
  'No integer division or remainder with a zero divisor, or of the most negative integer by -1, is ever executed by the compiler or the virtual machine, whatever values appear in the source text or at run time.',
  ['inputs', 'programs'], 'every division site in the code base, all divisors and dividends',
  'Tests divide by zero only in one spelling; INT_MIN / -1 and compile-time folding are corner cases.',
  ['lib_vm/thread.cpp', 'lib_compiler/optimize.cpp', 'lib_compiler/sema.cpp'],
  [('zero and -1 guards', 'lib_vm/thread.cpp'), ('folding guards', 'lib_compiler/optimize.cpp')], ['process survives'])
p('C09', 'A run-time error stops the thread and is reported',
  'Once an instruction raises an error the thread is finished: it executes no further instruction, and every way of running it (resume, single step, line step, call-once, global initialisation, machine-wide resume) reports failure. '
  'The error that is reported is the first one raised, and the host error callback is invoked for a thread that stops with an error under resume.',
  ['programs', 'histories'], 'every instruction that can fail and every entry point that runs a thread',
  'Tests provoke few errors and look at one entry point.',
  ['lib_vm/thread.cpp', 'lib_vm/vm.cpp', 'lib_vm/thread.h'],
  [('finished and error flags', 'lib_vm/thread.h'), ('run loops', 'lib_vm/thread.cpp'), ('call_once, call_init, resume', 'lib_vm/vm.cpp')], ['return values', 'thread error'])
p('C10', 'Resuming a thread runs at most the granted number of instructions',
  'Resuming a thread with a budget of n instructions executes at most n instructions and fewer only if the thread finishes, fails or is halted; a finished thread executes none. '
  'The cycle counter advances by exactly the number of instructions executed.',
  ['schedules', 'inputs'], 'every budget, every program, every interleaving of resume calls',
  'Tests run programs to completion with large budgets.',
  ['lib_vm/thread.cpp'], [('resume loop', 'lib_vm/thread.cpp')], ['cycle count'])
p('C11', 'Garbage collection preserves every reachable value',
  'A collection, whenever it happens, leaves every value reachable from globals and from the stacks of all live threads with the same kind and content, including nested, shared and cyclic arrays, and shared arrays stay shared. '
  'Collections happen only between instructions, never while an instruction or builtin holds values that are not on a stack.',
  ['histories', 'schedules', 'inputs'], 'every heap shape and every point at which a collection can start',
  'Tests rarely allocate enough to trigger a collection and never with all kinds alive.',
  ['lib_vm/vm_gc.cpp', 'lib_vm/vm.cpp', 'lib_vm/thread.cpp'],
  [('trace', 'lib_vm/vm_gc.cpp'), ('roots', 'lib_vm/vm.cpp'), ('collection points', 'lib_vm/thread.cpp')], ['values after collection'])
p('C12', 'Builtins check their arguments and return the documented results',
  'Every builtin the compiler knows is resolved to the function of that name and accepts exactly its declared number of arguments. '
  'Called with suitable arguments (given in call order) it pushes exactly one result equal to its documented function; with a wrong count or unsuitable kinds it raises an error and pushes nothing.',
  ['inputs', 'programs'], 'every builtin, every argument count, all argument kinds and values',
  'Tests call each builtin with one or two friendly arguments and never indirectly with wrong counts.',
  ['lib_builtins/builtin.cpp', 'lib_compiler/nano.cpp'],
  [('builtin functions', 'lib_builtins/builtin.cpp'), ('registration and resolution', 'lib_builtins/builtin.cpp')], ['builtin results', 'thread error'])
p('C13', 'Calls and returns preserve the caller',
  'A call evaluates its arguments left to right and starts the callee with those arguments and fresh locals; on return the caller continues after the call with its own locals and temporaries intact and exactly the return value added, at any depth of recursion. '
  'Calling through a value checks that the value is a function and that the argument count matches, and returning from the outermost frame finishes the thread.',
  ['programs', 'inputs'], 'every nesting of calls, any number of arguments and locals',
  'Tests use shallow calls with few arguments.',
  ['lib_compiler/codegen.cpp', 'lib_vm/thread.cpp'],
  [('call and return code generation', 'lib_compiler/codegen.cpp'), ('frame handling', 'lib_vm/thread.cpp')], ['program results'])
p('C14', 'Invalid programs are rejected with an error, never compiled',
  'Whatever the source, use of an undeclared name, a second declaration of a name in a scope, redeclaring a function or global, a wrong number of arguments in a direct call, a missing token, a statement outside a function and use of a constant whose initialiser has no constant value are reported as compile errors and produce no program. '
  'Errors found by any phase make the compilation fail and carry the position of the offending token.',
  ['inputs', 'programs'], 'every source text',
  'The negative tests cover one example of some errors.',
  ['lib_compiler/sema.cpp', 'lib_compiler/parser.cpp', 'lib_compiler/nano.cpp', 'lib_compiler/errors.h'],
  [('semantic passes', 'lib_compiler/sema.cpp'), ('phase driver', 'lib_compiler/nano.cpp')], ['compile result', 'error text'])
p('C15', 'Constants are immutable and replaced by their values',
  'A constant can never be assigned, indexed-assigned, used as a loop variable or rebound, in any scope; such programs are rejected. '
  'Every use of a constant compiles to its value, and constants occupy no variable slot.',
  ['programs'], 'every program that declares constants',
  'Tests declare two or three constants and use them in plain expressions.',
  ['lib_compiler/sema.cpp', 'lib_compiler/codegen.cpp', 'lib_compiler/pre_codegen.cpp'],
  [('constant pass', 'lib_compiler/sema.cpp'), ('slot assignment', 'lib_compiler/pre_codegen.cpp')], ['compile result', 'program results'])
p('C16', 'Every compiler pass reaches every part of the syntax tree',
  'Every pass over the syntax tree visits all children of every node kind unless it deliberately stops, so no expression or statement escapes checking, annotation or code generation. '
  'Nodes still referenced by the tree are never freed when unreachable nodes are collected, and replacing a child replaces it in the parent that holds it.',
  ['programs'], 'every tree shape, every node kind, every pass',
  'Tests do not nest every node kind inside every other.',
  ['lib_compiler/ast.h', 'lib_compiler/ast.cpp', 'lib_compiler/sema.cpp', 'lib_compiler/optimize.cpp'],
  [('default traversal', 'lib_compiler/ast.h'), ('node collection', 'lib_compiler/ast.cpp')], ['compile result'])
p('C17', 'A saved program loads back as the same program',
  'Saving a compiled program and loading it into any program object restores the code, string table, builtin names, functions (name, entry, end, argument and local names and slots) and line table exactly. '
  'Any read or write failure, truncation or bad header makes the operation report failure.',
  ['inputs', 'fault_sequences'], 'every program, including empty tables and strings of any length and content, and every truncation point',
  'Tests do not save and load programs at all.',
  ['lib_common/program.cpp', 'lib_common/file.h'],
  [('serial_save and serial_load', 'lib_common/program.cpp'), ('file helpers', 'lib_common/file.h')], ['loaded program', 'return status'])
p('C18', 'The lexer tokenises any input completely and stays inside it',
  'For any source text the lexer never reads past the end of the text and terminates, and each keyword (in any letter case), operator, number in the range of its type, string and identifier becomes the token of that name with the text and the line it has in the source. '
  'Comments and blanks produce no tokens, and an unknown character or unterminated string is an error.',
  ['inputs'], 'every source text, including ones ending inside a token',
  'Tests lex complete well-formed programs.',
  ['lib_compiler/lexer.cpp', 'lib_compiler/token.cpp', 'lib_compiler/token.h'],
  [('lexer', 'lib_compiler/lexer.cpp')], ['token stream'])
p('C19', 'Every error and every token has its own correct name',
  'The text for each run-time error and each token kind is defined for every one of them and names that error or token, so no report shows a wrong or missing name. A compile error that names a token shows the text of the token it complains about.',
  ['inputs'], 'every error code and token kind',
  'Tests print a few of them.',
  ['lib_vm/thread_error.cpp', 'lib_compiler/token.cpp', 'lib_common/instructions.cpp'],
  [('name tables', 'lib_vm/thread_error.cpp'), ('token names', 'lib_compiler/token.cpp')], ['error text'])
p('C20', 'Machine-wide resume schedules every thread fairly and frees it once',
  'Each machine-wide resume in which no thread fails gives every unfinished, non-waiting thread one slice of the granted cycles, lowers the wait count of waiting threads by one instead, and removes finished threads exactly once without touching them afterwards; a failing slice ends it with failure. '
  'Threads created during a slice are kept and first run in a later resume, and the machine reports finished only when all of its threads are and an error when any thread failed.',
  ['schedules', 'histories'], 'every number of threads and every history of waits, finishes and creations',
  'Tests run one or two threads.',
  ['lib_vm/vm.cpp', 'lib_vm/vm.h'], [('resume loop and thread list', 'lib_vm/vm.cpp')], ['thread progress'])
p('C21', 'Distinct variables never share storage while both are live',
  'Arguments, locals and globals of a function get slots such that two variables that are in scope together never share one, every slot lies inside the space reserved for the frame or the globals, and reads and writes of a variable use its own slot. '
  'A local without initialiser starts as none every time its declaration runs.',
  ['programs'], 'every program: any number and nesting of scopes, arguments and globals',
  'Tests have few variables per function.',
  ['lib_compiler/pre_codegen.cpp', 'lib_compiler/codegen.cpp', 'lib_vm/thread.cpp'],
  [('slot assignment', 'lib_compiler/pre_codegen.cpp'), ('variable access', 'lib_compiler/codegen.cpp')], ['program results'])
p('C22', 'Breakpoints and halting stop a thread without losing work',
  'A thread stops under resume when it reaches a line that has a breakpoint, is not stopped again by that line while it stays on it, and continues exactly where it stopped on the next resume. '
  'A halt requested by a builtin takes effect after the current instruction; line stepping stops at the first instruction of another line, and a removed breakpoint never stops a thread.',
  ['schedules', 'histories'], 'every set of breakpoints and every resume history',
  'No test sets a breakpoint in more than one place.',
  ['lib_vm/thread.cpp', 'lib_vm/thread.h'], [('breakpoint check', 'lib_vm/thread.cpp')], ['halt state', 'source line'])
p('C23', 'Expressions parse by precedence and left associativity',
  'Every operator sequence is grouped by precedence - from loosest to tightest: and/or, not, comparisons, + and -, then * / %, then unary minus, calls and subscripts - with equal precedences grouped left to right, and parentheses override it, whatever the length and nesting of the expression. '
  'Operands keep their source order.',
  ['inputs', 'programs'], 'every expression',
  'Tests check few operator combinations.',
  ['lib_compiler/parser.cpp'], [('operator stack', 'lib_compiler/parser.cpp')], ['program results'])
p('C24', 'Names resolve to the innermost declaration in scope',
  'A use of a name refers to the innermost enclosing declaration that precedes it: block, then function arguments, then globals and functions; leaving a block ends the scope of its names. '
  'A name declared in one branch, block or function is never visible in another.',
  ['programs'], 'every nesting of scopes',
  'Tests shadow names in one or two shapes.',
  ['lib_compiler/sema.cpp'], [('scope stack', 'lib_compiler/sema.cpp')], ['program results', 'compile result'])
p('C25', 'Imports load each file once and line lookup returns the right line',
  'Importing a file already loaded under the same path (letter case and slash direction do not matter) has no effect, so import cycles and diamonds end and declare nothing twice; every other file that can be read is compiled exactly once, whichever file imports it, and one that cannot be read is a compile error. Import paths are resolved relative to the directory of the importing file. '
  'Asking for line n (from 1) of a source returns exactly the text of that line up to and with its newline, and nothing for lines past the last.',
  ['inputs', 'configurations'], 'every import graph and every source text',
  'Tests import at most one file.',
  ['lib_common/source.h', 'lib_common/source.cpp', 'lib_compiler/nano.cpp', 'lib_compiler/parser.cpp'],
  [('source manager', 'lib_common/source.cpp'), ('get_line', 'lib_common/source.cpp')], ['loaded sources'])
p('C26', 'Every instruction maps to the source line it came from',
  'Every instruction emitted for a construct of the source is recorded with the file and line of a token of that construct (the implicit return of a function with the line of its end); only the jump over an else branch, code the optimiser made and the frame code of @init have no line. '
  'Asking for the line of a code position answers with its own entry and never with that of another position, also after the program was saved and loaded, and after a run-time error the thread reports the line of the instruction that failed.',
  ['programs'], 'every code position of every program',
  'Tests look up few positions.',
  ['lib_common/program.h', 'lib_common/program.cpp', 'lib_compiler/program_builder.cpp', 'lib_compiler/codegen.cpp'],
  [('line table', 'lib_common/program.cpp'), ('set_line', 'lib_compiler/program_builder.cpp')], ['reported lines'])
p('C27', 'Host handlers are consulted correctly for unsupported operations',
  'When the host installs a handler for arithmetic, equality, element or member access, it is called with the operands in source order exactly when the machine itself has no meaning for them (element handlers: always first), and never otherwise. '
  'If the handler reports that it handled the operation no error is raised and nothing else is pushed; otherwise the machine raises the usual error.',
  ['inputs', 'configurations'], 'every handler, all operand kinds, both handler outcomes',
  'Tests install one or two handlers.',
  ['lib_vm/thread.cpp', 'lib_vm/vm.h'], [('handler calls', 'lib_vm/thread.cpp')], ['handler arguments', 'thread error'])
p('C28', 'Programs are parsed to the structure they describe',
  'For every sequence of tokens the parser either builds exactly the tree the grammar describes (declarations, functions with their parameters in order, statements with their conditions, bodies, targets and operands, every list complete and in source order) or rejects the program with an error; '
  'a missing, extra or misplaced token is never ignored, and blank lines between statements and around bodies never change the result.',
  ['inputs', 'programs'], 'every token sequence',
  'Tests parse a few dozen programs and few malformed ones.',
  ['lib_compiler/parser.cpp', 'lib_compiler/ast.h'], [('statement parser', 'lib_compiler/parser.cpp')], ['compile result', 'program results'])
p('C29', 'Literals and names evaluate to exactly what is written',
  'A literal evaluates at run time to a value of its own kind with exactly its value: the integer, the float, every character of the string, or none. '
  'The name of a function or builtin, used as a value or called, and the name of a member always denote exactly the function, builtin or member with that name, however many strings, functions and builtins the program uses.',
  ['inputs', 'programs'], 'every literal and name, every number of strings and builtins',
  'Tests use few literals, mostly small, and short string tables.',
  ['lib_compiler/codegen.cpp', 'lib_compiler/program_builder.h', 'lib_vm/thread.cpp', 'lib_vm/vm_gc.cpp', 'lib_vm/value.cpp'],
  [('literal emission', 'lib_compiler/codegen.cpp'), ('string table', 'lib_compiler/codegen.cpp'), ('value construction', 'lib_vm/vm_gc.cpp')], ['program results'])
p('C30', 'Global variables start with their initial values, in declaration order',
  'Whatever top-level declarations a program has and in whatever mix, running its initialisation evaluates the initialiser of every global that has one exactly once, in declaration order, and stores it in that global; '
  'every other global starts as none, whatever the machine held before. The host can start the initialisation without knowing anything but the program, and it is reported as done only when it has finished without an error.',
  ['programs', 'inputs'], 'every sequence of top-level declarations, every kind of initialiser',
  'Tests declare one to three globals with literal initialisers.',
  ['lib_compiler/pre_codegen.cpp', 'lib_compiler/codegen.cpp', 'lib_vm/vm.cpp', 'lib_vm/thread.cpp'],
  [('initialiser gathering', 'lib_compiler/pre_codegen.cpp'), ('global space', 'lib_vm/thread.cpp'), ('initialiser start', 'lib_vm/vm.cpp')], ['program results', 'return value of call_init'])
p('C31', 'Functions and builtins are found exactly under their names and addresses',
  'After compilation the program lists every function of the source exactly once, under its own name, with its parameters in order and the names and slots of its parameters and locals, and every builtin that was declared exactly once and not as a function. '
  'Looking a function up by name or by code address yields exactly the function with that name or containing that address, or nothing if there is none; binding a builtin by name changes the entry of exactly that name and reports whether it exists.',
  ['programs', 'inputs'], 'every set of functions and builtins, every name and address asked for',
  'Tests look up a handful of names that are not prefixes of each other and never an address at the edge of a function.',
  ['lib_compiler/pre_codegen.cpp', 'lib_common/program.cpp', 'lib_common/program.h', 'lib_compiler/program_builder.h'],
  [('function table', 'lib_compiler/pre_codegen.cpp'), ('lookup', 'lib_common/program.cpp'), ('builtin binding', 'lib_common/program.cpp')], ['function_find', 'syscall_resolve', 'functions()'])
p('C32', 'Starting over leaves nothing behind',
  'Resetting a program, a compiler or a machine, and preparing a thread, from whatever state it is in (after an error, a halt, a wait, an unfinished run or a failed build) leaves it as if newly made: '
  'no code, table, syntax tree, token, global, thread, heap value, stack value, frame, error, halt, wait or cycle count of before has any effect on what is done next. Clearing a build error clears both its text and its line.',
  ['inputs', 'histories'], 'every state before the reset',
  'Tests make a new compiler and machine for every case and never reset one.',
  ['lib_common/program.cpp', 'lib_compiler/nano.cpp', 'lib_compiler/ast.cpp', 'lib_compiler/errors.h', 'lib_vm/vm.cpp', 'lib_vm/vm_gc.h', 'lib_vm/thread.cpp'],
  [('program reset', 'lib_common/program.cpp'), ('compiler reset', 'lib_compiler/nano.cpp'), ('machine reset', 'lib_vm/vm.cpp'), ('thread preparation', 'lib_vm/thread.cpp')],
  ['state after reset', 'results of the next build or run'])
p('C33', 'The command line tools report what became of the program',
  'The driver ends with exit status zero exactly when every source given was loaded, the program was built, main was found, the globals were initialised and main ran without an error. '
  'Nothing is built, initialised or run after an earlier step failed. Sources are loaded in the order they are given. Builtins are bound before anything runs, globals are initialised before main, and the value main returned is the one printed. '
  'The same holds for the SDL driver, which runs main in slices. The compiler tool ends with status zero exactly when its sources were loaded and built, and each of its options (-n, -a, -d, -b) has its own effect, in any order, and no other: no optimisation, the syntax tree, the disassembly and the binary code, each complete and in its own file; nothing is written that was not asked for.',
  ['inputs', 'faults'], 'every command line, and every step of it succeeding or failing',
  'No test runs main of either tool: they link the libraries, so exit statuses, options and the order of the steps are never exercised.',
  ['driver/driver.cpp', 'comp/driver.cpp', 'driver_sdl/driver.cpp'],
  [('driver main', 'driver/driver.cpp'), ('compiler main', 'comp/driver.cpp')],
  ['exit status', 'standard output', 'files written'])

p('C34', 'The builtins of the drivers keep to what was declared of them',
  'Every builtin a driver declares to the compiler is bound to a function of the program before it runs. Called with its declared number of arguments, of any kind, such a builtin takes exactly these from the stack and leaves exactly one result, unless it raises an error. '
  'Called with any other number of arguments, which an indirect call can do, it raises an error instead of taking values that belong to its caller.',
  ['inputs', 'programs'], 'every builtin of the command line driver and of the SDL driver, with any number of arguments of any kind, on every path through it',
  'No test runs a driver, and a wrong balance of one path of one builtin shows only in what its caller finds on the stack afterwards.',
  ['driver/driver.cpp', 'driver_sdl/driver.cpp'],
  [('driver builtins', 'driver/driver.cpp'), ('SDL driver builtins', 'driver_sdl/driver.cpp')],
  ['value stack after the call', 'thread error'])


NA = {}
CLAIMED = {}


def main():
    import re
    have = {f[:-3].upper() for f in os.listdir(ROOT + '/sa/checks') if re.match(r'c\d\d\.py$', f)}
    tech = json.load(open(ROOT + '/tools/technique.json'))
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for x in PROPS:
            f.write(json.dumps(x) + '\n')
    checks, na = [], []
    for x in PROPS:
        i = x['id']
        if i in have and i in tech:
            checks.append(dict(property=i, level='other', technique=tech[i][0], level_note=tech[i][1], quick_cmd='python3 sa/check.py ' + i,
                               thorough_cmd='VERIF_TIER=thorough python3 sa/check.py ' + i, evidence_file='evidence/%s.json' % i))
        else:
            na.append(dict(property=i, reason=tech.get('NA', {}).get(i, 'check not built yet')))
    return checks, na


if __name__ == '__main__':
    checks, na = main()
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
    json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
