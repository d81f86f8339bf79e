"""C02: the code of every expression leaves exactly one value, the code of every statement leaves none."""
import nodespec, insem, linkspec

EXPLAIN = (
    'The emission of the code generator for every AST node kind is extracted from its LLVM IR (positions, bytes and '
    'fix-ups as linear terms, children abstracted by "emits its own code"), decoded with the operand lengths the '
    'interpreter reads, and walked over all control paths with the stack effects of the interpreter; the operand stack '
    'height must be unique per instruction, never drop below the construct\'s start and end at +1 (expression) or 0 '
    '(statement).  The stack effect of every instruction is decided on the interpreter for all operand kinds.')


def run(ctx, R):
    n = nodespec.decide(ctx, R, 'C02')
    R.floor('code generator constructs', n, 30)
    insem.heights(ctx, R)
    linkspec.functions(linkspec.Link(ctx), R, 'C02')
