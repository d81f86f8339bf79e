"""C03: statements execute in the documented order (control flow)."""
import nodespec, insem

EXPLAIN = (
    'The code emitted for if/else, while, for, return, blocks and expression statements is extracted from the code '
    'generator, fix-ups applied, and walked as the interpreter would; the automaton of observable events (evaluations '
    'of sub-trees, stores, branches on values, return) must be equal to the specification automaton of the statement.  '
    'The jump instructions themselves are analysed in the interpreter for every operand kind.')


def run(ctx, R):
    n = nodespec.decide(ctx, R, 'C03')
    R.floor('statement kinds', n, 7)
    insem.jumps(ctx, R)
