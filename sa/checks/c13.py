"""C13: calls and returns preserve the caller."""
import nodespec, insem, linkspec

EXPLAIN = (
    'Call expressions and returns: the emitted skeletons (arguments left to right, callee, argument count, frame size) '
    'are compared with their specification automata; entry addresses, fix-ups of call operands and the frame size '
    'reserved/discarded by every function are decided on the generator; the CALL, RET, ICALL and SCALL handlers and '
    'thread_t::prepare are analysed in the interpreter for every operand kind (frame base, return address, stack '
    'height, next instruction, argument-count and kind checks, finishing at the outermost frame).')


def run(ctx, R):
    n = nodespec.decide(ctx, R, 'C13')
    R.floor('call and return constructs', n, 4)
    linkspec.run(ctx, R, 'C13')
    insem.calls(ctx, R)
    insem.prepare(ctx, R)
