"""C21: distinct variables never share storage while both are live."""
import nodespec, insem, linkspec, nests, slots, frame

EXPLAIN = (
    'Slot assignment: the pass that numbers variables is analysed node kind by node kind under the contract "a subtree '
    'never ends with a lower next free slot, and the frame size is never below it", which every visit method is shown to '
    'keep; declarations take the next free slot, statements of a block keep the slots of their predecessors, argument i '
    'of n is slot i-n, globals take consecutive numbers.  The code generated for reads, writes and declarations uses the '
    'slot of its own declaration and the frame reserved by LOCALS/RET has the recorded size; the variable instructions '
    'of the interpreter access exactly frame base + slot (or the global of that number), inside the reserved space.  The whole phase is also analysed on every function body of up to four statements '
    '(locals, if, else, while, for, nested up to three deep) and on deeper mixes: locals live together never share a slot and every slot lies inside the frame.')


def run(ctx, R):
    n = nodespec.decide(ctx, R, 'C21')
    R.floor('variable constructs', n, 8)
    frame.guard(R, slots.run, ctx, R)
    frame.guard(R, nests.run, ctx, R)
    frame.guard(R, linkspec.run, ctx, R, 'C21')
    frame.guard(R, insem.variables, ctx, R)
