LEVEL = {}
BASE = ('Trusted: the extraction and the model of Python in dv/ (cross-checked: every task also runs natively against the unmodified '
        'package), z3, and the specification in spec/ and tasks/. A task the verifier cannot decide falls back to native random runs, '
        'is reported as a bounded stand-in in the evidence and never counted as proved; on the unchanged tree there is none. ')
FIXED = 'Tasks listed under bounded_tasks in the evidence are decided for all values within the bound they state and are counted apart. '
NOTE = {
 'C01': 'Proved for every operation at every width: results in range, operands unchanged, later in-place changes of a result do not reach an operand. ' + FIXED + BASE,
 'C02': 'Every width (one integer variable for each width) for + - * //, their in-place and reflected forms, with bit string, integer, text and sequence operands; per-width repetitions are bounded tasks. ' + FIXED + BASE,
 'C03': 'Every width for & | ^ ~ << >> as integer operations on the values (the bit operation itself is the integer operator of Python); negative integer operands and the bit-by-bit reading of them are bounded tasks at the stated widths. ' + FIXED + BASE,
 'C04': 'Every width, position and slice for concatenation, indexing, slicing with step 1, 2, 3, 8, -1, -2 and -5, bit and slice assignment, iteration (loop invariant); slices with another step are bounded tasks. ' + FIXED + BASE,
 'C05': 'Every width, reversal included (loop contract on the joined text). ' + FIXED + BASE,
 'C06': 'Every width and every length of text, digit or byte sequence, in both directions, through loop invariants. ' + FIXED + BASE,
 'C07': 'Every width for the six comparisons with bit strings, integers, text and unrelated objects, hashing and truth. ' + FIXED + BASE,
 'C08': 'Every width for bit_count, lowest and highest set bit (loop invariants), is_zero, is_one and indexing. ' + FIXED + BASE,
 'H01': 'Every width, value and carry; Align for every alignment that is a power of two. ' + FIXED + BASE,
 'H02': 'Every width and every distance for LSL LSR ASR ROR RRX, with and without carry out, and for Shift/Shift_C. ' + FIXED + BASE,
 'H03': 'All 2**12 constants with both carries and all shift types and amounts: the whole domain. ' + BASE,
 'U01': 'Every length of the byte, halfword and word lists and every offset (loop invariants), every bit field of every integer, hamming weight of every integer. ' + FIXED + BASE,
 'D01': 'Proved for every pattern the instruction set registers, over all words; other patterns come from a generator (bounded tasks: that many patterns, each over all words). ' + FIXED + BASE,
 'D02': 'Proved for the real decoder over all words, any history of earlier decodes being an arbitrary earlier decode whose results are kept; trees built from other encodings are generated (bounded tasks). ' + FIXED + BASE,
 'D03': 'All 2**16 halfwords, symbolically, against the decode table of spec/thumb.py (written from the Arm manual). ' + BASE,
 'D04': 'All words with a 32-bit prefix, symbolically, against the decode table of spec/thumb.py; encodings flit/cmdis does not have must be refused. ' + BASE,
 'S01': 'Data of any length: one step of the disassembly loop from an arbitrary state satisfying its invariant; short inputs with every byte value are repeated without the invariant (bounded tasks). ' + FIXED + BASE,
 'X01': 'All operands, flags, register contents and encodings fields. Known finding: PC as a source operand of add (t2). ' + BASE,
 'X02': 'All operands, flags, register contents and encoding fields. Known finding: PC as a source operand of mov. ' + BASE,
 'X03': 'All operands, flags, register contents and encoding fields. ' + BASE,
 'X04': 'All flags, offsets, register contents and addresses. Known finding: bx pc. ' + BASE,
 'X05': 'All register contents, offsets and memory contents (memory as an array theory). UNPREDICTABLE register choices may be refused. ' + BASE,
 'X06': 'All register lists, base addresses and memory contents; the transfer loop is followed for each of its at most 16 registers. ' + BASE,
 'X07': 'All register contents, modes and masks. ' + BASE,
 'X08': 'Every encoding: executing or printing from an arbitrary state, then again, against an untouched decode of the same word. ' + BASE,
 'F01': 'Every encoding, printed symbolically, against the operands read from execution specification: mnemonic, condition, registers, immediates, labels, lists. ' + BASE,
 'M01': 'All register numbers, names and values; histories are reduced to one write after an arbitrary state. ' + BASE,
 'M02': 'Any number of regions (loop invariant on the search), any contents, address, size and block length; 0-3 explicit regions and two-write sequences are bounded tasks. ' + FIXED + BASE,
 'M03': 'One write from an arbitrary state (an inductive step over all histories); explicit sequences of 3 and 4 writes are bounded tasks. ' + FIXED + BASE,
 'T01': 'Commands with symbolic addresses, values, registers and memory; the shape of the command line is enumerated, and lists of values and dump lengths are bounded as stated. ' + FIXED + BASE,
}
DEFAULT = BASE
