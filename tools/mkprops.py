"""Writes /verif/properties.jsonl (the texts live here so that they are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['cmdis/' + f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

BS = [('width/value/mask', 'a bit string holds a width and an unsigned value below 2**width', 'cmdis/bitstring.py')]

p('C01', 'Bit strings stay in range and operators never change their operands',
  'Whatever sequence of public operations built or changed it, a bit string always has 0 <= unsigned value < 2**width, and its mask is 2**width - 1. Only the in-place operators, item and slice assignment, the value and width setters, set(), reverse() and invert() change a bit string, and they change only the one they are applied to. Every other operation (operators including ~, signed/inverted/reversed and other properties, comparisons, hashing, slicing, extension, queries, rendering, iteration) leaves every operand exactly as it was and gives the same answer when repeated.',
  ['inputs', 'histories'], 'every width, every value, every operand kind (bit string, integer, binary text) and every order of operations',
  'tests call each operation once on a few fixed literals and never look at the operands afterwards',
  ['bitstring.py'], [('every public operation of the bit string type', 'bitstring class')],
  ['width, unsigned and mask of operand and result before and after each operation'], BS)
p('C02', 'Bit string arithmetic is integer arithmetic modulo 2**width',
  'For every width, x + y, x - y, x * y and x // y give the integer result on the unsigned values reduced modulo 2**(width of the left operand), with the width of the left operand, where y may be a bit string, an integer or binary text; an integer or text on the left is first turned into a bit string. The in-place forms give the same value in the same object, also when both operands are the same object. Division by zero raises ZeroDivisionError.',
  ['inputs'], 'all widths, all values of both operands, all operand kinds, both operand orders, in-place and not',
  'tests use a handful of small literals, never a wrap-around at an unusual width or a shared operand',
  ['bitstring.py'], [('+ - * // with their reflected and in-place forms', 'bitstring class')], ['value and width of the result'], BS)
p('C03', 'Bit string logic, inversion and shifts act bit by bit at the left width',
  'For every width, bit k of x & y, x | y, x ^ y is the and/or/exclusive-or of bit k of both operands for k below the width of the left operand, whatever the width of the right operand, which may be a bit string, a non-negative integer or binary text. ~x and x.inverted flip exactly the bits of x at its own width. x << n and x >> n move bits by n places with zero fill and keep the width of x, and the in-place forms give the same result in the same object.',
  ['inputs'], 'all widths, all values, all shift distances >= 0, all operand kinds',
  'tests try a few 8-bit literals and never mix widths or shift beyond the width',
  ['bitstring.py'], [('& | ^ ~ << >> with reflected and in-place forms, inverted, invert()', 'bitstring class')], ['value and width of the result'], BS)
p('C04', 'Concatenation, indexing, slicing and slice assignment agree bit for bit',
  'x % y has width len(x) + len(y) with y in the low bits and x above it (y may be a bit string, binary text, a sequence of bits, or 0/1). x[i] is the one-bit string of bit i counted from the least significant bit, negative i counting from the top; x[a:b] holds bits a..b-1 in order, following the usual slice rules for missing, negative or too large bounds and for steps; iteration yields the bits from the least significant upwards. x[i] = v and x[a:b] = v replace exactly those bits (v truncated to the field) and leave all other bits and the width alone; an index outside the width raises IndexError on assignment.',
  ['inputs'], 'all widths and values, all index and slice bounds including negative, missing and too large, all steps for reading, all assigned values',
  'tests slice a few literals; neighbours of an assigned field and boundary indices are hardly sampled',
  ['bitstring.py'], [('%, get_bit, indexing, slicing, assignment, iteration', 'bitstring class')], ['bits of the result and of the target'], BS)
p('C05', 'Extension, resizing and reversal preserve the represented value',
  'For every width w >= 1 and new width n >= w, sign_extend(n) has the same signed value (two\'s complement), zero_extend(n) the same unsigned value, and both have width n; n < w raises ValueError. Setting width keeps the low bits and clears everything above, setting value keeps the width and reduces modulo 2**width, set(y) copies width and value. reversed/reverse() put bit i at position w-1-i, and doing it twice gives back the original; invert() twice does too.',
  ['inputs'], 'all widths, all values, all target widths', 'tests use single small widths; sign bits at odd widths and repeated application are not sampled',
  ['bitstring.py'], [('sign_extend, zero_extend, width and value setters, set, reverse, reversed, invert', 'bitstring class')], ['width, unsigned, signed'], BS)
p('C06', 'Bit strings convert to and from integers, text, bits and bytes without loss',
  'A bit string built from an integer with a width holds the integer modulo 2**width (default width 32, or 64 when the integer needs more than 32 bits), from binary text or a sequence of bits it holds exactly those digits most significant first, from a bytearray the little-endian value with 8 bits per byte, and an optional width truncates or zero-fills. binary_string, the base 2, 8, 10 and 16 renderings, bytes, int() and indexing use give back that value in full, so rebuilding from binary_string or from bytes with the width gives an equal bit string. unsigned is the value itself and signed its two\'s complement reading for every width >= 2.',
  ['inputs'], 'all widths including 0, all integers (also negative and huge), all digit strings, all byte strings',
  'tests build a dozen literals; widths that are not multiples of 4 or 8, the 32/64 boundary and empty inputs are missing',
  ['bitstring.py'], [('constructor, binary_string, base_string, bytes, signed, unsigned', 'bitstring class')], ['value, width, text and bytes'], BS)
p('C07', 'Bit string comparison, equality, hashing and truth are consistent',
  'Two bit strings are equal exactly when width and value are equal, equal ones hash alike, and < <= > >= form one total order (value first, then width) that agrees with == and !=. Against an integer the unsigned value is compared, or the signed value if the integer is negative; against binary text the text is read as a bit string. Comparing with an unrelated type gives unequal for == and != and TypeError for ordering, and a bit string is true exactly when its value is non-zero.',
  ['inputs'], 'all pairs and triples of bit strings, integers and texts of any width', 'order laws quantify over all pairs and triples; tests compare a few literals and never ask for truth or hashes of computed values',
  ['bitstring.py'], [('rich comparisons, hash, truth', 'bitstring class')], ['results of comparisons, hash() and bool()'], BS)
p('C08', 'Bit queries describe the value exactly',
  'For every bit string: bit_count is the number of one bits; lowest_set_bit and highest_set_bit are the smallest and largest position of a one bit (width and -1 for zero); is_zero/is_ones and their one-bit forms tell whether no/every bit is set; get_bit and get_bit_value return the addressed bit. len() is the width, and zeros(n)/ones(n) are the n-bit strings of all zeros/all ones.',
  ['inputs'], 'all widths and all values', 'tests check a few literals; loops over the width are only run at one or two widths',
  ['bitstring.py'], [('bit_count, lowest_set_bit, highest_set_bit, is_zero, is_ones, zeros, ones', 'bitstring module')], ['returned numbers and bits'], BS)

p('H01', 'AddWithCarry and Align follow the Arm definition for every width',
  'AddWithCarry(x, y, c) on equal widths w returns (x + y + c) mod 2**w with width w, carry 1 exactly when the unsigned sum does not fit in w bits, and overflow 1 exactly when the signed sum does not fit (w >= 2). Align(v, a) for a power of two a is the largest multiple of a not above v, as a bit string of the same width for a bit string and as an integer for an integer. Neither changes its arguments.',
  ['inputs'], 'all widths, all operands and carries, all power of two alignments', 'only a few sums are tested; carry and overflow boundaries are a measure-zero set of the inputs',
  ['helpers.py', 'bitstring.py'], [('AddWithCarry', 'helpers'), ('Align', 'helpers')], ['returned triple and aligned value'])
p('H02', 'Shift and rotate helpers follow the Arm definition including carry out',
  'For every width w and shift n >= 0, LSL, LSR, ASR, ROR and RRX return the Arm pseudocode result of width w, and the _C forms (n >= 1) also the last bit shifted out as carry, for distances beyond w too. Shift and Shift_C dispatch on the shift type, and with amount 0 or type None return the value and the given carry unchanged. No argument is changed.',
  ['inputs'], 'all widths, values, shift distances, shift types and carry-in bits', 'tests try a few 8-bit and 32-bit values; distances of exactly w, above w and multiples of w are barely touched',
  ['helpers.py', 'bitstring.py'], [('LSL LSR ASR ROR RRX and _C forms, Shift, Shift_C', 'helpers')], ['returned value and carry'])
p('H03', 'Thumb immediate and shift decoding follows the Arm tables',
  'DecodeImmShift maps every 2-bit type and 5-bit amount to the Arm shift type and distance (LSR/ASR 0 means 32, ROR 0 means RRX by 1). ThumbExpandImm maps each of the 4096 12-bit codes to the Arm 32-bit constant, and ThumbExpandImm_C also gives the carry: unchanged for the plain and replicated forms, bit 31 of the constant for the rotated forms.',
  ['inputs'], 'all 128 shift codes and all 4096 immediate codes with both carries', 'tests sample some codes of each class only',
  ['helpers.py', 'bitstring.py'], [('DecodeImmShift, ThumbExpandImm, ThumbExpandImm_C', 'helpers')], ['returned constants, carries, types and distances'])
p('U01', 'Byte, halfword and word conversions are inverse little-endian mappings',
  'bytes_to_le16/32 at any offset and byteListToU16leList/byteListToU32leList give the little-endian value of the addressed bytes, le16/32_to_bytes and u16leListToByteList/u32leListToByteList the bytes of the value modulo 2**16 or 2**32, and each pair is inverse for lists of every length. bfx(v, msb, lsb) extracts and bfi(v, f, msb, lsb) replaces exactly bits msb..lsb (msb alone means that one bit, lsb may be 0), leaving all other bits. hamming_weight, bitmask, wmask and invert32 give the stated counts and masks.',
  ['inputs'], 'all byte lists of any length, all integers, all bit ranges', 'the list helpers and bit field helpers have no tests at all',
  ['utilities.py'], [('byte and bit field helpers', 'utilities')], ['returned numbers, lists and byte arrays'])

p('D01', 'Encoding patterns match exactly the bits they spell out',
  'An encoding pattern of literal bits, one-bit fields NAME, sized fields NAME(n) and fixed-value fields NAME=bits, with blanks anywhere between, yields 16 bits in which the literal and fixed-value bits are required and the rest are free. A word is accepted by an encoding exactly when it agrees with all required bits of its one or two patterns. Every named field is handed to the instruction as a bit string of the declared width holding exactly the word bits at the position where the pattern puts it.',
  ['inputs', 'programs'], 'all well-formed 16-bit patterns and pattern pairs, all words', 'tests parse about ten patterns and never relate field positions to word bits',
  ['decoder.py', 'instructions.py'], [('pattern parser', 'decoder'), ('mask/match/field computation', 'decoder')], ['accepted words and field values'],
  [('mask/match/fields', 'required bits and field positions of an encoding', 'cmdis/decoder.py')])
p('D02', 'Decoding is a pure function that picks the most specific matching encoding',
  'For any set of registered encodings and any byte string of at least 2 bytes, decoding either returns an instruction or raises UndefinedInstructionError or UnpredictableError, nothing else. The instruction comes from a matching encoding (32-bit ones exactly for first halfwords starting 11101, 11110 or 11111, reading 4 bytes) with the largest number of required bits whose handler does not decline, and the undefined error is raised exactly when there is none or too few bytes. The answer depends only on the bytes, their address and the registered encodings, never on earlier decoding, and no decode changes later ones.',
  ['inputs', 'histories', 'configurations'], 'all halfwords and words, any decode history, arbitrary sets of encodings', 'tests decode some words once each with a fresh process and a fixed table, and never an undefined one twice',
  ['decoder.py', 'disasm.py'], [('decoder tree construction and walk', 'decoder')], ['returned instruction or error'],
  [('decoder tree', 'masks and children', 'cmdis/decoder.py')])
p('D03', 'Every 16-bit halfword decodes to the Thumb instruction the Arm manual gives',
  'For all 65536 halfwords, the decoder accepts exactly the supported 16-bit Thumb encodings and the printed mnemonic, registers, immediates, register lists, memory operands and branch labels are the ones the Armv7-M manual assigns to those bits. Halfwords outside the supported encodings are reported undefined, and register lists or flag sets the manual calls unpredictable (empty lists, cps with no flags) are reported unpredictable.',
  ['inputs'], 'all 65536 halfwords, any instruction address', 'tests decode about one word per encoding; field order and boundary fields are not covered',
  ['instructions.py', 'decoder.py', 'formatter.py', 'helpers.py', 'registers.py'], [('16-bit encoding table and handlers', 'instructions')], ['formatted text'])
p('D04', 'Every 32-bit word decodes to the Thumb-2 instruction the Arm manual gives',
  'For all 32-bit words with a 32-bit prefix, the decoder accepts exactly the supported 32-bit encodings and the printed mnemonic, registers, modified immediates, shifts, register lists, special registers and branch labels are the ones the Armv7-M manual assigns to those bits. Other words are reported undefined, and register choices that the decoder checks and the manual calls unpredictable are reported unpredictable.',
  ['inputs'], 'all 32-bit words (over 400 million prefixes), any instruction address', 'the space is far beyond enumeration; most wide encodings have at most one test or a TODO',
  ['instructions.py', 'decoder.py', 'formatter.py', 'helpers.py', 'registers.py'], [('32-bit encoding table and handlers', 'instructions')], ['formatted text'])
p('S01', 'Disassembly tiles the input in order without gaps or overlaps',
  'Disassembling a byte string at a start address yields instructions whose address is the start plus the bytes consumed before it, each decoded from exactly the bytes at that place, the next one following immediately after its size of 2 or 4 bytes. It stops quietly at the end, or when fewer than 4 bytes remain that do not decode, and otherwise raises UndefinedInstructionError at the first undecodable place, after yielding all instructions before it. Each yielded instruction reproduces its own bytes.',
  ['inputs', 'histories'], 'all byte strings of every length (also odd), all start addresses', 'tests disassemble single instructions; lengths, mixed sizes and tails are not covered',
  ['disasm.py', 'decoder.py'], [('disassembly loop', 'disasm')], ['sequence of instructions with address, size and bytes'])

EX = 'all field values, all register contents, flags and memories'
WHY = 'tests execute one or two register values per encoding; results, flags and untouched state over all inputs are not sampled'
p('X01', 'Add, subtract, reverse subtract and compare compute the Arm result and flags',
  'Executing ADD/ADC/SUB/SBC/RSB in all supported forms writes the destination with the 32-bit Arm result, and flag-setting forms as well as CMP and CMN set N, Z, C, V to the Arm values while the others leave the flags alone. ADR writes the word-aligned PC plus or minus its offset. The PC advances by the instruction size, every other register, flag and memory byte is unchanged, and executing the same decoded instruction again behaves the same way.',
  ['inputs', 'histories'], EX, WHY, ['instructions.py', 'helpers.py', 'bitstring.py', 'model.py'], [('add/sub/compare execution', 'instructions')], ['registers, flags and memory after execution'])
p('X02', 'Move, logic, test, multiply, extend and byte-reverse compute the Arm result',
  'Executing MOV/MOVW/MVN, AND/EOR/ORR/BIC/TST, MUL, SXTB/SXTH/UXTB/UXTH and REV/REV16/REVSH in all supported forms writes the destination with the 32-bit Arm result, and flag-setting forms set N and Z from the result (and C from the shifter or modified immediate where the manual says so), leaving V and other flags alone. The PC advances by the instruction size and everything else is unchanged. A move to the PC through the register form branches instead.',
  ['inputs'], EX, WHY, ['instructions.py', 'helpers.py', 'bitstring.py', 'model.py'], [('move/logic/extend execution', 'instructions')], ['registers, flags and memory after execution'])
p('X03', 'Shift and rotate instructions compute the Arm result and carry',
  'Executing LSL/LSR/ASR by immediate and LSL/LSR/ASR/ROR by register writes the shifted value, sets N and Z from it and C to the last bit shifted out, keeping C for a distance of 0, for all 256 register distances (low byte of the register). V, other registers and memory are unchanged and the PC advances by 2.',
  ['inputs'], EX, WHY, ['instructions.py', 'helpers.py', 'bitstring.py', 'model.py'], [('shift execution', 'instructions')], ['registers, flags and memory after execution'])
p('X04', 'Branches are taken exactly on their condition and go to the right address',
  'Conditional branches are taken exactly when the Arm condition holds on N, Z, C, V; a taken branch sets PC to instruction address + 4 + the sign-extended offset modulo 2**32, an untaken one advances PC by 2. BL and BLX put the return address with bit 0 set into LR; BX/BLX go to the register value read before LR is written, with bit 0 cleared. Nothing else changes.',
  ['inputs'], EX, WHY, ['instructions.py', 'bitstring.py', 'model.py'], [('branch execution', 'instructions')], ['PC, LR and all other state after execution'])
p('X05', 'Single loads and stores move exactly the addressed bytes',
  'Every load or store form computes the address modulo 2**32 from base register, offset immediate or shifted register (word-aligned PC for literal loads), and moves 1, 2 or 4 bytes little-endian between memory and the register. Loads zero- or sign-extend to 32 bits into the destination only; stores write only the low bytes of the source into exactly the addressed bytes. Flags, other registers and other memory are unchanged and PC advances by the size (loading the PC branches instead).',
  ['inputs'], EX, WHY, ['instructions.py', 'helpers.py', 'bitstring.py', 'model.py'], [('load/store execution', 'instructions')], ['registers and memory after execution'])
p('X06', 'Push, pop and load/store multiple transfer exactly the listed registers',
  'For every register list, PUSH and STM store the listed registers in ascending order at ascending word addresses (PUSH ending just below the old SP), POP and LDM load exactly the listed registers from ascending addresses, and the base or SP is updated by 4 times the number of registers when write-back applies (LDM without write-back when the base is in the list). Loading the PC branches to the loaded word; otherwise PC advances by the size. No unlisted register, flag or other memory byte changes.',
  ['inputs'], 'all register lists, base registers, register contents and memories', 'tests try a few lists; 2**16 lists times memory contents cannot be enumerated',
  ['instructions.py', 'bitstring.py', 'model.py'], [('push/pop/ldm/stm execution', 'instructions')], ['registers and memory after execution'])
p('X07', 'System, barrier and hint instructions touch only the state the manual names',
  'CPSIE/CPSID clear/set exactly PRIMASK and/or FAULTMASK as selected when execution is privileged and do nothing otherwise. MRS writes the destination with the selected special register (flags, IPSR, MSP/PSP, PRIMASK, BASEPRI, FAULTMASK, CONTROL), reading zero where the manual says so, including stack pointers and masks when unprivileged. NOP-compatible hints and barriers change nothing; all of them advance the PC by their size.',
  ['inputs', 'configurations'], 'all special register numbers, all register contents, privileged and unprivileged', 'system instructions have almost no execution tests',
  ['instructions.py', 'model.py'], [('cps/mrs execution', 'instructions')], ['registers, special registers and flags after execution'])
p('X08', 'Executing or printing a decoded instruction never changes it',
  'Executing or printing a decoded instruction any number of times, in any order, on any processor state, never changes the instruction: it keeps its mnemonic, bytes, size, address and printed text, and executing it again from the same processor state has the same effect. Printing never changes processor state, and an instruction\'s bytes are exactly those it was decoded from.',
  ['inputs', 'histories'], 'all supported instructions with all field values, all processor states, all orders of executing and printing', 'tests execute each decoded instruction once and never look at it afterwards',
  ['instructions.py', 'decoder.py', 'formatter.py', 'bitstring.py', 'helpers.py'], [('instruction execution', 'instructions'), ('operand formatting', 'formatter')], ['instruction text/bytes and effects, before and after'])
p('F01', 'What the disassembly prints is what execution does',
  'The address printed as a comment for a branch or ADR label is the address that executing it produces modulo 2**32, and the relative label text equals that target minus the instruction address. The printed register list of a multi-register transfer names, in ascending order with ranges, exactly the registers transferred. A hexadecimal immediate comment has the same value as the decimal immediate it annotates, appears exactly for immediates above 9, and each line starts with the instruction\'s own halfwords in hexadecimal.',
  ['inputs'], 'all field values, all instruction addresses, all register lists', 'tests check text and execution separately on a few words, never their agreement',
  ['formatter.py', 'instructions.py'], [('operand formatting', 'formatter')], ['formatted text against executed effect'])

p('M01', 'Register names, numbers and the register views address the same registers',
  'Reading or writing a core register by name (any case, with aliases such as r13/sp), by number, through r[n], s[n] or through pc/lr/sp/msp/psp/xpsr gives the same single 32-bit register, and a write is seen by a following read of it and by no other register apart from the stack pointer banking. Reading or writing a flag n, z, c, v accesses exactly bit 31, 30, 29, 28 of xPSR and leaves all other bits; the IPSR view is its low 9 bits. Indexes outside the view raise KeyError and have no effect.',
  ['inputs', 'histories'], 'all registers, names, indices and 32-bit values', 'tests use few registers through one route; aliasing between routes and neighbours is not tested',
  ['model.py', 'registers.py', 'bitstring.py'], [('register interface', 'model'), ('flag views', 'model'), ('name tables', 'registers')], ['values read after writes through every route'])
p('M02', 'Simulated memory is little-endian and stores exactly what was written',
  'In any layout of non-overlapping memory regions, a read of 8, 16 or 32 bits or of a block returns the little-endian composition of the bytes last written there by any access of any size, initially zero. A write changes exactly the addressed bytes (values reduced to the access size) and never the size or extent of a region. Accesses that do not lie completely within a region read as zero and write nothing; block accesses are cut at the region end.',
  ['inputs', 'histories'], 'all region layouts, addresses, sizes, values and sequences of accesses', 'the simulated memory has no direct tests; region edges and mixed sizes are never exercised',
  ['mock_cpu.py', 'utilities.py', 'model.py'], [('memory regions', 'mock_cpu')], ['values read back and bytes elsewhere'],
  [('regions', 'start, end and bytes of each region', 'cmdis/mock_cpu.py')])
p('M03', 'Stack pointer banking and special register write masks hold on every history',
  'After any sequence of register writes in the simulated processor, SP always equals the stack pointer selected by CONTROL bit 1 (MSP when 0, PSP when 1), stack pointers are word aligned, PRIMASK and FAULTMASK hold one bit and BASEPRI eight bits. Writing SP updates only the selected one of MSP and PSP, writing the selected one updates SP, and writing any other register changes nothing else. Every other register reads back the value written.',
  ['inputs', 'histories'], 'all sequences of register writes with any values', 'histories of writes that switch CONTROL between stack pointer writes are not tested',
  ['mock_cpu.py', 'registers.py'], [('register write rules', 'mock_cpu')], ['registers read after each write'],
  [('register file', 'one value per register', 'cmdis/mock_cpu.py')])
p('T01', 'Console commands read, write and step exactly the addressed state',
  'In the interactive console, a read, write, register, disassemble or step command reads or changes exactly the addressed memory or register, with 8, 16 and 32 bit data little-endian, and shows its value. Number arguments in any base, register names and bracketed dereferences with an offset evaluate to the value the documentation gives. A malformed command, unknown register or undecodable instruction is reported without changing the processor state and never ends the console.',
  ['inputs', 'histories'], 'all command lines over all processor states', 'the console has no tests and is not even imported by them',
  ['__main__.py', 'utilities.py', 'model.py', 'mock_cpu.py'], [('console commands', '__main__')], ['printed text and processor state after each command'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
