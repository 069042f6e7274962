# continues props.py (exec'd there)
HUF = 'semantic_codec/compressor/huffman.py'
MOD = 'semantic_codec/architecture/instruction_modifier.py'
STP = 'store_packets.py'
SHC = 'semantic_codec/compressor/shiftcompressor.py'
PRB = 'semantic_codec/probability/probabilities.py'
DOT = 'libs/dot/dotio.py'
PRG = 'semantic_codec/report/print_progress.py'
RUL = 'semantic_codec/metadata/probabilistic_rules/rules.py'
FUN = 'semantic_codec/architecture/functions.py'

prop('C33', 'Branch targets are exact over the whole address space',
     '''The target of a branch, with or without link and under any condition, is its address plus 8 plus four times its signed 24 bit
     offset, modulo 2^32; moving an immediate to the PC goes to the value of the immediate. Branches whose target depends on a register
     or the memory and instructions that do not branch have no known target. Looking the target up in a program gives the
     instruction at that address, or nothing.''',
     ['inputs'], 'every offset, address and condition', 'The tests compute two forward and backward targets in low memory.',
     [INS, CAP], [('jumping_address', INS), ('jumping_address', CAP)],
     'Every value of either half of the offset; every bit of the offset alone set or clear; both ends of the memory.')
prop('C34', 'Reading the disassembly of an ELF file gives its code and functions',
     '''Reading the disassembly of an ELF file gives exactly the instructions of the init, plt, text and fini sections, in order, with
     their addresses and encodings; lines that are no instructions are skipped. Each function symbol gives one function with the
     instructions from its start up to the next function start, its first and last address and its length, and reading the file again
     gives the same.''',
     ['inputs', 'histories'], 'every layout of sections, functions and gaps', 'The tests read two fixed files and count.',
     [RD, FUN], [('ElfioTextDisassembleReader', RD), ('ElfFunction', FUN)], '0..4 instructions, 6 kinds of section, every set of function starts.')
prop('C35', 'Reading the text of the online disassembler gives its instructions',
     '''Reading the text of the online disassembler gives one instruction for each line with an address and four bytes, in order, at that
     address and with the word whose little endian bytes these are, grouped by the function headers; any other line is skipped.
     Reversing the byte order of a word or of its text reverses its four bytes, and doing it twice changes nothing.''',
     ['inputs'], 'every file and every word', 'The tests read one file and reverse one word.',
     [RD, INS], [('TextDisassembleReader', RD), ('reverse_endianess', INS)], 'Files of 0..5 (6) lines; every value of each byte.')
prop('C36', 'The Huffman code of any frequencies is prefix free and optimal',
     '''The code of any frequencies of two or more symbols has one binary code word for each symbol, none of them the beginning of another,
     given from the shortest to the longest, and no prefix free code gives the message fewer bits. The reported size is the sum of
     frequency times length, and the frequencies are left as they were.''',
     ['inputs'], 'every frequencies', 'No test covers the compressor.',
     [HUF], [('encode, huffman_size', HUF)], '2..6 (7) symbols compared with all shapes of trees; up to 10 (12) with skewed frequencies.')
prop('C37', 'Replacing a field of an instruction changes that field alone',
     '''Replacing the condition, opcode, a register (Rn, Rd, Rs, Rm) or the immediate of an instruction word sets that field, at its
     place in the ARM encoding, to the new value and leaves every other bit alone. The immediate has 12 bits in loads and stores
     with immediate offset and 8 bits elsewhere.''',
     ['inputs'], 'every field, value and word', 'No test covers the modifier.',
     [MOD], [('InstructionModifier', MOD)], 'Every field and value over words that identify each bit; any two fields in either order.')
prop('C38', 'The probability of independent events is exact for any number of events',
     '''The probability that any of several independent events happens is one minus the product of the complements, and that all happen is
     the product, for any number of events and in any order. The union of no events is refused, and the given list is not changed.''',
     ['inputs'], 'every number and value of the probabilities', 'The tests add two and three events.',
     [PRB], [('indep_events_union, indep_intersection', PRB)], '0..5 (6) events over 5 values in exact arithmetic; up to 12 (14) events.')
prop('C39', 'A graph written in dot format and read back is the same graph',
     '''Writing a directed or undirected graph in dot format and reading it back gives a graph of the same kind with the same nodes,
     edges, weights, labels and attributes, whatever the names of the nodes; writing a hypergraph and reading it back gives the same
     nodes, hyperedges and links. A text that does not declare the nodes of its edges is read too, and what is no graph is refused.''',
     ['inputs', 'histories'], 'every graph', 'No test covers the dot files.',
     [DOT], [('read, write, read_hypergraph', DOT)], 'Graphs of 0..4 nodes and up to 3 edges, hypergraphs of 3 nodes and 2 edges.')
prop('C40', 'The progress bar advances to 100 percent, once, and never beyond',
     '''Whatever the total, the distance between updates and the number of steps, the progress bar never goes back, never shows more work
     than was done nor more than 100 percent, keeps its length, and shows 100 percent and ends its line exactly once when the work is done,
     also when the steps are more than the total.''',
     ['histories', 'configurations'], 'every total and number of steps', 'No test covers it.',
     [PRG], [('TextProgressBar', PRG)], 'Totals 0..60 (250) and 5 distances.')
prop('C41', 'The compressors remove or clear exactly the listed bits',
     '''Removing a list of chunks, given as word and bit in any order, from a program leaves exactly the other bits in their order, with
     the bits of each byte counted from the most significant and the bytes of each word from the least. Clearing a list of bits clears
     exactly those, ignores those outside of the data, and keeps the length; compressing again gives the same.''',
     ['inputs'], 'every list of bits and data', 'No test covers the compressors.',
     [SHC], [('ShiftCompressor, SwapCompressor', SHC)], 'Up to 3 words and 2 (3) chunks or 3 (4) bits. Chunks do not overlap.')
prop('C42', 'A recovery run ends, and its solutions contain the program',
     '''Running the recovery over any program and damage ends and stores two solutions: both give the original instruction of every address;
     the initial one has the candidates of the damaged program up to the original, and the final one only candidates that were there. The
     passes go on until one takes no candidate away; what is left is then put in order by the scores that it gets.
     The given program is not changed, the standard output is given back, and the report counts each damaged address once as lost, tied
     or recovered.''',
     ['programs', 'fault_sequences'], 'every program, damage and order of candidates', 'No test runs the tool.',
     [RP, R, SIO], [('run_recovery', RP)],
     'Programs of 1..8 instructions with given candidates, every lost packet, and every answer of the first random draws.',
     technique='exhaustive exploration of whole recovery runs')
prop('C43', 'The frequencies of the parts of a program are exact',
     '''Counting a program gives, for each register, opcode and condition, how many times its instructions use it, and the instructions
     that use it, each once and in order. What was counted before is forgotten.''',
     ['programs', 'histories'], 'every program', 'No test covers the counter.',
     [HUF], [('InstructionPartFrequencyCounter', HUF)], 'Programs of 0..4 (5) instructions, repeated registers.')
prop('C44', 'The views of a program lose, repeat and reorder nothing',
     '''Listing the instructions of functions gives each once, sorted by address, and the first and last address of every function that has
     instructions. Grouping a list by address keeps the instructions and their order, and listing the candidates by address gives the
     same candidate lists, sorted by address, not copies.''',
     ['inputs'], 'every program, order of addresses and split into functions', 'The tests convert one program.',
     [RUL], [('from_functions_to_list_and_addr and others', RUL)], '0..4 (5) instructions at 5 addresses over the whole memory.')
prop('C45', 'The lattice interleaving matrix keeps the cells of a packet apart',
     '''The lattice (Blaum) matrix of m packets has only the packets 0..m-1, and any m consecutive cells of a row have m different packets.
     With (t*t+1)/2 packets, t odd, two cells of the same packet are at least t steps apart. A missing side is computed from the size of
     the data, and a matrix without sides is refused.''',
     ['configurations'], 'every number of packets, shape and pair of cells', 'The tests compare one matrix.',
     [I], [('build_2d_interleave_matrix_blaum', I)], '1..40 (120) packets; bursts of t = 1..7 (11).')
prop('C46', 'The storages of an instruction are the same whatever was asked before',
     '''The storages that an instruction uses are its registers, the memory if it loads or stores a register, and the no register storage
     if it has neither; those it reads are the registers it reads and the memory if it loads; those it writes are the registers it writes,
     the memory if it stores and the PC if it branches. Each comes once, and the answers are the same whatever was asked before.''',
     ['histories', 'inputs'], 'every instruction and history of queries', 'The tests ask each instruction once; the answers are cached.',
     [INS, CAP], [('storages_used, storages_read, storages_written', INS)],
     'Histories of 1..3 (5) of 6 queries on 24 kinds of instruction. Memory of push and pop is not specified.')
prop('C47', 'The branch term of the recovery tells where the branch goes',
     '''The branch term of a candidate that branches is the weight of the model for targets inside its own function, first and last address
     included, or for the start of another function, or for targets outside of the program; any other target, known or not, has twice the
     weight of the last. Candidates that do not branch have no such term, and the other candidates of the address do not matter.''',
     ['programs', 'configurations'], 'every layout of functions, place of the branch and target',
     'The tests score one corrupted program and compare no term.',
     [R], [('_compute_branch_address', R)],
     '1..3 functions of 1..3 instructions with and without gaps, all places and all targets around them. The functions cover the program.')
prop('C48', 'The recovery score combines every term of the candidate',
     '''While pruning, a candidate with a condition and an opcode term scores 0 if any of its terms is 0, else 1 if its condition or its opcode
     term is 1, else the product of its terms: condition, opcode and neighbour terms, with the branch term for branches, the register and
     push-pop terms for push and pop, the register and distance terms for the others; a missing term counts as 1. The continuous score is
     always this product.''',
     ['inputs', 'programs'], 'every combination of terms and kind of instruction', 'The tests look at the winner of one address.',
     [R], [('probabilistic_rules', R), ('probabilistic_rules_remove_step', R)],
     'All combinations of 3 or 4 values of 7 terms, absent ones included, and the terms of recovered programs of 2..3 instructions.')
prop('C49', 'The push and pop term of the recovery rewards matching ends of a function',
     '''A push that starts a function has the weight of equal registers if a decodable pop at the end of the function restores the registers
     it saves (the return address may go to the PC), else its chance among the candidates of the address; or the weights of a pop at the end
     and of a pop followed by a branch inside the function, if larger. A pop has the weight of equal registers if a decodable push at the start
     of its function saves what it restores, else its chance; or the weight of a pop at the end if any push is at the start. Any other push has
     its chance, and the other instructions have no such term.''',
     ['programs', 'configurations'], 'every function and set of candidates', 'The tests compare no term of the recovery.',
     [R], [('_compute_push_pop, _op_prob_and_check_equal_registers', R)],
     'Functions of 1..4 (5) over push, pop and branches, pairs of functions, 3 models. A pop and a branch with instructions between them is '
     'left open, and so is whether undecodable candidates count for the chance.')
prop('C50', 'The neighbour term of the recovery tells how conditions and flags fit around',
     '''The neighbour term of a candidate is the weight of the model for its situation (same condition before, also after, flags modified
     before) times the fraction of the decodable candidates of the previous and next address that are in it; the largest of the situations
     that apply, and the low probability if none does. An always executed candidate has the complement of the flags weight after
     instructions that modify the flags. The first instruction of the program has no neighbour term; candidates that do not decode and addresses
     further away do not count, whatever the order of candidates and addresses.''',
     ['programs', 'configurations'], 'every set of candidates around an address', 'The tests compare no term of the recovery.',
     [R], [('_compute_proper_cfg', R)], 'At most 3 candidates before and 1 (2) after, 7 (8) instructions, 2 models.')
prop('C51', 'The distance term of the recovery is the chance that what is read was written',
     '''The distance term of a candidate that is no branch, push or pop and reads one register is the probability that some address at a
     distance between the least and the largest recorded for the register writes it, over the decodable candidates of each address; the low
     probability if nobody can. With several storages it is that of the most likely, and the low probability when nobody can write the first
     one. The first instruction has no distance term; addresses that are not in the program do not count.''',
     ['programs', 'inputs'], 'every program and set of candidates', 'The tests compare no term of the recovery.',
     [R], [('_compute_register_distance', R)], 'Programs of 2..3 over 12 and of 4 over 6 instructions, one or two addresses with more candidates.')
prop('C52', 'The report of a recovery gives exact verdicts and totals',
     '''The report of a recovery lists, for every address left with several candidates, all of them, best score first and in their former
     order when tied, with their scores by rule. The address is lost when the text of the first is not that of the original, tied when the
     second has the same score and another text, and recovered otherwise; the totals, ratio, depths of the originals and counts of rules
     that favour a false winner agree with it. The candidates stay, and so does the standard output.''',
     ['inputs'], 'every set of candidates and scores', 'No test makes a report.',
     [RP], [('print_report', RP)], 'Every order and score of 1..3 candidates in an address, and 2..4 addresses of 8 kinds.')
prop('C53', 'Storing packets keeps the program and clears only what is lost',
     '''Storing the packets of a disassembled program writes two files: the words of the program, little endian, and the same with only the bits
     that the first fifth (rounded down) of its packets of 16 bytes carry changed: packets have two bits at a time, in the successive packing
     order. No bit that was clear gets set, the first bit of every lost chunk that does not end a word is cleared, and the size stays, also
     when the last packet is not full. Without a readable disassembly or with the wrong arguments it fails and stores nothing.''',
     ['programs', 'inputs', 'fault_sequences'], 'every program and length', 'No test runs the program.',
     [STP, SHC, 'semantic_codec/corruption/corruption.py'], [('store_packets.py', STP)],
     'Programs of 1..48 (130) and 79..340 (1024) words, any single bit of 20..24 words, parts of the examples.')
prop('C31', 'The legacy recovery with several passes keeps the true instruction',
     '''However many passes the legacy recovery makes, and however many times it is run again on what is left, it never discards the true
     instruction of an address whose true instruction decodes, it neither adds, replaces, reorders nor brings back candidates, and it comes to
     an end where nothing more is discarded. With a single pass it discards nothing.''',
     ['programs', 'histories', 'fault_sequences'], 'every program, set of candidates and number of passes',
     'The tests run one pass on one program and compare the scores; losing the truth needs several passes and a particular instruction.',
     [R, 'semantic_codec/metadata/probabilistic_rules/counting_rules.py', 'semantic_codec/metadata/probabilistic_rules/rules.py'],
     [('Recuperator', R)], 'Programs of 2..5 instructions and the functions of up to 12 (40) words of the examples, 1..3 (4) passes.')
