"""Writes properties.jsonl and MANIFEST.json from this one table:  /opt/venv/bin/python props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
I = 'semantic_codec/interleaver/interleaver2d.py'
B = 'semantic_codec/architecture/bits.py'
C = 'semantic_codec/corruption/corruption.py'
K = 'semantic_codec/corruption/corruptors.py'
R = 'semantic_codec/metadata/recuperator.py'
M = 'semantic_codec/metadata/metadata_collector.py'
S = 'semantic_codec/solution/solution_builders.py'
SIO = 'semantic_codec/solution/solution_io.py'
SQ = 'semantic_codec/solution/solution_quality.py'
CFG = 'semantic_codec/static_analysis/cfg.py'
DOM = 'semantic_codec/static_analysis/dominators.py'
SSA = 'semantic_codec/static_analysis/ssa.py'
VD = 'semantic_codec/static_analysis/value_dependency.py'
INS = 'semantic_codec/architecture/instruction.py'
CAP = 'semantic_codec/architecture/capstone_instruction.py'
RD = 'semantic_codec/architecture/disassembler_readers.py'
RP = 'recover_program.py'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, technique=None, level='model_checking', observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, technique=technique, level=level, observe=observe or []))


BASE_NOTE = ('Every execution inside the stated bounds is run on the real code and compared with an independent reference; '
             'nothing is sampled. ')

prop('C01', 'Interleaving and deinterleaving without losses gives the data back',
     '''Interleaving a list of 32 bit words over any packet order, in chunks of any size that divides the word, and deinterleaving
     all the packets gives back exactly the original words and an empty error list. Each packet carries, in order, exactly the
     chunks that the order assigns to it.''',
     ['inputs', 'configurations'], 'every data, packet order, packet count and chunk size that divides 32',
     'The tests send two or three fixed messages with one order; the chunk that goes wrong depends on the order, the packet count, '
     'the chunk size and the length of the data together.',
     [I, B], [('interleave / deinterleave', I), ('bit queue of each packet', B)],
     'Data patterns identify every input bit (the code only routes bits). Bounded: at most 5 (9) words, orders of up to 4 packets, the 2D order up to 65 (256).')
prop('C02', 'Lost packets damage exactly the chunks they carried, and they are reported',
     '''When any set of packets is lost, absent or empty, every chunk carried by a received packet is recovered intact and every
     chunk of a lost packet that the received packets show to exist reads as zero. The reported errors are exactly the
     positions (word, bit) of those lost chunks, each once; if every packet is lost deinterleaving refuses.''',
     ['fault_sequences', 'configurations'], 'every set of lost packets, for every order, chunk size and data length',
     'The tests lose one or two chosen packets of one message; whether the end of the data survives depends on which packets are lost.',
     [I, B], [('deinterleave', I)],
     'All subsets of losses up to 5 (7) packets, all pairs for larger counts; both ways to lose a packet.', level='fault_enumeration',
     technique='exhaustive fault (packet loss) enumeration on the real code')
prop('C03', 'The predicted corruption is the corruption the losses cause',
     '''For any packet count, chunk size, data length, order and set of lost packets, the predicted bits are exactly the data bits
     that the lost packets carry, each position predicted once, whatever the order in which the losses are listed.''',
     ['fault_sequences', 'configurations'], 'every loss set and listing order, for every order, chunk size and data length',
     'The tests predict a handful of fixed configurations; errors show up in the combination of packet position and data length.',
     [C, I], [('predict_corruption', C)],
     'Compared with arithmetic and with the real channel. One known finding (a chunk that ends at bit 31; pinned by an existing test).',
     level='fault_enumeration', technique='exhaustive fault (packet loss) enumeration on the real code')
prop('C04', 'The interleaving order uses every packet exactly once',
     '''For any number of packets the two dimensional interleaving order is a permutation of the packets 0..n-1: no packet is missing,
     repeated or out of range. The flat form and the matrix form give the same order.''',
     ['configurations'], 'every number of packets', 'The tests build a few sizes, mostly powers of four.',
     [I], [('build_2d_interleave_sp', I), ('sucesive_packing', I)], 'Every count up to 600 (thorough 2200).')
prop('C05', 'The successive packing matrix spreads every square burst',
     '''The successive packing of order m is a square matrix of side 2^m with each number 0..4^m-1 once. Any 2^k by 2^k burst, at any
     position, also across the borders, hits each of the 4^k groups of consecutive numbers exactly once.''',
     ['inputs', 'configurations'], 'every matrix size, burst size and burst position',
     'The tests compare two matrices with literals; dispersion is a statement about all positions.',
     [I], [('sucesive_packing', I)], 'Sizes up to m=4 (6), all bursts, all positions.')
prop('C06', 'The bit queue is first in, first out for every history of operations',
     '''After any history of enqueue and dequeue operations, with chunk sizes and offsets changing between operations, dequeued bits
     are the enqueued bits in order, none lost, repeated or altered by the bits around them. The queue is empty exactly when as many
     bits were dequeued as enqueued. Asking for more bits of the last word than there are gives the ones there are, and empties it.''',
     ['histories'], 'every history of operations with every chunk size and offset',
     'The tests run one or two straight histories; the errors are in the state left by earlier chunks that cross words.',
     [B], [('BitQueue.enqueue / dequeue', B)], 'All histories up to depth 5 of mixed sizes, all fill levels and alternations for each size 1..32.',
     technique='exhaustive exploration of operation histories against a reference queue')
prop('C07', 'Copying a bit range moves exactly that range',
     '''Copying bits lo..hi of a source to a position of a destination changes exactly the hi-lo+1 bits at that position to the
     source bits and leaves every other bit of the destination alone. Ranges and destinations that do not fit in 32 bits are refused.''',
     ['inputs'], 'every source range, destination and value', 'The tests copy two or three ranges.',
     [B], [('Bits.copy_bits, check_range', B)], 'All ranges and destinations of a 32 bit word, with bit identifying values.')
prop('C08', 'Corrupting a set of bits yields each of the 2^n variants once',
     '''Corrupting n given bits of a word in every possible way yields exactly the 2^n words that agree with it outside of those bits,
     each once, with the uncorrupted word first. This holds for any single range and for any list of disjoint ranges in any order.''',
     ['inputs'], 'every word and set of disjoint bit ranges', 'The tests corrupt one or two ranges of one encoding.',
     [C], [('corrupt_all_bits, corrupt_all_bits_tuples', C)], 'Ranges up to 7 (9) bits anywhere in the word, up to 3 ranges.')
prop('C09', 'Random bit corruption gives all flips of the asked number of bits of the field',
     '''Whatever the random source answers, corrupting an amount of bits of a field yields the original word first and then every
     combination of flips of exactly that many distinct bits, all inside the field, none repeated. Corrupting condition, registers
     and opcode of an instruction at once respects the total amount asked and touches nothing else; one of the fields alone gives every
     flip that can be decoded.''',
     ['schedules', 'inputs'], 'every sequence of answers of the random source, for every field and amount',
     'The tests run the random source once and count results, which hides the lost combinations and unlucky draws.',
     [C], [('corrupt_bits', C), ('distribute_random_amount, corrupt_instruction', C)],
     'The random source is owned by the explorer: every answer is enumerated (5 representatives for fields wider than 8 bits).',
     technique='exhaustive exploration of the answers of the random source')
prop('C10', 'Random corruption of a program always ends and corrupts what was asked',
     '''Whatever the random source answers and whatever the addresses are, corrupting p percent of a program ends and corrupts
     max(1, p percent rounded up) instructions, or all that are still intact if fewer, each in at most the allowed number of bits,
     with the original kept as first candidate and every other address untouched. A percentage outside 0..100 is refused.''',
     ['schedules', 'configurations'], 'every sequence of random answers, address layout, percentage and maximum',
     'The tests use one contiguous program and whatever the random source says that day.',
     [C, K], [('corrupt_program', C), ('RandomCorruptor', K)],
     'Programs of 1..4 (5) addresses; the first 5 (6) draws are enumerated; 20000 draws without an end count as livelock.',
     technique='exhaustive exploration of the answers of the random source, with livelock detection')
prop('C11', 'Packet loss leaves at each address exactly the variants over the lost bits',
     '''After simulating the loss of packets, each address of the program has exactly the candidates obtained by varying the bits that
     the lost packets carried of that address, in increasing order and each once, so the original is always among them. Addresses
     without lost bits keep their single instruction, and losing packets without data changes nothing.''',
     ['fault_sequences', 'configurations'], 'every set of lost packets, packet count, chunk size, and program length',
     'The tests count the candidates of one configuration.',
     [K, C], [('PacketCorruptor', K)], 'One known finding (inherited from C03). At most 6 (9) lost bits per word.',
     level='fault_enumeration', technique='exhaustive fault (packet loss) enumeration on the real code')
prop('C12', 'A corrupted program that is saved and loaded is the same',
     '''Saving a corrupted program to a file and loading it gives the same addresses in the same order with the same candidates in the
     same order, each at its address, also for undecodable candidates and when an older file is overwritten. Saving or loading
     without a path is refused.''',
     ['inputs', 'histories'], 'every corrupted program', 'The tests save and load one program.',
     [C, K], [('save_corrupted_program_to_json / load_corrupted_program_from_json', C)], 'Programs of 0..3 addresses with 0..4 candidates.')
prop('C13', 'Recovery never discards the true instruction',
     '''Scoring the candidates with the metadata of the original program and discarding the bad ones never discards the true instruction
     of any address, only removes candidates, and never invents or moves one. Repeating it reaches, in finitely many passes, a state
     where nothing more is removed.''',
     ['programs', 'fault_sequences'], 'every program, candidate set and order of candidates',
     'The tests recover one corrupted program and compare counts; losing the truth needs a particular mix of candidates.',
     [R, M, RP], [('ProbabilisticRecuperator.recover', R), ('remove_bad_candidates_at_addr', RP)],
     'Programs of 2..5 instructions. Assumes functions that cover the program. One known finding: true words that are data.',
     technique='exhaustive exploration of recovery runs to the fixpoint')
prop('C14', 'Recovery scores are probabilities that do not depend on candidate order',
     '''Every score the recovery gives to a decodable candidate lies between 0 and 1, and listing the candidates of each address in
     another order gives the same scores, and so does having recovered another program, or this one with more candidates, before. The condition, opcode and register terms are the least, over the values the candidate uses,
     of occurrences in the original divided by the number of addresses where a candidate uses that value.''',
     ['programs', 'inputs'], 'every program and candidate set', 'The tests compare a few scores of one program.',
     [R, M], [('ProbabilisticRecuperator', R)], 'Programs of 2 and 3 instructions over up to 9 kinds of instruction.')
prop('C15', 'Pruning keeps the certain candidates, or else all the possible ones',
     '''If some candidates of an address score exactly one, discarding the bad candidates keeps those and no other; otherwise it keeps
     exactly the candidates that score above zero, in their order. It reports the number of candidates removed, and doing it again
     removes nothing.''',
     ['inputs'], 'every list of scores', 'No test covers the pruning alone.',
     [RP], [('remove_bad_candidates_at_addr', RP)], 'Lists of up to 6 (8) candidates over 4 score values.')
prop('C16', 'The metadata histograms are exact',
     '''The metadata of a program counts, over its decodable instructions that are not ignored, exactly how many have each condition,
     how many have each opcode and how many use each storage. Collecting one program is not affected by what another collector
     collected before.''',
     ['programs'], 'every program', 'The tests count one small program.',
     [M], [('MetadataCollector.collect', M)], 'Programs of 0..4 instructions over 8 (10) kinds.')
prop('C17', 'The storage distances of the metadata are exact',
     '''For each storage, the metadata has the least, greatest and mean number of instructions between a write of the storage and the
     first later instruction that reads it, counting only writes that are read before the next write without a read. Ignored
     instructions count neither as accesses nor in the distance.''',
     ['programs'], 'every stream of reads and writes', 'The tests check the distances of one listing.',
     [M], [('MetadataCollector', M)], 'Every stream of up to 7 (8) accesses of a storage; two storages; real instructions.')
prop('C18', 'The corrupted program metadata counts the addresses where a value is possible',
     '''The metadata of a corrupted program says, for each condition, opcode and storage, at how many addresses at least one decodable
     candidate has it: an address counts once however many of its candidates share the value. Collecting again forgets what was
     collected before.''',
     ['programs', 'histories'], 'every corrupted program', 'The tests count one corrupted program.',
     [M], [('CorruptedProgramMetadataCollector', M)], '0..3 addresses with up to 3 candidates.')
prop('C19', 'The counting, control flow and distance rules score as specified',
     '''The condition, opcode and register counting rules score a candidate with what the metadata still asks for of each value it
     uses (after subtracting the addresses already decided) over the candidates at open addresses that offer it; the control flow
     rule adds the fixed weights of its neighbours. The distance rule scores with the mean, over the storages a candidate reads, of the best
     chance (one over storages written times decodable candidates) of being written by a candidate between the least and the largest distance
     in instructions that the metadata has for any of them; with no address there it gives no score. Undecodable candidates score zero, and
     scoring again changes nothing. A condition is never less than impossible, and a candidate without registers has a slight chance. The
     legacy recovery scores every decodable candidate of an address that has several left; with several passes it discards those that some
     rule gives no chance to, and only them.''',
     ['programs', 'inputs'], 'every program and candidate set', 'The tests compare one score of each rule.',
     ['semantic_codec/metadata/probabilistic_rules/counting_rules.py', 'semantic_codec/metadata/probabilistic_rules/rules.py',
      'semantic_codec/metadata/probabilistic_rules/distance_rule.py'],
     [('counting rules', 'semantic_codec/metadata/probabilistic_rules/counting_rules.py')], 'Programs of 1..2 (3) instructions, 1..2 (3) passes.')
prop('C20', 'A solution that is written is read back the same',
     '''Reading a written solution gives, at each address and in the same order, the candidates up to and including the true
     instruction, and the true instructions themselves. A program that lacks a true instruction is refused, and the file a
     refused write leaves behind is not accepted as a solution.''',
     ['inputs', 'histories'], 'every program, candidates and place of the original', 'The tests write and read one program.',
     [SIO], [('SolutionWriter / SolutionReader', SIO)], '0..3 addresses with 1..3 candidates.')
prop('C21', 'A truncated or foreign solution file is never accepted',
     '''A solution file cut at any byte, as a crash in the middle of writing leaves it, is refused by the reader and never read as a
     shorter or different solution. The same holds for a file whose identification differs in any byte.''',
     ['crash_points', 'inputs'], 'every byte at which the file may end, of every solution',
     'The tests only read complete files.', [SIO], [('SolutionReader', SIO)],
     'Every cut of every solution of 0..3 (4) addresses.', level='fault_enumeration',
     technique='exhaustive crash point enumeration on the real code')
prop('C22', 'Constrained enumeration keeps the true instruction and numbers it',
     '''Enumerating a solution from its highest ranked candidates only removes candidates, keeping their order, and never removes a true
     instruction. The address with the fewest candidates is decided first (in the order of the program when tied); what its true instruction
     uses (condition, opcode and storages) is then no longer available, and candidates of the open addresses that do not decode or need more
     of a condition, opcode or register than there is go away, unless they are the last of their address. The number of the solution is the product over the addresses of the position (from 1) of the true instruction among
     the candidates left, and its size is the base two logarithm of it.''',
     ['programs'], 'every program and candidate set', 'The tests enumerate one program.',
     [S], [('ForwardConstraintSolutionEnumerator', S)], 'Programs of 1..4 instructions.')
prop('C23', 'The bits of a solution select the true instruction of every address',
     '''The solution bits give, for each address in increasing order of candidate count, the position of its true instruction in the
     fewest whole number of bits that can tell its candidates apart. A receiver that has the candidates and these bits recovers every
     true instruction, whatever the candidate counts, and the reported size is the number of bits.''',
     ['inputs'], 'every combination of candidate counts and places of the originals', 'The tests build one solution.',
     [S, B], [('ForwardConstraintSolutionBuilder', S)], 'All programs of 1..4 addresses with 1..5 candidates; long solutions up to 200 bits.')
prop('C24', 'The quality of a solution is exact, whatever was asked before',
     '''The number of solutions is the product of the candidate counts, its size is the sum of the base two logarithms of the counts
     (0 if some address has no candidate), and the bins say how many addresses have each count. The depth is the worst, over the
     addresses, of the rank of the true instruction by score over the count; each answer is the same whatever was asked before.''',
     ['inputs', 'histories'], 'every candidate counts, scores and history of queries', 'The tests ask once, of one program.',
     [SQ], [('SolutionQuality', SQ)], 'Histories of up to 2 (3) queries over 1..3 addresses.',
     technique='exhaustive exploration of query histories against a reference')
prop('C25', 'The constraint problem has exactly the solutions that match the metadata',
     '''The solutions of the constraint problem of a corrupted program are exactly the choices of one decodable candidate per address
     whose condition, opcode and storage counts equal those of the metadata, each once. The true program is always one of them.''',
     ['programs'], 'every program of at least two addresses and candidate set', 'The tests solve one problem.',
     [S], [('ProblemBuilder', S)], 'Programs of 2..4 instructions compared with brute force.')
prop('C26', 'The dominator tree is that of the textbook definition',
     '''For any graph, a block gets as immediate dominator the last block that every path from the root to it crosses before it, the tree has
     exactly these edges and the root and unreachable blocks have no immediate dominator. Computing it again after the graph changed gives
     the dominators of the new graph, and no depth of the graph makes it fail.''',
     ['programs', 'histories'], 'every graph', 'The tests check two graphs, both acyclic or reducible.',
     [DOM], [('build_dominator_tree', DOM)], 'All graphs of 4 blocks (5), all flow graphs of 5 (6), deep graphs of 1500.')
prop('C27', 'The dominance frontiers are those of the textbook definition',
     '''For any graph, the dominance frontier of a reachable block is exactly the set of blocks that it does not strictly dominate
     but one of whose reachable predecessors it dominates. Graphs whose dominators were not computed are refused.''',
     ['programs'], 'every graph', 'The tests check the frontier of one graph.',
     [SSA, DOM], [('build_dominance_frontier', SSA)], 'All graphs of 4 blocks (5), all flow graphs of 5 (6).')
prop('C28', 'In SSA form every read names the one definition that reaches it',
     '''In the SSA form of any program every name is defined once, every read names the definition that reaches it along every path, and a
     merge of several definitions goes through a phi function with one argument for each. The value dependencies link each definition
     to the definitions it is computed from, and programs of any length and with any register can be converted.''',
     ['programs'], 'every control flow graph and assignment of reads and writes', 'The tests convert one listing and compare names.',
     [SSA, VD], [('SSA construction', SSA), ('value dependencies', VD)],
     'All graphs of a root and 3 blocks with one access each, of 2 blocks with two, 5 block shapes, all programs of 1..4.')
prop('C29', 'The blocks of the control flow graph are the basic blocks of the program',
     '''In the control flow graph of a program each instruction that is not undefined belongs to exactly one block, in program order, control
     enters a block only at its first instruction and leaves it only at its last, and all instructions of a block have the same condition.
     There is one root and one end, also for programs of any number of instructions.''',
     ['programs'], 'every program', 'The tests count nodes and edges of three listings.',
     [CFG], [('ARMControlFlowGraph.build', CFG)], 'All programs of 0..4 instructions over up to 9 kinds and all branches among them.')
prop('C30', 'The edges of the control flow graph are the control transfers of the program',
     '''A block leads exactly to where control can go after its last instruction: the target of a branch, forward or backward, the next
     instruction after a fall through or a call, the end after a return; a conditional block is entered through its condition, from
     which control can also skip it. Removing the condition nodes keeps exactly the flows among the others.''',
     ['programs'], 'every program', 'The tests count nodes and edges of three listings.',
     [CFG], [('ARMControlFlowGraph.build', CFG)], 'All programs of 1..4 instructions over up to 9 kinds and all branches among them, 5 conditional ones.')
prop('C32', 'The fields of a decoded instruction agree with its encoding',
     '''For data processing, load, store, multiply and branch encodings, the condition, the registers used, the registers written and read,
     whether memory is read, the flags modified, and being a branch, a call, a push or a pop are what the ARM encoding says. (For stores
     the written registers, and for multiple transfers the memory accesses, are not specified.) Any other word that decodes, of the coprocessors
     too, has the condition of its encoding (always, in the unconditional space), and reads and writes only storages that it uses.''',
     ['inputs'], 'every encoding', 'The tests decode about twenty instructions.',
     [CAP, INS], [('CAPSInstruction', CAP)], 'Independent decoder of the encoding; register fields over 5 (7) values, all operations, conditions, shifts.')

EXTRA = os.path.join(HERE, 'props_extra.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

NOT_APPLICABLE = []


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': p['observe'] or [a for a, _ in p['mechanism']], 'hook_needed': None}}) + '\n')
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        checks.append({
            'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'] or 'stateless exhaustive bounded exploration of the real code against a reference model',
            'level': p['level'], 'level_note': BASE_NOTE + p['note']})
    m = {'version': 1, 'setup_cmd': 'true',
         'hooks': {'guard': 'SEMANTIC_CODEC_VERIF', 'enable': 'no hooks: the checks run the unmodified code', 'source_commits': []},
         'checks': checks, 'not_applicable': NOT_APPLICABLE,
         'notes': 'One explorer (mc/core.py); one module per property (mc/checks). See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
