#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run after editing this file)."""
import json
A = 'src/accumulator.cpp'; B = 'src/batchproof.cpp'; Pp = 'src/pollard.cpp'; R = 'src/ram_forest.cpp'; S = 'src/state.cpp'
def m(name, where): return dict(name=name, where=where)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(meta=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                            anchors=dict(files=files, state=list(state), mechanism=mech, observe_at=observe, hook_needed=None)),
                  technique=technique, note=note))

prop('C01', 'The forest commits to exactly the current leaf sequence',
     'After any history of add/delete batches, the forest has exactly the leaves that were added and not deleted, in the order the accumulator definition prescribes, and its leaf count and roots are those of perfect SHA-512/256 Merkle trees over that sequence. '
     'Every present leaf is provable at its position with a correct proof, every deleted or never added leaf is not, and the result depends only on the leaf sequence, not on the history that led to it.',
     ['histories', 'inputs'], 'every sequence of modifications with any batch sizes and deletion sets, including re-added leaves and empty batches, from an empty or restored forest',
     'Tests delete a few fixed positions from forests of at most a few dozen leaves; deletions interact through swaps, collapses and rehashing over the whole history.',
     [A, R, S], [m('batch deletion by swaps row by row', 'src/accumulator.cpp Accumulator::Remove; src/state.cpp ForestState::Transform'), m('leaf and parent hash bookkeeping', 'src/ram_forest.cpp RamForest::SwapSubTrees, FinalizeRemove, Add')],
     ['RamForest::Modify', 'Accumulator::Roots', 'Accumulator::NumLeaves', 'RamForest::GetLeaf', 'RamForest::Prove'],
     'online comparison of every state with an executable reference model over exhaustive small and random large histories',
     'Held on the executions explored: all one-step and paired deletion sets of small forests, random histories with re-added leaves, some forests of 10^5 leaves. Trusts the reference model and its own SHA-512/256.',
     [dict(name='m_data', meaning='hashes of the forest row by row', where='include/ram_forest.h'), dict(name='m_posmap', meaning='leaf hash to position', where='include/ram_forest.h')])
prop('C02', 'Pollards that follow a forest always agree with its roots',
     'A pollard that is shown valid proofs for the deleted leaves and the same additions and deletions as a forest has the same leaf count and roots after every step, whatever it remembers, forgets or prunes. '
     'The same is true when proofs omit hashes the pollard already has, arrive serialized, when it deletes leaves it cached without a proof, or when it was created from roots and leaf count at any point.',
     ['histories', 'inputs', 'configurations'], 'every common history of forest and pollards, every choice of remembered leaves per pollard, every proof form (full, minimal, partial, serialized)',
     'Tests follow a handful of fixed steps with one pollard and full proofs; which nodes a pollard holds depends on its whole history and decides which code runs.',
     [A, Pp, R, B], [m('ingesting a verified proof', 'src/pollard.cpp Pollard::Verify, CreateProofTree, VerifyProofTree'), m('deletion on a sparse tree', 'src/pollard.cpp Pollard::SwapSubTrees, FinalizeRemove')],
     ['Pollard::Verify', 'Pollard::Modify', 'Accumulator::Roots'],
     'lockstep differential monitoring of several pollards, forest and reference model',
     'Held on the executions explored; roots are compared after every step with the model, so agreement in error is noticed too.')
prop('C03', 'Every present leaf set has a minimal proof that everyone accepts',
     'For every set of present leaves in any order the forest produces a proof that lists their positions in the order asked, carries exactly the sibling hashes that cannot be computed from the targets, in canonical order, and does not depend on the order of the request apart from the target list. '
     'The proof passes the sanity check and is accepted by the forest and by every pollard with the same roots, also after serialization and by a pollard that knows nothing but roots and leaf count.',
     ['inputs', 'histories'], 'every reachable forest, every non-repeating list of its leaves',
     'Tests prove a few fixed leaf sets; the set of needed siblings depends on the target set and the shape of the forest.',
     [A, B, R, Pp, S], [m('proof positions', 'src/state.cpp ForestState::ProofPositions'), m('proof creation', 'src/accumulator.cpp Accumulator::Prove')],
     ['Accumulator::Prove', 'RamForest::Verify', 'Pollard::Verify', 'BatchProof::CheckSanity'],
     'comparison of every proof with the model\'s canonical proof; acceptance monitored at forest, empty, remembering and restored pollards',
     'Held on the target sets explored (all subsets of small forests, random subsets up to 10^5 leaves).')
prop('C04', 'No proof of a false claim is ever accepted',
     'A pollard accepts a proof only if every claimed leaf is present at the claimed position; claims of deleted, foreign or moved leaves are rejected with any proof hashes and targets, and a forest refuses any claim of a leaf it does not hold. '
     'A pollard accepts only if all proof hashes it is given or needs are the genuine ones, and a pollard that holds only roots accepts nothing but the complete canonical proof.',
     ['inputs', 'histories'], 'every pair of proof and claimed hashes, shown to any reachable pollard or forest',
     'Tests try one or two broken proofs; soundness is a statement about all malformed, stale, recombined and partial proofs, and what a pollard already caches decides which checks run.',
     [Pp, R, B, A], [m('proof tree hashed up to known nodes', 'src/pollard.cpp Pollard::VerifyProofTree'), m('sanity of targets', 'src/batchproof.cpp BatchProof::CheckSanity'), m('claims checked against the position map', 'src/ram_forest.cpp RamForest::Verify')],
     ['Pollard::Verify', 'RamForest::Verify'],
     'mutation of genuine proofs and claims with a truth oracle from the reference model; systematic claims in small scopes',
     'Held on the claims explored: all target sets, claimed leaves and single damages in small forests, random mutations at all sizes to 10^5 leaves. Assumes no collision of SHA-512/256.')
prop('C05', 'Verification never changes commitments; rejected proofs leave no trace',
     'Verifying a proof, valid or not, never changes the leaf count or roots of a pollard or forest. '
     'After a proof was rejected a pollard caches and proves exactly the same leaves with the same proofs, holds as many nodes, and answers all later verifications and modifications exactly like a pollard that never saw the rejected proof.',
     ['inputs', 'histories'], 'every rejected proof at every point of every history, and every continuation',
     'Tests do not look at the state after a rejection, and the effect of leftovers appears only in later operations.',
     [Pp, A], [m('new nodes kept only if the proof verifies', 'src/pollard.cpp Pollard::CreateProofTree, recovery in Pollard::Verify')],
     ['Pollard::Verify', 'Pollard::CountNodes', 'Pollard::NumCachedLeaves', 'Pollard::Prove'],
     'twin differential: two equal pollards, one is shown rejected proofs, all later answers are compared; systematic claims in small scopes',
     'Held on the executions explored: systematically in small forests, at random up to 10^5 leaves.')
prop('C06', 'Undo restores the forest exactly, to any depth',
     'Undoing the most recent modifications of a forest in reverse order restores exactly the leaves, positions, roots, leaf count and proofs it had before them; leaves deleted by them are provable again and leaves added by them are not. '
     'This holds to any depth, for undo data that was copied, serialized or kept while the forest was saved and reopened, and applying the modifications again gives the same forest and the same undo data as before.',
     ['histories', 'inputs'], 'every history of modifications and every suffix of it undone in reverse order',
     'Tests undo one or two fixed batches; undo has to invert the swaps of any deletion set on any shape.',
     [R, S, B], [m('recording of deleted leaves and their positions', 'src/ram_forest.cpp RamForest::BuildUndoBatch'), m('inverse swaps', 'src/state.cpp ForestState::UndoTransform; src/ram_forest.cpp RamForest::Undo')],
     ['RamForest::Undo', 'RamForest::Modify with undo data', 'UndoBatch::Serialize'],
     'history monitor: snapshots of the reference model before each step compared after each undo, exhaustive single steps and random LIFO histories',
     'Held on the histories explored. Undo with well formed data of another history is not claimed (impossible undo data: C11).')
prop('C07', 'A pollard proves exactly the leaves it remembers',
     'A pollard can prove and delete without help every leaf it was asked to remember (when adding it or by verifying it) at its current position with a correct proof, through any later additions and deletions, until it is deleted or the pollard is pruned; it can prove any set of them together. '
     'Leaves that were deleted or never remembered cannot be proven, and the number of cached leaves reported is the number of leaves it remembers.',
     ['histories', 'inputs', 'configurations'], 'every history, every choice of remembered leaves, every point of forgetting',
     'Tests remember a few leaves in fixed histories; whether the siblings of a remembered leaf survive depends on every later deletion nearby.',
     [Pp, A], [m('remembered leaves (m_remember)', 'src/pollard.cpp Pollard::NewLeaf, MergeRoot, Verify, Node::ReHash'), m('position map of cached leaves', 'src/accumulator.cpp UpdatePositionMapForRange, Accumulator::Prove; src/pollard.cpp FinalizeRemove, Prune')],
     ['Accumulator::Prove', 'Pollard::NumCachedLeaves', 'Pollard::Modify', 'Pollard::Prune', 'Pollard::Verify'],
     'after every step every cached and uncached leaf is asked for and compared with the reference model; exhaustive remember x delete blocks',
     'Held on the histories explored.')
prop('C08', 'A pollard holds no more nodes than its cached leaves need',
     'After every modification a pollard holds at most the nodes needed for its roots and for proving the leaves it remembers (at rest: their siblings and the path siblings); a pollard that remembers nothing holds only its roots, at most one per row. '
     'Verifying or rejecting any number of proofs does not make it grow beyond the nodes of the leaves it was asked to remember.',
     ['histories', 'inputs'], 'every history and every choice of remembered leaves',
     'Tests never count nodes over a history; a node that is not released is invisible except in memory use.',
     [Pp, 'src/node.h'], [m('pruning of forgotten siblings', 'src/pollard.cpp InternalNode::Prune, Pollard::MergeRoot, FinalizeRemove, Node::ReHash')],
     ['Pollard::CountNodes'],
     'resource monitor: node count compared with the number the reference model needs after every step',
     'Held on the histories explored. Nodes on the paths of verified leaves that stay cached are allowed for, as the verification needs them.')
prop('C09', 'A committed forest file restores the same forest, and damage is refused',
     'After a successful commit or a clean destruction the file holds the complete forest: it restores to the same leaves, roots, positions and proofs, in the documented layout, also when the forest shrank, and survives a kill right after commit. '
     'Commit reports success only if the data was really written, does not change the forest and saves it when tried again after the obstacle is gone (as does destruction), and a file that is shorter than its own leaf count demands or lists a leaf twice is refused and left untouched.',
     ['crash_points', 'fault_sequences', 'histories'], 'every history, every commit point, every write limit or full device, every truncation length of an image, every repeated leaf',
     'Tests save and load one forest once; write failures, stale tails, truncated files and kills are never exercised.',
     [R], [m('restore and commit', 'src/ram_forest.cpp RamForest::Restore, RamForest::Commit, destructor')],
     ['RamForest(file) constructor', 'RamForest::Commit', 'the file itself'],
     'fault injection (file size limits, full device, kill, truncation at every length, inflated counts) with image and state oracles',
     'Held on the faults enumerated per explored history. A crash during commit is not claimed to leave a usable file.')
prop('C10', 'Serialized proofs and undo data round-trip; malformed bytes are refused',
     'Serialization of proofs and undo data has the fixed documented layout and decoding it gives an equal object that serializes to the same bytes, also into an object used before. '
     'Decoding accepts only complete, exactly sized encodings, refuses everything else without changing the object, and never needs memory out of proportion to the input; equality of proofs and undo data means equality of content.',
     ['inputs'], 'every proof and undo data, every byte string',
     'Tests round-trip two objects; decoders face arbitrary bytes with 32-bit counts.',
     [B], [m('size checks before reading', 'src/batchproof.cpp BatchProof::Unserialize, UndoBatch::Unserialize')],
     ['BatchProof::Serialize/Unserialize', 'UndoBatch::Serialize/Unserialize', 'operator=='],
     'independent encoder and acceptance oracle over generated objects and damaged encodings, allocation monitor',
     'Held on the encodings explored. Positions beyond 32 bits are outside of the format and not claimed.')
prop('C11', 'Invalid requests are refused without any effect',
     'A modification whose positions are not strictly ascending, exceed the leaves or the leaf count is refused by forest and pollard and changes nothing: leaves, roots, positions, cache and proofs stay as they were and later operations work normally. '
     'A request to prove a leaf that is absent, not cached or listed twice is refused likewise, as are undo data that cannot belong to the forest (more additions than leaves, positions that were not leaves, deleted leaves that are repeated, missing or still there), and the sanity check of a proof accepts no target list that is unsorted, repeats a position or leaves the forest.',
     ['inputs', 'histories'], 'every invalid request in every reachable state',
     'Tests try one or two invalid requests and do not compare the whole state afterwards.',
     [A, R, Pp, S], [m('checks before any change', 'src/accumulator.cpp Accumulator::Remove, Modify; src/state.cpp CheckTargetsSanity'), m('lookup of requested leaves', 'src/accumulator.cpp Accumulator::Prove'), m('checks of undo data', 'src/ram_forest.cpp RamForest::Undo')],
     ['Modify', 'Prove', 'Undo', 'CheckSanity'],
     'invalid requests interleaved in random histories with full state comparison before and after',
     'Held on the requests explored, at sizes from empty to 10^5 leaves.')
prop('C12', 'No memory error, undefined behaviour, leak or abort on any input',
     'No input (proofs, claims, positions, serialized bytes, undo data, forest files, leaf counts with the roots they call for) and no history makes the library read or write out of bounds, use freed or uninitialised memory, execute undefined behaviour, leak memory, or terminate the process. '
     'Unusable input is refused by return value, or by the documented exception when opening a file.',
     ['inputs', 'histories', 'programs'], 'every input shown to every entry point in every reachable state',
     'Tests run without sanitizers on well-formed input.',
     [A, B, Pp, R, S, 'src/crypto/sha512.cpp', 'src/node.h'], [m('bounds checks before access', 'CheckSanity, CheckTargetsSanity, Unserialize, Restore')],
     ['process exit', 'sanitizer reports', 'allocation balance'],
     'ASan+UBSan (gcc, clang), checked containers, valgrind memcheck and allocation balance over all workloads and hostile inputs',
     'Held on the executions explored; sanitizers do not see non-adjacent overflows into live memory.')
prop('C13', 'Concurrent reads and independent instances do not interfere',
     'Any number of threads may call the read operations of one forest or pollard (proofs, roots, leaf count, comparison, sanity checks) at the same time, and threads that use separate accumulators never influence each other. '
     'Every such call returns what it returns when it runs alone, and no data race occurs.',
     ['schedules', 'inputs'], 'every interleaving of const operations on shared instances and of all operations on separate instances',
     'Tests are single threaded; hidden shared or cached state would go unnoticed.',
     [A, Pp, R, B, 'src/crypto/sha512.cpp'], [m('const operations without hidden state', 'include/accumulator.h, pollard.h, ram_forest.h')],
     ['results in each thread', 'ThreadSanitizer reports'],
     'ThreadSanitizer plus result oracle on overlapping calls of real threads',
     'Held on the interleavings that occurred; ThreadSanitizer judges unordered access, not only collisions.')
prop('C14', 'Position arithmetic is right for every forest size',
     'For every forest size the positions of roots, parents, children, siblings, ancestors and proof nodes are those of the accumulator definition, and the swaps computed for a set of deletions move every remaining leaf to the place the definition prescribes, with the undo swaps being their inverse. '
     'Pollards of enormous sparse forests therefore verify and delete correctly.',
     ['inputs'], 'every leaf count up to 2^62 and every set of positions in it',
     'Tests use forests of 15 leaves or fewer; shifts and masks go wrong at other sizes.',
     [S, 'src/state.h', Pp], [m('position arithmetic', 'src/state.cpp ForestState'), m('swap computation', 'src/state.cpp ForestState::Transform, UndoTransform')],
     ['ForestState methods', 'Pollard with huge leaf counts'],
     'comparison with arithmetic from the definition and tracing of leaves through the computed swaps, exhaustive for small sizes, random to 2^62; sparse huge pollards',
     'Held on the sizes and sets explored. The swap of subtrees higher than 31 rows with more than 2^31 leaves in memory is out of reach.')
prop('C15', 'The hash function is SHA-512 and SHA-512/256',
     'The hasher computes SHA-512, and SHA-512/256 with its own initial state, of the bytes written, for every length, every division into writes, after reset (which keeps the variant), and with several hashers used in turns or copied; parent hashes are SHA-512/256 of the two child hashes.',
     ['inputs'], 'every message and every way to write it in pieces',
     'There are no tests of the hash; agreement of forest and pollard cannot show a wrong hash.',
     ['src/crypto/sha512.cpp', 'src/crypto/common.h', A], [m('block buffering and padding', 'src/crypto/sha512.cpp CSHA512::Write, Finalize, Finalize256')],
     ['CSHA512', 'Accumulator parent hashes through Roots'],
     'comparison with an independent implementation checked against published vectors',
     'Held on the messages explored: all lengths to 1055 bytes, random ones, one of more than 2^32 bits; parents also as the roots, proofs and cached hashes of accumulators.')
prop('C16', 'Behaviour does not depend on the build configuration',
     'Any sequence of operations gives the same results, roots, proofs, undo data, node counts and file bytes whatever compiler, optimisation level or internal checking is used, and does not depend on uninitialised memory. '
     'The internal checks never fire on valid use.',
     ['configurations', 'histories', 'inputs'], 'every history under every supported build configuration',
     'Tests run in one or two builds and compare each only with fixed expectations.',
     [A, Pp, R, B, S, 'src/check.h'], [m('side-effect free checks', 'src/check.h CHECK_SAFE; assert')],
     ['digests of all outputs'],
     'differential execution of seven builds (gcc, clang, -O0 to -O3, NDEBUG, internal checks on, patterned memory)',
     'Held on the executions explored; compilers at hand only, one machine architecture.')
prop('C17', 'Equality and position comparison reflect the actual state',
     'Two forests compare equal exactly if they hold the same leaves in the same order; forests that differ in a leaf, in order or in count compare unequal. '
     'The position map comparison says that every leaf the first party knows has the same position in the second one, for forests and pollards alike, whatever histories led there.',
     ['histories', 'inputs'], 'every pair of reachable accumulators',
     'Tests compare equal states only.',
     [R, A], [m('comparison', 'src/ram_forest.cpp RamForest::operator==; src/accumulator.cpp Accumulator::ComparePositionMap')],
     ['operator==', 'ComparePositionMap'],
     'comparison of answers with the reference model for equal, exchanged, replaced and shortened leaf sequences after random histories',
     'Held on the pairs explored.')
prop('C18', 'The cost of an operation follows the request and the depth, not the forest size',
     'Reading roots or a leaf, proving, verifying (whether the proof is accepted, refused or malformed) and, at light clients, removing and adding leaves take a number of steps and an amount of memory within a constant factor of the size of the request (targets, proof hashes, additions and, for removals, cached leaves) times the square of the depth of the forest. '
     'Modification and undo of a forest may in addition move the leaves of subtrees that change place. (Leaf hashes are digests: tables keyed by them are presumed to be balanced.) So light clients of forests of 2^61 leaves work as well as small ones, and no message costs its receiver more than its own size calls for.',
     ['inputs', 'histories'], 'every forest size, every request and every malformed proof',
     'Tests use a dozen leaves, where linear and logarithmic work are the same.',
     [A, Pp, R, S], [m('traversals by path, updates by touched rows', 'src/pollard.cpp Pollard::ReadSiblings, CreateProofTree, ReadLeafRange; src/accumulator.cpp Accumulator::Prove, Remove; src/ram_forest.cpp')],
     ['steps (control flow edges) and bytes (allocated, copied, filled) of each call'],
     'metering of every call by compiler inserted edge counters and memory interposition, compared with limits per unit of the request, with requests of other sizes and with parties of other sizes',
     'Held on the calls metered; limits are ten to twenty times the cost measured on the unchanged tree (three times in proportion where requests of different size are compared, eight times where parties are), so only growth beyond these factors is noticed. Leaf hashes are presumed to spread like digests.')

with open('properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p['meta']) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks are needed: all monitors observe the public interface', source_commits=[]),
           checks=[dict(property=p['meta']['id'], quick_cmd=f"./check {p['meta']['id']} --tier quick", thorough_cmd=f"./check {p['meta']['id']} --tier thorough",
                        technique='runtime monitoring: ' + p['technique'], level='fault_enumeration' if p['meta']['id'] == 'C09' else 'exploration', level_note=p['note']) for p in P],
           not_applicable=[], notes='See DESIGN.md. A violation writes a replay file; ./check <id> --replay <file> runs that case again with its trace.')
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
