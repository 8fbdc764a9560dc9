"""Per property: how cases are made and what makes one non-trivial, what is assumed, and what must have been observed."""

COMMON = ['the reference model (harness/model.h), the independent SHA-512/256 (harness/refsha.cpp) and the case generators are trusted; they share no code with the library',
          'preconditions of the API are kept: leaves of one forest are distinct, Verify gets target hashes in position order, a pollard removes only leaves it caches or has verified']

RULES = {
    'C01': ('Histories of add/delete batches on a forest: every deletion subset of small forests (exhaustive), pairs of deletions, random histories with re-added leaves, and forests of up to some hundred thousand leaves. '
            'A case is non-trivial when the forest was changed and its roots, leaf count, leaf order, positions and proofs were compared with the reference model after each step; distinct by digest of the operations.', COMMON),
    'C02': ('One forest and several pollards with different memory follow the same random history; proofs are sent whole, minimal, partial or serialized; pollards are pruned or rebuilt from roots. '
            'Non-trivial: at least one step was applied to every party and all roots compared with the model and each other.', COMMON),
    'C03': ('Random and exhaustive target sets on forests of random history; the proof is compared with the minimal canonical proof of the model and verified by forest, empty, remembering and serialized-roots pollards. '
            'Non-trivial: at least one proof set was judged.', COMMON),
    'C04': ('Proofs are mutated (hashes replaced, dropped, swapped, targets shifted, claims of deleted/absent/foreign leaves, parent hashes, stale proofs) and shown to pollards and forest; the model decides what each claim is worth. '
            'In small forests all target sets with all single damages are enumerated for pollards of every memory; random ones go to 10^5 leaves. '
            'Non-trivial: at least one claim was judged; distinct by digest of the operations.', COMMON + ['no collision or second preimage of SHA-512/256 is met']),
    'C05': ('Two identical pollards run the same history, only one is shown rejected proofs; and every verification, accepted or not, is followed by a comparison of roots and leaf count. '
            'In small forests all target sets with all single damages are enumerated; random ones go to 10^5 leaves. '
            'Non-trivial: at least one rejected proof was shown and the twins compared afterwards.', COMMON),
    'C06': ('Histories of modifications of which random suffixes are undone in LIFO order, with undo data kept, copied, serialized or read after a reopen, then redone; every single-step subset exhaustively. '
            'Non-trivial: at least one undo was compared with the state before the undone modification.', COMMON),
    'C07': ('Pollards with different memory (leaves remembered at addition, by verification, or both) follow a history; after each step every cached and every uncached leaf is asked for. '
            'Exhaustive blocks: all remember x delete subsets of small forests. Non-trivial: at least one leaf was asked for.', COMMON),
    'C08': ('As C07, with the number of nodes of each pollard compared with the number the model needs for its roots and cached leaves. Non-trivial: at least one pollard was counted.', COMMON),
    'C09': ('Forests kept in files: reopened, copied between steps, committed under an increasing file size limit, on a full device, killed after commit, truncated at every length, with inflated leaf counts or repeated leaves. '
            'Non-trivial: at least one image or reopened forest was compared; faults are enumerated per case (all truncation lengths of small images, all block limits).', COMMON + ['a crash while Commit is writing is not claimed to leave a usable file', 'the file system keeps data that was flushed to it by a killed process']),
    'C10': ('Proofs and undo data of random histories and synthetic ones are serialized, compared with an independent encoder, decoded again, and damaged (truncated, extended, bit flips, counts replaced by extreme values, random bytes). '
            'Non-trivial: at least one encoding and one damaged decoding was judged.', COMMON),
    'C11': ('On random histories, modifications with unsorted, repeated, out-of-range or too many positions and proofs of absent or repeated leaves are requested from forests and pollards, pollards are asked to remove leaves they do not know, forests are given undo data that cannot be theirs, and the full state compared before and after. '
            'Non-trivial: at least one invalid request was judged.', COMMON),
    'C12': ('All workloads, and two hostile ones (H1: arbitrary proofs, positions, undo data and byte strings shown to every entry point; H2: damaged and arbitrary forest files, used on when they are accepted), under gcc ASan+UBSan, clang ASan+UBSan with internal checks on, checked containers, valgrind memcheck, '
            'and an allocation balance per case. Only crashes, reports, leaks and escaping exceptions decide. Non-trivial: the workload made at least one library call; distinct by (workload, digest of the operations).', COMMON[1:] + ['sanitizers see the executions driven here, not all']),
    'C13': ('Several threads call const operations of shared forests and pollards while other threads work on instances of their own, with random starts; once under ThreadSanitizer, once natively; each result is compared with the one computed alone. '
            'Non-trivial: at least two threads overlapped.', COMMON + ['only the interleavings that occurred are judged; ThreadSanitizer also reports races between accesses that did not collide']),
    'C14': ('Forest sizes up to 2^62 and position sets on them; positions, parents, children, siblings, roots, proof positions, swaps and undo of swaps are compared with arithmetic written from the definition and by following leaves through deletions; pollards of up to 2^62 leaves are built from roots, verify, keep, remove and add leaves. '
            'Exhaustive for small sizes. Non-trivial: at least one position set or size was judged.', COMMON[:1]),
    'C15': ('Messages of all lengths over several block borders, random lengths, one of more than 2^32 bits, written in random pieces, with resets and interleaved hashers, compared with an independent implementation checked against published vectors. '
            'Non-trivial: at least one digest was compared.', ['harness/refsha.cpp is trusted (checked against FIPS 180-4 vectors at start)']),
    'C16': ('One workload whose every output (results, roots, proofs, undo data, node counts, files) goes into a digest per case, run under several compilers, optimisation levels, compiler builtins, with and without internal checks and asserts, with patterned uninitialised memory; the digests are compared. '
            'Non-trivial: every case; distinct by digest of outputs, the same case in another build is not counted again.', COMMON[1:] + ['the monitors themselves are always built with the same compiler']),
    'C17': ('Parties with equal and different histories are compared with == and the position map comparison, and the answers with the model. Non-trivial: at least one comparison was judged.', COMMON),
    'C18': ('The library is compiled with a counter at every control flow edge; allocated, copied and filled bytes are counted too. Operations on light clients of up to 2^61 leaves and on forests and clients of 2^13 to 2^17 leaves, arbitrary malformed proofs among them, are metered and compared with limits per unit of the request '
            '(targets, hashes, additions, moved leaves, depth). Requests sixty to a hundred times as large must cost no more than three times in proportion, and the same requests at parties of 128 times as many leaves no more than eight times as much. Non-trivial: at least one operation was metered.', ['the limits are ten to twenty times the cost measured on the unchanged tree: smaller increases are not judged', 'time spent inside the C++ runtime library is not counted, memory traffic is', 'leaf hashes spread like digests: the hash tables of the library take their first eight bytes']),
}

NEED = {
    'C01': ['scale:round', 'forest-with-file', 'marathon:steps', 'exhaustive:deletion-subsets', 'big:steps', 'scale:long', 'scale:thousands', 'op:re-add', 'oracle:root-hash', 'oracle:leaf-position'],
    'C02': ['scale:round', 'sparse:steps-2^32', 'marathon:steps', 'big:steps', 'scale:long', 'op:prune', 'op:restore-pollard', 'oracle:roots-disagree', 'partial:omitted-hashes', 'op:remove-without-verify'],
    'C03': ['scale:round', 'sparse:steps-2^32', 'exhaustive:proof-subsets', 'oracle:proof-hashes', 'oracle:forest-verify', 'proof-sets'],
    'C04': ['sparse:steps-2^32', 'alike:claims', 'marathon:claims', 'exhaustive:claims', 'big:claims', 'claims:accepted', 'claims:false-rejected', 'claims:true-but-unproven', 'forest:rejected', 'forest:accepted'],
    'C05': ['scale:round', 'sparse:steps-2^32', 'marathon:claims', 'exhaustive:claims', 'big:claims', 'proofs:rejected', 'proofs:accepted', 'oracle:twin-differs'],
    'C06': ['scale:round', 'marathon:undone', 'big:undo', 'scale:long', 'op:reused-undo-object', 'op:undo', 'op:redo', 'op:reopen', 'unwound-to-start', 'exhaustive:undone-subsets'],
    'C07': ['scale:round', 'sparse:steps-2^32', 'marathon:steps', 'big:steps', 'scale:long', 'oracle:cached-unprovable', 'oracle:uncached-provable', 'op:prune', 'exhaustive:remember-delete'],
    'C08': ['scale:round', 'sparse:steps-2^32', 'marathon:steps', 'big:steps', 'scale:long', 'oracle:too-many-nodes', 'roots-only', 'exhaustive:remember-delete'],
    'C09': ['scale:round', 'big:failed-commit', 'marathon:steps', 'truncated-images', 'limited-commits:failed', 'limited-commits:succeeded', 'failed-commits:retried', 'failed-commits:destroyed', 'killed-after-commit', 'overclaiming-images', 'images-with-repeated-leaf', 'op:reopen', 'image-with-stale-tail'],
    'C10': ['decoded:accepted', 'decoded:refused', 'oracle:proof-layout', 'oracle:undo-layout', 'oracle:decode-memory', 'oracle:refusal-changes'],
    'C11': ['sparse:steps-2^32', 'big:refused-undo', 'big:steps', 'sanity:sane', 'sanity:insane', 'oracle:invalid-accepted', 'oracle:impossible-proof', 'refused:proof of absent leaf', 'refused:repeated position', 'refused:undo data', 'refused:removal of unknown leaves', 'removal of neighbours', 'oracle:undo-after-refusal'],
    'C12': ['hostile:accepted', 'hostile:malformed', 'hostile:rejected', 'damaged-file:opened', 'damaged-file:refused', 'damaged-file:modified', 'hostile-undo:accepted', 'hostile-undo:refused', 'hostile-removal:accepted', 'hostile-removal:refused', 'oracle:leak-balance'],
    'C13': ['cold-starts', 'private-files', 'oracle:concurrent-refusal', 'overlapping-calls', 'episodes', 'oracle:concurrent-compare', 'oracle:concurrent-undo', 'oracle:concurrent-prove', 'oracle:concurrent-verify', 'oracle:concurrent-read'],
    'C14': ['exhaustive:sizes', 'exhaustive:subsets', 'traced-leaves', 'sparse:verified', 'sparse:kept', 'sparse:large-moves'],
    'C15': ['exhaustive:lengths', 'parents', 'oracle:sha512', 'oracle:sha512-256', 'oracle:interleaved'],
    'C16': ['observations', 'claims', 'files', 'sparse:steps-2^32'],
    'C17': ['sparse:steps-2^32', 'big:steps', 'op:detour', 'op:reopen', 'oracle:equal-differs', 'oracle:unequal-same', 'oracle:positions-subset'],
    'C18': ['sparse', 'forest', 'growth', 'sizes', 'oracle:cost-growth', 'oracle:cost-size', 'metered', 'oracle:cost-steps', 'oracle:cost-memory'],
}
