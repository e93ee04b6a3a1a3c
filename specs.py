"""What each check runs: harness, instrumented builds, sub-workloads, and how its cases are counted."""
SPECS = {}


def spec(cid, harness, rule, runs, level='exploration', **kw):
    SPECS[cid] = dict(harness=harness, rule=rule, runs=runs, level=level, **kw)


def R(variant, part='', **kw):
    return dict(variant=variant, part=part, **kw)


spec('C01', 'c01.cpp',
     'A case is one key (seed, hash function, height, W, signer) driven through a sequence of skips and signatures; each '
     'issued signature is judged (size, verify, argument and key immutability). Distinct = distinct (parameters, signer, '
     'index, message length, seed).',
     [R('plain', shards=24), R('asan', 'san', shards=16)], floor=2000,
     must=['message_lengths', 'long_messages', 'last_index_signatures', 'empty_messages', 'signatures_basic', 'signatures_fast', 'skips',
           '~grown_signatures', '~grown_last_index', '~grown_h18', '?tall_signatures', '?tall_h30', '?tall_above_2^8', '?tall_above_2^16', '?tall_above_2^24'])

spec('C02', 'c02.cpp',
     'A case is one genuine signature made by the reference (random keys, hash function, W, height 4..30, index anywhere in '
     'the tree) or issued by the library, then tampered with in 22 ways, plus exhaustive sweeps (every byte or bit of one '
     'signature, message and key; all 2^16 descriptor prefixes; all sizes; unsupported W). Each verify() answer is compared '
     'with the reference decision. Distinct = distinct (message, signature, key, W) quadruples.',
     [R('plain', 'huge', shards=1), R('plain'), R('asan', 'san', shards=12)], floor=50000, stall=240,
     must=['low_trees', 'message_lengths', 'long_messages', 'genuine', 'tampered', 'accepted', 'rejected', 're-asked', 'genuine_h30', 'unsupported_W', 'descriptors'])

spec('C03', 'c03.cpp',
     'A case drives random histories of sign, setIndex (same, forward, back, to and past the end, huge) and accessors on keys of '
     'both signers, some ending exhausted; every call is compared with the index state machine, the secret key and each signature '
     'with the reference, and the log of issued indices is checked afterwards. Also all (reached, requested) pairs of a 16-leaf tree '
     'and base-class index moves for heights 4..30. Distinct = distinct history prefixes.',
     [R('plain', shards=24), R('asan', 'san', shards=16)], floor=5000,
     must=['~grown_basic_signatures', 'signatures', 'signatures_after_refusals', 'rewinds_refused', 'past_end_refused', 'exhausted_refusals', 'forward_moves', 'probe_moves',
           '?tall_signatures', '?tall_moves', '?tall_rewinds_refused', '?tall_past_end_refused', '?tall_exhausted_refusals', '?tall_h30'])

spec('C04', 'c04.cpp',
     'A case is one fast key taken through a history of skips and signatures (plain, random, boundary-aligned, to the last leaf); '
     'each signature is compared byte for byte with the whole-tree reference. Part "every" visits all 2^16 choices of signing '
     'indices of a 16-leaf tree by copying the traversal state at each branch. Distinct = distinct (key, history prefix).',
     [R('plain', shards=24), R('plain', 'every', shards=24), R('asan', 'san', shards=16)], floor=60000,
     must=['exhaustive_histories', 'last_leaf_signatures', 'whole_trees', 'skips', 'split_skips', 'both_signers',
           '~grown_signatures', '~grown_last_leaf', '~grown_h18', '~grown_h22', '?tall_signatures', '?tall_skips', '?tall_last_leaf', '?tall_h30', '?tall_crossed_2^8', '?tall_crossed_2^16', '?tall_crossed_2^24'])

spec('C05', 'c05.cpp',
     'A case builds a key, checks every accessor against the reference layout, rebuilds it from the extended seed, hex, mnemonic, '
     'its parts and with the other signer, and compares keys and signatures at random indices. Distinct = distinct (seed, '
     'parameters, way of recovery).',
     [R('plain', shards=24), R('asan', 'san', shards=16)], floor=600, must=['recoveries', 'accessor_checks', 'signatures_compared', '~grown_recoveries', '?tall_recoveries', '?height_12', '?height_20', '?height_30'])

spec('C06', 'c06.cpp',
     'A case is one key compared byte for byte with the reference (secret key, root, public key, address, signatures), one signature made '
     'by the library at a planted index of a tree up to height 30, or a committed vector of the original library. Distinct = distinct '
     'keys and (key, index, message) signatures.',
     [R('plain', shards=24), R('asan', 'san', shards=16)], floor=1000,
     must=['keys', 'signatures', 'message_lengths', 'long_messages', '~grown_signatures', '~grown_h18', '~grown_h20', '?planted_signatures', '?planted_above_65535', '?planted_above_2^24', 'golden_vectors', 'signatures_w2', 'signatures_w4', 'signatures_w16', 'signatures_w256'])

spec('C07', 'c07.cpp',
     'A case is a WOTS+ signature on a chosen digest (every checksum value, carries, extremes, random) or an issued signature; each revealed '
     'value is located on the chains walked from the secret starts and compared with the scheme positions; pairs of digests are tested for '
     'dominance and forward-only forgeries are put to the verifier. Distinct = distinct (digest, W, hash function).',
     [R('plain'), R('asan', 'san', shards=12)], floor=10000, rust=True,
     must=['rust_issued_signatures', '?checksum_values', '?dominance_pairs', 'forgeries_tried', '?raised_digests', 'issued_signatures', '?chain_values_located'])

spec('C08', 'c08.cpp',
     'A case hashes a range of input and output lengths (every input length up to 700, every output length up to 700, block multiples, '
     'megabytes) through the vector, pointer and Rust interfaces and compares with an independent FIPS 180-4 / FIPS 202 implementation. '
     'Distinct = distinct (function, input, output length).',
     [R('plain', 'huge', shards=3), R('plain'), R('asan', 'san', shards=12)], floor=20000, rust=True, stall=240,
     must=['vector_calls', 'pointer_calls', 'rust_calls', 'input_lengths', 'output_lengths', 'large_inputs', 'count_zero', 'in_place'])

spec('C09', 'c09.cpp',
     'A case derives addresses from public keys (well-formed, wrong length, every descriptor) and validates byte strings: generated '
     'addresses, every single-byte change, all lengths, right checksums over unsupported descriptors. Each answer of the C++ and Rust '
     'helpers is compared with the reference construction. Distinct = distinct inputs.',
     [R('plain'), R('asan', 'san', shards=8)], floor=50000, rust=True,
     must=['addresses', 'keys_refused', 'valid', 'invalid', 'single_byte_changes', 'length_sweeps', 'descriptors', 'real_keys', 'neighbours'])

spec('C10', 'c10.cpp',
     'Exhaustive: every value of the two meaningful descriptor bytes from each of the three sources, all values of the reserved byte for '
     'known prefixes, all lengths to 400, every encodable field combination; C++ and Rust answers compared with the documented layout. '
     'Distinct = distinct (source, bytes).',
     [R('plain'), R('asan', 'san', shards=8)], floor=200000, rust=True,
     must=['decoded', 'refused', 'prefixes', 'reserved_sweeps', 'lengths', 'encoded', 'users'])

spec('C11', 'c11.cpp',
     'A case encodes byte strings (every length, every word in both positions, all byte values) and decodes text (all character pairs, '
     'mutated hex, mutated mnemonics with arbitrary white space) and compares results and refusals of C++ and Rust with reference codecs '
     'and the committed word list. Distinct = distinct inputs.',
     [R('plain', 'huge', shards=2), R('plain'), R('asan', 'san', shards=8)], floor=20000, rust=True, stall=240,
     must=['words', 'words_in_position', 'hex_decoded', 'hex_refused', 'mnemonics_decoded', 'mnemonics_refused', 'wrapped', 'byte_counts_refused',
           'hex_pairs', 'unusual_white_space', 'edges', 'beyond_ascii', 'large', 'neighbours'])

spec('C12', 'c12.cpp',
     'A case calls public entry points (verify, parsing, encoding, hashing, key construction, sign, setIndex) with arbitrary and huge '
     'arguments, each call repeated with differently poisoned stack and heap; observed by ASan+UBSan, Valgrind memcheck, a 512 kB stack '
     'and the progress watchdog. Distinct = distinct calls.',
     [R('plain'), R('asan', 'san', shards=12), R('vg', 'memcheck', shards=8)], floor=10000,
     must=['returned', 'refused', 'verify_calls', 'sized_garbage', 'huge_messages', 'huge_text', 'parse_rounds', 'lengths', 'key_rounds', 'tall_trees'])

spec('C13', 'c13.cpp',
     'A case is a random lifetime of five keys and a vector of keys (construct, copy, move, assign, self-assign, swap, grow, erase, share, '
     'failed construction, sign, setIndex, destroy); after every step each live key is compared with a model holding only seed, parameters '
     'and index, and signatures with the reference. The leak part repeats histories and compares live allocations. Distinct = distinct '
     '(operation trail, key, index).',
     [R('plain'), R('asan', 'san', shards=16), R('plain', 'leak', shards=6)], floor=3000,
     must=['signatures', 'keys_inspected', 'histories', 'copies_at_index', '~grown_signatures', '~grown_h14', 'pool_keys', 'operations_checked_for_leaks', 'leak_histories', 'ops_construct', 'ops_copy-construct', 'ops_copy-assign',
           'ops_self-assign', 'ops_move-construct', 'ops_move-assign', 'ops_swap', 'ops_destroy', 'ops_box-push', 'ops_box-erase', 'ops_failed-construct', 'ops_by-value'])

spec('C14', 'c14.cpp',
     'A case is one episode: 1-16 threads call getNextTree, isAvailable and getCurrentIndex on a pool (sizes 0-9, starting indices around byte '
     'boundaries up to 2^56); an offline checker over the logged calls decides exactly-once issue, completeness, real-time order and counter '
     'bounds, and the keys are compared with the reference. TSan build, and plain build with delays injected around the lock. Distinct = '
     'distinct issued (seed, index) and distinct orders of call starts.',
     [R('plain', shards=16), R('tsan', 'tsan', shards=16, weight=2)], floor=1500,
     must=['overlapping_pools', 'keys_issued', 'keys_judged', 'index_reads', 'overlapping_calls', 'available', 'not_available', 'sequential_claims', 'published'])

spec('C15', 'c15.cpp',
     'A case is one pool whose worker threads are held back and released in chosen orders, refused (EAGAIN), or made to fail (allocation '
     'failures, impossible heights), or which is destroyed at a chosen moment. Judged: bounded waits for progress and destruction, which index '
     'each call got, errors reaching the callers, availability answers; ASan and TSan watch the memory. Distinct = distinct (scenario, order, tree).',
     [R('plain', shards=16), R('asan', 'asan', shards=8), R('tsan', 'tsan', shards=8)], floor=600, link='-ldl -rdynamic', stall=60,
     must=['gated_pools', 'released_out_of_order', 'destroyed_pools', 'became_available', 'trees_despite_faults', 'calls_that_raised', 'injected_faults',
           'failing_pools_mode0', 'failing_pools_mode1', 'failing_pools_mode2', 'failing_pools_mode3', 'tree_failures_reported', 'crowds', 'crowd_calls_raised', '?held_builders'])

spec('C16', 'c16.cpp',
     'A case starts 3-16 threads at once, each with its own jobs (lives of keys of every parameter set, verification, hashing, text, address, '
     'seed and size helpers, pools, refusals); each result is compared with the reference, computed beforehand so that the first library '
     'calls of a process are concurrent. TSan and plain builds. Distinct = distinct (mix of jobs, thread, position).',
     [R('plain', shards=12, weight=2), R('tsan', 'tsan', shards=24, weight=2)], floor=1200,
     must=['episodes', 'results_key', 'results_verify', 'results_hash', 'results_text', 'results_address', 'results_seeds', 'results_sizes', 'results_pool', 'results_refusals', 'results_same_kind'])

spec('C17', 'c17.cpp',
     'A case calls getRandomSeed (C++ and Rust) against a scripted system generator that delivers known bytes whole, in short reads, with '
     'interruptions, or fails to open, ends early or fails part way (every position of a 48-byte seed), with allocation failures and from '
     'several threads. Result compared with SHAKE256 of the delivered bytes and entropy; descriptors counted. Distinct = distinct (size, '
     'entropy, generator behaviour).',
     [R('plain', shards=8), R('asan', 'san', shards=8)], floor=3000, rust=True, link='-ldl -rdynamic',
     must=['seeds_cpp', 'seeds_rust', 'refusals_cpp', 'refusals_rust', 'interrupted', 'short_reads', 'sizes_swept', 'failure_places', 'real_generator_calls',
           'allocation_failures', 'concurrent_seeds', 'mode_3', 'mode_4', 'mode_5', 'mode_6'])

spec('C18', 'c18.cpp',
     'A case derives hash-chain seeds for a seed of any length, any 32-bit shift and counts from 0 to 70000, in C++ and Rust; every value is '
     'compared with SHAKE256(seed, shift, position); neighbouring seeds, shifts and counts are compared for coincidence and extension. '
     'Distinct = distinct (seed, shift, count).',
     [R('plain', shards=8), R('asan', 'san', shards=8)], floor=1000, rust=True,
     must=['values_cpp', 'values_rust', 'long_chains', 'count_zero', 'empty_seeds', 'shifts_wide', 'shifts_narrow'])

spec('C19', 'c19.cpp',
     'A case makes the same calls on the C++ library and the Rust port: lives of keys of every parameter set and both signers (signatures, '
     'index moves, refusals, accessors after each step), constructions with arbitrary arguments, verification of genuine and altered '
     'signatures up to height 30, all parsing, encoding, hashing and size helpers, and histories of the Rust pool. Every value and refusal is '
     'compared; panics are caught. Distinct = distinct calls.',
     [R('plain', shards=32)], floor=20000, rust=True,
     must=['rust_basic_carries', 'agreed_values', 'agreed_refusals', 'lives', 'moves', 'moves_refused', 'exhausted', 'cross_verified', 'recovered', 'constructed', 'constructions_refused',
           'verify_accepted', 'verify_rejected', 'parse_rounds', 'pool_keys', 'pool_refusals', 'whole_trees', 'long_messages', '?tall_signatures'])

spec('C20', 'c20.cpp',
     'A case asks for the height of a range of signature sizes: every size to 100000 and every exact size up to height 70000 (with neighbours) '
     'for each W, wrapping and truncating sizes over the 64-bit range, all W to 5000 and all powers of two; announced sizes for all heights '
     'the library offers, and real signatures weighed. C++ and Rust. Distinct = distinct (size, W).',
     [R('plain', shards=8), R('asan', 'san', shards=8)], floor=500000, rust=True,
     must=['refused', 'heights', 'small_sizes', 'inverses', 'wide_sizes', 'w_supported', 'w_refused', 'announced_sizes', 'signatures_weighed'])

spec('C21', 'c21.cpp',
     'A case uses Dilithium and Kyber wrappers (C++ and Rust) over stand-in primitives that touch every byte the real ones may touch, record '
     'what they are given and fail on demand: messages of all sizes, every buffer length to 5200, keys and cipher texts of wrong lengths, '
     'tampering, exchanges, failures. ASan watches the memory; the record is compared with what the caller passed. Distinct = distinct calls.',
     [R('plain', shards=8), R('asan', 'san', shards=8)], floor=3000, rust=True, lib=['core', 'pq'],
     must=['dilithium_messages', 'dilithium_refusals', 'kyber_exchanges', 'kyber_refusals', 'primitive_failures', 'rust_dilithium', 'rust_kyber', 'rust_refusals', 'lengths_swept', 'reopened'])

spec('C22', 'c22.cpp',
     'A case uses the JavaScript modules through their recorded binding table: lives of Xmss and XmssBasic objects (every way of '
     'construction, index moves, signatures, verification of genuine and altered signatures), seed texts and parameters good and bad, address '
     'and encoding helpers, Dilithium and Kyber objects over stand-in primitives, every exported function called; and the browser seed helper '
     'in node under scripted generators. Compared with the reference. Distinct = distinct calls.',
     [R('plain', shards=16), R('asan', 'san', shards=8)], floor=10000, lib=['core', 'pq', 'js', 'jspq'],
     must=['accessor_rounds', 'signatures', 'signatures_basic', 'moves', 'moves_refused', 'exhausted_refused', 'accepted', 'rejected', 'texts_accepted', 'texts_refused',
           'parameters_accepted', 'parameters_refused', 'addresses_made', 'address_texts_read', 'address_texts_refused', 'encodings', 'dilithium_messages',
           'kyber_exchanges', 'exports_called', 'seeds', 'seed_refusals', 'near_addresses'])

spec('C23', 'c23.cpp',
     'A case sweeps refused arguments (all 256 heights, seed lengths to 300, unknown enumerators, W to 600 and over 32 bits, all 2^16 '
     'descriptor prefixes of extended seeds, mixtures) in forked children under a timer, builds accepted keys and has them sign at the first, '
     'a middle and the last index, or watches that construction of a tall tree (12..30) sets out. Distinct = distinct argument tuples.',
     [R('plain', shards=16), R('asan', 'san', shards=8)], floor=50000,
     must=['refused', 'heights_swept', 'lengths_swept', 'unknown_enumerators', 'winternitz_swept', 'descriptors_swept', 'mixtures', 'signatures', 'keys',
           'keys_extended', 'keys_XmssBasic', 'keys_XmssFast', 'tall_accepted', 'base_constructions', '~grown_signatures', '~grown_h18', '?planted_signatures', '?planted_h30'])

spec('C24', 'c24.cpp',
     'A case takes a key through all its indices and every public output (keys, addresses, descriptors, signatures, error texts, anything '
     'printed) is searched at every byte offset, raw and as hex or mnemonic words, for aligned 8-byte pieces of every secret the reference '
     'derives from the seed: one-time seeds and all unrevealed chain values of all indices included. Calls that refuse secret arguments '
     'likewise. Output descriptors are captured and file opening is intercepted. Distinct = distinct (key, index, message).',
     [R('plain', shards=16), R('asan', 'san', shards=8)], floor=2000, rust=True, link='-ldl -rdynamic',
     must=['rust_malformed', 'secrets', 'outputs_searched', 'signatures_fast', 'signatures_basic', 'signatures_rust', 'same_index_other_message', 'calls_watched', 'error_texts', 'pools_refused', 'malformed_verifications', 'error_rounds', '?signatures_tall', 'basic_high_indices'])
