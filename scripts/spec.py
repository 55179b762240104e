#!/usr/bin/env python3
"""The table of properties: writes properties.jsonl and MANIFEST.json (spec.py --write)
and is read by check.py."""
import json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = '/repo'
P = []


def prop(id, title, statement, over, quant, why, files, mech, quick, thorough=(), observe=(), hook=None, bounds='', noinf=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  quick=quick.split(), thorough=' '.join(thorough).split() if not isinstance(thorough, str) else thorough.split(),
                  observe=list(observe), hook=hook, bounds=bounds, noinf=list(noinf), state=list(state)))


HK = 'cfg(panacea_verif): stored ciphertexts of the server are readable'
# ------------------------------------------------------------------ the oblivious store
prop('O01', 'A single oblivious read returns the stored item and changes nothing',
     'A read query for any index, processed by the server, is answered with a ciphertext that decrypts under the client\'s key to exactly the item stored at that index. After the access every stored item decrypts to the value it had before, and the access leaves no residual error on the stored ciphertexts beyond rounding and encryption noise.',
     ['inputs', 'configurations'],
     'all stored items, indices, secret keys, encryption randomness and random database layouts; stores of 2 to 64 cells, ring sizes 2, 4 and 8 (16 and 128 cells thorough), four parameter sets (1 to 3 decomposition levels); the default decompositions at ring size 2; the queries (but not their processing) for 256, 1024 and 4096 cells',
     'The tests read one random index of one random database per run and compare with rounding tolerance; they cannot quantify over keys, masks, layouts and item values.',
     ['src/oram.rs', 'src/decision_tree.rs', 'src/rgsw.rs', 'src/rlwe.rs'],
     [('query generation', 'src/oram.rs Client::gen_read_query_one'), ('packed query expansion and demultiplexing', 'src/oram.rs Server::process_one'), ('selection and accumulation', 'src/oram.rs process_one helpers')],
     'oram_read_one2 oram_read_one4 oram_read_one4b oram_read_one8 oram_read_one_n4 oram_read_one_l1 oram_read_one32 oram_read_n8 oram_read_64 oram_read_pd oram_query_256 oram_query_1024 oram_query_4096', 'oram_read_one16 oram_read_n16 oram_read_128',
     ['decryption of the server\'s response and of every cell'], HK,
     'stores of 2,4,8 cells (16 in the thorough tier; with zero masks 32 and 64, 128 thorough), every index; ring sizes 2,4 (8, and 16 thorough, with fixed pseudo-random masks); parameter sets PO,PO3,PO4,PO1; the default decompositions at ring size 2; queries for up to 4096 cells at eight indices')
prop('O02', 'A write replaces exactly the addressed item; histories act as an array',
     'A write query for any index is answered with the previous item, stores the new item at that index, and leaves every other item as it was. A history of single accesses, reads and writes in any order and at any indices, behaves as the same history on a plain array: each response is the value last written, and the final store equals the final array.',
     ['histories', 'inputs'],
     'all histories of 2 to 6 accesses (each a read or write at any index) over stores of 2 or 4 cells, single writes over stores of up to 64 cells (128 thorough); ring sizes 2, 4 and 8 (16 thorough); all item values, keys and randomness; the default decompositions at ring size 2; the queries (but not their processing) for 256, 1024 and 4096 cells',
     'A test runs one fixed sequence on one random database; the array semantics has to hold for every sequence and every value.',
     ['src/oram.rs', 'src/rgsw.rs', 'src/rlwe.rs'],
     [('query generation', 'src/oram.rs Client::gen_write_query_one'), ('conditional update of every cell', 'src/oram.rs Server::process_one')],
     'oram_write_one2 oram_write_one4 oram_write_one4b oram_write_one8 oram_write_one_n4 oram_write_one_l1 oram_history2 oram_history2b oram_history4 oram_write_one16 oram_write_one32 oram_history4_long oram_write_n8 oram_write_64 oram_write_pd oram_history_pd oram_query_256 oram_query_1024 oram_query_4096', 'oram_history2_long oram_history2_six oram_write_n16 oram_write_fixed_32 oram_write_128',
     ['decryption of responses and of every cell'], HK,
     'histories of length 2 (4 cells; 3 with zero masks), 3 (2 cells), 4 (thorough; 6 with zero masks); single writes on up to 8 cells (with zero masks 32 and 64, thorough 128); ring size 8 (16 thorough) with fixed pseudo-random masks; the default decompositions at ring size 2; queries for up to 4096 cells at eight indices')
prop('O03', 'Parallel access without batching answers every query and applies every write',
     'When several read and write queries with distinct indices are processed together on one database, each response decrypts to the item stored at its index before the round. After the round each written index holds the value its query wrote and every other item is unchanged.',
     ['histories', 'inputs'],
     'every combination of reads and writes for 1 to 4 queries with distinct indices on stores of 2 to 8 cells, chosen combinations of 5 and 9 queries (up to 16 on 16 cells thorough), and up to three rounds in a row; all item values, keys and randomness; the default decompositions at ring size 2',
     'The test issues one fixed combination of operations on random data; combinations, rounds and all values are not covered.',
     ['src/oram.rs'],
     [('multi-query processing', 'src/oram.rs Server::process_multi'), ('per-query accumulation of updates', 'src/oram.rs process_multi')],
     'oram_multi2 oram_multi4 oram_multi4b oram_multi_one oram_multi_rounds oram_multi3q oram_multi4q oram_multi5q oram_multi9q oram_multi_pd', 'oram_multi2_three oram_multi3q8 oram_multi8q oram_multi16q',
     ['decryption of responses and of every cell'], HK, 'up to 3 queries, 2 rounds, 4 cells; with zero masks 4 queries, 3 rounds, 8 cells, and 5 to 16 queries on up to 16 cells with chosen indices and operations; the default decompositions at ring size 2')
prop('O04', 'Batched access answers requests and keeps every replica of every item in step',
     'A batched read returns, in the row the hash mapping assigns to each requested index, that index\'s item, and leaves all items as they were. A batched write additionally stores the new item in every replica of every requested index and changes no other cell, so that after any sequence of batches all replicas of an item agree and equal the array the history describes.',
     ['histories', 'inputs', 'configurations'],
     'all sets of 1 to 3 requested indices, reads and writes, up to 4 batches in a row; databases of 2 to 6 rows (8 thorough) and 2 to 8 columns (16 thorough) with 1 to 4 replicas; a bounded choice of hash permutations; all values, keys and randomness; the default decompositions at ring size 2; the queries for batches of two over 512 and 1024 columns',
     'The tests use one random hash and check only the responses of one read batch and one write batch; replica consistency over sequences of batches is not observed by them.',
     ['src/oram.rs', 'src/naive_hash.rs'],
     [('batch query generation', 'src/oram.rs Client::gen_read_query_batch, gen_write_query_batch'), ('row-wise processing and copy to replicas', 'src/oram.rs Server::process_batch'), ('mapping of indices to rows', 'src/naive_hash.rs NaiveHash::hash_to_mapping')],
     'oram_batch22 oram_batch22b oram_batch22_rounds oram_batch24 oram_batch32 oram_batch24_h1 oram_batch43 oram_batch28 oram_batch_rows6 oram_batch_n8 oram_batch_rows8 oram_batch_pd oram_query_batch_512 oram_query_batch_1024', 'oram_batch42 oram_batch32_read oram_batch_rounds oram_batch_long oram_batch42_long oram_batch_cols16',
     ['decryption of responses and of every cell'], HK, 'see quantifier; 4 rows of 4 columns, 6 and 8 rows, 8 (thorough 16) columns and 4 batches in a row with zero masks; ring size 8 with fixed pseudo-random masks; permutation draws beyond the first 0..3 (all for 2x2) take the last value; the default decompositions at ring size 2')
prop('O05', 'The initial database stores each item once per replica, at its hashed position',
     'Setting up a database yields one plaintext item per index and a server whose cells are exactly the replicas: every replica of every item decrypts to that item at the row and column its hash gives, each cell is used exactly once, and the whole-database decryption reads the same items back.',
     ['inputs', 'configurations'],
     'every item value, key, layout drawn and encryption randomness; databases of 1 to 4 rows, 2 to 134 columns and 1 to 4 replicas',
     'Tests check a few sizes with random contents and no replicas at odd sizes (a number of items that is no multiple of the internal chunk size).',
     ['src/oram.rs', 'src/naive_hash.rs'],
     [('database generation', 'src/oram.rs Client::gen_dummy_database'), ('server construction', 'src/oram.rs Server::new'), ('setup', 'src/oram.rs setup_random_oram'), ('whole-database decryption', 'src/oram.rs Server::decrypt_db')],
     'oram_setup22 oram_setup14 oram_setup32 oram_setup44 oram_setup_large oram_decrypt_db oram_setup_large2', 'oram_setup_large_rep',
     ['decryption of every cell', 'decrypt_db'], HK, '4 to 402 cells')
prop('O06', 'Queries reveal neither index nor operation through shape or randomness',
     'Two queries for arbitrary indices and arbitrary operations, single or batched, consist of the same number and kinds of ciphertexts, and draw the same numbers of noise samples with the same deviations. Every mask coefficient of every ciphertext of a query, including those for rows no index needs and the dummy data of reads, is uniform randomness drawn for it alone, and every error of its selection bits is a noise sample of its own.',
     ['histories', 'inputs'],
     'every pair of queries (read or write, any index) on stores of 2 to 8 cells, and of one-index batches on 2 by 2 (2 by 4 thorough) databases; all keys, item values and randomness',
     'No test looks at the randomness of a query; a reused or missing mask decrypts correctly and is invisible to functional tests.',
     ['src/oram.rs', 'src/rlwe.rs', 'src/context.rs'],
     [('query generation', 'src/oram.rs Client::gen_query helpers'), ('encryption of query bits', 'src/rlwe.rs make_decomposed_rlwe_ct, RLWESecretKey::encrypt_rgsw')],
     'oram_query_shape2 oram_query_shape4 oram_query_shape8 oram_query_shape_batch', 'oram_query_shape_batch24',
     ['the ciphertexts of a query and the draws made from the random generators'], 'cfg(panacea_verif): the parts of a query are readable', '2 queries, 2 to 8 cells')
prop('O07', 'The server\'s control flow and memory accesses are independent of query contents',
     'While processing any query, single, parallel or batched, the server takes no branch, makes no memory access at an address and performs no division or allocation that depends on ciphertext contents, and draws no randomness. Its trace is therefore the same for every index and operation.',
     ['inputs'],
     'all ciphertext contents (symbolic) for reads and writes at every index of stores of 2 cells (4 cells for batches)',
     'Observing equal traces needs instrumentation of every branch and address; tests see only results.',
     ['src/oram.rs', 'src/rgsw.rs', 'src/rlwe.rs'],
     [('server processing', 'src/oram.rs Server::process_one, process_multi, process_batch'), ('external products', 'src/rgsw.rs RGSWCiphertext::external_product_with_buf')],
     'oram_oblivious_one oram_oblivious_multi oram_oblivious_batch', '',
     ['every branch, address and allocation of the compiled server code'], None, 'stores of 2 cells (4 for batches), one query')
prop('O08', 'Results do not depend on how parallel work is scheduled',
     'Processing single, parallel and batched queries on a pool of worker threads gives the same correct responses and the same correct store whichever way tasks are assigned to threads and ordered. No schedule makes two tasks use the same scratch buffer, deadlock, or panic.',
     ['schedules'],
     'for one access of each kind on 2, 3 or 6 workers: every schedule with at most 2 departures (3 thorough, plus fully free prefixes of 4 to 6 decisions) from running everything in place (a task stolen and run early or late, another queued task run while waiting), and every schedule with 1 departure and 1 preemption at a lock (2 and 2 thorough); all values, keys and randomness',
     'A test observes one schedule of the real pool per run; assignments that expose sharing are rare and not reproducible.',
     ['src/oram.rs', 'src/macros.rs'],
     [('per-thread scratch buffers', 'src/oram.rs FftBufferPool and its use by thread index'), ('parallel loops', 'src/oram.rs process_one, process_multi, process_batch')],
     'oram_threads_batch oram_threads_many oram_threads_many_multi oram_threads_many_batch oram_dev2_one oram_dev2_multi oram_dev2_batch oram_dev2_batch4 oram_dev1p_one oram_dev1p_multi oram_dev1p_batch oram_dev1p_batch4', 'oram_threads_one oram_threads_multi oram_threads_batch4 oram_threads_one2 oram_threads_two oram_threads_multi3 oram_preempt_one oram_preempt_multi oram_preempt_batch oram_preempt_batch4 oram_dev3_one oram_dev3_multi oram_dev3_batch oram_dev3_batch4 oram_dev2p_one oram_dev2p_multi oram_dev2p_batch oram_dev2p_batch4',
     ['responses, store, locks'], HK, '2, 3 or 6 workers; at most 2-3 departures from the default order or 4-6 free decisions; tasks interleave at joins and, with 1-2 preemptions, at lock operations')
# ------------------------------------------------------------------ hashing
prop('H01', 'Replica positions of distinct items never collide and stay in range',
     'For every number of replicas and items, the hash assigns every (replica, item) pair a position below replicas times items, no two pairs share a position, and the row and column it is split into lie inside the database. Asking for a replica or item out of range is refused.',
     ['inputs', 'configurations'],
     'every permutation the shuffle can produce (symbolic) and every pair of (replica, item) pairs, for 1 to 4 replicas and 1 to 8 items; one fixed pseudo-random permutation each of tables up to 1000 items and 5 replicas',
     'The test samples a few random hashes; distinctness is a statement over all permutations and pairs.',
     ['src/naive_hash.rs'],
     [('permutation tables', 'src/naive_hash.rs NaiveHash::new'), ('lookup', 'src/naive_hash.rs NaiveHash::hash, checked_hash, hash_to_tuple')],
     'hash_table_1_4 hash_table_2_2 hash_table_2_3 hash_table_3_2 hash_table_3_4 hash_table_2_4 hash_table_4_8 hash_collision_free_2_4 hash_collision_free_3_5 hash_checked_3_4 hash_checked_1_3 hash_tuple_3_4 hash_tuple_2_5 hash_large_3_64 hash_large_5_40 hash_large_2_300 hash_large_4_1000', '',
     ['hash values'], None, 'h_count*items <= 32 with permutations fully symbolic; up to 4000 with fixed permutations')
prop('H02', 'A batch mapping assigns each requested index its own row holding a replica of it',
     'For any set of distinct requested indices the mapping either assigns every requested index exactly one row, with no row used twice and the recorded cell being a replica of that index in that row, or is refused outright. A request whose indices each have a free row left when taken in turn is never refused, and no mapping omits an index or points to a wrong cell.',
     ['inputs', 'configurations'],
     'every permutation of the hash (symbolic), every list of 1 to 3 distinct indices in every order, for tables up to 3 replicas of 4 items; batches of up to 12 indices over fixed pseudo-random tables up to 300 items',
     'The test tries one random hash; whether eviction terminates and stays consistent depends on the permutation and the order of requests.',
     ['src/naive_hash.rs'],
     [('assignment of indices to rows', 'src/naive_hash.rs NaiveHash::hash_to_mapping')],
     'hash_mapping_2_2 hash_mapping_2_3 hash_mapping_2_3_3 hash_mapping_3_2 hash_mapping_2_4 hash_mapping_1_4 hash_mapping_one hash_mapping_large_3_16 hash_mapping_large_3_64 hash_mapping_large_4_32 hash_mapping_large_tight', 'hash_mapping_3_4 hash_mapping_large_2_300',
     ['the mapping'], None, 'h_count*items <= 12 with permutations fully symbolic; up to 192 (600 thorough) and 12 requests with fixed permutations and evenly spread requests')
# ------------------------------------------------------------------ encodings
prop('E01', 'Encoding round-trips through every error below half a step and rejects the rest',
     'For every power-of-two plaintext modulus, decoding the encoding of a plaintext plus any error smaller in magnitude than the stated largest error returns the plaintext, and decoding maps every value to the nearest plaintext. A value outside the plaintext space is refused rather than encoded as another one, and polynomials are encoded and decoded coefficient by coefficient.',
     ['inputs', 'configurations'],
     'every 64-bit plaintext, error and torus value, for every plaintext modulus 2 to 2^63',
     'The tests sample two moduli; the borderline errors and moduli are exactly where rounding goes wrong.',
     ['src/codec.rs'],
     [('codec', 'src/codec.rs Codec::encode, decode, largest_error, poly_encode, poly_decode')],
     'codec_roundtrip codec_reject codec_nearest codec_poly codec_edges', '',
     ['encoded and decoded values'], None, 'all 64-bit values')
prop('E02', 'The ternary encoding round-trips and accepts only 0, 1 and -1',
     'Encoding one of 0, 1, -1 and decoding it under any error below a sixth of the torus returns it; decoding is total and always yields one of the three values. Any other value is refused by the encoder.',
     ['inputs'],
     'every 64-bit value and error',
     'The tests round-trip the three values without error only.',
     ['src/codec.rs'],
     [('ternary codec', 'src/codec.rs Codec::ternary_encode, ternary_decode')],
     'codec_ternary codec_ternary_total codec_ternary_refused', '',
     ['encoded and decoded values'], None, 'all 64-bit values')
# ------------------------------------------------------------------ RLWE / RGSW
prop('R01', 'Ring encryption decrypts to the plaintext for every key, mask and noise',
     'Encrypting a polynomial, or a constant, and decrypting it with the same key returns the plaintext exactly for every key and mask and every noise below half an encoding step; before decoding the difference is the noise alone. This holds for every encryption routine, including ternary and constant encryption and whatever the output ciphertext or plaintext held before.',
     ['inputs', 'configurations'],
     'all plaintexts, keys and masks (all 64 bits) and noise up to the stated bound; ring sizes 2 and 4 (16, 64 and 256 for fixed masks); plaintext moduli 2 to 256',
     'A test samples one key, mask and plaintext per run.',
     ['src/rlwe.rs', 'src/context.rs'],
     [('encryption', 'src/rlwe.rs RLWESecretKey::encode_encrypt_rlwe, encrypt_rlwe, encrypt_constant_rlwe, ternary_encrypt_rlwe'), ('decryption', 'src/rlwe.rs RLWESecretKey::decrypt_rlwe, decrypt_decode_rlwe, ternary_decrypt_rlwe')],
     'rlwe_roundtrip rlwe_roundtrip4 rlwe_roundtrip_t2 rlwe_roundtrip_t256 rlwe_variants rlwe_variants4 rlwe_decrypt_used rlwe_roundtrip_16 rlwe_roundtrip_64 rlwe_roundtrip_256', 'rlwe_roundtrip_1024',
     ['decrypted plaintexts'], None, 'ring sizes 2, 4 with full 64-bit masks; 16, 64, 256 with fixed pseudo-random masks (at 256 four free key bits); 1024 thorough')
prop('R02', 'Linear operations on ciphertexts act on the plaintexts',
     'Adding, subtracting and negating ciphertexts, adding or subtracting plaintext polynomials, and dividing by monomials give a ciphertext whose decryption is the same operation on the plaintexts modulo the ring. Copying and clearing give the same ciphertext and the zero ciphertext.',
     ['inputs'],
     'all ciphertexts, plaintexts and keys (full 64 bits), every monomial degree; ring sizes 2 and 4 (8 and 16 for fixed masks)',
     'Tests add two random ciphertexts; wrap-around and every monomial degree are not covered.',
     ['src/rlwe.rs'],
     [('component-wise updates', 'src/rlwe.rs RLWECiphertext::update_with_add, update_with_sub, update_mask_with_*, update_body_with_*, update_with_monomial_div, not_in_place')],
     'rlwe_linear rlwe_linear4 rlwe_linear_8 rlwe_linear_16', '',
     ['decrypted phases'], None, 'ring sizes 2, 4 with full 64-bit coefficients; 8, 16 with fixed pseudo-random masks')
prop('R03', 'Polynomial products are exact negacyclic products',
     'Multiplying the mask or body of a ciphertext by a polynomial, through the fast transform or by the schoolbook routine, multiplies by that polynomial modulo X^N+1 and 2^64, with wrap-around signs at every position, and leaves the other part untouched.',
     ['inputs'],
     'all coefficients (full 64 bits for the schoolbook routine; the transform-based one with the transform replaced by exact arithmetic); ring sizes 2 to 32 (from 8 with fixed masks of the ciphertext)',
     'The tests compare two implementations on random values with tolerance.',
     ['src/rlwe.rs'],
     [('schoolbook product', 'src/rlwe.rs naive_update_with_mul, naive_update_with_mul_acc'), ('transform product', 'src/rlwe.rs RLWECiphertext::update_mask_with_mul, update_body_with_mul')],
     'rlwe_mul_fft rlwe_mul_fft4 rlwe_mul_naive rlwe_mul_naive4 naive_mul2 naive_mul4 rlwe_mul_fft_8 rlwe_mul_fft_16 rlwe_mul_fft_32 rlwe_mul_naive_8 rlwe_mul_naive_16 rlwe_mul_naive_32 rlwe_mul_naive_128 naive_mul_8 naive_mul_16 naive_mul_32', '',
     ['coefficients of the result'], None, 'ring sizes 2, 4; 8, 16, 32 (128 for the schoolbook routine) with fixed pseudo-random masks')
prop('R04', 'Private comparison against a constant selects the right bit at every position',
     'For an encrypted monomial encoding a value and a clear threshold, the less-or-equal and equality transformations yield a ciphertext whose constant coefficient is 1 exactly when the value is at most, or equal to, the threshold. Negation of the result flips it, and thresholds outside the ring are refused or never match.',
     ['inputs'],
     'every value and every threshold of rings of size 4, 8 and 16 (32 thorough); all keys, all masks at sizes 4 and 8',
     'Tests try random values; the boundary thresholds (0, N-1) and wrap-around are what breaks.',
     ['src/rlwe.rs', 'src/decision_tree.rs'],
     [('comparison', 'src/rlwe.rs RLWECiphertext::less_eq_than, eq_to, not')],
     'compare4 compare8 compare_out_of_range compare_16', 'compare_32',
     ['decrypted constant coefficient'], None, 'ring sizes 4, 8 (16 and, thorough, 32 with fixed pseudo-random masks), every value and threshold')
prop('R05', 'The external product multiplies by the gadget-encrypted polynomial',
     'Multiplying an RLWE ciphertext by an RGSW encryption of a polynomial m yields an encryption of m times the plaintext: exactly the decomposed phase when no noise is added, for constants, monomials and general small polynomials. Accumulating variants add to what the output held; allocating ones start from zero.',
     ['inputs', 'configurations'],
     'all plaintexts, keys and masks within the decomposition precision; ring sizes 2 and 4 (8, 16, thorough 32, for fixed masks); decompositions with different bases and 1 to 4 levels, also where only the gadget in use is precise enough; ciphertexts without mask or without body included; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'A test multiplies one random pair under one decomposition and rounds the result.',
     ['src/rgsw.rs', 'src/rlwe.rs'],
     [('external product', 'src/rgsw.rs RGSWCiphertext::external_product, external_product_with_buf, external_product_with_buf_glwe'), ('RGSW encryption', 'src/rlwe.rs RLWESecretKey::encrypt_rgsw, encrypt_constant_rgsw')],
     'extprod2 extprod4 extprod4b extprod_poly2 extprod_poly4 extprod_gadget2 extprod_gadget2b extprod_pb2 extprod_pb4 neg_times2 neg_times4 neg_times_pn2 extprod_pt2 extprod_pw2 neg_times_pt2 neg_times_pw2 extprod_8 extprod_16 neg_times_8 neg_times_16 extprod_pl2 neg_times_pl2 extprod_pd extprod_pd8 neg_times_pd neg_times_pd8', 'extprod_32 neg_times_32',
     ['decrypted phases'], None, 'ring sizes 2, 4, and 8, 16 (32 thorough) with fixed pseudo-random masks; masks granular to the decomposition precision, decomposition arithmetic exact; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('R06', 'The encrypted multiplexer selects by the encrypted bit; RGSW addition adds bits',
     'Selecting between two ciphertexts by an encrypted bit yields the phase of the first for 0 and of the second for 1, through every variant of the operation. Adding RGSW encryptions yields an encryption of the sum, and the rows extracted from an RGSW ciphertext are encryptions of the scaled message and of the message times the key.',
     ['inputs', 'configurations'],
     'both bit values (every 64-bit scalar for the rows), all ciphertexts, keys and masks, operands sharing mask, body or both; ring sizes 2 and 4 (8, 16, thorough 32, for fixed masks); the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests choose between two fixed plaintexts.',
     ['src/rgsw.rs', 'src/rlwe.rs'],
     [('multiplexer', 'src/rgsw.rs RGSWCiphertext::cmux, cmux_with_buf'), ('addition and rows', 'src/rgsw.rs RGSWCiphertext::update_with_add, get_nth_row, get_last_row')],
     'cmux2 cmux4 cmux_pb2 rgsw_add2 rgsw_rows2 rgsw_rows4 rgsw_rows_pb4 rgsw_scalars2 cmux_pt2 cmux_pw2 rgsw_rows_pt2 rgsw_rows_pw2 cmux_8 cmux_16 rgsw_rows_8 rgsw_rows_16 cmux_pl2 rgsw_rows_pl2 cmux_pd cmux_pd8 rgsw_rows_pd rgsw_rows_pd8', 'cmux_32 rgsw_rows_32',
     ['decrypted phases'], None, 'ring sizes 2, 4; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('R07', 'Key switching re-encrypts under the new key without changing the plaintext',
     'A ciphertext under one key, switched with the key-switching key from it to another key, decrypts under that other key to the same phase; this holds for the direct, the transform-domain and the RGSW-based variant. Unequal bases and odd or even numbers of levels make no difference.',
     ['inputs', 'configurations'],
     'all ciphertexts, both keys and all masks of the switching key; ring sizes 2 and 4 (8, 16, 64, thorough 32, for fixed masks); 1 to 4 levels with different bases, also where only the switching gadget is precise enough; keys refilled for other purposes; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests switch one random ciphertext under one parameter set.',
     ['src/rlwe.rs', 'src/rgsw.rs'],
     [('key generation', 'src/rlwe.rs RLWEKeyswitchKey::fill_with_keyswitch_key, into_fourier'), ('switching', 'src/rlwe.rs keyswitch_ciphertext (both), src/rgsw.rs keyswitch_ciphertext')],
     'keyswitch2 keyswitch4 keyswitch_fourier2 keyswitch_fourier2b keyswitch_fourier4 keyswitch_rgsw2 keyswitch_rgsw4 keyswitch_pk2 keyswitch_pk4 keyswitch_fourier_pk2 keyswitch_fourier_pk4 keyswitch_rgsw_pk2 ksk_reuse2 keyswitch_pt2 keyswitch_pw2 keyswitch_fourier_pt2 keyswitch_fourier_pw2 keyswitch_rgsw_pt2 keyswitch_rgsw_pw2 keyswitch_8 keyswitch_fourier_8 keyswitch_rgsw_8 keyswitch_16 keyswitch_fourier_16 keyswitch_rgsw_16 keyswitch_64 keyswitch_fourier_64 keyswitch_pl2 keyswitch_fourier_pl2 keyswitch_rgsw_pl2 keyswitch_pd keyswitch_pd8 keyswitch_fourier_pd keyswitch_fourier_pd8 keyswitch_rgsw_pd keyswitch_rgsw_pd8', 'keyswitch_32 keyswitch_fourier_32 keyswitch_rgsw_32',
     ['decrypted phases'], None, 'ring sizes 2, 4; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('R08', 'Substitution and trace act as the automorphisms they stand for',
     'Substituting X by an odd power of X in a ciphertext, with the matching switching key, yields an encryption of the substituted plaintext. The trace of a ciphertext is an encryption of N times its constant coefficient, in both the direct and the transform-domain variant.',
     ['inputs', 'configurations'],
     'all ciphertexts, keys and masks and every odd power below 2N; ring sizes 2, 4 and 8 (16, thorough 32 and 64, for fixed masks); the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests apply each operation to one random plaintext.',
     ['src/rlwe.rs', 'src/utils.rs'],
     [('substitution', 'src/rlwe.rs RLWEKeyswitchKey::subs, FourierRLWEKeyswitchKey::subs'), ('trace', 'src/rlwe.rs RLWECiphertext::trace1, trace1_fourier'), ('evaluation at powers', 'src/utils.rs eval_x_k, eval_x_k_in_memory')],
     'subs2 subs4 subs_fourier2 subs_fourier4 trace2 trace4 trace_fourier2 trace_fourier4 subs_pk2 subs_fourier_pk4 subs8 trace_pk2 trace_fourier_pk2 trace8 ksk_reuse2 subs_pt2 subs_fourier_pw2 trace_pt2 trace_pw2 subs_8 subs_fourier_8 trace_8 trace_fourier_8 subs_16 subs_fourier_16 trace_16 trace_fourier_16 subs_pl2 trace_fourier_pl2 subs_pd subs_pd8 subs_fourier_pd subs_fourier_pd8 trace_pd trace_pd8 trace_fourier_pd trace_fourier_pd8', 'subs_32 subs_fourier_32 trace_32 trace_fourier_32 trace_64 trace_fourier_64',
     ['decrypted phases'], None, 'ring sizes 2, 4, 8; 16 (32, 64 thorough) with fixed pseudo-random masks; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('R09', 'Packed bits unpack to one RGSW encryption each',
     'Expanding a packed ciphertext yields, for each coefficient, an encryption of that coefficient times N; converting the expanded levels with the encrypted negated key yields RGSW encryptions that behave exactly as fresh encryptions of the packed bits. The packing routines place each bit at each level at its documented scale.',
     ['inputs', 'configurations'],
     'all packed bits or plaintexts, keys and masks; ring sizes 2 and 4 (8, 16, thorough 32, for fixed masks); 1 to 4 levels; all three expansion variants; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests unpack one random packing and compare after rounding.',
     ['src/rlwe.rs', 'src/decision_tree.rs'],
     [('packing', 'src/rlwe.rs make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2'), ('expansion', 'src/rlwe.rs expand, expand_fourier, expand_slow'), ('conversion', 'src/rlwe.rs decomposed_rlwe_to_rgsw, RLWESecretKey::neg_gsw')],
     'expand2 expand4 expand_fourier2 expand_fourier4 expand_slow2 to_rgsw2 to_rgsw2b make_decomposed2 make_decomposed4 make_decomposed_tight expand_pk2 expand_fourier_pk2 expand_slow_pk2 to_rgsw_pn2 to_rgsw_pt2 to_rgsw_pw2 make_decomposed_pt2 expand_8 expand_fourier_8 expand_slow_8 to_rgsw_8 make_decomposed_8 expand_16 expand_fourier_16 expand_slow_16 to_rgsw_16 make_decomposed_16 expand_pl2 expand_fourier_pl2 expand_slow_pl2 to_rgsw_pl2 make_decomposed_pl2 expand_pd expand_pd8 expand_fourier_pd expand_fourier_pd8 expand_slow_pd expand_slow_pd8 to_rgsw_pd to_rgsw_pd8 make_decomposed_pd make_decomposed_pd8', 'expand_32 expand_fourier_32 expand_slow_32 to_rgsw_32 make_decomposed_32',
     ['decrypted phases, external products with the result'], None, 'ring sizes 2, 4; 8, 16 (32 thorough) with fixed pseudo-random masks; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('R10', 'Reported noise is the distance between the phase and the encoded plaintext',
     'The noise reported for a ciphertext against a plaintext is the base-2 logarithm of the largest centred distance between the decrypted phase and the encoded plaintext, up to half the torus, and the same for ternary and for already encoded plaintexts. For an RGSW encryption of one it is the mean of that over the levels.',
     ['inputs'],
     'all plaintexts, keys and masks with errors at probed magnitudes up to the extremes -2^63 and 2^63-1; ring sizes 2 and 4',
     'The tests only print the noise or compare it with a loose threshold.',
     ['src/rlwe.rs', 'src/rgsw.rs'],
     [('noise', 'src/rlwe.rs compute_noise, compute_noise_ternary, compute_noise_encoded; src/rgsw.rs compute_noise_rgsw1')],
     'noise_reported noise_reported_b rgsw_noise2 rgsw_noise2b rgsw_noise4 rgsw_noise_pl2 rgsw_noise_pd', '', ['the reported number'], None, 'ring sizes 2, 4; the default decomposition at ring size 2')
prop('R11', 'Every encryption draws its own uniform mask and noise of the right size',
     'In every ciphertext, key row and database cell produced by any encryption or key generation routine, every mask coefficient is a uniform value drawn for it alone and every error coefficient is a noise sample drawn for it alone, with the configured (or given) deviation. No value of the generator is used twice, whatever the plaintext is, including zero, and whatever the output held before.',
     ['inputs', 'configurations'],
     'every plaintext, key and random draw; all encryption routines of the ring, gadget and scalar schemes and all key generators; ring sizes 2 and 4 (8 and 16 for ring encryption)',
     'A ciphertext without mask or noise, or with a reused one, decrypts better than a proper one: functional tests cannot tell.',
     ['src/rlwe.rs', 'src/rgsw.rs', 'src/lwe.rs', 'src/decision_tree.rs', 'src/context.rs'],
     [('ring encryption', 'src/rlwe.rs RLWESecretKey::encode_encrypt_rlwe, encrypt_rlwe, encrypt_constant_rlwe, ternary_encrypt_rlwe'), ('gadget encryption', 'src/rlwe.rs RLWESecretKey::encrypt_rgsw, encrypt_constant_rgsw, encrypt_constant_rgsw_vec, neg_gsw'), ('switching keys', 'src/rlwe.rs RLWEKeyswitchKey::fill_with_keyswitch_key, gen_all_subs_ksk; src/lwe.rs LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key'), ('scalar encryption', 'src/lwe.rs LWESecretKey::encrypt_lwe, encode_encrypt_lwe'), ('packed bits and features', 'src/rlwe.rs make_decomposed_rlwe_ct, make_decomposed_rlwe_ct2; src/decision_tree.rs encrypt_feature_vector, bit_decomposed_rgsw')],
     'fresh_rlwe fresh_rlwe4 fresh_rgsw fresh_neg fresh_neg4 fresh_ksk fresh_ksk4 fresh_lwe_ksk fresh_decomposed fresh_features fresh_lwe fresh_lwe4 fresh_fourier_ksk fresh_fourier_ksk4 fresh_bits fresh_rlwe_8 fresh_rlwe_16', 'fresh_rlwe_32',
     ['masks and phases of the ciphertexts, and the draws made from the random generators'], None, 'ring sizes 2, 4 (ring encryption also 8, 16, thorough 32); deviations are read off the generator calls')
# ------------------------------------------------------------------ LWE
prop('L01', 'LWE encryption round-trips and sample extraction yields each coefficient',
     'Encrypting a scalar under an LWE key and decrypting returns it for every key, mask and noise below half a step. Extracting the n-th coefficient of a ring ciphertext gives an LWE ciphertext that decrypts, under the ring key read as an LWE key, to exactly the phase of that coefficient.',
     ['inputs', 'configurations'],
     'all plaintexts, keys, masks (full 64 bits), every coefficient; dimensions 2, 4 and 8 (16, 64 for fixed masks)',
     'Tests extract from one random ciphertext.',
     ['src/lwe.rs'],
     [('encryption', 'src/lwe.rs LWESecretKey::encrypt_lwe, encode_encrypt_lwe, decrypt_lwe, decode_decrypt_lwe'), ('extraction', 'src/lwe.rs LWECiphertext::fill_with_sample_extract, fill_with_const_sample_extract'), ('key conversion', 'src/lwe.rs LWESecretKey::to_rlwe_sk')],
     'lwe_roundtrip2 lwe_roundtrip4 lwe_roundtrip8 lwe_roundtrip_t256 lwe_raw2 lwe_raw4 lwe_extract2 lwe_extract4 lwe_extract8 lwe_roundtrip_16 lwe_roundtrip_64 lwe_extract_16', 'lwe_extract_64',
     ['decrypted values'], None, 'dimensions 2, 4, 8; 16, 64 with fixed pseudo-random masks')
prop('L02', 'Converting an LWE ciphertext to a ring ciphertext keeps its plaintext',
     'Converting an LWE ciphertext with the packing key yields a ring ciphertext whose constant coefficient decrypts, under the ring key the LWE key corresponds to, to the LWE ciphertext\'s phase. Extracting a coefficient of a ring ciphertext and converting it back gives that coefficient as the constant.',
     ['inputs', 'configurations'],
     'all ciphertexts, keys and masks; dimensions 2, 4 and 8 (16, thorough 32, for fixed masks); four decompositions; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests convert one random ciphertext and round.',
     ['src/lwe.rs'],
     [('packing key', 'src/lwe.rs LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key'), ('conversion', 'src/lwe.rs conv_lwe_to_rlwe')],
     'lwe_conv2 lwe_conv2b lwe_conv_ks2 lwe_conv_ks4 lwe_conv4 lwe_conv8 lwe_extract_conv2 lwe_extract_conv4 lwe_conv_16 lwe_extract_conv_16 lwe_conv_pd lwe_conv_pd8 lwe_extract_conv_pd8', 'lwe_conv_32 lwe_extract_conv_32',
     ['decrypted phases'], None, 'dimensions 2, 4, 8; 16 (32 thorough) with fixed pseudo-random masks; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
# ------------------------------------------------------------------ decision trees
prop('T01', 'Clear decision-tree evaluation follows thresholds to the one reachable leaf',
     'Evaluating a tree on a feature vector returns the label of the leaf reached by going left exactly when the node\'s feature is at most its threshold, for every tree shape and every feature value. Exactly one leaf is reached.',
     ['inputs', 'programs'],
     'every tree shape up to depth 3 with every threshold, feature index, label and feature value (symbolic); larger trees up to depth 20 and 300 features with fixed thresholds',
     'Tests evaluate a handful of fixed trees.',
     ['src/decision_tree.rs'],
     [('evaluation', 'src/decision_tree.rs Node::eval, eval_node')],
     'tree_eval1 tree_eval2 tree_eval2_sym tree_eval3 tree_large_eval_l12 tree_large_eval_r20 tree_large_eval_z9 tree_large_eval_f5 tree_large_eval_f6 tree_large_eval_m5', 'tree_eval3_none tree_eval_full3',
     ['the label returned'], None, 'depth <= 3; chains to depth 20, complete trees to depth 6 with three symbolic feature values')
prop('T02', 'Truncating a tree keeps exactly the paths to positive leaves',
     'Truncation removes exactly the subtrees that hold no leaf with a positive label, keeps everything else as it was, and so leaves the result of every evaluation unchanged. A tree without any positive leaf truncates to nothing.',
     ['inputs', 'programs'],
     'every tree shape up to depth 3 with symbolic labels, thresholds and features',
     'Tests truncate a few fixed trees.',
     ['src/decision_tree.rs'],
     [('truncation', 'src/decision_tree.rs trunc_tree')],
     'tree_trunc1 tree_trunc2 tree_trunc_ops2 tree_large_trunc_l12 tree_large_trunc_r12 tree_large_trunc_z9 tree_large_trunc_f5 tree_large_trunc_m6', 'tree_trunc3',
     ['the truncated tree and evaluations of it'], None, 'depth <= 2 (3 in the thorough tier); chains to depth 12, complete and lopsided trees to depth 6 with one symbolic label at any leaf')
prop('T03', 'Tree indexing, flattening and measures agree with the tree',
     'Numbering assigns the internal nodes distinct consecutive indices and flattening lists each internal node once, at its index. Counts of leaves and internal nodes, depth and the largest feature index are those of the tree, and generated complete trees have the requested depth with the one marked leaf.',
     ['inputs', 'programs'],
     'every tree shape up to depth 3, generated trees up to depth 8; chains to depth 20 and complete trees to depth 9',
     'Tests check one chain and one complete tree.',
     ['src/decision_tree.rs'],
     [('indexing and flattening', 'src/decision_tree.rs Node::fix_index, flatten'), ('measures', 'src/decision_tree.rs Node::count_leaf, count_internal, count_depth, max_feature_index'), ('generation', 'src/decision_tree.rs Node::new_with_depth')],
     'tree_measure2 tree_measure3 tree_generated tree_large_measure_l20 tree_large_measure_r20 tree_large_measure_z9 tree_large_measure_f7 tree_large_measure_m6 tree_large_measure_f9', '',
     ['indices, lists and counts'], None, 'depth <= 3; chains to depth 20, complete trees to depth 9')
prop('T04', 'Encrypted tree evaluation yields the bits of the reached leaf\'s label',
     'Evaluating an encrypted tree whose decision bits are RGSW encryptions yields one ciphertext per bit of the largest label, which decrypt to the bits of the label of exactly the leaf those decisions reach. Labels of any size are represented in full.',
     ['inputs', 'programs'],
     'every tree shape up to depth 2 and the full one of depth 3 with a choice of labels, chains up to depth 8, complete and lopsided trees up to depth 5 with labels by position, every choice of decision bits, labels up to 64 bits at probed sizes; all keys and masks; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'Tests traverse two fixed trees with small labels.',
     ['src/decision_tree.rs'],
     [('encrypted traversal', 'src/decision_tree.rs EncNode::new, eval, eval_enc_node, max_leaf')],
     'tree_enc1 tree_enc2 tree_enc3 tree_enc3b tree_enc_wide tree_enc_huge tree_enc_direct1 tree_enc_direct2 tree_enc_l4 tree_enc_r4 tree_enc_z5 tree_enc_f3 tree_enc_m4 tree_enc_f4 tree_enc_f5 tree_enc_r8 tree_enc_r4_n4 tree_enc_f3_n8 tree_enc_pd tree_enc_pd8', '',
     ['decrypted output bits'], None, 'depth <= 5, chains to depth 8; ring sizes 2, 4, and 8 with fixed pseudo-random masks; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('T05', 'Private evaluation end to end equals evaluation in the clear',
     'Encrypting features, comparing, unpacking and traversing homomorphically gives, after decryption and recomposition, the label that clear evaluation gives, for every feature vector and model. The simulation driver reports that result for every feature row, sequentially and in parallel alike.',
     ['inputs', 'programs', 'schedules'],
     'every tree shape up to depth 2 (3 thorough) with every threshold and feature value of the ring, ring sizes 2 and 4, all keys and masks; chains, complete and lopsided trees up to depth 4 at ring sizes 4 and 8 with every feature value for fixed masks, complete trees of depth 2 (3 thorough) of which any set of subtrees is missing, vectors of up to 300 features of which a few are used; simulations of up to 9 feature rows; the default decompositions (9 and 11 levels) at ring sizes 2 and 8',
     'The end-to-end path is only exercised with default parameters on a few rows by the command-line program.',
     ['src/decision_tree.rs', 'src/rlwe.rs', 'src/rgsw.rs'],
     [('feature encryption', 'src/decision_tree.rs encrypt_feature_vector'), ('comparison and expansion', 'src/decision_tree.rs compare_expand'), ('traversal', 'src/decision_tree.rs EncNode::eval'), ('driver', 'src/decision_tree.rs simulate')],
     'tree_pdte1 tree_pdte1_n4 tree_pdte2_n4 tree_features2 tree_features4 tree_features8 tree_feature_refused tree_simulate_seq tree_simulate_seq2 tree_simulate_par tree_simulate_par3 tree_simulate_n4 tree_simulate_zero tree_pdte_n8 tree_pdte_l3 tree_pdte_r4 tree_pdte_f2 tree_pdte_f3_n4 tree_pdte_m3_n8 tree_pdte_f3_n8 tree_pdte_r4_n8 tree_features16 tree_pdte_gaps2 tree_pdte_wide20 tree_pdte_wide300 tree_simulate_many tree_simulate_many_par tree_pdte_pd tree_pdte_pd8 tree_features_pd', 'tree_pdte2 tree_pdte_gaps3 tree_pdte3 tree_pdte3_n4 tree_pdte2_n8 tree_pdte3_n8 tree_pdte_n16',
     ['decrypted label, simulation results'], 'cfg(panacea_verif): default parameters can be replaced, recomposition is callable', 'depth <= 2 (3 thorough) with free masks at ring sizes 2, 4; depth <= 4 and ring sizes 4, 8 (16 thorough, depth 1) with fixed pseudo-random masks and thresholds by position; the default decompositions (9 and 11 levels) at ring sizes 2 and 8')
prop('T06', 'Demultiplexing routes the input to exactly the selected output',
     'Demultiplexing a ciphertext by k encrypted bits yields 2^k ciphertexts, of which the one whose number the bits spell, most significant first, decrypts to the input\'s plaintext and all others decrypt to zero.',
     ['inputs'],
     'every bit pattern for 2 and 3 bits (concrete and symbolic), probed patterns for 4, 5 (zero masks), and probed indices of 8 and 16 bits for the decomposition; all input ciphertexts, keys and masks',
     'Tests demultiplex one plaintext for a few patterns.',
     ['src/decision_tree.rs'],
     [('demultiplexer', 'src/decision_tree.rs demux, demux_with, demux_rec'), ('bit decomposition', 'src/decision_tree.rs bit_decomposed_rgsw')],
     'demux2 demux3 demux_pb2 demux_sym2 demux_sym3 demux4 demux5 bit_decomposition8 bit_decomposition16 demux2_pd bit_decomposition_pd', '',
     ['decrypted outputs'], None, '2 and 3 bits; 4 and 5 with zero masks; index decomposition up to 16 bits; the default decomposition at ring size 2')
# ------------------------------------------------------------------ context
prop('C01', 'A context reflects its parameters and generates only valid values',
     'A context built from parameters uses exactly those parameters in every derived quantity, refuses plaintext moduli that are no power of two, and its random plaintexts and keys lie in the stated sets (below the modulus, binary, ternary, one unit coefficient), reaching every member of them.',
     ['inputs', 'configurations'],
     'every outcome of the random draws; parameter fields with distinct values; ring sizes 2, 3, 4 and 8',
     'Tests use default parameters, in which several fields coincide.',
     ['src/context.rs', 'src/params.rs'],
     [('construction', 'src/context.rs Context::new'), ('generators', 'src/context.rs Context::gen_*')],
     'ctx_mapping ctx_modulus_refused ctx_plaintexts2 ctx_plaintexts4 ctx_plaintexts3 ctx_plaintexts_cover ctx_keys2 ctx_keys8 ctx_keys64 ctx_plaintexts16 ctx_plaintexts64 ctx_plaintexts_wide', 'ctx_keys256 ctx_plaintexts_wide64',
     ['fields and generated values'], None, 'ring sizes 2..64 (keys 256 thorough)', noinf=['ctx_plaintexts_cover', 'ctx_plaintexts_wide', 'ctx_plaintexts_wide64'])
prop('C02', 'Secure contexts never share randomness; fixed seeds are reproducible',
     'With secure seeding every context draws its seeds from fresh entropy, different for the secret and the encryption generator, so that two contexts share no random value and no key. With a fixed seed two contexts produce identical values.',
     ['histories', 'configurations'],
     'two contexts and every value drawn by key generation and plaintext generation, with arbitrary entropy',
     'Seeding mistakes leave all functional tests green.',
     ['src/context.rs'],
     [('seeding', 'src/context.rs Context::new')],
     'ctx_secure_seed ctx_secure_seed_keys ctx_fixed_seed', '',
     ['positions and seeds of all random draws'], None, '2 contexts')
prop('C03', 'Parameter lists and utility functions compute what they state',
     'A list of input parameters expands to the full product of its options with each field carried over unchanged. The integer logarithm is the floor of the logarithm for every positive number, transposition swaps rows and columns, and the compact integer form of a binary plaintext holds its first 64 coefficients bit by bit and refuses non-binary ones.',
     ['inputs', 'configurations'],
     'all 64-bit arguments; lists of up to 2 options; matrices up to 3 by 3; plaintexts of 4, 64 and 128 coefficients',
     'Tests cover the common sizes only.',
     ['src/params.rs', 'src/utils.rs'],
     [('expansion of parameter lists', 'src/params.rs ServerParams::from_input_params_list'), ('utilities', 'src/utils.rs log2, transpose, pt_to_lossy_u64')],
     'ctx_params_list util_log2_any util_log2_powers util_transpose_any util_lossy4 util_lossy64 util_lossy128 util_lossy_refused', '',
     ['returned values'], None, 'see quantifier')

# ------------------------------------------------------------------ models, parameters and the program
prop('X01', 'Models and parameters survive a round trip through JSON',
     'A decision tree, a parameter set or a list of experiments that is written as JSON and read back is the one that was written. Documents in the format of the README and of params.json are read as what they say: every field arrives in the field of that name, absent children of a node stay absent, and both comparisons keep their meaning. A document with a missing, repeated, unknown or mistyped variant or number is refused and nothing is made up for it.',
     ['inputs'],
     'all numbers of 1 to 19 decimal digits for a label and of 1 to 3 digits for every other field, every shape of a tree of depth up to 2, every kind of experiment',
     'One fixed document is parsed by the tests and nothing is written; a field that is renamed, defaulted or swapped goes unnoticed.',
     ['src/decision_tree.rs', 'src/params.rs'],
     [('trees', 'src/decision_tree.rs Node, Internal, Op (serde)'), ('parameters and experiments', 'src/params.rs TFHEParameters, ORAMParameters, InputParamsList (serde)')],
     'json_tree_write json_tree_write2 json_tree_read json_tree_read2 json_tree_read_wide json_tree_refused json_params json_params_read json_params_refused json_experiments json_list', '',
     ['the value read from a document'], None,
     'documents of one tree of depth 0 to 2, one parameter set, one experiment or one list of two; digits symbolic (one to three per number, up to 19 for a lone label), layout without white space')
prop('X02', 'The command line runs the experiment its arguments describe',
     'The program runs, once per iteration, the experiments that its arguments or its parameter file describe, each with the parameters given for it, and prints for each a row that states these parameters, the experiment and its measured values under a header that names the columns. A readable parameter file replaces the arguments; a file that cannot be opened leaves them in force and one that cannot be understood gives the default experiment. A dry run prints the same rows without carrying anything out.',
     ['inputs', 'configurations'],
     'all secret keys, masks, random databases and layouts of the experiments run, sizes of one and two digits for the rows of a dry run, every mode, with and without each argument',
     'The program itself has no test; its output feeds the tables of measurements and a mistake shows only as a wrong column.',
     ['src/main.rs', 'src/cli.rs', 'src/params.rs'],
     [('dispatch and output', 'src/main.rs main, single_query, multi_query, batch_query'), ('arguments and defaults', 'src/cli.rs Cli'), ('combining experiments and parameters', 'src/params.rs ServerParams::from_input_params_list')],
     'prog_single prog_single_l3 prog_multi prog_multi_default prog_batch prog_dry prog_dry_defaults prog_file_dry prog_file_run prog_file_missing', '',
     ['what the program prints'], None,
     'runs with stores of 2 and 4 cells, 2 queries, 3x2 and 3x4 batches, 2 iterations, ring size 2; dry runs with one symbolic number at a time; files of up to two groups of two experiments')
prop('X03', 'Feature files are read row by row as numbers',
     'A file of comma-separated numbers with a header line is read as one row per line after the header, in order, each with all its columns in order and each number exactly; a file that is missing, has an uneven row or something that is no non-negative number below 2^64 is refused.',
     ['inputs'],
     'all one-digit values at every position of files of 0 to 2 rows and 1 to 3 columns, both line endings, with and without a last line break; chosen larger numbers elsewhere; files of up to 300 rows or 120 columns',
     'The reader has no test.',
     ['src/utils.rs'], [('reading', 'src/utils.rs parse_csv')],
     'csv_rows csv_long csv_refused', '', ['the rows read'], None,
     'files of at most 2 rows and 3 columns, one symbolic digit at a time; files of 300 rows, 120 columns and 40 by 17, one symbolic digit at the end')

NA = [
]

ASSUME = [
    'the double-precision Fourier transform of the concrete-fft crate is replaced by exact negacyclic products; its rounding error is outside the model (replays on the real code use the real transform and tolerate its rounding)',
    'random bytes from the CSPRNG are unconstrained solver variables, keyed by generator seed and position; operating-system entropy is a sequence of distinct constants',
    'in the exact-arithmetic entries masks are multiples of 2^(64-g) with g at most the decomposition precision (base log times levels), so that decomposition is exact; noise is zero there and bounded symbolic noise elsewhere',
    'threads: fork-join tasks of rayon interleave at joins and lock operations only (safe Rust shares mutable state only under locks), in every order and on every worker within the stated number of scheduling decisions',
    'entries with zero masks or fixed pseudo-random ones (larger rings and stores, longer histories, schedules) do not quantify over masks; the smaller sizes of the same property do',
    'for the program: files, arguments and the standard output are virtual, the measured noise is replaced by known numbers, the clock returns constants',
    'the compiler that produced the LLVM IR (debug profile, overflow checks on) is trusted, as are the engine\'s instruction semantics and z3; canonical polynomial rewriting modulo 2^64 closes queries before they reach z3 (a sample of its steps is put to z3 on every path)',
]


def entries(p, tier):
    return p['quick'] + (p['thorough'] if tier == 'thorough' else [])


def known_entries():
    import glob
    return {n for f in glob.glob(ROOT + '/harness/src/h_*.rs') for n in re.findall(r'^    fn (\w+)\(\)', open(f).read(), re.M)}


TECH = 'symbolic execution of the compiled Rust (LLVM IR) with SMT (z3)'


def write():
    ke = known_entries()
    with open(ROOT + '/properties.jsonl', 'w') as f:
        for p in P:
            for e in p['quick'] + p['thorough']:
                assert e in ke, (p['id'], e)
        for p in P + NA:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []) or [], hook_needed=p.get('hook'))
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
    used = {e for p in P for e in p['quick'] + p['thorough']}
    un = sorted(ke - used)
    if un:
        print('entries in no property:', un)
    m = dict(version=1, setup_cmd='bash scripts/setup.sh',
             hooks=dict(guard='cfg(panacea_verif)', enable='RUSTFLAGS="--cfg panacea_verif" (set by scripts/build_sym.sh and scripts/build_native.sh)',
                        source_commits=HOOKS),
             checks=[dict(property=p['id'], quick_cmd='python3 scripts/check.py ' + p['id'], thorough_cmd='python3 scripts/check.py %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=TECH, level='model_checking',
                          level_note='Bounded: ' + p['bounds'] + '. Within the bounds every value is covered: each assertion is closed by canonical rewriting or by z3, on IR regenerated from /repo on this run. Trusted: rustc, the engine, z3, the exact model of the FFT and of the CSPRNG (DESIGN.md).') for p in P],
             not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
             notes='scripts/spec.py holds the table from which this file and properties.jsonl are written.')
    with open(ROOT + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties')


HOOKS = ['66824fa']
if __name__ == '__main__' and '--write' in sys.argv:
    write()
