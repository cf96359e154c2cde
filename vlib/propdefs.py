def define(PROPS, Unit, Prop, g):
    LB, LC, A_IR, A_HACL, A_GROUP, A_LOG = (g[k] for k in ('LB', 'LC', 'A_IR', 'A_HACL', 'A_GROUP', 'A_LOG'))
    full = 'all operands in [0,q), no further bound'
    PROPS['C01'] = Prop([Unit('c01.cpp', e, LB, full) for e in ('h_add', 'h_sub', 'h_neg', 'h_mul_add')] + [
                         Unit('c01.cpp', 'h_mul_add_small', LB, 'one factor in {0,1,2}, the others all values in [0,q)'),
                         Unit('c01.cpp', 'h_sum', LB, 'lists of up to 3 elements', reach=(1, 2))], [A_IR, A_HACL])
    fullp = 'all operands in [0,p), no further bound'
    PROPS['C02'] = Prop([Unit('c02.cpp', e, LB, fullp) for e in ('h_add', 'h_mul')] + [Unit('c02.cpp', 'h_mod', LB, 'all 4096-bit values'),
                         Unit('c02.cpp', 'h_mul_small', LB, 'one factor in {0,1,2}'), Unit('c02.cpp', 'h_mul_list', LB, 'lists of up to 3 elements and exponents in any mixture'),
                         Unit('c02.cpp', 'h_pow_p', LB, 'all bases, all exponents in [0,p)', reach=(1, 2)), Unit('c02.cpp', 'h_pow_q', LB, 'all bases, all exponents in [0,q)', reach=(1, 2)), Unit('c02.cpp', 'h_gpow_p', LB, 'all exponents in [0,p)', reach=(1, 2)),
                         Unit('c02b.cpp', 'h_fixed', ['sym_mont.cpp'], 'every base marked as fixed and the generator; exponents whose bytes other than one freely chosen one are all zero or all non-zero', jobs=8)],
                        [A_IR, A_HACL, 'the HACL* exponentiation and Montgomery kernels are used through their contracts'], parallel=3)
    PROPS['C03'] = Prop([Unit('c03.cpp', 'h_addsub256', (), 'all 256-bit operands, separate and aliased result buffers'), Unit('c03.cpp', 'h_cmp256', (), 'all 256-bit operands'), Unit('c03.cpp', 'h_bytes256', (), 'all 256-bit values, all lengths up to 32'),
                         Unit('c03.cpp', 'h_addsub4096', (), 'all 4096-bit operands (thorough: also aliased buffers)', defs={'alias': 1}, tdefs={'alias': 3}), Unit('c03.cpp', 'h_cmp4096', (), 'all 4096-bit operands'), Unit('c03.cpp', 'h_bytes4096', (), 'all 4096-bit values')], [A_IR], parallel=6)
    PROPS['C05'] = Prop([Unit('c05.cpp', 'h_rand_q', LB + ['drbg_sym.c'], 'every output of the generator, every failure of it and of the operating system', reach=(1, 2)),
                         Unit('c05.cpp', 'h_rand_p', LB + ['drbg_sym.c'], 'every output of the generator, every failure of it and of the operating system', reach=(1, 2), jobs=8)], [A_IR, A_HACL, 'the deterministic generator (HMAC-DRBG) is a source of arbitrary bytes if it is seeded with at least 32 bytes from the operating system'])
    PROPS['C04'] = Prop([Unit('c04.cpp', 'h_q_hex', (), 'all 256-bit values, three spellings', reach=(1, 2)), Unit('c04.cpp', 'h_q_digits', (), 'all strings of up to 5 hexadecimal digits'), Unit('c04.cpp', 'h_q_bytes', (), 'all byte strings of 1 to 33 bytes', reach=(1, 2)),
                         Unit('c04.cpp', 'h_q_limbs', (), 'all values, limb vectors of full, short and excess length', reach=(1, 2)), Unit('c04.cpp', 'h_q_compare', (), 'all pairs of 256-bit values'), Unit('c04.cpp', 'h_u64', (), 'all 64-bit integers, all exponents'),
                         Unit('c04.cpp', 'h_p_hex', (), 'all values with 0, 73, 146, ... 511 leading zero bytes (thorough: any number), three spellings', defs={'step': 73, 'window': 8}, tdefs={'step': 1, 'window': 513}, reach=(1, 2), jobs=6, ttimeout=7200), Unit('c04.cpp', 'h_p_digits', (), 'all strings of up to 5 hexadecimal digits'),
                         Unit('c04.cpp', 'h_p_bytes', (), 'all byte strings of 497 to 513 (thorough: 1 to 513) bytes', defs={'full': 0}, tdefs={'full': 1}, reach=(1, 2)), Unit('c04.cpp', 'h_p_limbs', (), 'all values, limb vectors of full, short and excess length', reach=(1, 2)),
                         Unit('c04.cpp', 'h_p_compare', (), 'all pairs of 4096-bit values that differ in four limbs (thorough: in any)', defs={'sparse': 1}, tdefs={'sparse': 0})], [A_IR], parallel=3)
    PROPS['C06'] = Prop([Unit('c06.cpp', 'h_item', LC, 'all 24 kinds of item, lists of up to 3 entries, strings of up to 2 bytes, integers in a range of 256 (thorough 65536) from 0, from 2^32, around 2^63 and up to 2^64-1', tdefs={'limit': 65536}, reach=(1, 2)),
                         Unit('c06.cpp', 'h_list', LC, 'lists of up to 2 (thorough 3) items of 6 kinds', defs={'n': 2}, tdefs={'n': 3}, reach=(1, 2)),
                         Unit('c06b.cpp', 'h_reduce', LB + ['sha_any.c'], 'every digest except the one of 256 one bits')], [A_IR, A_GROUP, A_HACL])
    PROPS['C07'] = Prop([Unit('c06.cpp', 'h_nonces', LC, 'every history of 2 (thorough 3) requests, four kinds of header, indices in a range of 100 from 0, 2^32-8, 2^56-128 and 2^63', defs={'steps': 2}, tdefs={'steps': 3}),
                         Unit('c06.cpp', 'h_nonces_distinct', LC, 'all pairs of seeds, headers of up to 2 bytes without the delimiter, indices in ranges of 256 from 0, 2^32-128 and 2^63 (thorough: of 65536)', tdefs={'limit': 65536}, reach=(1, 2))], [A_IR, A_GROUP])
    PROPS['C10'] = Prop([Unit('c10.cpp', 'h_complete', LC, 'all keys, nonces, seeds, base hashes; m in {0,1}; three ways of making the proof', reach=(1, 2, 3)),
                         Unit('c10.cpp', 'h_reject_plain', LC, 'all 64-bit m > 1'),
                         Unit('c10.cpp', 'h_sound', LC, 'all values; 17 ways of breaking one condition', reach=(1, 2)),
                         Unit('c10.cpp', 'h_exact', LC, 'all values', reach=(1, 2))], [A_IR, A_GROUP, A_LOG])
    PROPS['C11'] = Prop([Unit('c11.cpp', 'h_complete', LC, 'all keys, nonces, seeds, base hashes; 8 constants incl. 0, 2^32 and 2^64-1; with and without precomputed values', reach=(1, 2)),
                         Unit('c11.cpp', 'h_wrong_total', LC, 'all totals; constants 0..3'),
                         Unit('c11.cpp', 'h_sound', LC, 'all values; 15 ways of breaking one condition; constants 0..3', reach=(1, 2)),
                         Unit('c11.cpp', 'h_exact', LC, 'all values; constants 0..2', reach=(1, 2))], [A_IR, A_GROUP, A_LOG])
    LCA = [A_IR, A_GROUP, A_LOG]
    PROPS['C08'] = Prop([Unit('c08.cpp', 'h_encrypt', LC, 'all keys, nonces and 64-bit messages; with and without precomputed values', reach=(1, 2)),
                         Unit('c08.cpp', 'h_decrypt', LC, 'all keys and ciphertexts of 0, 1 and other values'),
                         Unit('c08.cpp', 'h_add', LC, 'all ciphertexts, up to 4 (thorough: 12) summands', tdefs={'n': 12}),
                         Unit('c08.cpp', 'h_reject', LC, 'all messages and keys'), Unit('c08.cpp', 'h_keypair', LC, 'all secrets'), Unit('c08.cpp', 'h_precompute', LC, 'all keys')], LCA)
    PROPS['C12'] = Prop([Unit('c12.cpp', 'h_votes', LC, '1 contest, 3 selections (thorough 4), 1-2 seats (thorough 3), every subset of selections present in two orders, votes symbolic in {0,1}, all keys and seeds', tdefs={'nsel': 4, 'elected': 3}, jobs=8, ttimeout=7200),
                         Unit('c12.cpp', 'h_votes', LC, '2 selections, 1-2 seats, precompute buffer empty / running dry / full', defs={'pre': 1, 'nsel': 2}, reach=(1, 2), jobs=8),
                         Unit('c12.cpp', 'h_refused', LC, 'all 2-byte contest ids, all votes above 1', reach=(1, 2))], LCA, parallel=2)
    PROPS['C13'] = Prop([Unit('c12.cpp', 'h_overvotes', LC, '3 selections (thorough 4), 1-2 seats, all 64-bit votes', defs={'nsel': 3}, tdefs={'nsel': 4}, reach=(1, 2, 3), jobs=8),
                         Unit('c12.cpp', 'h_writeins', LC, '2 selections (thorough 3), 1-2 seats, one or no write-in candidate, votes symbolic in {0,1}', tdefs={'nsel': 3}, reach=(1, 2), jobs=8)], LCA, parallel=2)
    PROPS['C14'] = Prop([Unit('c14.cpp', 'h_ballot', LC, '4 contests in 3 districts, 3 styles, every subset of contests on the ballot in two orders, votes symbolic, one-digit timestamps', reach=(1, 2, 3), jobs=8),
                         Unit('c14.cpp', 'h_unknown_style', LC, 'all one-byte style ids'), Unit('c14.cpp', 'h_unknown_style_compact', LC, 'one unknown style'),
                         Unit('c14.cpp', 'h_nonces', LC, 'all pairs of one-byte ballot ids, all nonces', reach=(1, 2))], LCA, parallel=2)
    PROPS['C17'] = Prop([Unit('c14.cpp', 'h_mediator', LC, 'every sequence of 3 (thorough 5) encrypt / compact encrypt / failed encrypt operations', tdefs={'n': 5}, reach=(1, 2, 3), jobs=4),
                         Unit('c14.cpp', 'h_device_hash', LC, 'all pairs of identifiers in a range of 200 (thorough 60000) from 0, from 2^32, around 2^63 and up to 2^64-1, one field at a time, all one-byte locations', tdefs={'limit': 60000}, reach=(1, 2), jobs=4),
                         Unit('c14.cpp', 'h_code_binding', LC, 'all seeds and hashes, timestamps in a range of 200 from 0, from 2^32, around 2^63 and up to 2^64-1', reach=(1, 2)),
                         Unit('c14.cpp', 'h_mediator_mismatch', LC, 'all hashes')], LCA, parallel=2)
    obj = 'all texts of two characters and all numbers of the object; every index'
    PROPS['C27'] = Prop([Unit('c27.cpp', e, LC, obj) for e in ('h_texts', 'h_places', 'h_people', 'h_contests', 'h_manifest', 'h_internal', 'h_ballot')] + [Unit('c27.cpp', 'h_contest_valid', LC, 'all ids of two characters, votes and limits', reach=(1, 2)),
                         Unit('c27.cpp', 'h_written', LC, 'plaintext, encrypted and submitted ballots, manifests and internal manifests in every format, with two unknown characters', jobs=8), Unit('c27.cpp', 'h_encrypted', LC, 'all keys, nonces and seeds, both votes, with and without verification'),
                         Unit('c27.cpp', 'h_compact', LC, 'all keys, nonces and seeds, both votes'), Unit('c27.cpp', 'h_mediator', LC, 'all keys and random values; four ways of encrypting'), Unit('c27.cpp', 'h_elgamal', LC, 'all keys and nonces, both votes'), Unit('c27.cpp', 'h_decrypt', LC, 'all keys and nonces, both votes'),
                         Unit('c27.cpp', 'h_selection', LC, 'all keys and seeds, both votes'), Unit('c27.cpp', 'h_context', LC, 'all keys, hashes and numbers; six ways of making a context with 0 to 2 entries of extended data'), Unit('c27.cpp', 'h_list', LC, 'every sequence of 4 (thorough 8) operations, every position', tdefs={'steps': 8}),
                         Unit('c27.cpp', 'h_group', LB, 'all 256-bit and 4096-bit values'), Unit('c27.cpp', 'h_hex', LB, 'one unknown byte at every place'), Unit('c27.cpp', 'h_hash', LC, 'all texts of two characters, five numbers, all bases and exponents')], LCA, parallel=4)
    PROPS['C18'] = Prop([Unit('c18.cpp', 'h_expand', LC, '3 contests in 3 styles, every combination of contests and selections left out, both orders, all 0/1 votes, a one-letter write-in, all keys, nonces and seeds, timestamps in a range of 9 from 0, 1.7*10^9, 2^32 and 2^63', reach=(1, 2, 3), jobs=8), Unit('c18.cpp', 'h_precomputed', LC, 'precomputed values at hand when compacting, when expanding, or not; directly or through a mediator; all keys and nonces', reach=(1, 2, 3)),
                         Unit('c18.cpp', 'h_tampered', LC, '9 kinds of alteration of a ballot of two selections, all votes', reach=(1, 2)), Unit('c18.cpp', 'h_parts', LC, 'all ballots as in h_expand, each of 4 parts missing', jobs=8)], LCA)
    PROPS['C15'] = Prop([Unit('c15.cpp', 'h_tamper', LC, '2 contests of 2 selections and a placeholder, 41 kinds of alteration at every position, all keys, nonces and differences', reach=(1, 2), jobs=8),
                         Unit('c15.cpp', 'h_parts', LC, 'selection, contest and ballot validity one by one'), Unit('c15.cpp', 'h_order', LC, 'reversed contests and selections')], LCA, parallel=2)
    PROPS['C09'] = Prop([Unit('c09.cpp', 'h_roundtrip', LC, 'messages of 14 lengths for 4 padded sizes, all bytes, all keys, nonces and seeds', reach=(1, 2)), Unit('c09.cpp', 'h_reject', LC, '11 kinds of alteration, all differences'),
                         Unit('c09.cpp', 'h_padding', LC, 'authentic plaintexts of 1 and 2 (thorough 3) blocks, all bytes', tdefs={'blocks': 3}, reach=(1, 2)),
                         Unit('c09.cpp', 'h_keystream', LC, 'messages of 3 and 2 blocks, all pairs of nonces or seeds')], LCA)
    PROPS['C25'] = Prop([Unit('c26.cpp', 'h_history', LC, 'every history of 4 (thorough 5) requests', defs={'steps': 4}, tdefs={'steps': 5}, reach=(1, 2), jobs=6, max_paths=1000000),
                         Unit('c26.cpp', 'h_encrypt', LC, 'two ballots of two contests, buffers of 0, 1, 3 and 6 sets', reach=(1, 2))], LCA)
    PROPS['C26'] = Prop([Unit('c26.cpp', 'h_pool_threads', LC, '2 (thorough 3) threads, one of 8 buffer operations each, every schedule', tdefs={'threads': 3}, jobs=4, max_paths=10000000),
                         Unit('c26b.cpp', 'h_elements', (), '2 (thorough 3) threads, one of 8 element operations each, every schedule', tdefs={'threads': 3}, max_paths=10000000),
                         Unit('c26b.cpp', 'h_tables', ['sym_mont.cpp'], '2 threads exponentiating with the same or different fixed bases, tables present or not, every schedule', tdefs={'warm': 3}, jobs=4),
                         Unit('c26.cpp', 'h_encrypt_threads', LC, '2 threads encrypting a ballot each, schedules with 1 (thorough 2) preemptions, with and without precomputed values', tdefs={'preemptions': 2}, reach=(1, 2))], LCA, parallel=2)
    PROPS['C19'] = Prop([Unit('c19.cpp', 'h_valid', LC, 'manifests of 2 contests, 3 candidates, 2 parties, styles and districts; in one section at a time all identifiers (1 symbolic byte, or empty), references, sequence orders and limits (64 bits)', reach=(1, 2)),
                         Unit('c19.cpp', 'h_styles', LC, '3 (thorough 4) contests with symbolic district and sequence order, styles of up to 3 units', tdefs={'contests': 4}, reach=(1, 2)),
                         Unit('c19.cpp', 'h_internal', LC, 'contests of up to 3 selections, 0 to 3 seats, sequence orders below 200 and around 2^33 and 2^64')], LCA)
    PROPS['C20'] = Prop([Unit('c19.cpp', 'h_hash_strings', LC, 'all pairs of texts of 1 to 2 bytes without the delimiter in each of 39 places', reach=(1, 2)),
                         Unit('c19.cpp', 'h_hash_numbers', LC, 'all pairs of numbers in a range of 200 (thorough 60000) from 0, from 2^32, around 2^63 and up to 2^64-1 in each of 4 places', tdefs={'limit': 60000}, reach=(1, 2)),
                         Unit('c19.cpp', 'h_hash_kinds', LC, 'all pairs of enumerated values, list compositions, optional parts; dates 1 s to 100 years apart', reach=(1, 2))], LCA)
    PROPS['C24'] = Prop([Unit('c24.cpp', 'h_copies', LC, '28 types, all field values (texts of 2 bytes), optional parts present or absent'), Unit('c24.cpp', 'h_clones', LC, '22 clone and move operations, all field values')], LCA)
    PROPS['C16'] = Prop([Unit('c16.cpp', 'h_selection', LC, 'all ids of 1 to 2 bytes, hashes, keys, nonces; four ways of making a selection'), Unit('c16.cpp', 'h_contest', LC, 'up to 3 selections supplied in every order'), Unit('c16.cpp', 'h_ballot', LC, 'up to 3 contests supplied in every order, timestamps in a range of 200 (thorough 60000) from 0, from 2^32, around 2^63 and up to 2^64-1', tdefs={'limit': 60000}),
                         Unit('c16.cpp', 'h_differ', LC, 'all pairs of values of one part of a selection, contest or ballot', reach=(1, 2)), Unit('c16.cpp', 'h_empty', LC, 'empty contests and ballots')], LCA)
    PROPS['C21'] = Prop([Unit('c16.cpp', 'h_context', LC, 'all keys and hashes, guardians in a range of 100 (thorough 60000) from 0, from 2^32, around 2^63 and up to 2^64-1, three quorums; eight ways of making a context', tdefs={'limit': 60000}), Unit('c16.cpp', 'h_context_differ', LC, 'all pairs of values of one input, numbers in a range of 200 (thorough 60000) from 0, from 2^32, around 2^63 and up to 2^64-1', tdefs={'limit': 60000}, reach=(1, 2))], LCA)
    ONE = 'one field at a time: texts (any capital letter, escapes, non-ASCII, empty), numbers 0..2^64-1 near 0, 2^63 and 2^64, elements with 0, 1 or all-but-one leading zero bytes, list lengths 0 to 2 or 3, optional parts; every format'
    PROPS['C22'] = Prop([Unit('c22.cpp', 'h_cipher', (), ONE, jobs=8, reach=(1, 2)), Unit('c22.cpp', 'h_submitted', (), ONE, jobs=8, reach=(1, 2)), Unit('c22.cpp', 'h_manifest', (), ONE, jobs=8, reach=(1, 2)), Unit('c22.cpp', 'h_internal', (), ONE, jobs=8, reach=(1, 2)),
                         Unit('c22.cpp', 'h_plain', (), ONE + '; any ASCII and two-byte UTF-8 character', tdefs={'numbers': 128}, reach=(1, 2)), Unit('c22.cpp', 'h_compact', (), ONE, tdefs={'numbers': 128}, reach=(1, 2)), Unit('c22.cpp', 'h_compact_cipher', (), ONE, tdefs={'numbers': 128}, reach=(1, 2)),
                         Unit('c22.cpp', 'h_device', (), ONE, tdefs={'numbers': 128}, reach=(1, 2)), Unit('c22.cpp', 'h_context', (), ONE, tdefs={'numbers': 128}, reach=(1, 2)),
                         Unit('c22.cpp', 'h_dates', (), '256 moments each of 30 sequences from 1970 to 2240, every format'), Unit('c22.cpp', 'h_iso', (), 'all hours, minutes or seconds of a day, four offsets')], LCA)
    PROPS['C28'] = Prop([Unit('c28.cpp', 'h_q', (), 'all values below 2^255, seven ways of making an element, with and without conversion'), Unit('c28.cpp', 'h_p', (), 'all values of 4096 bits, seven ways of making an element'),
                         Unit('c28.cpp', 'h_keys', LC, 'all keys, nonces, seeds and messages of 1 or 2 blocks, padded or not; encryption, decryption and refused decryption'), Unit('c28.cpp', 'h_hmac', LC, 'keys of 8, 36 and 64 bytes, all messages of 32 or 40 bytes, both forms of the message')], LCA)
    PROPS['C29'] = Prop([Unit('c29.cpp', 'h_selection', (), 'all 64-bit votes and all identifiers of 1 or 2 bytes', reach=(1, 2)), Unit('c29.cpp', 'h_contest', (), 'up to 3 (thorough 4) selections, all 64-bit votes and limits, identifiers of 1 or 2 bytes, every form of the call', tdefs={'selections': 4}, reach=(1, 2, 3, 4))], LCA)
    BAD = 'every value of a document at any depth removed or replaced by one of 11 kinds of value'
    PROPS['C30'] = Prop([Unit('c30.cpp', 'h_bad_' + t, (), BAD, tdefs={'formats': 2}, jobs=8 if t in ('cipher', 'submitted', 'manifest', 'internal') else None, reach=(1, 2)) for t in ('cipher', 'submitted', 'manifest', 'internal', 'plain', 'device', 'context', 'compact', 'compact_cipher')] +
                        [Unit('c30.cpp', 'h_bytes', (), 'a %s in %s, any one byte changed to any value, or cut anywhere' % (('plaintext ballot', 'encryption device', 'compact ballot')[t], ('JSON', 'BSON', 'MessagePack')[f]), defs={'type': t, 'format': f}, jobs=8 if t == 0 else None, reach=(1, 2)) for t, f in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2))] +
                        [Unit('c30.cpp', 'h_short', (), 'any up to 2 bytes as any of 4 types in 3 formats')], LCA)
    PROPS['C23'] = Prop([Unit('c22.cpp', 'h_withheld', (), 'two ballots that differ in one nonce (any value, or absent) and in all other nonces; every format, four ways of writing'), Unit('c22.cpp', 'h_submitted_holds_none', (), 'any nonce at each of 6 places'), Unit('c22.cpp', 'h_read_without', (), 'any nonce at each of 6 places, every format')], LCA)
