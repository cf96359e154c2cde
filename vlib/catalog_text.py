IN = ['inputs']
prop('C01', 'Arithmetic modulo q is exact and canonical',
     'For all canonical operands, addition, subtraction, negation and multiply-add of exponents give exactly the mathematical result reduced into [0, q). In particular operands that overflow 256 bits, sums equal to q or to 2^256-1, and zero operands are handled like every other value.',
     IN, 'all pairs (triples) of 256-bit operands in [0,q)', 'The tests compute a few fixed sums and compare random values with Python outputs; the wrap-around cases are a 2^-248 fraction of the operand space.',
     [S + 'group.cpp', S + 'facades/Hacl_Bignum256.cpp', S + 'utils.hpp'], [('carry and offset handling of the modular operations', S + 'group.cpp'), ('reduction through the precomputed modulus context', S + 'facades/Hacl_Bignum256.cpp')],
     note=GENERIC + 'The multi-precision product and remainder kernels are used through their mathematical contracts.')
prop('C02', 'Arithmetic modulo p is exact and canonical, exponentiation included',
     'For all operands, addition, reduction and multiplication of group elements give exactly the mathematical result reduced into [0, p), also for sums of 2^4096 and more and for lists mixing elements and exponents. Exponentiation uses every bit of its exponent, any base to the power 0 is 1, and the accelerated exponentiation of fixed bases (the generator, the election key) gives the same result as the plain one.',
     IN, 'all operands in [0,p); all exponents; fixed bases with exponents of any zero-byte pattern within the bounds', 'Tests use small numbers and a few random values; the carry cases and long exponents never occur in them.',
     [S + 'group.cpp', S + 'lookup_table.hpp', S + 'facades/Hacl_Bignum4096.cpp'], [('carry handling and reduction', S + 'group.cpp'), ('fixed-base tables', S + 'lookup_table.hpp')],
     note=GENERIC + 'The HACL* product, remainder, exponentiation and Montgomery kernels are used through their mathematical contracts.')
prop('C03', 'Multi-precision addition, subtraction, comparison and byte conversion are exact',
     'The 256- and 4096-bit integer primitives the whole library rests on compute the exact sum with carry, difference with borrow, order and equality of any two numbers, also when the result overwrites an operand, and conversion to and from big-endian bytes is the identity in both directions.',
     IN, 'all pairs of 256-bit and 4096-bit numbers', 'Carry chains of 64 limbs are not reached by tests with chosen numbers.',
     ['src/karamel/Hacl_Bignum256.c', 'src/karamel/Hacl_Bignum4096.c', 'src/karamel/Hacl_Bignum.c', S + 'facades/Hacl_Bignum256.cpp', S + 'facades/Hacl_Bignum4096.cpp'], [('limb arithmetic', 'src/karamel/Hacl_Bignum4096.c'), ('facades', S + 'facades/Hacl_Bignum4096.cpp')],
     note=GENERIC + 'Multiplication, reduction and exponentiation kernels are outside this property.')
prop('C04', 'Numbers survive conversion to and from hexadecimal, bytes and integers',
     'Writing any element or exponent as hexadecimal text or bytes and reading it back gives the same value, whatever its leading zeros, zero itself included; upper and lower case digits and extra leading zeros are accepted. Values above the modulus, byte strings and limb lists that are too long are refused by the checked constructors without touching memory outside the element; comparison and range tests are exact.',
     IN, 'all 256-bit and 4096-bit values', 'Tests convert a handful of constants; leading zeros, boundary values and over-long inputs are not sampled.',
     [S + 'group.cpp', S + 'convert.hpp', S + 'facades/Hacl_Bignum4096.cpp'], [('constructors, comparison and conversion', S + 'group.cpp'), ('hexadecimal text', S + 'convert.hpp')],
     note=GENERIC + 'The modulus itself is accepted by the checked constructors, as the unit tests require. Text that is not hexadecimal is outside.')
prop('C05', 'Random exponents and elements lie in their range and rest on system randomness',
     'Whatever the random number generator outputs, a random exponent lies in [0, q) and a random group element in [0, p); no bit of a random exponent is fixed, the generator is seeded from the operating system, and no memory outside the random bytes is read. If the operating system or the generator fails, the caller gets an error and never a predictable value.',
     ['inputs', 'faults'], 'every generator output, every failure point', 'Tests draw a few values; ranges, fixed bits and failures cannot be seen from samples.',
     [S + 'random.hpp', S + 'group.cpp'], [('generator wrapper', S + 'random.hpp'), ('reduction into range', S + 'group.cpp')],
     note=GENERIC + 'HMAC-DRBG itself is used as a source of arbitrary bytes; statistical quality is not judged.')
prop('C06', 'Hashes cover exactly the listed items in order',
     'The hash of a list is SHA-256 over the encodings of its items, in order and separated by delimiters, reduced to a canonical exponent: elements by their hexadecimal form, numbers in decimal, text verbatim, nested lists by their own hash, absent, empty and zero values as null. This holds for every kind of item and way of passing it.',
     IN, 'all item kinds and values within the bounds', 'The hash defines what every proof and code commits to; tests compare two or three fixed vectors.',
     [S + 'hash.cpp'], [('item encoding and digest reduction', S + 'hash.cpp')],
     note=GENERIC + 'Text containing the delimiter is encoded verbatim, so lists are distinguished only up to such text. SHA-256 itself is an injective uninterpreted function.')
prop('C07', 'Derived nonces are fixed by seed, header and position and never collide',
     'A nonce sequence depends only on its seed and header: the nonce at a position, the next nonce, and a range of nonces all follow the same derivation whatever was asked before. Two nonces are equal only if seed, headers and position are equal.',
     ['inputs', 'histories'], 'all request histories of up to 3 steps; all pairs of seeds, headers and positions within the bounds', 'Repeated nonces reveal votes; a test can only compare a few pairs.',
     [S + 'nonces.cpp', S + 'hash.cpp'], [('nonce derivation', S + 'nonces.cpp')],
     note=GENERIC + 'SHA-256 is an injective uninterpreted function; headers containing the hash delimiter are outside.')
prop('C08', 'ElGamal encryption decrypts to what was encrypted and adds homomorphically',
     'Encrypting a number with any valid key and nonce, with or without precomputed values, gives the pair (g^r, K^r g^m), decrypting it with the secret key gives back whether it encrypts 0 or 1, and adding ciphertexts gives an encryption of the sum of the messages under the sum of the nonces. Degenerate nonces and keys are refused, and a key pair always satisfies public = g^secret.',
     IN, 'all keys, nonces, 64-bit messages; all lists of up to 12 ciphertexts', 'Tests encrypt 0 and 1 under a handful of keys; the algebra must hold for every key, nonce and message and on the precomputed path.',
     [S + 'elgamal.cpp', S + 'precompute_buffers.cpp'], [('encryption, decryption, homomorphic addition', S + 'elgamal.cpp'), ('precomputed encryptions', S + 'precompute_buffers.cpp')])
prop('C10', 'Selection range proofs: honest ones verify, broken ones never do',
     'A proof made for an encryption of 0 or 1 with its true nonce verifies for that ciphertext, key and base hash however it was made (random, seeded or precomputed). A proof for which any one of the verification conditions fails - membership of a component, the challenge equation, the challenge split, or one of the four commitment equations - is rejected, and messages other than 0 and 1 cannot be proven.',
     IN, 'all keys, nonces, seeds, base hashes and proof components', 'Tests verify a few honest proofs and reject a few tampered ones; acceptance has to coincide with the conjunction of all conditions for every value.',
     [S + 'chaum_pedersen.cpp'], [('disjunctive proof construction and verification', S + 'chaum_pedersen.cpp')])
prop('C11', 'Contest limit proofs: honest ones verify, broken ones never do',
     'A proof that a contest total equals a stated constant, made with the true aggregate nonce, verifies for that total, key and base hash. It is rejected for every other total or constant and whenever any one of its verification conditions fails.',
     IN, 'all keys, nonces, seeds, base hashes, totals and proof components', 'Tests use constants 0 and 1 with a few keys.',
     [S + 'chaum_pedersen.cpp'], [('constant proof construction and verification', S + 'chaum_pedersen.cpp')])
prop('C12', 'An encrypted contest contains exactly the voter\'s choices',
     'For every set of marks within the contest limit, given in any order and with unmarked selections left out, each selection of the contest is encrypted exactly once and decrypts to the mark the voter made or to 0; placeholders absorb exactly the unused votes so that the contest total is the number of seats. Every selection proof and the contest proof of the result verify, and contests or selections that are not on the manifest are refused.',
     ['inputs', 'configurations'], 'all vote patterns, orders, keys and seeds for contests of up to 4 selections and 3 seats; precompute buffer empty, running dry or full', 'Tests encrypt a few generated ballots; every combination of marks, order and buffer state must work.',
     [S + 'encrypt.cpp', S + 'ballot.cpp', S + 'manifest.cpp'], [('contest and selection encryption, placeholder marking', S + 'encrypt.cpp'), ('aggregate nonces and accumulation', S + 'ballot.cpp')])
prop('C13', 'Overvotes count for nobody and the original marks and write-ins are kept',
     'A contest with more votes than allowed is encrypted as if no real selection had been marked and the encrypted extra data of the contest opens, with the election key, to a record that names the overvote and the selections given one vote. Write-in texts of selected write-in candidates are kept in the encrypted extra data of their contest and attributed to the right selection.',
     IN, 'all 64-bit vote values of contests of up to 4 selections, all write-in patterns', 'The overvote test uses one ballot.',
     [S + 'encrypt.cpp', S + 'ballot.cpp'], [('overvote and write-in collection', S + 'ballot.cpp'), ('hashed ElGamal of the extra contest data', S + 'encrypt.cpp')])
prop('C14', 'An encrypted ballot covers every contest of its style under fresh nonces',
     'Encrypting a ballot yields, in sequence order, exactly the contests of its ballot style - those the voter skipped included, those of other styles excluded - with a ballot code, nonces and hashes that follow from the given seed. Two ballots, contests or selections never share an encryption nonce, and ballots of a style that is not on the manifest are refused.',
     ['inputs', 'configurations'], 'all subsets and orders of contests on the ballot over a manifest of 4 contests and 3 styles, all nonces, seeds and ids within the bounds', 'Tests use one or two manifests and complete ballots.',
     [S + 'encrypt.cpp', S + 'ballot.cpp', S + 'manifest.cpp'], [('ballot encryption and filling in of skipped contests', S + 'encrypt.cpp'), ('contests of a ballot style', S + 'manifest.cpp')])
prop('C15', 'A ballot altered after encryption never verifies',
     'An encrypted ballot verifies as it comes out of encryption and also when its contests are supplied in another order. If any ciphertext, accumulation, proof, identifier, description hash or crypto hash is changed, a proof is missing or made for something else, a selection is removed, added, duplicated or swapped (even with all public hashes recomputed), or a contest is removed or swapped, it no longer verifies. Nor does it verify against another manifest, election key or base hash.',
     IN, 'all values of the altered components; 41 kinds of alteration at every contest and selection of a two-contest ballot', 'Tests verify honest ballots only.',
     [S + 'ballot.cpp', S + 'chaum_pedersen.cpp'], [('validity of selections, contests and ballots', S + 'ballot.cpp')])
prop('C17', 'Ballot codes form an unbroken chain that binds device, time and contents',
     'Successive ballots encrypted on one device are chained: the first code starts from the device hash and each later one from the preceding code, also when encryptions in between fail. The device hash and the codes change with every identifying field of the device, with the previous code, the timestamp and the ballot hash, and a device whose manifest does not match the election is refused.',
     ['inputs', 'histories'], 'all sequences of up to 5 encrypt / compact encrypt / failed encrypt calls; all pairs of field values within the bounds', 'Tests chain at most two ballots and never after a failure.',
     [S + 'encrypt.cpp', S + 'ballot_code.cpp'], [('encryption mediator', S + 'encrypt.cpp'), ('device hash and rotating ballot codes', S + 'ballot_code.cpp')],
     state=[('ballot code seed', 'code of the last ballot encrypted', S + 'encrypt.cpp')])
prop('C18', 'A compact ballot expands to exactly the encrypted ballot it stands for',
     'A compact ballot holds a vote and a write-in for every selection of its style in manifest order, and the nonce, seed, timestamp and code of the encrypted ballot. Expanding it yields the voter\'s plaintext ballot with missing selections filled in, and the same ciphertexts, hashes, nonces and code that encrypting the ballot gives, with valid proofs, whether or not precomputed values are at hand when it is made or expanded. If its id, style, timestamp, nonce, seed or code is altered, its votes are altered so that other votes count, or parts are missing, expansion fails.',
     ['inputs', 'histories'], 'all ballots of three contests in three styles with contests and selections left out or reordered; all keys, nonces and seeds; 9 kinds of alteration', 'Tests compact and expand one fixed ballot with empty precompute buffers.',
     [S + 'ballot_compact.cpp', S + 'encrypt.cpp'], [('compressing and expanding', S + 'ballot_compact.cpp'), ('encryptCompactBallot', S + 'encrypt.cpp')],
     note=LAYER_C + 'The proofs of selections are drawn anew on expansion and are checked by verification; write-in texts are not covered by the code, so altering them is outside.')
prop('C09', 'Hashed ElGamal returns the exact bytes and notices every alteration',
     'A byte string encrypted with hashed ElGamal, padded or in whole blocks, decrypts with the secret key and the same seed to exactly the bytes encrypted, or to their prefix of the padded size if truncation was allowed; anything that does not fit is refused. The ciphertext length depends on the padded size only. Decryption fails if any byte of the data or code, the pad, the length, the key or the seed is altered, and no two blocks, within a message or under different nonces or seeds, are masked with the same key stream.',
     IN, 'all message bytes for lengths around the block and padding limits up to 543 bytes; all keys, nonces and seeds; 11 kinds of alteration', 'Tests encrypt a few fixed messages; boundaries of the padding and alterations at every place are not sampled.',
     [S + 'elgamal.cpp', S + 'hmac.cpp'], [('padding, masking and authentication', S + 'elgamal.cpp'), ('keyed hash', S + 'hmac.cpp')],
     note=LAYER_C + 'HMAC is an injective uninterpreted function; an empty message without padding is outside.')
prop('C25', 'Precomputed values are consistent and used at most once',
     'Whatever is asked of the precompute buffers in whatever order, every triple and quadruple handed out satisfies its defining equations for the election key, no secret exponent is handed out twice, and values are available exactly as long as some are left. Ballots encrypted from the buffers, also when they run dry in the middle, never share an encryption nonce or proof commitment.',
     ['inputs', 'histories'], 'every history of 4 (thorough 5) requests with buffers of up to 3 sets; two ballots with buffers of 0, 1, 3 and 6 sets', 'A reused nonce reveals votes, and only particular fill levels and orders would show it.',
     [S + 'precompute_buffers.cpp', S + 'encrypt.cpp', S + 'elgamal.cpp', S + 'chaum_pedersen.cpp'], [('buffers', S + 'precompute_buffers.cpp')],
     state=[('precompute buffers', 'sets and triples not handed out yet', S + 'precompute_buffers.cpp')])
prop('C26', 'Concurrent use is free of data races and changes no result',
     'The precompute buffers, the shared fixed-base tables, elements and constants and the encryption of ballots against a common manifest, context and key may be used from several threads at once: no two threads touch the same memory unsynchronised with one of them writing, no schedule deadlocks or leaves a lock behind, precomputed values are still handed out once, and results are those of sequential use.',
     ['schedules'], 'every schedule of 2 (thorough 3) threads with one buffer, element or table operation each; ballot encryptions with up to 1 (thorough 2) preemptions', 'Tests run one schedule, chosen by chance.',
     [S + 'precompute_buffers.cpp', S + 'lookup_table.hpp', S + 'group.cpp'], [('buffer lock', S + 'precompute_buffers.cpp'), ('lock of the table collection', S + 'lookup_table.hpp'), ('cached hexadecimal form', S + 'group.cpp')],
     note=GENERIC + 'Threads hand over at locks and atomic operations; the solver looks for times of the memory accesses between them at which two conflict. An encryption mediator shared by threads is outside.',
     state=[('precompute buffers', 'queues, size and populate flag', S + 'precompute_buffers.cpp'), ('fixed-base tables', 'map from base to table', S + 'lookup_table.hpp')])
prop('C19', 'Manifest validity, ballot styles and placeholders follow the manifest exactly',
     'A manifest is reported valid exactly if its identifiers are present and unique, every reference (district, party, candidate, style) resolves, and the limits and sequence orders of its contests are consistent. The internal manifest keeps every part and hash of the manifest, orders selections and adds exactly as many distinct placeholders as there are seats, after all selections; a ballot style has exactly the contests of its districts, each once and in sequence order, and unknown styles are refused.',
     IN, 'all identifiers, references, numbers and sequence orders in one section of a small manifest at a time', 'Tests check a handful of manifests, nearly all valid.',
     [S + 'manifest.cpp'], [('validation, internal manifest, ballot styles', S + 'manifest.cpp')])
prop('C20', 'The manifest hash changes with every text, number, kind and entry it covers',
     'Two manifests have the same hash if they are equal and different hashes if they differ in one text, number, date (to the second), enumerated kind, optional part or list entry (content or order) of the scope, type, dates, geopolitical units, parties, contests, selections, ballot styles, name or contact information. The internal manifest carries the same hash.',
     IN, 'all pairs of values of one field at a time', 'Collisions need particular pairs of manifests.',
     [S + 'manifest.cpp', S + 'hash.cpp'], [('crypto_hash of the parts of a manifest', S + 'manifest.cpp')],
     note=LAYER_C + 'SHA-256 is an injective uninterpreted function. Candidates and the primary parties of a contest are not part of the hash; texts containing the delimiter | are outside.')
prop('C24', 'Copies of elements, ballots, proofs and manifest parts are exact and independent',
     'A copy of any element, key pair, ciphertext, proof, precomputed value, ballot or manifest part - by construction, assignment, clone or move - has the same content in every field as the original, optional parts included. Copying leaves the original unchanged, and the copy stays intact when the original is destroyed.',
     IN, 'all field values of 28 types with optional parts present or absent', 'Tests copy few types and compare few fields.',
     [S + 'ballot.cpp', S + 'manifest.cpp', S + 'group.cpp', S + 'elgamal.cpp', S + 'chaum_pedersen.cpp', S + 'precompute_buffers.cpp'], [('copy, move and clone operations', S + 'ballot.cpp'), ('copy and move operations of manifest parts', S + 'manifest.cpp')])
prop('C16', 'Hashes of selections, contests and ballots bind all parts in sequence order',
     'The hash of a selection covers its id, description hash and ciphertext; that of a contest its id, description hash and selection hashes; that of a ballot its id, manifest hash and contest hashes, always in sequence order whatever the order of supply. Made and recomputed hashes agree, and objects that differ in one such part have different hashes. Accumulations and aggregate nonces are the product and sum over all selections, and empty contests and ballots are refused.',
     IN, 'all part values; up to 3 selections or contests in every order', 'Tests compare a few hashes with themselves.',
     [S + 'ballot.cpp', S + 'elgamal.cpp'], [('makeCryptoHash and crypto_hash_with', S + 'ballot.cpp')],
     note=LAYER_C + 'SHA-256 is an injective uninterpreted function; ids containing the delimiter | are outside.')
prop('C21', 'The election base hashes bind parameters, quorum, manifest and commitments',
     'However an election context is made, its base hash is the hash of p, q, g, the number of guardians, the quorum and the manifest hash, and its extended base hash that of the base hash and the commitments; contexts that differ in one of these have different hashes. The context keeps the key (as a fixed base), hashes, configuration and extended data it was given.',
     IN, 'all keys, hashes and numbers within the bounds; eight ways of making a context', 'Tests make one context and do not compare the ways of making it.',
     [S + 'election.cpp', S + 'hash.cpp'], [('make', S + 'election.cpp')],
     note=LAYER_C + 'SHA-256 is an injective uninterpreted function.')
prop('C22', 'What is written as JSON, BSON or MessagePack reads back the same',
     'Manifests, internal manifests, election contexts, encryption devices, plaintext, compact, encrypted (with nonces) and submitted ballots read back from each format they can be written in with the same content in every field, absent and empty parts included; dates are kept to the second and written in ISO form. Writing changes nothing, and numbers a format cannot hold (2^63 and above in BSON) are refused, not altered.',
     IN, 'all values of one field at a time within the bounds', 'Tests round-trip a few objects and compare a few fields.',
     [S + 'serialize.hpp', S + 'convert.cpp', S + 'convert.hpp', S + 'manifest.cpp', S + 'ballot.cpp'], [('the serializers', S + 'serialize.hpp'), ('dates', S + 'convert.cpp'), ('hexadecimal form', S + 'convert.hpp')],
     note=GENERIC + 'nlohmann json and the date library are executed from their headers. Primary parties of a contest are not written by the library and not claimed.')
prop('C23', 'Nonces appear in serialized ballots only on request and never when submitted',
     'What an encrypted ballot writes by default, or with nonces off, in any format is the same whatever the ballot, contest and selection nonces are, and reading it back yields no nonces. A submitted ballot holds and writes none of the nonces of the ballot it was made from and keeps all else.',
     IN, 'all nonce values at every place', 'A test can look for one nonce, not show that the output does not depend on any.',
     [S + 'serialize.hpp', S + 'ballot.cpp'], [('withNonces', S + 'serialize.hpp'), ('SubmittedBallot', S + 'ballot.cpp')])
prop('C27', 'The C API gives exactly what the C++ API gives, and leaves inputs to the caller',
     'Objects made through the C API hold exactly the values given; its getters, validity tests, hashes, proofs, encryptions, serialized forms and contexts equal those of the C++ objects; indexed access succeeds exactly for indices in range and otherwise reports an error. Handles passed in stay the caller\'s to free, and the linked list is a faithful sequence of key-value entries. Success is reported only when there is a result.',
     ['inputs', 'histories'], 'all field values within the bounds and every index; all keys, nonces and seeds', 'Tests call a fraction of the 280 functions, each with one value.',
     [S + 'facades/ballot.cpp', S + 'facades/manifest.cpp', S + 'facades/encrypt.cpp', S + 'facades/election.cpp', S + 'facades/elgamal.cpp', S + 'facades/chaum_pedersen.cpp', S + 'facades/group.cpp', S + 'facades/hash.cpp', S + 'facades/ballot_code.cpp', S + 'facades/ballot_compact.cpp', S + 'facades/collections.c'],
     [('ballots', S + 'facades/ballot.cpp'), ('manifests', S + 'facades/manifest.cpp'), ('encryption', S + 'facades/encrypt.cpp'), ('contexts', S + 'facades/election.cpp'), ('linked list', S + 'facades/collections.c')],
     note=GENERIC + 'Constructors of contests, ballots and manifests move the content out of the parts given; those may only be freed afterwards. eg_encrypt_contest, which is declared otherwise than defined, and the undefined functions for the extended data of selections are outside.')
prop('C28', 'Elements and derived keys are wiped before their memory is released',
     'When an element (modulo p or q), however it was made, is destroyed or overwritten, every byte of its value is zero before its memory is released. When get_hmac, hashed ElGamal encryption or decryption end, by return or exception, no heap memory they released holds the secret key, the nonce, the session key, the MAC key or the key stream.',
     IN, 'all element values; all keys, nonces, seeds and messages within the bounds', 'Released memory cannot be looked at by the tests.',
     [S + 'group.cpp', S + 'hmac.cpp', S + 'elgamal.cpp', S + 'hash.cpp'], [('destructors', S + 'group.cpp'), ('get_hmac', S + 'hmac.cpp'), ('hashed ElGamal', S + 'elgamal.cpp'), ('hash_close', S + 'hash.cpp')],
     note=GENERIC + 'The stack, hexadecimal and other encodings of a secret, and the plaintext itself are outside.')
prop('C29', 'Plaintext selections and contests are judged valid or overvoted exactly',
     'A plaintext selection is valid exactly if its id is the expected one and its vote is 0 or 1. A plaintext contest is refused for another id, then for more selections than expected; otherwise it is an overvote (or an overvote error, where overvotes are not supported) exactly if more selections have a vote than may be elected or the total of the votes exceeds what is allowed (the number elected, if no limit is given), whatever the size of the votes; and otherwise it is valid.',
     IN, 'all 64-bit votes and limits; up to 3 selections', 'Tests judge a handful of contests with small votes.',
     [S + 'ballot.cpp'], [('isValid', S + 'ballot.cpp')])
prop('C30', 'Malformed serialized input is refused by an exception, never by a crash',
     'Reading a manifest, internal manifest, election context, encryption device or ballot of any kind from a document in which any value is missing or has another type, or from bytes that are altered, cut or arbitrary, in any format, ends in an exception or in an object that can be looked at and written again; memory is never accessed out of bounds and the process is not ended.',
     IN, 'every place of a document, 12 kinds of alteration; any one byte, any cut', 'Tests read well-formed documents.',
     [S + 'serialize.hpp', S + 'convert.hpp', S + 'convert.cpp', S + 'manifest.cpp', S + 'ballot.cpp', S + 'group.cpp'], [('the readers', S + 'serialize.hpp'), ('hexadecimal form', S + 'convert.hpp'), ('dates', S + 'convert.cpp')],
     note=GENERIC + 'nlohmann json is executed from its headers, with its assertions on. Fractional numbers are outside.')
