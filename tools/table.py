HOOK_COMMITS = ["304e6d0"]
NOT_APPLICABLE = []
DIVTREE = "bigdiv@UBigInt::(div|count_digits|left_align|count_bits|len|shift_left|shift_left_assign|widening_shift_left|shift_right|shift_right_assign)$|partial_div|carry_"
BIGPART = DIVTREE + "|UBigInt::(widening_mul|overflowing_add|overflowing_sub|add|sub|add_assign|sub_assign|and_bool|and_bool_assign|resize)$|(PartialOrd|Ord) for"
FIELDPART = "field"
LEANP = "the three moduli are prime: axiom_primes in specs/moduli.vt, proved by Lean 4 and Mathlib in lean/Primes.lean for the same definition (the two texts are matched by hand)"
LEANA = "the chord-and-tangent law is associative: axiom_assoc in specs/ecmath.vt, proved by Lean 4 and Mathlib in lean/Curve.lean for the same definitions (the two texts are matched by hand)"
LEANO = "every point of P-256 but infinity has order n: axiom_p256_prime_order in specs/dh.vt, proved by Lean 4 and Mathlib in lean/Curve.lean for the same definitions (the two texts are matched by hand)"
INVPART = "inverse@inverse|div$"
NOTES = ("Every check extracts the functions under contract from /repo, has Verus discharge their obligations, and evaluates the same "
         "contracts concretely on the compiled code to supply failing inputs. An obligation that cannot be extracted or decided on a changed "
         "tree never alarms; the evidence then says which part fell back to the bounded evaluation.")

prop("A01", "Fixed-width integer add, subtract, compare, shift and bit operations are exact",
     "For every width and all values, unsigned big-integer addition, subtraction, doubling and multiplication by one word give the exact integer result modulo the width together with the exact carry or borrow, and comparison agrees with the order of the values. Shifts by fewer bits than one 64-bit word, bitwise operations, bit and byte access and the digit and bit counts agree with the binary representation of the value. The value-returning and in-place forms of each operation agree.",
     ["inputs"], "all widths, all operand values, all shift amounts below 64",
     "the unit tests try a handful of constants at width 4; carries and borrows that ripple through particular digit patterns are not sampled",
     [U, "crylib/src/big_int.rs"],
     [("carry chains", U), ("carry_add/carry_sub/carry_mul", "crylib/src/big_int.rs")],
     ["public methods of the unsigned integer"], "proof", ["cry"], ["bigint"],
     "every add, sub, mul-by-word, compare, shift, bitwise, bit/byte access and count method of the unsigned integer, value-returning and in-place forms, at every width", "", state=[("digits", "little-endian 64-bit digits of the value", U)])

prop("A02", "Widening multiplication and division of integers are exact",
     "For all pairs of operands at every provided width (2, 3, 4, 5, 6 and 8 words) the widening product equals the exact product of the values, and the widening left shift equals the exact shifted value. For every dividend and every non-zero divisor, quotient q and remainder r satisfy dividend = q*divisor + r with r < divisor; dividing by zero panics and nothing else does.",
     ["inputs"], "all operand values at the provided widths (2, 3, 4, 5, 6 and 8 words)",
     "long division has correction steps that are reached with probability about 2^-64 on random operands; tests cannot hit them by sampling",
     [U], [("schoolbook product, long division with estimated quotient digits", U)],
     ["widening_mul, widening_shift_left, div, div_assign"], "proof", ["cry"], ["bigdiv"],
     "widening_mul, widening_shift_left, div and div_assign of every provided width, with everything they call (per-word carries, compare, subtract, shift, multiply by a word), for all operand values",
     "")

prop("A03", "Byte encodings and resizing of integers are exact and inverse",
     "Decoding big- or little-endian bytes gives exactly the integer those bytes denote, encoding gives the bytes of the value at full width, and each direction undoes the other. Resizing to more digits keeps the value and resizing to fewer keeps it modulo the new width; conversion from a slice of words succeeds exactly when the length matches the width.",
     ["inputs"], "all values and all byte strings of the right length, at the provided widths",
     "keys, nonces and signatures pass through these codecs; tests check a few constants",
     [U], [("from/to_be/le_bytes, resize, conversions", U)],
     ["from_be_bytes, from_le_bytes, to_be_bytes, to_le_bytes, resize"], "proof", ["cry"], ["bytes", "bigint@resize|From|from|new|ZERO|MAX|MIN|ONE|lemma"],
     "from/to_be/le_bytes of every provided width against the numeric value of the byte string; resize, conversions from words and slices of words at every width", "")

prop("A04", "Signed big integers behave as two's-complement integers",
     "For all values away from the most negative one, signed addition, subtraction, negation, absolute value, multiplication and comparison agree with the mathematical integers (modulo the width for addition and subtraction). Signed division by a non-zero divisor gives dividend = q*divisor + r with |r| < |divisor|, whatever the signs.",
     ["inputs"], "all values except the most negative one, at the provided widths",
     "sign combinations times carry patterns; modular inversion depends on them",
     ["crylib/src/big_int/signed.rs", U], [("two's complement over the unsigned digits", "crylib/src/big_int/signed.rs")],
     ["public methods of the signed integer"], "proof", ["cry"], ["signed"],
     "add, sub, neg, not, abs, compare (their in-place forms, sign queries and constants) at every width, div, div_assign and widening_mul at every provided width, for all values; the most negative value is covered too where the operation is defined", "")

prop("F01", "Prime-field arithmetic is exact and always reduced",
     "For all field elements, addition, subtraction, negation, doubling, multiplication by a word, multiplication, squaring and construction from integers give the canonical representative (below the modulus) of the exact result modulo the prime. This holds for every field the library defines, including results that need more than one reduction step.",
     ["inputs"], "all pairs of canonical field elements; all integers for construction",
     "results in the few values just above the modulus need an extra subtraction that random or published vectors do not reach",
     ["crylib/src/finite_field/field_element.rs", "crylib/src/finite_field.rs", "crylib/src/ec/secp256r1.rs"],
     [("add/sub with conditional correction, multiplication by division with remainder", "crylib/src/finite_field/field_element.rs")],
     ["field element operators"], "proof", ["cry"], ["field", BIGPART],
     "new, try_new, conversions, add, sub, double, neg, mul, mul_digit, sqr, convert and their in-place forms over any modulus above one that fits the width; the three moduli the library defines have the published values (P-256 prime and group order, 2^130 - 5)", "", state=[("value < modulus", "canonical form", "crylib/src/finite_field/field_element.rs")])

prop("F02", "Modular inverse and division are exact for every non-zero element",
     "For every non-zero element of the provided prime fields the computed inverse is the unique canonical element whose product with it is one. Division by a non-zero element is multiplication by its inverse.",
     ["inputs"], "all non-zero elements of the provided fields",
     "the extended Euclidean algorithm runs through value-dependent sequences of signed quotients",
     ["crylib/src/finite_field/field_element.rs", "crylib/src/big_int/signed.rs"],
     [("extended Euclid over signed integers", "crylib/src/finite_field/field_element.rs")],
     ["inverse, div"], "proof", ["cry"], ["inverse", "field@FieldElement::(mul|new_unchecked|new)$|MODULUS|lemma_", "signed@BigInt::(div|widening_mul|resize|sub|sub_assign|add_assign|is_negative|is_positive|abs|neg|neg_assign|not|not_assign)$|From for", DIVTREE + "|UBigInt::(widening_mul|overflowing_|add|sub|resize|not)|(PartialOrd|Ord) for"],
     "inverse and div of both provided widths, for every non-zero element of any field whose modulus is prime: the extended Euclidean loop terminates, none of its signed operations overflows, and the result is canonical and inverse", "",
     lean=["Primes"], assumptions=[LEANP])

prop("E01", "Elliptic-curve point addition and doubling implement the complete group law",
     "For all points of the curve, including the point at infinity, equal points and opposite points, projective addition and doubling give the sum the chord-and-tangent law defines, independent of the projective representatives. Affine addition agrees with it for points with different x coordinates, and negation and conversion between representations preserve the point.",
     ["inputs"], "all pairs of curve points and all projective representatives",
     "exceptional pairs (equal, opposite, infinity) have measure zero and are not in the test vectors",
     ["crylib/src/ec/point/projective.rs", "crylib/src/ec/point/affine.rs"],
     [("explicit formulas with exceptional cases", "crylib/src/ec/point/projective.rs")],
     ["add, double, neg, as_affine"], "proof", ["cry"], ["ecg", FIELDPART, INVPART],
     "the chord-and-tangent law over any prime field is written out as a specification; the projective add, double, neg, equality and conversions and the affine add, double and neg meet it for every point and representative, infinity, equal and opposite points included (the shortcut for distinct points is specified for distinct points), and results stay on the curve", "",
     lean=["Primes"], assumptions=[LEANP])

prop("E02", "Scalar multiplication and on-curve checks are exact",
     "Multiplying any curve point by any scalar gives the scalar-fold sum of the point, including scalars zero, one, the group order minus one and all values in between, and the result is always a point of the curve. The on-curve test accepts a coordinate pair exactly when it satisfies the curve equation.",
     ["inputs"], "all curve points, all scalars, all coordinate pairs",
     "tests use a handful of published multiples; sparse and dense bit patterns of the scalar and special points are not covered",
     ["crylib/src/ec/point/affine.rs", "crylib/src/ec/point/projective.rs", "crylib/src/ec/secp256r1.rs"],
     [("double and add", "crylib/src/ec/point/affine.rs")], ["mul_scalar, is_on_curve"], "proof", ["cry"], ["ecs", "ecg@ProjectivePoint|AffinePoint", FIELDPART, INVPART],
     "mul_scalar and mul_scalar_assign equal the scalar-fold sum for every curve point and scalar, the result is on the curve, the on-curve tests are exact, and the curve's coefficients and base point are the published values", "",
     lean=["Primes", "Curve"], assumptions=[LEANP, LEANA])

prop("E03", "ECDSA accepts exactly the valid signatures, and its own signatures verify",
     "For every public key on the curve, message hash and pair (r, s), verification succeeds exactly when r and s are in the range 1..n-1 and the ECDSA equation holds. A signature made with any valid private key verifies under the matching public key for that message hash.",
     ["inputs"], "all keys, hashes, nonces and signature pairs",
     "forged signatures with zero or out-of-range components and hashes above the group order are not in the test vectors",
     ["crylib/src/ec/ecdsa.rs"], [("verify/sign", "crylib/src/ec/ecdsa.rs")], ["verify_signature, sign"], "proof", ["cry"], ["ecdsa", "ecs@mul_scalar|is_on_curve", "ecg@ProjectivePoint|AffinePoint", FIELDPART, INVPART],
     "verify_signature accepts exactly when the range conditions and the ECDSA equation hold, sign produces the signature the standard defines from its nonce, and a lemma derives that what sign makes verifies; the order of the base point is computed inside the verifier", "",
     lean=["Primes", "Curve"], assumptions=[LEANP, LEANA])

prop("H01", "SHA-2 digests are right for every length and every way of feeding the data",
     "For every message the SHA-256 and SHA-512 digests equal the standard's, whatever the length. Feeding the message in any sequence of pieces (of any sizes, including empty) gives the same digest as hashing it at once.",
     ["inputs", "histories"], "all messages and all ways to split them into updates",
     "padding and buffering boundaries times all split patterns; tests hash a few short strings in one call",
     ["crylib/src/hash/sha256.rs", "crylib/src/hash/sha512.rs", "crylib/src/hash/buf_hasher.rs", "crylib/src/hash.rs"],
     [("compression function, padding", "crylib/src/hash/sha256.rs"), ("block buffering", "crylib/src/hash/buf_hasher.rs")],
     ["hash, hash_to_slice, BufHasher"], "proof", ["cry"], ["h256", "h512", "hbuf"],
     "compression function, message schedule, padding and digest of SHA-256 and SHA-512 against the standard written out as a specification, for every message shorter than 2^60 bytes; BufHasher over any hasher that meets the block-hasher contract, for every sequence of updates", "", state=[("buffered tail", "the bytes not yet compressed", "crylib/src/hash/buf_hasher.rs")])

prop("H02", "HMAC and HKDF are right for every key, message and output length",
     "For every key (shorter than, equal to or longer than the hash block) and every message the HMAC equals its definition. HKDF extract equals HMAC of the input key under the salt, and expand yields exactly the requested prefix of the standard's output stream for every info string and every length up to 255 blocks.",
     ["inputs"], "all keys, salts, messages, info strings and output lengths",
     "key lengths around the block size and output lengths that are not multiples of the digest are a few cells of the test vectors",
     ["crylib/src/hmac.rs", "crylib/src/hkdf.rs"], [("key padding, inner/outer hash", "crylib/src/hmac.rs"), ("expand loop", "crylib/src/hkdf.rs")],
     ["auth, extract, expand"], "proof", ["cry"], ["hkdf"],
     "hmac::auth and its streaming form, hkdf::extract and hkdf::expand over any hasher that meets the block-hasher contract (SHA-256 and SHA-512 are proved to meet it under H01), for every key, message, info and output length", "")

prop("S01", "AES encrypts every block under every key as the standard defines",
     "For every key of the supported sizes and every 16-byte block, the AES encryption equals FIPS 197, and the key schedule equals the standard's expansion. Encrypting a block changes nothing but that block.",
     ["inputs"], "all keys and all blocks",
     "a handful of published vectors cannot see a single wrong table entry or a byte-dependent error",
     ["crylib/src/aead/gcm/aes.rs"], [("round function, key expansion, S-box", "crylib/src/aead/gcm/aes.rs")],
     ["encrypt_inline, new"], "proof", ["cry"], ["aes"],
     "the substitution, multiplication and round-constant tables against the field of 256 elements, key expansion for 128, 192 and 256-bit keys, every round step and the whole encryption, for every key and block",
     "")

prop("S02", "AES-GCM ciphertext and tag are right for every length",
     "For every key, nonce, message and associated data of any lengths (including empty ones), AES-GCM encryption produces the ciphertext and tag of the standard. Decryption of what it produced gives the message back.",
     ["inputs"], "all keys, nonces, message and associated-data lengths and contents",
     "partial blocks, empty associated data, and counter and field-multiplication patterns are only sampled by vectors",
     ["crylib/src/aead/gcm.rs", "crylib/src/aead/gcm/aes.rs"], [("counter mode, GHASH over the field of 2^128 elements", "crylib/src/aead/gcm.rs")],
     ["encrypt_inline, decrypt_inline"], "proof", ["cry"], ["gcm", "aes"],
     "multiplication in the field of 2^128 elements (including that it is commutative), hash-subkey derivation, counter blocks and stream, GHASH over padded associated data, padded ciphertext and lengths, tag, in-place and copying encryption and decryption, over any block cipher that meets the AES contract (proved for the three AES types); all keys, nonces, associated data below 2^61 bytes and messages below 2^36 - 32 bytes",
     "")

prop("S03", "ChaCha20 and Poly1305 are right for every input",
     "For every key, nonce, block counter and message length the ChaCha20 keystream and the Poly1305 tag equal RFC 8439, and the combined AEAD produces the ciphertext and tag of that RFC. Exactly the message bytes are written; nothing beyond them changes.",
     ["inputs"], "all keys, nonces, counters, lengths and contents",
     "Poly1305 carries and final reduction near the prime are reached with negligible probability on sampled data; tests use RFC vectors",
     ["crylib/src/aead/chacha.rs", "crylib/src/aead/chacha/chacha20.rs", "crylib/src/aead/chacha/poly1305.rs"],
     [("quarter rounds", "crylib/src/aead/chacha/chacha20.rs"), ("130-bit accumulation", "crylib/src/aead/chacha/poly1305.rs")],
     ["encrypt_inline, authenticate"], "proof", ["cry"], ["chacha", "poly", "ccaead", FIELDPART, "bytes@UBigInt::(from_le_bytes|to_le_bytes|resize)|From", BIGPART],
     "quarter round, block function and stream of ChaCha20; Poly1305 key clamping, block accumulation modulo 2^130 - 5, padding of partial blocks, final addition and truncation; one-time key, MAC input layout and both in-place and copying encryption and decryption of the combined cipher; all keys, nonces, associated data and messages of less than 2^38 - 64 bytes",
     "")

prop("S04", "Authenticated decryption accepts exactly untampered input",
     "For both AEAD ciphers, decryption of an encrypted message with the same key, nonce and associated data succeeds and gives the message back. If any bit of the ciphertext, tag, nonce or associated data differs, decryption reports an error and leaves the buffer exactly as it was.",
     ["inputs"], "all keys, nonces, messages, associated data and all modifications",
     "every single-bit change at every length cannot be enumerated by tests; a comparison that skips a tag byte passes them",
     ["crylib/src/aead.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs"],
     [("tag comparison before decryption", "crylib/src/aead.rs")], ["encrypt_inline, decrypt_inline"], "other", ["cry"], ["ccaead@decrypt|encrypt|poly_auth", "gcm@decrypt|encrypt|g_hash|xor_bit_stream", "aeadimp"],
     "for both ciphers: decryption accepts exactly when the given tag equals, in all sixteen bytes, the tag of the given ciphertext, nonce and associated data; on success the plain text is the stream applied to the ciphertext (which undoes encryption), on failure the buffer is as it was; the contract the TLS part uses of the two ciphers follows. ",
     "that a modified input has a different tag (it does except with the negligible probability the cipher is designed for)")

prop("T01", "Every protected record is sealed under the right key and a fresh sequence number",
     "Within one traffic key the k-th record sealed and the k-th record opened use the initialization vector combined with the number k in the last eight bytes, so no nonce is ever used twice under a key, and the counter restarts at zero when a new key is installed. A record that fails to open is reported as a failed authentication, and opened data is what the peer sealed.",
     ["histories", "inputs"], "all sequences of records, all keys, initialization vectors and sequence numbers",
     "nonce reuse shows up only over long histories and at particular counter values; tests exchange a few records",
     ["src/aead.rs", "src/record/write.rs", "src/record/read.rs"],
     [("nonce construction and counters", "src/aead.rs")], ["wire bytes of records"], "other", ["hook", "api"], ["rec@TlsAead|ManyAead|RecordLayer::protect|RecordLayer::deprotect|RecordLayer::finish$", "aeadimp"],
     "TlsAead::new, encrypt_inline, decrypt_inline (nonce = initialization vector combined with the counter in the last eight bytes, counter advanced by exactly one, direction and algorithm kept; the ciphers it calls are proved to be AES-128-GCM and ChaCha20-Poly1305 under the key given to their constructor, and opening with the key, nonce and data of sealing to give the message back), and the record layer's protect, finish and deprotect, which seal record k of a call with number start + k and open with the read number; for every key, counter and record (a counter that would pass 2^64 - 1 panics by design, taken as not returning). ",
     'long histories over the compiled code.',
     hook="access to the traffic-key state", state=[("sequence counters", "number of records sealed/opened under the key", "src/aead.rs")])

prop("T02", "Written data is framed into well-formed records without loss, gain or reordering",
     "Whatever sizes the application writes and however many bytes each transport write accepts, the peer receives a sequence of records whose contents concatenate to exactly the written bytes in order, each with at most 2^14 bytes of content, the right outer type, version and length field. Protected records carry the true content type inside and are authenticated with their own header.",
     ["histories", "inputs", "fault_sequences"], "all message sizes, contents and partial-write patterns of the transport",
     "split points, record-size boundaries and partial transport writes multiply; tests write one short message",
     ["src/record/write.rs", "src/record.rs", "src/lib.rs"], [("record buffer, splitting, resumption of partial writes", "src/record/write.rs")],
     ["bytes handed to the transport"], "other", ["hook", "api"], ["rec@RecordLayer::(write|finish|encode_len|set_msg_type|protect|close|abort|new|reset)|WriteBuf|TurtlsIo::write|ContentType|ProtocolVersion|AlertMsg"],
     'the whole write side of the record layer (write_record, encode_len, finish_raw, finish, protect, write_raw, write, abort_write, close_raw, close): the bytes accepted by the transport followed by the bytes still buffered equal, for every message, every pattern of partial writes and every number of resumptions, the records of the specification. ',
     'that the callbacks of the user accept what they say they accept (their documented contract).', hook="access to the record layer")

prop("T03", "Incoming records are parsed exactly, whatever the transport delivers",
     "However the transport splits the byte stream, the received content is exactly what the peer's records carry, in order, with padding removed and the inner type taken from the last non-zero byte. Records that are too long, of unknown type, unprotected after protection began, or all padding are rejected with the alert the protocol assigns, and nothing outside the record buffer is read or written.",
     ["inputs", "histories", "fault_sequences"], "all byte streams from the peer and all ways the transport delivers them",
     "an attacker chooses the bytes and the network chooses the split points; tests feed a few well-formed records",
     ["src/record/read.rs", "src/record.rs", "src/aead.rs"], [("header parsing, length checks, padding removal", "src/record/read.rs")],
     ["received data and returned errors"], "other", ["hook", "api"], ["rec@RecordLayer::(get|deprotect|read_|discard|msg_type|new|reset)|ReadBuf|TurtlsIo::read|ReadStatus", "hsm@handshake_client"],
     'the whole read side of the record layer (get_raw, get, deprotect, read_remaining, read_raw, discard): for every byte stream and every way the transport splits it, the record delivered is the next non-empty record of the stream, with its length and type checks, its padding removed and the inner type taken from the last non-zero byte; every index is in bounds. get_raw is proved partially correct: an endless stream of empty records keeps it reading. handshake_client answers every rejection with the alert of the rejection. ',
     'termination of get_raw when a peer sends empty records for ever; that the callbacks of the user deliver what they say they deliver.', hook="access to the record layer")

prop("T04", "Handshake messages are reassembled exactly; the transcript covers just them",
     "For every way handshake messages are fragmented over or packed into records, each message is delivered once, complete and in order, and the transcript hash covers exactly the bytes of the handshake messages sent and received. A handshake message that is interrupted by another record type, or whose length exceeds the limit, is rejected.",
     ["inputs", "histories"], "all fragmentations and coalescings of handshake messages",
     "fragmentation patterns are chosen by the peer; tests use one message per record",
     ["src/handshake.rs", "src/record/read.rs", "src/state.rs"], [("handshake buffer, transcript", "src/handshake.rs")],
     ["delivered messages, transcript hash, Finished verification"], "other", ["hook", "api"], ["hs@ShakeBuf|ShakeType|ReadStatus", "hsm@handshake_client"],
     "all of ShakeBuf (start, push, extend_from_slice, grow, data, encode_len, get_shake_record, read_inner, read_raw, read, write_raw, write): the handshake content of the record stream is cut into messages without loss, repetition or reordering for every fragmentation and every interruption, a message over the limit or interrupted by another record type is never delivered, and the transcript takes in exactly the message's bytes. handshake_client: the messages are taken in the order ClientHello, ServerHello, EncryptedExtensions, Certificate, any other type is answered with unexpected_message, and the transcript goes on with exactly each message, over every run and every number of interruptions. ",
     "the messages after Certificate, which turtls does not implement (a trusted contract: the standard library's todo! does not return).", hook="access to the handshake reader")

prop("T05", "Traffic secrets and keys follow the TLS 1.3 key schedule",
     "For every shared secret and transcript, the handshake secret, the handshake traffic secrets, and the record keys and initialization vectors of both directions equal the TLS 1.3 key schedule over the negotiated cipher suite's hash. Labels, contexts and output lengths are encoded as the standard says for all sizes.",
     ["inputs"], "all shared secrets, transcripts, labels, contexts and lengths",
     "tests pin one handshake trace; other suites, lengths and labels are not covered",
     ["src/key_schedule.rs", "src/aead.rs", "src/state.rs", "src/handshake.rs"], [("HkdfLabel encoding, derive_secret", "src/key_schedule.rs")],
     ["keys in use on the wire"], "other", ["hook", "api"], ["tlskeys@hkdf_expand_label|derive_secret|TlsAead::new|expand|extract|Hmac|lemma", "hel@shake_aead|secp256r1_shared_secret", "hsm@handshake_client|turtls_connect"],
     'handshake_client and turtls_connect (the first secret is the one of a handshake without pre-shared key, the keys installed are made from the transcript up to the ServerHello and stay), TlsAead::shake_aead (the handshake secret, both handshake traffic secrets over the transcript and both directions\' keys), hkdf_expand_label and derive_secret (label, context and length encoding for every label and context within their one-byte length fields), TlsAead::new (key and initialization vector of both directions from the two traffic secrets for each suite) and HKDF, HMAC and SHA-256 below them. ',
     'the Finished value and the secrets after the handshake (not implemented in turtls).', hook="access to the key schedule", lean=["Primes", "Curve"], assumptions=[LEANP, LEANA, LEANO])

prop("T06", "The ClientHello sent is well-formed and says exactly what the configuration asks",
     "For every supported configuration (cipher suites, groups, signature algorithms, versions, server name and application protocols whose encodings fit their length fields) the bytes sent as ClientHello decode as a TLS 1.3 ClientHello in which every length field matches its contents. It offers exactly the configured values, a fresh random and session identifier, and key shares that belong to the offered groups.",
     ["configurations", "inputs"], "all configurations within the stated limits",
     "the configuration space is a product of bit sets and strings; tests build one or two",
     ["src/client_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/app_proto.rs", "src/extensions/server_name.rs", "src/extensions/sig_algs.rs", "src/extensions/versions.rs", "src/cipher_suites.rs"],
     [("length computation and field writers", "src/client_hello.rs"), ("extension encoders", "src/extensions.rs")],
     ["first record sent"], "other", ["api"], ["chel", "hsm@GroupKeys::generate|ShakeState::new|handshake_client"],
     "client_hello_client with every extension writer and length function (server name, signature algorithms, supported versions, groups, key share, application protocols, cipher suites): for every configuration whose strings fit, the message written is byte for byte the ClientHello of the specification, every length field is that of its contents, the public key share is that of the private key held, and the offer kept for checking the ServerHello is the one written. GroupKeys::generate and ShakeState::new: the private key is the 32 bytes of the generator reduced by the order, never zero; handshake_client sends exactly the ClientHello made. ",
     "that getrandom is fresh at each connection, and the pointer-to-string conversion of the C interface.", lean=["Primes", "Curve"], assumptions=[LEANP, LEANA, LEANO])

prop("T07", "Peer messages are parsed totally: well-formed accepted, malformed rejected",
     "For every byte string a peer can send in place of a ServerHello, EncryptedExtensions or Certificate message, processing terminates without a crash or out-of-bounds access, and either accepts a well-formed message or fails with the alert the standard assigns. Lists whose lengths do not match, truncated or trailing bytes in a message are rejected.",
     ["inputs"], "all byte strings in each message position",
     "the input space is chosen by an attacker; tests feed a few valid messages",
     ["src/server_hello.rs", "src/extensions.rs", "src/certificates.rs", "src/certificates/x509.rs", "src/certificates/der.rs", "src/extensions/key_share.rs"],
     [("bounds-checked iterators over lists", "src/extensions.rs")], ["connect result and alert sent"], "other", ["hook", "api"], ["cert@CertIter|parse_certificate", "hel@ExtIter|parse_ser|parse_ser_hel_exts|server_hello_client|parse_app_proto_client|parse_encrypted_extensions|parse_singular|secp256r1_shared_secret", "hsm@handshake_client"],
     "the ServerHello message: server_hello_client, parse_ser_hel_exts, ExtIter, the supported_versions and key_share parsers and the shared secret below them; EncryptedExtensions: parse_encrypted_extensions and parse_app_proto_client; for every byte string the result is that of the structure written out as a specification (server_hello_res, ee_res), with the alert of each failure. The Certificate message: CertIter and parse_certificate, with DerIter and validate_cert below them, for every byte string. handshake_client: the message of each state is judged by the structure of its type, and a refusal ends the handshake with the alert of the refusal. ",
     "termination when the transport never ends (a peer may send records without content for ever).",
     hook="access to the parsers", lean=["Primes", "Curve"], assumptions=[LEANP, LEANA, LEANO])

prop("T08", "Negotiation only ever accepts what this client offered",
     "A handshake proceeds only if the server selected TLS 1.3, a cipher suite, a group and (null) compression this client offered, echoed the session identifier, and sent a valid key share on the curve. Any other selection ends the handshake with an illegal-parameter, missing-extension or protocol-version alert as the standard assigns.",
     ["inputs", "configurations"], "all configurations and all server selections",
     "downgrade and mismatch cases are combinations of configuration and peer bytes that tests do not enumerate",
     ["src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/cipher_suites.rs", "src/extensions/versions.rs"],
     [("checks against the offered sets", "src/server_hello.rs")], ["connect result and alert sent"], "other", ["hook", "api"], ["hel@parse_ser|parse_ser_hel_exts|server_hello_client|parse_singular|secp256r1_shared_secret|ExtIter", "hsm@ShakeState::new|handshake_client|turtls_connect"],
     "server_hello_client with everything it calls, for every message and every offer; lemma_only_offered derives from the contract that acceptance implies TLS 1.3, an offered suite and group, null compression, the empty session identifier that was sent and a point of the curve as key share. ShakeState::new and handshake_client: the offer the answer is checked against is the one of the configuration the ClientHello was made from, and the alert of a refusal is the alert sent and reported. ",
     "that the configuration is not changed by the caller between two calls of one handshake.",
     hook="access to the parsers", lean=["Primes", "Curve"], assumptions=[LEANP, LEANA, LEANO])

prop("T09", "Certificate and DER parsing extract exactly the encoded fields",
     "For every well-formed DER certificate the parser extracts exactly the encoded algorithm identifiers, names, validity, public key and signature, and a certificate is accepted for use only if its structure is the X.509 structure. Malformed encodings (wrong tags, lengths past the end, missing or trailing elements) are rejected, never misread.",
     ["inputs"], "all byte strings offered as a certificate",
     "nested length fields chosen by a peer; the tests parse one fixed certificate",
     ["src/certificates/der.rs", "src/certificates/x509.rs", "src/certificates.rs"], [("DER iterator, field extraction", "src/certificates/der.rs")],
     ["certificate validation result"], "other", ["hook", "api"], ["cert@DerIter|der_|parse_sig|parse_tbs|validate_"],
     "DerIter (tag, length and contents of every element, for all lengths of up to four length octets and every out-of-range length), parse_sig_int, parse_signature, parse_sig_alg, validate_time, parse_tbs_cert and validate_cert: for every byte string the outcome is that of the structure written out as a specification. ",
     "use of the extracted key and signature by the rest of the handshake (not implemented in turtls yet).", hook="access to the parsers")

prop("T10", "Alerts are mapped and reported exactly",
     "Every alert code maps to its own name and back, an alert received from the peer is reported as that alert, and a closure is told apart from an error. When a connection fails locally, exactly one alert is sent and it is the one reported to the caller, protected once protection has begun.",
     ["inputs", "histories"], "all alert bytes at every point of a connection",
     "256 codes times every point in the connection; tests check none of the wire behaviour",
     ["src/alert.rs", "src/error.rs", "src/record/read.rs", "src/lib.rs"], [("code conversion, reporting", "src/alert.rs")],
     ["returned error, alert bytes on the wire"], "other", ["hook", "api"], ["rec@TurtlsAlert|AlertMsg|FullError|RecordLayer::close|RecordLayer::check_alert", "hsm@handshake_client|turtls_connect|turtls_close|turtls_get"],
     "alert code conversion for all 256 codes, FullError's constructors, the alert message encoding, close and close_raw (exactly one alert record, after the rest of an interrupted record, under the key in use), and check_alert. handshake_client: over every run, the error reported is the one that ended it; when it is a failure of this side exactly that alert is sent and the transport closed once, under the traffic key once there is one, and otherwise nothing is sent; turtls_connect passes the outcome on and turtls_close sends one close_notify. ",
     'the names given by turtls_stringify_alert (evaluated on the compiled code for all codes).', hook="access to the record layer")

prop("T11", "An interrupted connection resumes exactly, and a reused one starts fresh",
     "If the transport reports that it would block at any point of a handshake, read or write, repeating the call later continues as if there had been no interruption: the same bytes are sent and the same data delivered. After a failure or close, starting a new connection with the same object behaves like a fresh one.",
     ["fault_sequences", "histories"], "all points of interruption and all sequences of connections on one object",
     "there is one interruption point per transported byte; tests have none",
     ["src/lib.rs", "src/handshake.rs", "src/record/read.rs", "src/record/write.rs", "src/state.rs"], [("saved progress in the record buffers and the state", "src/record.rs")],
     ["bytes on the wire, delivered data, results"], "other", ["hook", "api"], ["rec@RecordLayer|WriteBuf|ReadBuf|ReadStatus|TurtlsIo", "hsm@handshake_client|turtls_connect|turtls_close|ShakeState::new|TurtlsConn::new"],
     'the record layer: after every would-block result the buffered progress satisfies the same invariant, the call made again continues the same record (conservation law over accepted and pending bytes; reading continues at the saved offset), and new and reset establish the fresh state. handshake_client and turtls_connect: an interruption leaves a state of the same invariant from which every run continues the run so far, only would-block results keep the state, and a connection without a state starts from buffers, transcript, secret and protocol name as of a new object. ',
     'that two runs over differently interrupted transports are the same step by step follows from the step relation, which does not mention the interruptions, except for the parts of a record that are already read.', hook="access to the record layer")
