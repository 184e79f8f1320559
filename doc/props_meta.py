#!/usr/bin/env python3
"""fills level/technique/design/level_note of props/*/prop.json (run before gen_design.py, gen_manifest.py)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'contract-based deductive verification (Verus/z3) of functions extracted from /repo on every run; bounded contract evaluation on the compiled code for assembly/intrinsics leaves and for failing inputs'
TB = 'contracts evaluated on the compiled code against an independent specification (bounded; no deductive unit)'
STD = 'Driver: '
M = {
'C01': ('proof', '''Unit `aes_gcm` proves `AesGcm::{new, encrypt, decrypt}`, `cipher`, GHASH absorption (`Ghash::{new, add, into_bytes}` call protocol), length block, counter block and
tag handling equal the SP 800-38D definition `gcm_ct`/`gcm_tag` written over abstract `aes(key, block)` and `gmul(x, h)`, for every length of additional data and text; `blockwise` proves the
buffering used by the portable paths. Driver: every length 0..~700 plus boundaries for wide kernels, AAD/plaintext splits, all CPU feature variants, against a bit-level GCM.''',
'AES block function, GF(2^128) multiplication and the fused AVX CTR+GHASH kernels (intrinsics) are contracts checked by the driver only.'),
'C02': ('proof', '''Unit `poly1305` proves the 26-bit-limb arithmetic of `Poly1305` equals evaluation modulo 2^130-5 for every key and message (limb bounds as type invariant, final
conditional subtraction included) and that buffering does not depend on chunking. Unit `chacha20poly1305` proves both AEADs' construction: one-time key, padding, length block, counter start, HChaCha20
derivation and inversion, over the contract of the block function. Driver: all lengths, wrap-around accumulators, RFC and draft vectors, feature variants.''',
'the ChaCha20 block function and its AVX2/AVX-512 kernels are contracts checked by the driver only.'),
'C03': ('proof', '''Postconditions of `decrypt` in `aes_gcm` and `chacha20poly1305`: `Ok` iff the presented tag is 16 bytes long and equals the recomputed tag (both functions of key, nonce, aad, ciphertext),
and on `Err` every byte of the buffer is zero. `ct_equal` is proved to be equality of the byte strings for every pair of lengths. Driver: single bit flips of each input, tags of every length 0..40, buffer scan after failure.''',
'the property speaks about inputs whose recomputed tag differs; that tags of distinct inputs differ is the cryptographic assumption.'),
'C04': ('proof', '''Unit `sha2`: the four contexts and one-shot functions satisfy `models(view)`: the context represents the concatenation of everything absorbed, `finish` returns FIPS 180-4 padding and
digest (`sha256_spec`, `sha512_spec` over the block compression) for every chunking (`Blockwise` invariant), `clone` gives an equal view, bit length exact below 2^61 bytes. Unit `sha2_core` proves the portable
compression equals FIPS 180-4. Unit `tls_hash`: the rustls adapters (`start`, `hash`, `update`, `fork`, `fork_finish`, `finish`) return that digest of everything absorbed. Driver: splits, clones, SHA-NI and portable kernels.''',
'the SHA-NI and s2n assembly compression functions are contracts checked by the driver only.'),
'C05': ('proof', '''Unit `sha3`: sponge absorb/pad/squeeze of SHA3-224..512 and SHAKE128/256 equal FIPS 202's sponge over the contract of Keccak-f[1600] for every absorb and every squeeze pattern
(view = bytes absorbed, squeeze position). Driver: exhaustive small split/read patterns against an independent Keccak.''',
'Keccak-f[1600] is assembly (contract checked by the driver).'),
'C06': ('proof', '''Unit `hmac` (generic `Hmac<H>`, any hash satisfying the hash trait contract): key longer than, equal to, shorter than a block; `finish` = RFC 2104; `verify` is `Ok` iff the tag equals the full output
(`ct_equal`). `sha2` proves that the library's hashes satisfy the trait contract. Unit `tls_hmac`: the rustls adapter's `sign_concat` is the HMAC of first || middle.. || last under the given key. Driver: key lengths 0..2 blocks+, truncated/extended tags, chunkings.''',
'-'),
'C07': ('proof', '''Unit `asn1` proves every `Parser`/`Encoder` primitive and each `asn1_struct!`-style expanded type (SPKI, PKCS#8 v1/v2, SEC1, PKCS#1, ECDSA-Sig; macro expansion is taken from rustc on every run): no panic, decode `Ok` iff the
bytes equal the encoding of the result (`enc(x) == input`), so acceptance is exactly strict DER and injective. Driver: mutation of every key format through every importer.''',
'high-level importers for RSA call sites not under contract are covered by the driver; inputs below 64 KiB (the decoder rejects longer ones).'),
'C08': ('proof', '''Unit `asn1`: `encode` writes `enc(x)` at the start and reports its exact length or errors when the buffer is short; with C07 every exported structure decodes to itself. Unit `posint_b`: RSA integers to minimal bytes. Unit `rsa_der`: RSA public keys to PKCS#1 and SubjectPublicKeyInfo, and back, for every modulus size.
Unit `rsa_keys`: RSA private keys to PKCS#1 and PKCS#8 and back (`encode_components` fills every component from the right field; the stack buffer always suffices; an error exactly when the output is shorter; one encoding per key and one key per encoding). Units `ec_keys`, `ed_keys`: EC private keys to SEC1 and PKCS#8, Ed25519 private keys to PKCS#8, EC and Ed25519 public keys to SubjectPublicKeyInfo, each equal to the specified byte string, an error exactly when the buffer is shorter, and accepted by the importer as one key only (`lemma_sec1_one`, `lemma_p8_one`). Driver: all formats times buffer sizes around the exact length.''',
'`rsa_der` and `rsa_keys` restate the contracts of `PosInt`, `RsaPublicKey` and `RsaPrivateKey::new` (units `posint_b`, `rsa`), `ec_keys` and `ed_keys` those of the curve and Ed25519 key types (units `p256`, `p384`, `ed25519`).'),
'C09': ('proof', '''Unit `ec_keys`: `PrivateKey::from_sec1_der` (ECDSA/ECDH) accepts iff the bytes are the strict encoding of an ECPrivateKey with version 1, matching curve, scalar in [1, n-1] of the exact width, and an embedded public key equal to the derived one;
`to_sec1_der_detail` writes that encoding; `from_pkcs8_der` accepts iff the bytes are the strict encoding of a PKCS#8 key with id-ecPublicKey, the curve's OID as parameter, such an ECPrivateKey inside, and an embedded public key (if any) equal to the derived one. Unit `ed_keys`: the same for Ed25519 PKCS#8 and SubjectPublicKeyInfo. Unit `rsa_keys`: RSA PKCS#1 and PKCS#8 private keys are accepted iff they strictly encode, with version 0, eight non-negative integers that `RsaPrivateKey::new` accepts (PKCS#8: rsaEncryption with NULL parameters and, if a public key is embedded, the matching one). Units `p256`/`p384` prove `Scalar::from_bytes_checked`, key construction and derived keys. Unit `asn1` covers PKCS#8 structures. Driver: boundary scalars, wrong OIDs/versions/lengths, mismatching public keys, for every curve and format.''',
'the key types of `ec_keys`, `ed_keys` and `rsa_keys` are restated contracts (units `p256`, `p384`, `ed25519`, `rsa`, `posint_b`).'),
'C10': ('proof', '''Units `p256`, `p384`: `AffineMontPoint::from_x962_uncompressed`/`on_curve` accept iff prefix 0x04, both coordinates < p and y² = x³ - 3x + b (proved through the Montgomery representation), and `as_bytes_uncompressed` returns the same bytes. `util`: byte/limb conversion.
Driver: non-canonical coordinates, twist points, prefixes, lengths.''',
'Montgomery field leaves (s2n-bignum assembly) are contracts checked by the driver; primality of p is an axiom.'),
'C11': ('proof', '''Units `p256`, `p384`: Booth recoding (`to_booth` windows), table lookups, the double/add loop with its exceptional cases and the result conversion give `scalar * P` in the curve group; `diffie_hellman` returns its x-coordinate big-endian; `public_key` is `d * G`. Driver: extreme and structured
scalars, points whose window sums coincide, small multiples, both parties agree, base tables compared.''',
'the group law (associativity), primality of p and n, the assembly field/point leaves and the contents of the fixed-base tables are assumed contracts, evaluated by the driver.'),
'C12': ('proof', '''Unit `ecdsa`: `verify`/`verify_asn1` return `Ok` iff the signature splits into r, s of the curve's width (or is the strict DER encoding of such) with r, s in [1, n-1] and the curve `raw_ecdsa_verify` equation holds for the left-truncated digest; `p256`/`p384` prove `raw_ecdsa_verify` is the FIPS 186-5
equation over the group. Driver: altered, non-canonical, overlong, zero and ≥ n values; `u1*G = ±u2*Q` cases.''',
'as C11 for the curve leaves; the hash is a contract (C04).'),
'C13': ('proof', '''Unit `ecdsa`: `HmacDrbg` equals SP 800-90A HMAC_DRBG; `rfc6979_sign_with_random` draws k from a DRBG instantiated with int2octets(d), bits2octets(digest) and the random bytes, in [1, n-1] by rejection; `sign`/`sign_asn1` return a signature that `verify` accepts (`lemma_sign`), of fixed width or minimal DER, in exactly the reported range, or
an error for short buffers. `p256`/`p384` prove `raw_ecdsa_sign` and sign⇒verify (`lemma_ecdsa`), `hmac` the MAC. Driver: signatures verified independently, nonce recomputed from the recorded randomness, buffer sizes.''',
'that distinct DRBG inputs give distinct nonces is the cryptographic assumption; `assert!` on the reseed counter is modelled as a precondition of reaching the next statement.'),
'C14': ('proof', '''Unit `x25519`: `diffie_hellman` is `Err` iff the 32 result bytes are all zero, else exactly them; clamping and peer decoding are handed to the function under contract `curve25519_x25519` = RFC 7748. Driver: low-order and non-canonical peers, top bit, RFC iteration vectors, both kernels (BMI2/ADX and not).''',
'the Montgomery ladder is assembly: its contract is evaluated by the driver.'),
'C15': ('proof', '''Unit `ed25519`: signing computes r, k, S per RFC 8032 (little-endian reductions of SHA-512 outputs), verification accepts iff s < L, the key decoded at import and the encoded R' equals R; import is `Err` for undecodable encodings. Unit `ed_keys`: PKCS#8 and SubjectPublicKeyInfo import/export of Ed25519 keys. Driver: s+L, non-canonical points, small order, RFC vectors.''',
'point decode, double-scalar multiplication and scalar reduction are assembly contracts evaluated by the driver.'),
'C16': ('proof', '''Unit `pkcs1`: EMSA-PKCS1-v1_5 encoding compared byte for byte, EMSA-PSS verify proved equal to `pss_ok` (RFC 8017 9.1.2, salt length = hash length, every padding byte). Units `rsa`, `rsa_hi`: `public_op` is exact modular exponentiation over the `posint` contracts; verification requires length = modulus length and value < n.
Driver: single-byte alterations at each position, lengths, PSS/PKCS1 for each hash.''',
'known finding: PSS with a modulus bit length not a multiple of 8 (see section 3).'),
'C17': ('proof', '''Unit `rsa`: CRT `private_op` returns x with x^e = m mod n or an error (fault check), for consistent keys always the former; `rsa_hi`: signing length and padding. Unit `rsa_gen`: candidate primes come from the random source with exactly the requested size (top two bits set), odd, and are returned only after the small-factor and Miller-Rabin tests passed; a failed draw is an error. Driver: odd key shapes (p<q, unequal primes, 2041..2048+ bits), generated keys (size, p ≠ q, e = 65537, d/dp/dq/qinv relations).''',
'`generate_key` (n, d, dp, dq, qinv from p and q) and `miller_rabin` itself are evaluated by the driver only; primality of generated primes is probabilistic (Miller-Rabin); known finding as C16.'),
'C18': ('proof', '''Units `posint`, `posint_b`: `PosInt` operations (add, sub, shift, compare, multiply, square, reduce, Montgomery conversion, inversion, exponentiation windows, bytes) equal the operations on `nat`, for every width, with fully reduced results. Driver: edge-biased operands against an independent bignum.''',
'the bignum_* primitives are assembly (contracts evaluated by the driver).'),
'C19': ('proof', '''Unit `mlkem768`: K-PKE and ML-KEM.KeyGen/Encaps/Decaps internal functions equal FIPS 203 (encoding, decoding, re-encryption, implicit rejection by constant-time select) over contracts of NTT/sampling leaves; `mlkem_codec` proves bit packing and compression. Driver: independent FIPS 203 implementation, every byte of the ciphertext altered.''',
'NTT, inverse NTT, base multiplication and SampleNTT are assembly contracts, evaluated by the driver.'),
'C20': ('proof', '''Units `mlkem_codec`, `mlkem768`: encapsulation-key import is `Ok` iff every 12-bit coefficient < 3329, `as_bytes` of the result is the input, and `encaps` is total on accepted keys. Driver: each coefficient position at 3328/3329/4095, lengths.''',
'as C19.'),
'C21': ('proof', '''Unit `erase`: the `Drop` of every owner of secrets (both ChaCha AEAD keys, `SecretPosInt`, Ed25519 and X25519 private keys and shared secrets, P-256/P-384 scalars and shared secrets, ML-KEM decapsulation key, message and secret, RSA word
constants, RSA component buffer) leaves every secret field zero. Driver: values are created in memory owned by the harness, dropped in place, and the bytes scanned for every secret; `zeroise` for all sizes and alignments with canaries around.''',
'the store loop of `zeroise` (assembly), `AesKey`/`GhashTable` (intrinsics types) and that compiled drop glue runs the field destructors are evaluated by the driver; `SecretPosInt` is proved under the invariant that words above `used` are zero; copies on the stack are out of scope.'),
'C22': ('exploration', '''Units `sha2_core` (the portable SHA-256/512 compression functions equal FIPS 180-4, constants from the cube roots of the primes) and `poly1305`: portable kernels equal the definition that the accelerated ones are compared with. Driver: each operation's result is compared over all feature masks
(debug build honouring `GRAVIOLA_CPU_DISABLE_*`), and portable kernels are called directly.''',
'bounded for the assembly/intrinsics kernels and for dispatch.'),
'C23': ('proof', '''Unit `tls_aead`: every function of `aead.rs` over stub declarations of the rustls types. `encrypt` yields exactly the record of RFC 8446 / 5288 / 7905 for this key, IV, sequence number, type and version (nonce, additional data, inner content type, explicit nonce, tag);
`decrypt` returns the plaintext of a record exactly when it is a sealing under this key, nonce and additional data, and an error otherwise, for records of every length, without panicking; oversize TLS 1.2 plaintexts are refused; constructors, `key_block_shape` and `extract_keys` use and return exactly the given key and IV; lemmas: nonces of different sequence numbers differ, the salt is kept.
Unit `tls_suites`: every offered suite carries the AEAD, key length, hash, HMAC, key exchange and signature family its registered name says, and an AES-GCM record limit within RFC 8446's. Units `chacha20poly1305`, `aes_gcm`: the AEADs. Driver (`tls/`): encrypters/decrypters for every suite against an independent record-layer implementation; sequence numbers to 2^64-1, content types, lengths 0..2^14+, altered/truncated/cross-keyed records.''',
'rustls functions (`Nonce::new`, `make_tls12_aad`, `make_tls13_aad`, payload buffers, unpadding) enter by assumed contracts and are evaluated by the driver; the `&mut` payload of rustls is a value here; outgoing payloads are at most 2^31-1 bytes.'),
'C24': ('proof', '''Units `ticketer` (the real `XChaCha20Ticketer`: a ticket is key name || fresh nonce || XChaCha20-Poly1305(key, nonce, AAD = key name) and nothing else; `decrypt` returns `Some(p)` only for a ticket that is exactly a sealing of a non-empty `p` under this key and key name,
`None` otherwise, and refuses only non-tickets or lengths above the recorded maximum, which `encrypt` raises first; lemma: decrypting an encryption returns the message) and `chacha20poly1305` (the AEAD itself). Driver (`tls/`): round trip, each-byte alteration, truncation, extension, foreign tickets, over-long and empty.''',
'that a load after `fetch_max(n)` sees at least n is the atomic type\'s contract; the rustls `TicketRotator` wiring is evaluated by the driver; unforgeability is the standard AEAD assumption.'),
'C25': ('proof', '''Unit `kx`: the real `start`/`complete`/`start_and_complete` of X25519, P-256, P-384, ML-KEM-768 and the hybrid group, over stub declarations of the rustls traits: each side returns exactly the group's standard secret as a function of its private value and the peer's share
(hybrid: ML-KEM secret first, then X25519, split at the standard offsets of each direction), and every share of a wrong length or an invalid value is `Err(InvalidKeyShare)`. Driver (`tls/`): both sides of every group against the standard secret computed independently; share lengths and invalid shares.''',
'the key agreements enter through the contracts proved under C11, C14, C19; the rustls traits are stub declarations (signatures only).'),
'C26': ('proof', '''Unit `tls_sig`: in `sign.rs`, `choose_scheme` picks a scheme only from the offered ones and only one this key supports, and `sign` produces the signature of exactly that scheme (padding, hash, curve) over the message; in `verify.rs`, each static names the algorithm its identifiers say, and `verify_signature`
accepts exactly when the key parses as that algorithm's key and the signature is valid for exactly that scheme. `load_private_key` yields the key the encoding holds, as the type it is, exactly when one of the supported formats parses; the `ALGORITHMS` table maps each scheme only to verifiers computing it (for TLS 1.3, the curve of the scheme first). Driver (`tls/`): scheme x key matrix: signatures verified by an independent implementation for exactly that scheme; offered-scheme subsets; cross-algorithm verification.''',
'RSA/ECDSA/Ed25519 enter through the contracts proved under C12, C13, C15-C17; rustls traits and key containers are stub declarations, `Arc<dyn SigningKey>` the enum of the four key types, the statics in the table are named by an enum.'),
'C28': ('proof', '''Units `x25519`, `ed25519`, `mlkem768`, `p256`, `p384`: the random source is a ghost-traced trait; generators draw exactly the needed bytes, the result is the function of those bytes (with rejection of out-of-range scalars in order), and a failed draw returns `Err`. Unit `rng`: `SystemRandom`, `graviola::random::fill` and the rustls adapter fill the whole buffer or return an error. Unit `ticketer`: ticket keys, key names and nonces are drawn. Driver: replacing source that records and fails at every call; no constant results.''',
'the `getrandom` crate (a successful fill is operating system randomness) is an assumed contract; `ticketer` restates the contract of `random::fill` (unit `rng`).'),
}
for p, (lv, d, n) in M.items():
    f = f'{V}/props/{p}/prop.json'; c = json.load(open(f))
    c['level'] = lv; c['technique'] = TV if c.get('verus') else TB; c['design'] = ' '.join(d.split())
    if n != '-': c['level_note'] = n
    elif 'level_note' in c: del c['level_note']
    if lv == 'proof' and n == '-': c['level_note'] = 'no function-specific assumption beyond the std wrappers listed in trusted_base'
    json.dump(c, open(f, 'w'), indent=1); open(f, 'a').write('\n')
