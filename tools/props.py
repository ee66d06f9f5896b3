SM2_NOTE = "Decides the stated formula on every return path of the current SSA for all inputs, in a term domain; trusts math/big, crypto/elliptic's generic curve arithmetic, cryptobyte and crypto/rand as documented, and the SM3 implementation (C08, C09). The group law itself and timing are not decided."

P7_NOTE = "The DER codec, SM3, certificate parsing and SM2 signing/verification are operations of their own here (decided by C03, C04, C08 and C19 or trusted); lists are taken apart up to a small length and no decision may depend on their length beyond it."
X_NOTE = "Decides every return path against a decision tree of required conditions (success implies all of them, all of them imply success); the standard library's primitives (RSA, ECDSA, Ed25519, hashes, DER decoding) are uninterpreted functions of their arguments and SM2 verification is decided by C02."
prop("C01", "SM2 verification accepts exactly the signatures of the standard",
 "For every SM2 public key, message (or 32-byte-style digest), user id and candidate signature, each verification entry point accepts exactly when r and s lie in [1, n-1], (r+s) mod n is not zero and (e + x1) mod n equals r with (x1,y1) = s*G + (r+s)*Q. The encoded forms accept only one DER SEQUENCE of two INTEGERs with nothing missing and nothing trailing. All eight entry points agree, and an empty user id means the default id.",
 ["inputs"], "all public keys on the SM2 curve, all byte strings as message, id and signature, all integers r, s (negative, zero, huge included)",
 "The tests verify a handful of signatures they have just made; no forged, out-of-range, negative, trailing-byte or mismatched signature is ever tried, and the set of inputs is unbounded.",
 ["sm2/sm2.go"], [("range checks, t != 0, point recomputation", "sm2/sm2.go: VerifyDigestRS"), ("strict DER parsing", "sm2/sm2.go: UnmarshalSign"), ("digest", "sm2/sm2.go: SM3Digest")],
 ["boolean result of every Verify* function and method"], note=SM2_NOTE)
prop("C02", "The SM2 message digest binds the user id, the curve and the public key",
 "The digest that is signed and verified is SM3(Z || message) with Z = SM3(bit length of id on 2 bytes || id || a || b || xG || yG || xQ || yQ), every field element on exactly 32 bytes. The default id is used exactly when none is given, and an id whose bit length does not fit 16 bits is refused.",
 ["inputs"], "all ids, messages and keys, including coordinates with leading zero bytes and ids of any length",
 "Coordinates with leading zero bytes occur in 1 of 128 keys and long ids never in the tests; a wrong width or order still verifies against itself.",
 ["sm2/sm2.go"], [("digest construction", "sm2/sm2.go: PublicKey.SM3Digest")], ["returned digest and error"], note=SM2_NOTE)
prop("C03", "SM2 signing yields standard signatures with a fresh full-range nonce",
 "Every signature returned is r = (e + x1) mod n, s = (1+d)^-1 (k - r d) mod n for one nonce k drawn for that signature from the caller's randomness uniformly over the permitted range, with r, s, r+k and s re-drawn when they are zero in the forbidden cases. No signature is returned when the randomness fails or the key is unusable, and all signing entry points agree.",
 ["inputs", "fault_sequences"], "all private keys, messages, ids, and all behaviours of the randomness source including short reads and errors",
 "Tests see a few random nonces that always succeed; nonce bias, reuse, wrong reductions with probability 2^-32 and failing randomness cannot be sampled.",
 ["sm2/sm2.go"], [("nonce generation", "sm2/sm2.go: randFieldElement"), ("signature equation and retry conditions", "sm2/sm2.go: SignDigestRS")],
 ["returned r, s, DER bytes and error", "bytes taken from the randomness source"], note=SM2_NOTE)
prop("C04", "SM2 encryption produces the standard ciphertext for every message",
 "Encrypting message M to public key Q with fresh nonce k returns 04 || x1 || y1 || SM3(x2 || M || y2) || (M xor KDF(x2 || y2)) with 32-byte coordinates, where (x1,y1) = kG and (x2,y2) = kQ and KDF is the counter-mode SM3 key derivation of the standard. It terminates for the empty message and returns an error instead of a ciphertext when the randomness fails.",
 ["inputs", "fault_sequences"], "all public keys, messages of every length, all behaviours of the randomness source",
 "Round-trip tests pass for any key stream the decryptor shares; leading-zero coordinates, empty and long messages and failing randomness are not sampled.",
 ["sm2/sm2.go"], [("encryption", "sm2/sm2.go: Encryt"), ("key derivation", "sm2/sm2.go: kdf")], ["returned ciphertext and error"], note=SM2_NOTE)
prop("C05", "SM2 decryption is the inverse of encryption and authenticates before release",
 "Decrypting a well-formed ciphertext 04 || C1 || C3 || C2 with the matching private key returns exactly the message that was encrypted, under the same layout and key derivation. If the input is too short, C1 is not a point of the curve, or the recomputed hash differs from C3, it returns an error and no plaintext, and no input makes it panic.",
 ["inputs"], "all byte strings as ciphertext and all private keys",
 "Tests decrypt only what they have just encrypted; tampered, truncated and off-curve inputs are unbounded in number.",
 ["sm2/sm2.go"], [("point validation and hash check", "sm2/sm2.go: Decrypt")], ["returned plaintext and error"], note=SM2_NOTE)
prop("C06", "The SM2 curve and its keys are the standard's",
 "The published curve has exactly the parameters of GB/T 32918.5, generated keys have a private scalar uniform over the permitted range drawn from the caller's randomness and the public point d*G, and generation fails when the randomness fails. Key equality holds exactly for equal curve and components, and the public half handed out is the key's own.",
 ["inputs", "fault_sequences"], "all randomness behaviours and all pairs of keys",
 "A wrong constant that still forms a group, or a biased scalar, passes every round-trip test.",
 ["sm2/sm2.go"], [("curve constants", "sm2/sm2.go: initP256"), ("key generation", "sm2/sm2.go: GenerateKey"), ("Equal, Public", "sm2/sm2.go")],
 ["curve parameters, generated keys, equality results"], note=SM2_NOTE)
prop("C07", "SM2 signatures are encoded and decoded as strict DER",
 "Encoding (r, s) yields SEQUENCE{INTEGER r, INTEGER s} for every pair of integers, and decoding returns exactly the two integers of such a SEQUENCE and fails on anything else, including trailing bytes inside or outside the SEQUENCE. Decoding inverts encoding.",
 ["inputs"], "all integers and all byte strings",
 "The malleable and malformed encodings are unbounded; tests decode only their own output.",
 ["sm2/sm2.go"], [("encoder", "sm2/sm2.go: MarshalSign"), ("decoder", "sm2/sm2.go: UnmarshalSign")], ["encoded bytes, decoded integers, error"], note=SM2_NOTE)
SM3_NOTE = "Decides equality of terms for all states and all input lengths: the compression function is compared with the standard's formula in a bitwise normal form, the streaming interface by an inductive invariant over Write. Trusts math/bits and encoding/binary as documented."
prop("C08", "SM3 uses the standard's initial value and compression function",
 "For every chaining value and every 64-byte block, the compression step computes exactly the function of GB/T 32905 (message expansion, 64 rounds, both Boolean function pairs, constants and feed-forward), applied to consecutive blocks in order. A new or reset hash starts from the standard's initial value.",
 ["inputs"], "all 2^256 chaining values and all blocks",
 "The one stable test hashes one short string; an error in a Boolean function, rotation or constant that does not show on those blocks stays unseen.",
 ["sm3/sm3.go"], [("compression", "sm3/sm3.go: block"), ("initial value", "sm3/sm3.go: Reset")], ["digests returned by Sum"],
 state=[("chaining words", "256-bit state after the blocks so far", "sm3/sm3.go: digest.h")], note=SM3_NOTE)
prop("C09", "SM3 streaming: any chunking of any message gives the same padded digest",
 "However a message is split over Write calls, Sum returns the SM3 digest of the concatenation (padding 80 00.. and 64-bit bit length), appends it to its argument and leaves the running state unchanged; the one-shot function agrees. Write consumes all input and never fails, Reset returns to the empty message, sizes are 32 and 64 bytes, and no input modifies the caller's data or panics.",
 ["inputs", "histories"], "all histories of Write, Sum and Reset with chunks of every length",
 "Tests write one buffer once; block-boundary interactions between fill level and chunk length (64 x unbounded) are not enumerated.",
 ["sm3/sm3.go"], [("buffering", "sm3/sm3.go: digest.Write"), ("padding", "sm3/sm3.go: digest.checkSum"), ("copy before finishing", "sm3/sm3.go: digest.Sum")],
 ["Write results, Sum results"], state=[("buffer and fill level", "bytes not yet compressed", "sm3/sm3.go: digest.x, digest.nx"), ("length", "bytes written so far", "sm3/sm3.go: digest.len")], note=SM3_NOTE)
prop("C15", "The RC2 cipher of pkcs12 is RFC 2268 for every key and effective key length",
 "New accepts exactly keys of 1 to 128 bytes with an effective length of 1 to 1024 bits and returns an error for everything else. For an accepted key the cipher value holds the expanded key of RFC 2268, Encrypt and Decrypt are the RFC's block operations for every block (also in place) and write nothing but the destination, and the block size is 8.",
 ["inputs"], "all key bytes, key lengths and effective key lengths, all blocks",
 "There is no stable test of RC2 at all, and a slip in the key expansion for one length pair leaves all other lengths (and every round trip) right.",
 ["pkcs12/rc2.go"], [("key expansion", "pkcs12/rc2.go: expandKey"), ("block operations", "pkcs12/rc2.go: Encrypt, Decrypt")], ["cipher blocks and error of New"],
 note="Acceptance is decided for all lengths; the key expansion for all key bytes of each length 1..128 at the usual effective length and of a grid of other effective lengths (all 1024 for 16-byte keys in the thorough tier); the block operations for all schedules and blocks. Destination buffers of exactly one block.")
prop("C23", "What is issued is signed as emitted, with the algorithm it names",
 "For every signer key type (RSA, ECDSA on P-224/256/384/521, SM2, Ed25519) and requested signature algorithm, CreateCertificate, CreateCertificateRequest, CreateRevocationList and CreateCRL sign exactly once, with the given randomness, and the signature emitted is over exactly the DER encoding of the emitted to-be-signed part: its digest under the algorithm's hash, or the encoding itself for Ed25519 and SM2; the options passed name that hash and, for RSA-PSS, a salt of its length. Both algorithm identifiers are that of the algorithm requested, or the key's default (SHA-256 for RSA, P-224 and P-256, SHA-384 for P-384, SHA-512 for P-521, SM3 for SM2), with NULL parameters for RSA, the matching PSS parameters, and none otherwise; an algorithm of another key type or an unknown one, another curve or key type is refused. A certificate has version 3, the template's serial number, times (UTC) and extensions, issuer and subject from the raw names if given, the key given, the parent's key identifier as authority key identifier unless self-issued, the SHA-1 of the key as subject key identifier of a CA without one; except for MD5 and SHA-1 algorithms its signature has been verified with the signer's public key; it is refused without serial number, with a path length for a non-CA, or if the key is not the parent's. Requests have the subject and the signer's key and, if no attributes are given, exactly the requested extensions, if any. Lists name the issuer, all revoked certificates in order with UTC times, the given update times, and the key identifier, number and extra extensions; CreateRevocationList is refused without number, key identifier or CRL-signing usage, or with times in the wrong order. Nothing else is refused (encoding does not fail).",
 ["inputs"], "all templates, parents, keys, lists and signers, per key type and requested algorithm",
 "Of some hundred combinations of key type, algorithm and function the tests use a handful, and a signature over something else than what is emitted shows only when another party verifies it.",
 ["x509/x509.go"], [("certificates", "x509/x509.go: CreateCertificate, signingParamsForPublicKey, marshalPublicKey, subjectBytes"), ("requests", "x509/x509.go: CreateCertificateRequest"), ("lists", "x509/x509.go: CreateCRL, CreateRevocationList")], ["bytes returned; calls of the signer's Sign"], note=X_NOTE)
prop("C25", "PKCS #7 verification succeeds only if every signer's SM2 signature is valid",
 "PKCS7.Verify succeeds exactly when there is at least one signer and for every signer: if it has authenticated attributes, the first message-digest attribute is a well-formed octet string equal to the SM3 digest of the content, and the signed bytes are the DER SET OF contents of all its authenticated attributes; else the signed bytes are the content; some certificate has the signer's serial number and raw issuer, and the signature is a valid SM2-with-SM3 signature of the signed bytes by the key of the first such certificate. GetOnlySigner returns the first certificate matching the only signer, and nil if there is none or the number of signers is not one.",
 ["inputs"], "all messages; decided for each combination of up to 3 signers, 4 attributes and 3 certificates with arbitrary contents, and no decision depends on counts or positions beyond that",
 "Which signer, attribute or certificate fails is the attacker's choice; the tests verify messages the library made with one signer.",
 ["x509/pkcs7.go"], [("verification", "x509/pkcs7.go: PKCS7.Verify, verifySignature, getCertFromCertsByIssuerAndSerial")], ["error of Verify, result of GetOnlySigner"], note=P7_NOTE)
prop("C26", "Created PKCS #7 signed data is complete and verifiable",
 "NewSignedData and NewSignedDataCallBack return a SignedData of version 1 holding exactly: the data as content (type 1.2.156.10197.6.1.4.2.1), the digest algorithm SM3, the given certificate, and one signer named by the certificate's raw issuer and serial number whose signed attributes are the content type, the SM3 digest of the data and the present time, in DER order; its signature is over the DER SET OF contents of exactly these attributes, made once, by sm2.Sign with the key (default identity, randomness of crypto/rand) or by the callback. They fail only if the key is not an SM2 key or signing fails.",
 ["inputs"], "all certificates, keys, data and callbacks, for every order the encodings of the attributes can have",
 "The order of the attributes depends on the encodings; a signature over anything else than the embedded attributes shows only in other implementations.",
 ["x509/pkcs7.go"], [("creation", "x509/pkcs7.go: NewSignedData, NewSignedDataCallBack, getSignerInfoWithAttr, attributes.ForMarshaling")], ["bytes returned"], note=P7_NOTE)
prop("C36", "ParsePKCS7 returns what the message says and rejects malformed ones",
 "ParsePKCS7 succeeds exactly when the input is one DER ContentInfo of type GM signed data with nothing after it, its content begins with a well-formed SignedData, the certificate field, if present, parses as certificates, and the encapsulated content, if present, is a DER element (if constructed, containing an octet string). The result's Content is that element's bytes (the inner octet string if constructed; empty if absent), and its Certificates, CRLs and Signers are all those of the message in order.",
 ["inputs"], "all byte strings",
 "The shapes of malformed messages are unbounded; the tests parse one good one.",
 ["x509/pkcs7.go"], [("parsing", "x509/pkcs7.go: ParsePKCS7, parseSignedData, rawCertificates.Parse")], ["error and result of ParsePKCS7"], note=P7_NOTE)
prop("C27", "Key parsers accept exactly the well-formed keys, with their values",
 "For every input: ParseECPrivateKey succeeds exactly on a SEC 1 ECPrivateKey of version 1 that names P-224, P-256, P-384, P-521 or SM2 and has a scalar 1 <= k < n (leading zero bytes allowed), and returns *ecdsa.PrivateKey (or *sm2.PrivateKey for SM2) with that curve, D = k and the point k*G. ParsePKCS8PrivateKey succeeds exactly on a PrivateKeyInfo with an RSA key ParsePKCS1PrivateKey takes, such an EC key (the curve named in the parameters, if they begin with an object identifier, takes precedence over one in the key), or a 32-byte Ed25519 seed without parameters. ParsePKCS1PrivateKey succeeds exactly on one DER RSAPrivateKey of version at most 1 with positive N, D, primes and additional primes for which rsa.Validate succeeds, and returns those numbers and primes in order, precomputed; ParsePKCS1PublicKey exactly on one DER RSAPublicKey with positive N and 0 < E < 2^31. ParsePKIXPublicKey succeeds exactly on one DER SubjectPublicKeyInfo with an RSA key (NULL parameters, positive N and E), a point of one of these curves, a 32-byte Ed25519 key without parameters or a DSA key with positive Y, P, Q and G, and returns exactly these values. They never panic.",
 ["inputs"], "all byte strings, for each of the five parsers",
 "Scalars at the order, padded scalars, contradictory curve names and odd parameters are single points of an unbounded input space; a test parses one key per type.",
 ["x509/sec1.go", "x509/pkcs8.go", "x509/pkcs1.go", "x509/parser.go", "x509/x509.go"], [("EC", "x509/sec1.go: parseECPrivateKey"), ("PKCS #8", "x509/pkcs8.go: ParsePKCS8PrivateKey"), ("RSA", "x509/pkcs1.go: ParsePKCS1PrivateKey, ParsePKCS1PublicKey"), ("public keys", "x509/x509.go: ParsePKIXPublicKey; x509/parser.go: parsePublicKey")], ["error and key returned"], note=X_NOTE)
prop("C28", "Key writers emit exactly the standard structure of the key given",
 "For every valid key (RSA with at least two primes; EC keys with 0 <= D < n on P-224, P-256, P-384, P-521 or SM2, as ecdsa or sm2 keys; Ed25519), MarshalPKCS1PrivateKey, MarshalPKCS1PublicKey, MarshalECPrivateKey (ecdsa keys), MarshalPKCS8PrivateKey and MarshalPKIXPublicKey succeed without panic and return the DER encoding of the standard structure holding exactly this key: version, algorithm and parameters (RSA: NULL, EC: the curve's object identifier, Ed25519: none), the EC scalar on exactly as many bytes as the order of the curve, the uncompressed point as the public key with all its bits, the numbers, primes, CRT values and additional primes of RSA keys in order (version 1 exactly if there are more than two primes), the 32-byte Ed25519 seed. An EC key on another curve, and a key of another type, is always refused with an error.",
 ["inputs"], "all keys of the five writers, per key type and curve",
 "A scalar with leading zero bytes occurs in one key of 256; multi-prime keys and curves other than the tested one never.",
 ["x509/sec1.go", "x509/pkcs8.go", "x509/pkcs1.go", "x509/x509.go"], [("EC", "x509/sec1.go: marshalECPrivateKeyWithOID, marshalSM2PrivateKeyWithOID"), ("PKCS #8", "x509/pkcs8.go: MarshalPKCS8PrivateKey"), ("RSA", "x509/pkcs1.go: MarshalPKCS1PrivateKey"), ("public keys", "x509/x509.go: marshalPublicKey, MarshalPKIXPublicKey, oidFromNamedCurve")], ["bytes and error returned"], note=X_NOTE)
prop("C29", "A failure of any step makes the whole operation fail",
 "In every function of the module, when a called operation fails (it returns a non-nil error, or a DER reader or number parser returns false), every way on from there ends in a non-nil error of the caller (or a false result, or an empty one where the caller has nothing else), never in a normal result. Errors that are constructed are used, and package-level error values are never nil. The only tolerated failures are those documented as fallbacks (two date formats, request attributes of foreign form, unnamed PKCS #8 curves, the second spelling of the empty password).",
 ["fault_sequences", "inputs"], "every call in the module that can fail, every path on which it does, in any combination",
 "Most failures (randomness, readers, malformed DER at a particular depth) never occur in the tests; dropping one check changes nothing they observe.",
 ["pkcs12/pkcs12.go", "pkcs12/safebags.go", "x509/x509.go", "x509/parser.go", "x509/pkcs7.go", "sm2/sm2.go"], [("error returns", "every package")], ["error results of all exported functions"],
 technique="path-sensitive typestate analysis of failing calls over the control-flow graph (SSA)",
 note="Decides that failures propagate, for each call site on all paths; that the callee reports its own failure is the same property one level down. Library calls documented never to fail (hash writes, bytes.Buffer) are exempt, and so is DER encoding of types that cannot fail.")
prop("C31", "Operations have no effect besides their results",
 "No function of the module terminates the process, prints or logs, reads the environment (variables, time zone, certificate stores) or the network, starts goroutines or waits; the clock is read only by NewSignedData and NewSignedDataCallBack, for the signing time; randomness comes only from crypto/rand or the reader passed in. Files are touched only by SM2P12Encrypt (writing) and SM2P12Decrypt (reading).",
 ["inputs", "histories"], "all functions reachable from exported ones and all their inputs",
 "A print or an exit on a rare branch, or a weak randomness source, is invisible to tests that compare results.",
 ["sm2/sm2.go", "sm3/sm3.go", "x509/x509.go", "x509/parser.go", "pkcs12/pkcs12.go"], [("all function bodies", "every package")], ["process, file system and terminal"],
 technique="effect analysis over the call graph against a table of library effects",
 note="Every call and go statement in the module is classified by callee; calls through caller-supplied interfaces and functions are the caller's.")
prop("C32", "Package state is never written after initialisation",
 "After package initialisation no function of the module writes a package-level variable or memory reachable from one, so calls are independent of one another, of their order and of other goroutines. Hash registration happens from initialisers only; sm2's curve is initialised under sync.Once.",
 ["schedules", "histories"], "all interleavings and histories of calls",
 "Shared scratch state shows only under concurrency or particular call sequences that single-threaded tests do not make.",
 ["sm2/sm2.go", "sm3/sm3.go", "x509/x509.go", "pkcs12/pkcs12.go"], [("package variables", "every package")], ["results of repeated and concurrent calls"],
 technique="interprocedural write-effect (root) analysis over SSA",
 note="Conservative in aliasing inside the module; library functions are summarised by a table (unknown ones are reported). The precomputation an rsa key caches in itself is not package state.")
prop("C33", "Functions do not modify the caller's inputs",
 "No exported function writes memory reachable from its arguments, other than what it exists to fill: the receiver of a hash or internal accumulator, the slice Sum appends to, the destination of a block operation and the target of UnmarshalSignedAttribute.",
 ["inputs", "histories"], "all arguments of all exported functions, including shared and aliased slices and keys",
 "Tests never look at an argument again after the call; in-place reversal, sorting, padding or normalisation corrupts only later uses.",
 ["sm2/sm2.go", "sm3/sm3.go", "x509/x509.go", "x509/pkcs7.go", "pkcs12/pkcs12.go"], [("stores through arguments", "every exported function")], ["argument memory after the call"],
 technique="interprocedural write-effect (root) analysis over SSA",
 note="A write counts if any store, copy, append within capacity or library call reachable from the function may hit memory reachable from the argument. Random sources and hash objects passed in are consumed by design.")
P12_NOTE = "Decides every return path against a decision tree of required conditions (success implies all of them, all of them imply success) and the returned terms; DER decoding, SHA-1, HMAC, 3DES and CBC of the standard library are uninterpreted functions, RC2 and key derivation are decided by C15 and C11. "
prop("C10", "PKCS#12: the password MAC is verified before any content is used",
 "Bags are taken from a PKCS#12 file only if it is exactly one version-3 PFX with a data-type AuthenticatedSafe and its HMAC-SHA1, under the key derived from the password and the file's MAC salt and iteration count (purpose 3), equals the file's digest; a password of the empty string may also match in its zero-length spelling. The bags returned are then those of exactly two safes in order, each a plain octet string or version-0 encrypted data decrypted with the password that matched. A file fulfilling all this is accepted; any other yields an error and no bags, and a MAC mismatch yields ErrIncorrectPassword.",
 ["inputs"], "all byte strings and passwords",
 "No stable test reads a PKCS#12 file; tampered, truncated and re-ordered files are unbounded in number.",
 ["pkcs12/pkcs12.go", "pkcs12/mac.go"], [("MAC check, safes", "pkcs12/pkcs12.go: getSafeContents"), ("MAC", "pkcs12/mac.go: verifyMac, computeMac")], ["bags, password and error handed to Decode, DecodeAll, ToPEM"], note=P12_NOTE)
prop("C11", "PKCS#12 key derivation is that of RFC 7292 appendix B.2",
 "For every salt, password, purpose byte and iteration count of at least 1, the derivation yields the first 5, 8, 20 or 24 bytes (the sizes in use) of the RFC's A_1 || A_2 with SHA-1: diversifier, salt and password repeated to whole 64-byte blocks, the hash iterated exactly count times, and every block of I replaced by I_j + B + 1 mod 2^512 for the next round. It never panics, whatever the iteration count in the file, and is only called with SHA-1 and its sizes.",
 ["inputs"], "all salts, passwords and iteration counts of any length or size",
 "A carry out of a block or a sum with leading zero bytes occurs for few salts; a test vector or two will not meet them, and round trips agree with a wrong derivation.",
 ["pkcs12/pbkdf.go"], [("derivation", "pkcs12/pbkdf.go: pbkdf, fillWithRepeats")], ["keys, IVs and MAC keys"],
 note="Decides equality of terms with the RFC formula, including loop summaries for the iterated hash and the block-wise addition, for all lengths and iteration counts; SHA-1 is an uninterpreted function.")
prop("C12", "PKCS#12 encryption is CBC with checked padding under the derived key",
 "For the 3DES and 40-bit RC2 algorithm identifiers, encryption pads with 1 to 8 bytes of their own count and encrypts in CBC mode under key (purpose 1) and IV (purpose 2) derived from the password and the parameters; decryption inverts that and succeeds exactly if the parameters are well formed, the data is a non-empty whole number of blocks and all padding bytes are right, failing otherwise (wrong padding with ErrDecryption) without returning data. Other algorithm identifiers fail.",
 ["inputs"], "all data, passwords, parameters and padding bytes",
 "Wrong padding, empty data and partial blocks are attacker inputs the tests do not contain.",
 ["pkcs12/crypto.go"], [("decryption", "pkcs12/crypto.go: pbDecrypt"), ("encryption", "pkcs12/crypto.go: pbEncrypt"), ("cipher choice", "pkcs12/crypto.go: pbeCipherFor")], ["plaintext, ciphertext and error"], note=P12_NOTE)

prop("C13", "A PKCS#12 file that is built holds the given key and certificates, protected",
 "Encode succeeds exactly when the password is in the Basic Multilingual Plane, the key and the ASN.1 structures can be encoded and random bytes can be read, and then returns a version 3 PFX with two safes: first all certificates in order (the given one, carrying the SHA-1 fingerprint of its DER as local key id, then every CA certificate without attributes), encrypted with 40-bit RC2; second one shrouded key bag with the PKCS#8 encoding of the key encrypted with triple DES and the same local key id. Each of the two encryptions and the HMAC-SHA1 over the encoded safes uses the zero-terminated UCS-2 password and its own salt of at least 8 random bytes; encryption iterates at least 1000 times. On failure it returns an error and no data.",
 ["inputs"], "all keys, certificates, CA lists of any length and passwords",
 "The structure must be right for every number of CA certificates and every key type; the tests never build a PFX with CA certificates and compare it.",
 ["pkcs12/pkcs12.go", "pkcs12/safebags.go", "pkcs12/mac.go"], [("encoder", "pkcs12/pkcs12.go: Encode"), ("safe contents", "pkcs12/pkcs12.go: makeSafeContents"), ("key bag", "pkcs12/safebags.go: encodePkcs8ShroudedKeyBag")], ["encoded file and error"], note=P12_NOTE + " The PKCS#8 encoder is left uninterpreted.")

prop("C16", "PKCS#12 strings are encoded and decoded as big-endian UCS-2",
 "bmpString encodes each character of a string as two big-endian bytes followed by a two-byte zero terminator, and fails exactly if a character is above U+FFFF; decodeBMPString fails exactly for an odd number of bytes, removes one two-byte zero terminator at the end if there is one, and decodes all other byte pairs in order.",
 ["inputs"], "all strings and byte sequences",
 "Characters outside the plane, missing and repeated terminators and odd lengths are special inputs.",
 ["pkcs12/bmp-string.go"], [("encoder", "pkcs12/bmp-string.go: bmpString"), ("decoder", "pkcs12/bmp-string.go: decodeBMPString")], ["bytes, string and error"])

prop("C14", "PKCS#12 readers return every certificate in order and exactly one key",
 "DecodeAll succeeds exactly when the password is in the Basic Multilingual Plane, the safes open under it, every certificate bag holds an X.509 certificate value that parses to exactly one certificate, there is at least one certificate bag and exactly one shrouded key bag, and that key bag decrypts under the password that opened the safes; it then returns that key and the certificates of all certificate bags in bag order, whatever their number, ignoring other bags. Decode is the same with exactly one certificate bag and its certificate. On failure neither returns a key or certificate.",
 ["inputs"], "all safe contents, numbers and orders of bags",
 "The number, order and kinds of bags in a file are unbounded; no stable test reads a PKCS#12 file.",
 ["pkcs12/pkcs12.go", "pkcs12/safebags.go"], [("readers", "pkcs12/pkcs12.go: DecodeAll, Decode"), ("bags", "pkcs12/safebags.go: decodeCertBag, decodePkcs8ShroudedKeyBag")], ["key, certificates and error"], note=P12_NOTE + " Bag loops are decided for 0 to 3 symbolic bags (4 in the thorough tier); for longer lists a uniformity check shows that no decision depends on the number or position of bags beyond that.")
prop("C17", "PKCS#12 to PEM conversion converts every bag or fails",
 "ToPEM succeeds exactly when the safes open under the password and every bag, of whatever number, converts: certificate bags give CERTIFICATE blocks with the certificate bytes, shrouded key bags decrypted under the password that opened the safes give PRIVATE KEY blocks (PKCS#1 for RSA, SEC 1 for ECDSA), every other bag, key or attribute is an error. Blocks are in bag order, each with its own headers: friendlyName and Microsoft CSP Name decoded as BMP strings, localKeyId in lower-case hex, a later attribute replacing an earlier one. On failure no blocks are returned.",
 ["inputs"], "all safe contents, bags, attributes, their numbers and orders",
 "Bags with several attributes, repeated attributes or unknown kinds are not in the tests.",
 ["pkcs12/pkcs12.go"], [("conversion", "pkcs12/pkcs12.go: ToPEM, convertBag, convertAttribute")], ["PEM blocks and error"], note=P12_NOTE + " Decided for up to two bags with up to two attributes each (three in the thorough tier), with the uniformity check for longer lists.")
prop("C34", "PKCS#12 files of SM2 keys are written whole and read back checked",
 "SM2P12Encrypt writes exactly the PKCS#12 encoding of the given key and certificate under the given password to the named file, only after encoding succeeded, and reports success exactly when encoding and writing both succeeded. SM2P12Decrypt succeeds exactly when the file can be read, DecodeAll reads it under the password and the key is an RSA key or an SM2 key whose curve is SM2P256V1 and whose point is on it; it then returns the file's first certificate and that same key (curve, point and private number). On failure it returns nothing else.",
 ["inputs", "fault_sequences"], "all keys, certificates, passwords, file names, file contents and I/O failures",
 "Keys on other curves or off the curve and failing writes do not occur in tests.",
 ["pkcs12/pkcs12.go"], [("writing", "pkcs12/pkcs12.go: SM2P12Encrypt"), ("reading", "pkcs12/pkcs12.go: SM2P12Decrypt")], ["file, certificate, key and error"], note="Decides every return path of both functions against a decision tree; Encode, DecodeAll (decided by C13 and C14) and the file system are uninterpreted operations that may fail. That the write itself is atomic is not claimed.")
prop("C18", "Signature algorithm identifiers select exactly the right algorithm",
 "Checking the signature of a certificate revocation list succeeds exactly when the list's algorithm identifier names a verifiable algorithm and the list's raw bytes carry a valid signature (right-aligned bit string) of the certificate's key under that algorithm. Identification is that of RFC 3279, 4055, 5758, 8410 and GM/T 0006 for the RSA, RSA-PSS, ECDSA, Ed25519 (without parameters) and SM2-with-SM3 identifiers; RSA-PSS is recognised only with MGF1 of the same hash (SHA-256, 384 or 512), NULL or absent hash parameters, a salt as long as the hash and the default trailer.",
 ["inputs"], "all algorithm identifiers with all parameters, lists and signatures",
 "Identifiers with unusual parameters are chosen by an attacker; the tests contain one or two well-formed ones.",
 ["x509/x509.go"], [("identification", "x509/x509.go: getSignatureAlgorithmFromAI, signatureAlgorithmDetails"), ("list signature", "x509/x509.go: Certificate.CheckCRLSignature")], ["error"], note=X_NOTE)
prop("C19", "A signature is accepted only under its algorithm, hash and key type",
 "Certificate.CheckSignature succeeds exactly when the algorithm is a supported one (RSA with SHA-256/384/512 in PKCS#1 v1.5 or PSS with salt length equal to the hash, ECDSA with SHA-256/384/512, Ed25519, SM2 with SM3), the public key is of that algorithm's type (an SM2 key on SM2P256V1) and the signature is valid over exactly the given bytes, hashed once with that algorithm's hash (Ed25519 and SM2 take the message itself, SM2 with the default user identifier). MD5, SHA-1, DSA and unknown algorithms are never accepted.",
 ["inputs"], "all algorithms, keys, messages and signatures",
 "Mismatched algorithm, hash and key combinations number in the hundreds and are what an attacker supplies; tests use matching ones.",
 ["x509/x509.go"], [("verification", "x509/x509.go: checkSignature")], ["error of CheckSignature"], note=X_NOTE)
prop("C20", "Certificates and requests are verified over their raw bytes by a fit signer",
 "CheckSignatureFrom succeeds exactly when the parent may sign certificates (a version 3 parent has basic constraints; if it has them it is a CA; a stated key usage includes certificate signing; its key algorithm is known) and the child's raw to-be-signed bytes carry a valid signature of the parent's key under the child's algorithm. CertificateRequest.CheckSignature succeeds exactly when the request's raw to-be-signed bytes carry a valid signature of its own key under its algorithm.",
 ["inputs"], "all certificates, parents and requests",
 "Combinations of version, constraints, usage bits and algorithms are far more than the tests contain.",
 ["x509/x509.go"], [("parent check", "x509/x509.go: CheckSignatureFrom"), ("request check", "x509/x509.go: CertificateRequest.CheckSignature")], ["error"], note=X_NOTE)
prop("C22", "Hash identifiers name the right hash functions",
 "Every Hash identifier that exists in package crypto has the same value there; identifiers are distinct and non-zero; Size is the digest size of the named function; for MD5, SHA-1, SHA-2, SHA-3, RIPEMD-160 and SM3 the function is available after initialisation and New returns a fresh object computing exactly that function. For every identifier, also one that names nothing, Available holds exactly if New does not panic. RegisterHash of an identifier makes New return what the registered function returns, whatever was registered before, and changes no other identifier; it panics for an unknown identifier.",
 ["histories"], "all identifiers, after package initialisation",
 "One wrong line of the tables affects one identifier that no test uses, and RSA signatures pass the value on to package crypto.",
 ["x509/x509.go"], [("identifiers", "x509/x509.go: Hash, digestSizes, init")], ["Hash.Size, Hash.New, Hash.Available"], note="Decided for every identifier by abstract interpretation of package initialisation and the methods; the library's hash constructors are trusted to compute what they are named after.")
prop("C21", "Certificates parse exactly if well-formed, into the values they encode",
 "ParseCertificate succeeds exactly when the input is one DER Certificate with nothing after it: version 1 to 3, an integer serial number, the inner and outer signature algorithm identifiers equal byte for byte, names that are SEQUENCEs of SETs of type and string (T61String, PrintableString with '*' and '&', UTF8String, BMPString, IA5String, NumericString, each with permitted characters only), both times as canonical UTCTime or GeneralizedTime, a public key as ParsePKIXPublicKey takes it or of an unknown algorithm, a signature, from version 2 optional unique identifiers, and in version 3 optionally a SEQUENCE of extensions, each an identifier, an optional flag and an OCTET STRING, that are acceptable to the extension interpreter. Then Raw, RawTBSCertificate, RawIssuer, RawSubject, RawSubjectPublicKeyInfo, Signature, SignatureAlgorithm, Version, SerialNumber, Issuer, Subject, NotBefore, NotAfter (a UTCTime year from 50 on is 19xx), PublicKeyAlgorithm, PublicKey and Extensions (in order) are exactly those encoded. ParseCertificates takes a concatenation of such certificates and returns them in order. Fields of the body after those known are ignored. Neither panics.",
 ["inputs"], "all byte strings (certificates of up to two extensions, names of up to two attributes and up to three certificates in one input: arbitrary contents)",
 "Which byte is malformed is the attacker's choice: a mismatch of the two algorithm identifiers, a version that wraps around, a non-canonical time or trailing bytes occur in no fixture.",
 ["x509/parser.go"], [("structure", "x509/parser.go: parseCertificate, ParseCertificate, ParseCertificates, parseExtension, parseAI"), ("names", "x509/parser.go: parseName, parseASN1String"), ("times", "x509/parser.go: parseValidity")], ["error and fields of the certificate returned"],
 note="The DER primitives of cryptobyte, time.Parse, utf8.Valid and FillFromRDNSequence are taken by their contracts. Lists are decided per length up to the bound (extensions 2, thorough 3; attributes and RDNs 2; certificates 3, thorough 5), with arbitrary elements.")
prop("C24", "Certificate extensions are interpreted exactly, unknown critical ones recorded",
 "For every certificate whose extensions are given, the interpretation of the extensions (part of ParseCertificate) succeeds exactly if each known one is well-formed, sets exactly the fields it defines, and leaves every other field of the certificate alone: key usage (bits 0 to 8), basic constraints (CA flag false and path length -1 by default; MaxPathLenZero exactly for 0), subject alternative names (DNS, mail and URI names are IA5Strings, a URI parses and has a valid domain as host if any; addresses have 4 or 16 bytes; other kinds are skipped), name constraints (nothing after the subtrees, at least one subtree; DNS, mail, URI and address constraints, in permitted and excluded lists apart; an address is 4+4 or 16+16 bytes with a mask of ones followed by zeros; the critical flag is kept), CRL distribution points (all URIs of full names), authority and subject key identifier, extended key usage (known ones by their standard identifiers, the others as identifiers), policy identifiers and authority information access (OCSP and issuer URIs). A critical extension is recorded in UnhandledCriticalExtensions, in order and exactly if it is unknown, has alternative names of unsupported kinds only, or has a name constraint of an unsupported kind.",
 ["inputs"], "all extension values, kinds of general name (all 256 tags), critical flags and identifiers; lists of up to three elements and certificates of up to three extensions",
 "Whether an unsupported critical constraint is noticed depends on combinations of kind, position and flag no fixture has; forgetting one silently widens what a certificate is trusted for.",
 ["x509/parser.go"], [("interpretation", "x509/parser.go: processExtensions and the parse...Extension functions"), ("identifiers", "x509/x509.go: extKeyUsageOIDs")], ["fields of the certificate, error"],
 note="The syntax of domain names (labels) and mailboxes (decided by C39), url.Parse, net.ParseIP and the DER primitives of cryptobyte are taken as given functions of their input. Lists are decided per length up to the bound with arbitrary elements.")

prop("C37", "Certificates and requests carry exactly the extensions the template asks for",
 "For every certificate template, issuing (CreateCertificate) emits exactly the extensions the template asks for, with DER values and critical flags as RFC 5280 defines them, followed by all ExtraExtensions in order and unchanged: key usage if not 0 (critical; the bits asked for, shortest form), extended key usage if any known or unknown one is given (known first, then unknown, in order), basic constraints if BasicConstraintsValid (critical; CA flag only if true; the path length limit only if not absent: 0 means absent unless MaxPathLenZero, -1 is absent), subject and authority key identifiers if not empty, authority information access (OCSP servers, then issuers), subject alternative names (DNS names, mail addresses, IP addresses in 4-byte form where one exists, URIs; critical exactly if the subject is empty), certificate policies, name constraints (permitted [0] and excluded [1] only if not empty, each with DNS names, masked addresses and their masks, mail addresses and URI domains; critical as asked), CRL distribution points. An extension is left out exactly if it is not asked for or an ExtraExtension has its identifier. It is refused exactly if an extended key usage is unknown, or a name (DNS, mail, URI) of the alternative names or constraints is not an IA5String. A certificate request gets the subject alternative names (never critical) and the ExtraExtensions by the same rules and nothing else.",
 ["inputs"], "all 512 key usages, all values of every field; lists of up to two elements, up to two extra extensions, each extension alone, beside an extra extension, and all together",
 "Values depend on combinations of flags and lists (path length 0, an address in 16-byte form, an extra extension with a colliding identifier) no fixture has; a wrong one silently changes what the certificate is good for.",
 ["x509/x509.go"], [("certificate extensions", "x509/x509.go: buildCertExtensions, marshalKeyUsage, marshalExtKeyUsage, marshalBasicConstraints, marshalSANs, marshalCertificatePolicies"), ("request extensions", "x509/x509.go: buildCSRExtensions")], ["extensions of the certificate or request, error"],
 note="encoding/asn1 and cryptobyte are taken to encode what they are given (as DER terms); the string form of a URL and the masking of an address are given functions. Lists are decided per length up to the bound with arbitrary elements.")

prop("C38", "Certificate requests and revocation lists parse exactly if well-formed",
 "ParseCertificateRequest succeeds exactly when the input is one DER CertificationRequest with nothing after it, its public key is well-formed for its algorithm (or of an unknown algorithm), its subject is one well-formed name, the first value of every extension-request attribute is a well-formed extension list, and the alternative names of every subjectAltName extension in them are well-formed. The result's raw fields, version, subject, key, key and signature algorithm and signature are those encoded; Attributes holds the attributes that parse as sets of type-value pairs, in order; Extensions all requested extensions of all such attributes, in order; attributes of other forms are skipped; DNSNames, EmailAddresses, IPAddresses and URIs are those of the (last) subjectAltName extension, empty without one. ParseDERCRL succeeds exactly when its input is one DER CertificateList with nothing after it, and returns it; ParseCRL does the same for the contents of the PEM block of type X509 CRL if the input begins with one, else for the input itself.",
 ["inputs"], "all byte strings; requests of up to two attributes, two requested extensions and three alternative names",
 "The space of malformed and of unusual requests is unbounded; a request parsed into other values than those signed gets a certificate issued for them.",
 ["x509/x509.go"], [("requests", "x509/x509.go: ParseCertificateRequest, parseCertificateRequest, parseRawAttributes, parseCSRExtensions"), ("lists", "x509/x509.go: ParseCRL, ParseDERCRL")], ["fields of the request or list, error"],
 note="encoding/asn1, encoding/pem and url.Parse are taken as given functions of their input; key, algorithm identifier and name syntax are decided by C18, C21 and C27.")

prop("C30", "Decoding and verifying untrusted bytes never panics",
 "No byte string makes one of the operations that read bytes of unknown origin panic: no index or slice bound, nil dereference, failed type assertion, division by zero, negative size, or violated precondition of a library primitive (block and initialisation-vector sizes, buffer widths) is reachable from the key, certificate, request, revocation-list, PKCS #7 and PKCS #12 parsers, from the signature checks on parsed objects, or from SM2 decryption and signature verification. Every function of the module reachable from one of them is analysed, and every instruction in it that could panic is an obligation.",
 ["inputs"], "all byte strings (and passwords) given to the decoders, and all objects they return given to the signature checks",
 "A panic hides at one malformed length or one missing element; a test tries a handful of malformed inputs, the space of them is unbounded.",
 ["x509/parser.go", "x509/x509.go", "x509/pkcs7.go", "x509/pkcs1.go", "x509/pkcs8.go", "x509/sec1.go", "pkcs12/pkcs12.go", "pkcs12/crypto.go", "pkcs12/bmp-string.go", "pkcs12/rc2.go", "sm2/sm2.go"],
 [("parsers", "x509: Parse*; pkcs12: Decode, DecodeAll, ToPEM, SM2P12Decrypt"), ("checks", "x509: CheckSignature, CheckSignatureFrom, CheckCRLSignature, PKCS7.Verify; sm2: Verify*, Decryt")], ["absence of a run-time panic"],
 technique="abstract interpretation of every function reachable from a decoder; each instruction that can panic is an obligation discharged from the path's linear facts",
 note="The standard library is taken not to panic for arguments that meet the modelled preconditions; lists are unrolled up to the bound of the property that analyses the parser.")

prop("C35", "Signed attributes of a parsed PKCS #7 message are looked up and decoded exactly",
 "For every message ParsePKCS7 returns, UnmarshalSignedAttribute decodes into its second argument the contents of the value of the first authenticated attribute of the asked-for type of the first signer, whether or not data follows the first element of the value, and returns the decoding's error, if any; it fails exactly if the message is not signed data, has no signer, its first signer has no such attribute, or the decoding fails. Attributes of other signers, unauthenticated attributes and later attributes of the same type are never used.",
 ["inputs"], "all messages, attribute types and three kinds of result; messages of up to two signers, the first with up to three attributes (thorough: three signers, four attributes)",
 "Which attribute answers depends on position, type and signer, of which the fixtures have one of each; an attribute that was not signed taken for a signed one is a forgery.",
 ["x509/pkcs7.go"], [("lookup", "x509/pkcs7.go: PKCS7.UnmarshalSignedAttribute, unmarshalAttribute"), ("parsed message", "x509/pkcs7.go: ParsePKCS7, parseSignedData")], ["value decoded, error"],
 note="encoding/asn1.Unmarshal is taken as a given function of its input. Lists are decided per length up to the bound with arbitrary elements.")

prop("C39", "Domain names and mail addresses are recognised exactly by their grammar",
 "Where a certificate's extensions hold a domain name (DNS name constraints, hosts of URI names, URI constraints) or a mail address (mail constraints), it is accepted exactly if it follows the grammar. A domain name is empty, or is labels of one or more printable ASCII characters (33 to 126) other than the dot, with one dot between them and none before or after. A mail address is a local part, @, and a domain name. The local part is a quoted string (between quotes, any of the characters 1-8, 11, 12, 14-33, 35-91, 93-127, or a backslash followed by one of 1-9, 11, 12, 14-127; it may be empty), or a non-empty sequence of letters, digits, the characters !#$%&'*+-/=?^_`{|}~. and pairs of a backslash and any byte, in which no dot is first, last or beside another.",
 ["inputs"], "every byte at every place of 23 shapes of names and addresses; every string of up to three bytes (thorough: four); every string of up to five of the characters a . @ \" \\ (thorough: seven; domain names 10 and 14)",
 "A name of unusual shape (an empty label, a quoted pair, two dots) is in no fixture; one accepted by mistake makes a constraint that nothing, or everything, matches.",
 ["x509/parser.go"], [("domain names", "x509/parser.go: domainToReverseLabels"), ("mail addresses", "x509/parser.go: parseRFC2821Mailbox")], ["whether the name is accepted"],
 technique="abstract interpretation of the recognisers on sequences of byte classes (ranges the grammar treats alike), against the grammar",
 note="The string functions of the standard library are taken by their contracts. Where the names stand and how they are used is decided by C24.")

prop("C40", "Algorithms name themselves; certificates are equal exactly if encoded alike",
 "Every hash, signature-algorithm and public-key-algorithm constant of x509 has a value of its own and its String is its standard name (SHA-256, SHA256-RSAPSS, SM2WithSM3, ...); every other value is called by its number (hashes: \"unknown hash value\" and the number), and none panics. Two certificates are Equal exactly if their raw encodings are the same bytes; nil equals only nil.",
 ["inputs"], "every defined value of the three types, the values around and well beyond them; all pairs of certificates, nil included",
 "A name table one entry short, or in another order than the constants, goes wrong for one value only; equality that compares less than the encoding takes a forged certificate for the known one.",
 ["x509/x509.go"], [("names", "x509/x509.go: Hash.String, SignatureAlgorithm.String, PublicKeyAlgorithm.String"), ("equality", "x509/x509.go: Certificate.Equal")], ["string, boolean"],
 note="bytes.Equal, strconv and fmt are taken by their contracts.")

prop("C41", "Every loop ends; nothing calls itself",
 "No input makes the module run for ever: every loop in its functions ends, whatever the bytes, keys, passwords, messages and objects given, except loops that draw fresh random bytes in each round until what they make of them is acceptable, which end with probability one; and no function of the module calls itself, directly or through others.",
 ["inputs"], "all inputs of the operations the other properties cover; loops over lists of bounded length are followed round by round, all others decided for any number of rounds",
 "A loop that makes no progress does so for one kind of element, at one length or position; a test that does not meet it passes, and a service that does hangs.",
 ["x509/parser.go", "x509/x509.go", "x509/pkcs7.go", "x509/pkcs1.go", "x509/pkcs8.go", "x509/sec1.go", "pkcs12/pkcs12.go", "pkcs12/pbkdf.go", "pkcs12/crypto.go", "pkcs12/bmp-string.go", "sm2/sm2.go", "sm3/sm3.go"],
 [("loops", "every loop of the functions the other checks analyse; loops none of them reaches are analysed on their own"), ("recursion", "the call graph of the module")], ["termination"],
 technique="abstract interpretation; for every way back to the head of a loop, either a fact bounds the number of rounds by quantities the loop leaves alone, or one common measure strictly decreases; no cycle in the call graph",
 note="The standard library is taken to return. Time is not bounded: a loop of 2^31 iterations asked for by a file ends.")
