#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the wording lives in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, defs=(), mech=(), obs=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            definitions=[dict(meaning=m, where=w) for m, w in defs],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(obs), hook_needed=hook)))

p("C01", "SHA-256 digest is right for every message",
  "For every byte string, of any length, the library's SHA-256 function returns exactly the FIPS 180-4 SHA-256 digest of that string. It never panics.",
  ["inputs"], "all byte strings (length below 2^61)",
  "The one test hashes three short strings; block boundaries, multi-block chaining, padding spill and the 64-bit length field are quantified over every length and content.",
  ["src/crypto/sha2.rs"], mech=[("padding, message schedule, compression, chaining", "src/crypto/sha2.rs:sha256")], obs=["crypto::sha2::sha256"])

p("C02", "HMAC-SHA256 and the TLS PRF are right for every key, seed and read size",
  "For every key of any length and every message, the HMAC function returns HMAC-SHA256 (RFC 2104). For every secret and seed, the bytes obtained from the PRF by any sequence of reads of any sizes are, concatenated, a prefix of P_SHA256(secret, seed) of RFC 5246: no byte is lost, repeated or reordered between reads. Neither panics.",
  ["inputs", "histories"], "all keys, messages, secrets, seeds, and all sequences of read sizes",
  "Tests use a handful of vectors with keys of at most 64 bytes and two read patterns; the buffering across reads is a history property.",
  ["src/cipher/prf.rs"], mech=[("ipad/opad key block", "src/cipher/prf.rs:hmac_sha256"), ("A(i) chaining and left-over buffer", "src/cipher/prf.rs:Prf")], obs=["cipher::prf::hmac_sha256", "cipher::prf::Prf::get_bytes"])

p("C03", "ChaCha20 keystream and encryption follow RFC 7539 for every input",
  "For every 32-byte key and 12-byte nonce, the successive 64-byte blocks produced are the RFC 7539 ChaCha20 blocks with counters 0, 1, 2, and so on, up to 2^32-1 blocks. Encrypting data of any length XORs it byte for byte with the next consecutive blocks (the unused tail of the last block is discarded), so the output has the length of the input and applying the same operation from the same state restores the input.",
  ["inputs", "histories"], "all keys, nonces, data lengths and sequences of block/encrypt calls below 2^32-1 blocks",
  "Tests compare five keystreams of at most 128 bytes; every (key, nonce, length, call history) is needed.",
  ["src/crypto/chacha20.rs"], mech=[("quarter rounds, feed-forward, counter", "src/crypto/chacha20.rs:ChaCha20")], obs=["crypto::chacha20::ChaCha20"])

p("C04", "Poly1305 tag is right for every message and key",
  "For every message of any length and every pair of 16-byte keys r and s, the authenticator returns the RFC 7539 Poly1305 tag: ((sum of the 17-byte-padded blocks times powers of clamped r) mod 2^130-5) plus s, mod 2^128. No intermediate value overflows and nothing panics.",
  ["inputs"], "all messages, all r, all s",
  "Tests check four vectors; the carry chains and final reduction only misbehave on rare limb values that vectors do not reach.",
  ["src/crypto/poly1305.rs"], mech=[("26-bit limb multiply and partial reduction", "src/crypto/poly1305.rs:compute_block"), ("full reduction and addition of s", "src/crypto/poly1305.rs:finalize")], obs=["crypto::poly1305::authenticate"])

p("C05", "AEAD sealing matches RFC 7539 and opening accepts exactly the sealed bytes",
  "For every 32-byte key, 12-byte nonce, associated data and plaintext, sealing returns the RFC 7539 AEAD_CHACHA20_POLY1305 ciphertext followed by its 16-byte tag. For every byte string of any length, opening returns the plaintext if and only if the string is what sealing that plaintext under the same key, nonce and associated data returns, and otherwise returns a bad-record-MAC error; it never panics and never releases plaintext whose tag differs in any bit.",
  ["inputs"], "all keys, nonces, associated data, plaintexts and candidate ciphertexts",
  "One test seals and opens a single vector; no test presents a forged or short ciphertext, and every bit of every tag is quantified.",
  ["src/cipher/chacha20_poly1305.rs"], mech=[("MAC input layout", "src/cipher/chacha20_poly1305.rs:compute_mac"), ("tag comparison before release", "src/cipher/chacha20_poly1305.rs:ChaCha20Poly1305Decryptor::decrypt")], obs=["cipher::Encryptor::encrypt", "cipher::Decryptor::decrypt"])

p("C06", "P-256 field arithmetic is exact modulo the prime for all operands",
  "For all field elements below the P-256 prime p, addition, doubling, subtraction, multiplication, squaring, halving and inversion return the exact result modulo p, fully reduced below p; inversion of zero returns zero. Comparison reports inequality exactly when operands differ, selection returns exactly the chosen operand, and decoding accepts exactly the 32-byte big-endian encodings of values below p, which encoding reproduces; nothing panics.",
  ["inputs"], "all pairs of 256-bit field elements below p",
  "Tests use eight hand-picked values out of 2^256; carry and borrow propagation and the NIST reduction depend on every limb combination.",
  ["src/crypto/p256.rs"], defs=[("2^32-radix little-endian limbs, value below p", "src/crypto/p256.rs:Int256")], mech=[("schoolbook product and NIST fast reduction", "src/crypto/p256.rs:Int256::mult")], obs=["crypto::p256::int256::Int256"])

p("C07", "P-256 scalar multiplication computes the n-fold sum for every scalar",
  "For every 256-bit scalar n and every point P on the curve (including the point at infinity), scalar multiplication followed by normalization returns the affine coordinates of n times P under the P-256 group law, using all 256 bits of n; the result is (0, 0) exactly when n times P is the point at infinity. Exceptional cases (equal points, opposite points, infinity) are handled.",
  ["inputs"], "all 256-bit scalars and all curve points",
  "No test exercises point addition, doubling or scalar multiplication at all.",
  ["src/crypto/p256.rs"], mech=[("Jacobian doubling and addition with exceptional-case selection", "src/crypto/p256.rs:Point256"), ("double-and-add ladder", "src/crypto/p256.rs:Point256::mult_scalar"), ("conversion to affine", "src/crypto/p256.rs:Point256::normalize")], obs=["crypto::p256::Point256::mult_scalar", "crypto::p256::Point256::normalize"])

p("C08", "Public points are accepted exactly when they are canonical points on the curve",
  "For every byte string, decoding an uncompressed public point succeeds if and only if it is 65 bytes long, begins with 0x04, and its two 32-byte big-endian coordinates are both below the P-256 prime and satisfy the curve equation; the decoded coordinates are then those values. Encoding a point and decoding it gives the same point back, and decoding never panics.",
  ["inputs"], "all byte strings of any length",
  "No test decodes a point; invalid-curve and non-canonical inputs are an adversary's choice from 2^512 encodings.",
  ["src/crypto/p256.rs"], mech=[("length, tag, range and curve-equation check", "src/crypto/p256.rs:NPoint256::from_uncompressed_bytes")], obs=["crypto::p256::NPoint256"])

p("C09", "ECDHE yields the true shared secret and rejects bad server parameters",
  "For every server key-exchange message and every random source, key agreement either fails or returns (client share, premaster secret) such that for one scalar d with 1 <= d < n (n the P-256 group order) the client share is the length-prefixed uncompressed encoding of d times the base point and the secret is the 32-byte x-coordinate of d times the server's point. It fails with an error, never a panic, when the message is malformed or has trailing bytes, names a curve other than secp256r1, or carries a point that is not a valid public point.",
  ["inputs", "histories"], "all server key-exchange byte strings, all outputs of the random source",
  "No test runs the key exchange; agreement holds for all scalars and points or the handshake silently weakens.",
  ["src/cipher/ecdhe.rs", "src/crypto/p256.rs"], mech=[("parameter parsing and scalar sampling", "src/cipher/ecdhe.rs:EllipticDiffieHellman::compute_keys")], obs=["cipher::KeyExchange::compute_keys"])

p("C10", "Outgoing data is framed into valid records without loss or reordering",
  "For every byte string written as data of a given content type, the bytes sent are a sequence of records, each with that content type, version 3.3, a two-byte big-endian length equal to its body, and a plaintext fragment of 1 to 2^14 bytes, whose fragments concatenated are exactly the data. While encryption is off the body is the fragment itself; once it is on the body is the encryption of the fragment and plaintext is never sent.",
  ["inputs", "histories"], "all data lengths and contents, all content types, all sequences of writes",
  "Tests write two messages with a null cipher; lengths across the 2^14 boundary and every sequence of writes are quantified.",
  ["src/tls.rs"], mech=[("fragmentation", "src/tls.rs:TlsWriter::write_data"), ("record header and encryption", "src/tls.rs:TlsWriter::write_record")], obs=["tls::TlsWriter"])

p("C11", "Each encrypted record uses its own nonce and the right associated data",
  "The k-th record encrypted since encryption was enabled (k from 0) is encrypted with nonce (12-byte big-endian k) XOR the fixed IV and with associated data of the 8-byte big-endian k, content type, version and plaintext length. No two encryptions under one key use the same sequence number, whatever writes fail part-way in the transport and however the caller continues. Enabling encryption restarts k at 0.",
  ["histories", "fault_sequences"], "all sequences of writes, including transport failures at any byte of any record followed by further writes",
  "Tests never encrypt more than one record nor fail a write; nonce reuse only appears after a fault in the middle of a history.",
  ["src/tls.rs"], mech=[("sequence number, nonce and associated data construction", "src/tls.rs:TlsWriter::write_record")], obs=["cipher::Encryptor::encrypt arguments", "tls::TlsWriter"])

p("C12", "Incoming records are bounded, authenticated in order, and never crash the reader",
  "For every byte stream from the peer, the record reader returns an error, never a panic, for an unknown content type, a body over 2^14+2048 bytes, an unprotected body over 2^14 bytes, a protected body shorter than its MAC, or a decrypted fragment over 2^14 bytes. A protected record is returned only if it authenticates with nonce (12-byte big-endian k) XOR the fixed IV and associated data of k, its own content type and version, and its plaintext length, where k is the number of records already accepted under the key; records are consumed from the stream exactly, in order and without gaps.",
  ["inputs", "histories"], "all byte streams, all sequences of reads, all decryptors",
  "Tests cover one valid record, one unknown type and one over-long record, all unprotected.",
  ["src/tls.rs"], mech=[("header parsing, limits, decryption", "src/tls.rs:TlsReader::read_record")], obs=["tls::TlsReader::read_message"])

p("C13", "Handshake messages are reassembled the same for every record fragmentation",
  "For every sequence of handshake messages and every way of splitting or coalescing their bytes into records, the reader returns exactly those messages, in order, each parsed from exactly the bytes its own 24-bit length announces, waits for more data while a message is incomplete, and keeps the remaining bytes for the next one. Change-cipher-spec, alert (its first two bytes, with a known level and description) and application-data records yield the corresponding message, malformed ones an error; in particular a change-cipher-spec is refused while a partial handshake message is pending, so no message mixes bytes from before and after a key change.",
  ["inputs", "histories"], "all handshake byte streams, all fragmentations into records, all interleavings of record types",
  "Tests deliver only whole messages or zero-length records; fragmentation choices belong to the peer and network.",
  ["src/handshake.rs", "src/tls.rs"], mech=[("reassembly buffer", "src/handshake.rs:HandshakeBuffer"), ("message dispatch", "src/tls.rs:TlsReader::read_message")], obs=["handshake::HandshakeBuffer::get_message", "tls::TlsReader::read_message"])

p("C14", "Every protocol item encodes to its TLS presentation form and announced size",
  "For every protocol value the library can build whose parts fit their length fields, serialization writes exactly the RFC 5246/4492 presentation-language encoding (big-endian integers, length prefixes in bytes of the width set by the maximum, fields in order, handshake and extension headers), and the size it reports equals the number of bytes written. Vector constructors accept exactly the sizes inside the declared bounds.",
  ["inputs"], "all values of all serializable types",
  "One test round-trips a single ClientHello; each of some 35 types has unbounded values.",
  ["src/tls_item.rs", "src/handshake.rs", "src/signature.rs", "src/alert.rs", "src/cipher/ecdhe.rs", "src/macros.rs", "src/cipher/mod.rs"], mech=[("tls_struct/tls_enum/tls_vec/tls_array/tls_option macros", "src/tls_item.rs")], obs=["tls_item::TlsItem::tls_write", "tls_item::TlsItem::tls_size"])

p("C15", "Parsing accepts only exact encodings and consumes exactly them",
  "For every byte stream, parsing a protocol item either fails with an error, never a panic, or returns a value whose encoding is exactly the bytes consumed (cipher suites the library does not know excepted, which are recognised as unknown). Every value's own encoding is parsed back to that value. A trailing extension block followed by leftover bytes, an out-of-range enumeration value, a length prefix that does not match its contents or violates the declared bounds, an extension whose declared size is wrong, and a reassembled handshake message whose announced length is not that of its contents are all rejected.",
  ["inputs"], "all byte streams for all parseable types",
  "One test parses one generated ClientHello; hostile lengths and truncations are never presented.",
  ["src/tls_item.rs", "src/handshake.rs", "src/signature.rs", "src/alert.rs", "src/cipher/ecdhe.rs", "src/macros.rs", "src/cipher/mod.rs"], mech=[("tls_* reader macros", "src/tls_item.rs"), ("extension and handshake readers", "src/handshake.rs")], obs=["tls_item::TlsItem::tls_read"])

p("C16", "The handshake completes only with an acceptable server and a verified Finished",
  "For every server behaviour, the client reports a completed handshake only if it received, in this order and with nothing else in between, a ServerHello with version 3.3, the offered cipher suite and null compression, a certificate, a valid server key exchange, ServerHelloDone, a change-cipher-spec, and then, under the negotiated read key, a Finished whose 12 bytes equal the value computed from the master secret and the exact transcript. The client sends a ClientHello offering only what it supports, then ClientKeyExchange, change-cipher-spec and an encrypted Finished, in that order. Every other server behaviour yields an error, never a panic.",
  ["inputs", "histories"], "all server byte streams at every step of the handshake",
  "No test runs a handshake at all; the acceptance condition is over every server behaviour.",
  ["src/client.rs", "src/tls.rs", "src/handshake.rs"], mech=[("handshake state sequence", "src/client.rs:TlsClient::handshake")], obs=["TlsClient::new"])

p("C17", "Session keys and Finished values follow RFC 5246 exactly",
  "In every handshake the master secret is the first 48 bytes of PRF(premaster, 'master secret', client random + server random), the key block is PRF(master, 'key expansion', server random + client random) split in order into client write key, server write key, client IV and server IV, the client encrypts with the client parts and decrypts with the server parts, and the client's Finished is the first 12 bytes of PRF(master, 'client finished', SHA-256 of all handshake messages so far). Peers that follow the RFC therefore interoperate for all randoms and shares.",
  ["inputs", "histories"], "all randoms, premaster secrets and transcripts",
  "Nothing tests key derivation in the client; a swapped seed or key is invisible without a full peer.",
  ["src/client.rs", "src/cipher/prf.rs"], mech=[("key schedule", "src/client.rs:TlsClient::handshake")], obs=["TlsClient::new"])

p("C18", "Reading delivers exactly the peer's authenticated application bytes, in order",
  "For every sequence of incoming records and every sequence of reads with any buffer sizes, the bytes delivered to the application, concatenated, are a prefix of the concatenated payloads of the authenticated application-data records in order: no byte is lost, duplicated, reordered or invented, and bytes beyond the reported count are untouched by data. A short count is returned only when the stream ends or fails; nothing received after the peer's close-notify is ever delivered, and no incoming message makes a read panic.",
  ["inputs", "histories"], "all record sequences, all sequences of read buffer sizes, all peer behaviours after the handshake",
  "No test uses the client's Read at all; buffering across reads is a history property.",
  ["src/client.rs", "src/tls.rs"], mech=[("left-over buffer", "src/client.rs:Read for TlsClient"), ("application-data filter", "src/tls.rs:TlsReader::read_application_data")], obs=["std::io::Read for TlsClient"])

p("C19", "Failures are reported with the matching fatal alert, and only then",
  "When the handshake or a write fails for a reason other than transport I/O, the client sends one fatal alert whose description corresponds to the error (unexpected message, bad record MAC, record overflow, illegal parameter, decode error, decrypt error, internal error, and close-notify in answer to a received alert) and returns an error; after a transport failure it sends nothing. Closing sends one close-notify alert, and a successful write reports exactly the number of bytes given, all of which were sent in order.",
  ["inputs", "fault_sequences"], "all error kinds at all points, all transport fault positions",
  "No test provokes an error through the client or examines an alert.",
  ["src/client.rs", "src/alert.rs"], mech=[("error to alert mapping", "src/alert.rs:Alert::from_tls_err"), ("alert sending", "src/client.rs:TlsClient::send_tls_alert")], obs=["TlsClient::new", "std::io::Write for TlsClient", "TlsClient::close"])

p("C20", "Stream primitives read and write exact bytes under any transport behaviour",
  "For every transport, however it splits its data into partial reads or interrupts them, an exact-length read returns precisely the next bytes of the stream, or an error if the stream ends or fails first; integers of each width are read and written with the stated endianness. Comparison of two equal-length secrets reports equality exactly when all bytes are equal.",
  ["inputs", "schedules", "fault_sequences"], "all partitions of the stream into partial reads, all interruptions, all integer values, all byte strings",
  "No test uses a reader that returns short counts or is interrupted, and no test calls the comparison.",
  ["src/util.rs"], mech=[("fill loop", "src/util.rs:ReadExt::fill_exact"), ("integer codecs", "src/util.rs"), ("comparison", "src/util.rs:crypto_compare")], obs=["util::ReadExt", "util::WriteExt", "util::crypto_compare"])

p("C21", "Secret-dependent timing does not occur",
  "For every pair of secrets of the same public length, the cryptographic routines execute the same sequence of branches and memory addresses.",
  ["inputs"], "all pairs of secret inputs",
  "It is a relation between two executions, and of compiled code; tests observe single results.",
  ["src/crypto/p256.rs", "src/crypto/poly1305.rs", "src/util.rs", "src/cipher/chacha20_poly1305.rs"], obs=["compiled code"])

p("C22", "Client random and private key are exactly what the random source delivers",
  "For every output of the random source, the 32-byte client random of the ClientHello is the first 32 bytes the source delivers in that handshake, and the private scalar of the key exchange is the first block in the range 1 to n-1 among the successive 32-byte blocks (read as numbers, least significant byte first) that it delivers after that; blocks out of range are discarded whole. No random byte is used twice, altered or replaced by a constant, and nothing is kept from one handshake to the next, so both values are as unpredictable as the source.",
  ["inputs", "histories"], "all outputs of the random source, including any number of blocks out of range; all sequences of handshakes",
  "No test controls the random source; with a real one, a biased, shortened or reused value looks as random as a good one.",
  ["src/client.rs", "src/cipher/ecdhe.rs"], mech=[("scalar sampling by rejection", "src/cipher/ecdhe.rs:get_random_x"), ("client random", "src/client.rs:TlsClient::handshake")], obs=["cipher::KeyExchange::compute_keys", "TlsClient::new"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
