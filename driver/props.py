"""What each property's check verifies and how its concrete oracle runs.

modules   modules of /repo put into the verifier's input
verify    modules whose obligations are discharged in this check
fns       regular expression of the functions whose obligations decide this
          property (default: every function of `verify`)
tag       only failed clauses that carry the property's tag count ([Cxx]
          comments on contract clauses); without it, failed clauses that
          carry other tags only do not count
deps      properties whose contracts are assumed here and discharged there
oracle    ('batch', name) | ('session', id)
"""

CRYPTO = ['crypto::wrapping']
PROPS = {
    'C01': dict(modules=['crypto::wrapping', 'crypto::sha2'], verify=['crypto::sha2'], oracle=('batch', 'c01')),
}
PROPS['C01']['note'] = ('sha256 is verified against a FIPS 180-4 specification for every message below 2^61 bytes; trusted: byteorder slice conversions, '
                        'u32 rotations and Vec operations as specified in contracts/shim.rs.in, the extractor, Verus and Z3.')

TB = 'trusted: the stand-ins for library items in contracts/shim.rs.in, the extraction rules, Verus and Z3.'
PROPS['C02'] = dict(modules=['crypto::wrapping', 'crypto::sha2', 'cipher::prf'], verify=['cipher::prf'], deps=['C01'], oracle=('batch', 'c02'),
                    note='hmac_sha256 and Prf (new, next_block, get_bytes) are verified against RFC 2104 / RFC 5246 P_SHA256 specifications for every key, seed and '
                         'sequence of read sizes (lemma_history); sha256 by its contract (C01). ' + TB)
PROPS['C03'] = dict(modules=['crypto::wrapping', 'crypto::chacha20'], verify=['crypto::chacha20'], oracle=('batch', 'c03'),
                    note='ChaCha20::new, round20, next and encrypt are verified against an RFC 7539 specification for every key, nonce, counter and data length. ' + TB)
PROPS['C04'] = dict(modules=['crypto::poly1305'], verify=['crypto::poly1305'], oracle=('batch', 'c04'), rlimit=100,
                    note='authenticate is verified against the RFC 7539 integer definition for every message and key; all overflow obligations are discharged. ' + TB)
PROPS['C20'] = dict(modules=['util'], verify=['util'], oracle=('batch', 'c20'),
                    note='fill_exact, read_exact, the integer codecs and crypto_compare are verified for every source, sink and value; partial correctness of the fill loop '
                         '(a source that is interrupted for ever keeps it waiting). Little-endian target. ' + TB)

ALL = ['crypto::wrapping', 'crypto::sha2', 'crypto::chacha20', 'crypto::poly1305', 'crypto::p256', 'crypto::p256::int256', 'tls_result', 'util', 'tls_item',
       'signature', 'alert', 'cipher', 'cipher::chacha20_poly1305', 'cipher::ecdhe', 'cipher::prf', 'handshake', 'tls']
ITEMS = ['tls_item', 'signature', 'alert', 'cipher', 'cipher::ecdhe', 'handshake']
PROPS['C05'] = dict(modules=ALL, verify=['cipher::chacha20_poly1305', 'cipher'], fns=r'^cipher::chacha20_poly1305|new_aead', deps=['C03', 'C04', 'C20'], oracle=('batch', 'c05'),
                    note='compute_mac, encrypt and decrypt are verified against an RFC 7539 AEAD specification (lemma_open: a string opens to p exactly when it is the '
                         'sealing of p); ChaCha20 and Poly1305 by their contracts (C03, C04). Data below 2^38 bytes (the 32-bit block counter). ' + TB)
PROPS['C14'] = dict(modules=ALL, verify=ITEMS, fns=r'::(tls_write|tls_size|data_size|new|new_\w+|deref|unwrap|from_[iu]64)$|^tls_item::', deps=['C20'], oracle=('batch', 'c14'),
                    note='every TlsItem::tls_write and tls_size, every vector and array constructor and the message constructors are verified against encodings '
                         'generated from a table of RFC 5246/4492 presentation structures (tools/gen_items.py); writers by their contracts (C20). ' + TB)
PROPS['C15'] = dict(modules=ALL, verify=ITEMS, fns=r'::(tls_read|get_message|from_[iu]64)$|^tls_item::', deps=['C20'], oracle=('batch', 'c15'),
                    note='every TlsItem::tls_read is verified: a value returned has an encoding equal to the bytes consumed and the encoding of every value parses back; '
                         'HandshakeBuffer::get_message passes complete messages only. Items that extend to the end of their stream (ObscureData, extension '
                         'blocks) are specified for readers that do not fail. ' + TB)
P256 = ['crypto::wrapping', 'crypto::p256', 'crypto::p256::int256']
FERMAT = "Fermat's theorem for p (axiom_fermat) is proved in Lean (contracts/fermat.lean, with the primality of p) and checked in the run. "
PROPS['C06'] = dict(modules=P256, lean=['fermat.lean'], verify=['crypto::p256::int256'], oracle=('batch', 'c06'), rlimit=300,
                    note='every function of int256 is verified against integer arithmetic modulo p for all operands: add, sub, mult (NIST reduction), square, divide_by_2, '
                         'inverse, choose, compare, less_than, reduce, from_bytes and to_bytes. ' + FERMAT + TB)
PROPS['C07'] = dict(modules=P256, lean=['fermat.lean', 'group.lean'], verify=['crypto::p256'], fns=r'(Point256::(normalize|choose|double|add|mult_scalar|clone|to_point)|NPoint256::mult_scalar)$|lemmas of', deps=['C06'], oracle=('batch', 'c07'),
                    note='double and add are verified against the chord-and-tangent law for every pair of projective triples on the curve (all special cases), mult_scalar against '
                         'gmul, the double-and-add reading of the 256-bit scalar; that this is the n-fold sum in the group of the curve is proved in Lean with Mathlib (contracts/group.lean, '
                         'definitions written again in Lean) and checked in the run. Field arithmetic by its contracts (C06). ' + FERMAT + TB)
PROPS['C08'] = dict(modules=P256, lean=['fermat.lean'], verify=['crypto::p256'], fns=r'(NPoint256::(from|to)_uncompressed_bytes)$|lemmas of', deps=['C06'], oracle=('batch', 'c08'),
                    note='from_uncompressed_bytes accepts exactly the encodings 04 x y with x, y < p on the curve, for every byte string; to_uncompressed_bytes is its inverse on '
                         'them. Field arithmetic by its contracts (C06). ' + FERMAT + TB)
PROPS['C09'] = dict(modules=ALL, lean=['fermat.lean', 'group.lean', 'order.lean'], verify=['cipher::ecdhe', 'cipher'], fns=r'^cipher::ecdhe::(<EcdheKex|EcdheKex|compute_keys|get_random_x)|compute_keys|lemmas of', deps=['C06', 'C07', 'C08', 'C14', 'C15'],
                    oracle=('batch', 'c09'),
                    note='compute_keys is verified for every ServerKeyExchange and every random stream: the public point is x G, the pre-master secret the x coordinate of x Q for one '
                         'x in [1, n) taken from the stream, both finite points (the curve has n points, n prime: proved in Lean, contracts/order.lean); every other parameter set is refused. Point arithmetic by its contracts (C06-C08). Partial correctness of the rejection '
                         'loop (a random source that never yields x < n keeps it waiting). ' + TB)
REC = ' The sequence number is a u64: fewer than 2^64 records per key are assumed (two assume()s, in write_record and read_record). '
PROPS['C10'] = dict(modules=ALL, verify=['tls', 'alert'], fns=r'^tls::(TlsWriter|Record|<ContentType|\w+$)|^alert::', deps=['C05', 'C14', 'C20'], oracle=('batch', 'c10'),
                    note='write_record, write_data and the four typed writers are verified for every data, key state and failing transport: the bytes written are the '
                         'records of some fragmentation into 1..2^14 bytes that joins to the data (data_sent), a beginning of such after a failure.' + REC + TB)
PROPS['C11'] = dict(modules=ALL, verify=['tls'], fns=r'^tls::(TlsWriter|Record|<ContentType|\w+$)', deps=['C05', 'C20'], oracle=('batch', 'c11'),
                    note='the contract of write_record fixes nonce and associated data of the k-th record, advances k exactly once per call whatever the transport does, and '
                         'set_encryptor restarts it at 0.' + REC + TB)
PROPS['C12'] = dict(modules=ALL, verify=['tls'], fns=r'^tls::(TlsReader < R >::(new|set_\w+|read_record)|Record|<ContentType|\w+$)', deps=['C05', 'C20'], oracle=('batch', 'c12'),
                    note='read_record is verified for every byte stream and transport: it returns the record rec_next describes (bounds, authentication under the k-th '
                         'nonce and its own header) and consumes exactly its bytes, or an error of a fitting kind; all panics are excluded.' + REC + TB)
PROPS['C13'] = dict(modules=ALL, verify=['tls', 'handshake', 'alert'], fns=r'^tls::(TlsReader|<ContentType|\w+$)|HandshakeBuffer|lemmas of|^alert::',
                    deps=['C12', 'C15', 'C20'], oracle=('batch', 'c13'),
                    note='read_message and HandshakeBuffer are verified against next(), which parses the joined payloads; lemma_fragmentation: the messages depend only '
                         'on the joined bytes, not on how they were split into records. Parsing of each message by its contract (C15).' + REC + TB)
CL = ALL + ['client']
PROPS['C18'] = dict(modules=CL, verify=['client', 'tls'], fns=r'^client::<TlsClient < R , W > as Read>|^client::copy_memory|read_application_data|lemmas of', deps=['C12', 'C13', 'C20'], oracle=('session', 'C18'),
                    note='read and read_application_data are verified for every byte stream, transport and buffer: what one read delivers is a run of the application records '
                         '(read_run), and lemma_reads composes any history of reads. The messages by the contract of read_message (C13).' + REC + TB)
HSK = ('TlsClient::handshake is verified as a whole against hs_result: for every server byte stream, randomness and transport there is a history of up to ten steps '
       '(messages sent and received, keys in force) that the run made, ending either open or stopped for one of the reasons hs_stop lists. The messages by the contracts '
       'of reader and writer (C10-C13), the key exchange by that of compute_keys. ')
PROPS['C16'] = dict(modules=CL, verify=['client'], fns=r'^client::TlsClient < R , W >::handshake|lemmas of', deps=['C02', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15'],
                    oracle=('session', 'C16'), rlimit=300, note=HSK + REC + TB)
PROPS['C17'] = dict(modules=CL, verify=['client'], fns=r'^client::TlsClient < R , W >::handshake|lemmas of', deps=['C02', 'C05', 'C10', 'C11', 'C13', 'C14'],
                    oracle=('session', 'C17'), rlimit=300,
                    note=HSK + 'master_of, key_block and finished_of are RFC 5246 over p_hash (C02) and sha256_spec (C01); the keys in force and the Finished '
                         'values are those. ' + TB)
PROPS['C19'] = dict(modules=CL, verify=['client', 'tls', 'alert'], fns=r'^client::TlsClient < R , W >::(new|send_tls_alert|close)|as Write>|lemmas of|^alert::|write_(alert|application_data)$',
                    deps=['C10', 'C16'], oracle=('session', 'C19'), rlimit=300,
                    note='new, send_tls_alert, close, write, write_all and flush are verified for every error and transport. That new has called send_tls_alert is carried by an '
                         'abstract predicate (reported) which only the end of send_tls_alert introduces. ' + TB)
PROPS['C22'] = dict(modules=CL, verify=['cipher::ecdhe', 'client'], fns=r'compute_keys|^client::TlsClient < R , W >::(handshake|new)$|lemmas of', tag=True, deps=['C06', 'C09', 'C14', 'C16'],
                    oracle=('both', 'c22'), rlimit=300,
                    note='the stand-in of the random source records what it has delivered; get_random_x, compute_keys, handshake and new are verified against that record: the '
                         'client random is its first 32 bytes, the private key the first block in range of what follows. ' + TB)
PENDING = 'contracts for these functions are not finished yet'
NOT_APPLICABLE = {
    'C21': 'a relation between two executions of compiled code (timing): contracts over source values, in the verifiers available here, neither express machine-level branches and addresses nor see the optimiser',
}
for _i in list(range(1, 21)) + [22]:
    _p = 'C%02d' % _i
    if _p not in PROPS:
        NOT_APPLICABLE[_p] = PENDING
