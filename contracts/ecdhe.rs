//@module cipher::ecdhe
//@use crate::vshim::rand::RngCore as _
//@use crate::handshake::NamedCurve_num
//@use crate::crypto::p256::*
//@use crate::crypto::p256::int256::{be, lemma_bound, lemma_pw, le_num, grown, lemma_le_num, lemma_le_num_same, lemma_grown_at, lemma_grown_trans}
//@use crate::cipher::{ske_ok, kex_ok, kex_with, kex_reply, kex_fresh, key_from, kex_err, encodes_aff, has_x, lemma_ske_bytes, lemma_ske_same}
//@fn compute_keys__get_random_x
    ensures
        1 <= r.val() < order(), r.ok(),
        key_from(old(rng).drawn(), final(rng).drawn(), r.val()), /* [C22] */
//@attr #[verifier::exec_allows_no_decreases_clause]
//@hint start
    let ghost a = rng.drawn();
    let ghost mut n: int = 0;
    proof { assert(a.subrange(0, a.len() as int) =~= a); } // [C22]
//@loop 0
        invariant
            n >= 0, rng.drawn().len() == a.len() + 32 * n, grown(a, rng.drawn()), // [C22]
            forall|j: int| 0 <= j < n ==> !(1 <= #[trigger] le_num(rng.drawn(), a.len() + 32 * j, 8) < order()), // [C22]
//@hint loop 0 start
    let ghost b = rng.drawn();
    proof { assert(b.subrange(0, b.len() as int) =~= b); } // [C22]
//@loop 1 it
        invariant
            b.len() == a.len() + 32 * n, n >= 0, rng.drawn().len() == b.len() + 4 * it.index@, grown(b, rng.drawn()), // [C22]
            forall|i: int| 0 <= i < it.index@ ==> (#[trigger] x.v@[i]).0 == le32(rng.drawn(), b.len() + 4 * i), // [C22]
//@hint before /x \. v \[/
    let ghost c = rng.drawn();
//@hint after /x \. v \[/
    proof {
        assert(c =~= rng.drawn().subrange(0, c.len() as int)); // [C22]
        lemma_grown_trans(b, c, rng.drawn()); // [C22]
        lemma_grown_at(c, rng.drawn()); // [C22]
    }
//@hint before /if x \. less_than/
    proof {
        lemma_bound(x);
        let c = rng.drawn();
        lemma_le_num(c, b.len() as int, x.v@, 8); // [C22]
        lemma_grown_trans(a, b, c); // [C22]
        assert forall|j: int| 0 <= j < n implies !(1 <= #[trigger] le_num(c, a.len() + 32 * j, 8) < order()) by { lemma_le_num_same(b, c, a.len() + 32 * j, 8); } // [C22]
        n = n + 1;
        assert((c.len() - a.len()) / 32 == n); // [C22]
        reveal(key_from); // [C22]
    }
//@fn <EllipticDiffieHellman as KeyExchange>::compute_keys
//@hint start
    let ghost bytes = data@;
    let ghost r0 = rng.drawn();
    proof {
        assert(grown(r0, r0)) by { assert(r0.subrange(0, r0.len() as int) =~= r0); } // [C22]
        assert(bytes.subrange(0, bytes.len() as int) =~= bytes);
        assert forall|v: EcdheServerKeyExchange| #[trigger] ske_ok(v, bytes) implies v.known() && v.fits() && starts(bytes, v.enc(), false) by { lemma_flat_bytes(v.params.public.0@); lemma_flat_bytes(v.signed_params.signature.0@); }
    }
//@hint after /let ecdh_params/
    let ghost m = ecdh_params;
    let ghost pt = m.params.public.0@;
    proof {
        lemma_flat_bytes(pt); lemma_flat_bytes(m.signed_params.signature.0@);
        if m.enc().len() == bytes.len() { assert(m.enc() =~= bytes); lemma_ske_bytes(m, bytes); }
        if kex_ok(bytes) { let v = choose|v: EcdheServerKeyExchange| ske_ok(v, bytes); assert(starts(bytes, v.enc(), false)); lemma_ske_same(m, v, bytes); }
    }
//@hint before /let gx =/
    let ghost gp = gy.at();
    proof { lemma_base(); assert(ske_ok(m, bytes)); lemma_ske_same(m, m, bytes); assert(gp == Some((be(bytes.subrange(4, 69), 1, 32), be(bytes.subrange(4, 69), 33, 32))));
        axiom_order(base_x(), base_y(), x.val() as nat); axiom_order(be(bytes.subrange(4, 69), 1, 32), be(bytes.subrange(4, 69), 33, 32), x.val() as nat); }
//@hint before /let public =/ #0
    let ghost share = gx@;
    proof { lemma_flat_bytes(share); assert(encodes_aff(share, gmul(x.val() as nat, Some((base_x(), base_y()))))); }
//@hint before /let public =/ #1
    proof {
        assert(data@ =~= seq![65u8] + share);
        assert(data@.subrange(1, 66) =~= share);
        assert(kex_with(x.val(), bytes, data@, pre_master_secret@));
        assert(grown(r0, rng.drawn())) by { reveal(key_from); } // [C22]
        assert(kex_fresh(r0, rng.drawn(), bytes, data@, pre_master_secret@)); // [C22]
    }
