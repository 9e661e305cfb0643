//! The contracts that /verif assumes about library items (contracts/shim.rs.in, driver/shimgen.py), restated as
//! assertions about the real library items and checked by Kani (CBMC).
//!
//! `all_*`: for all inputs.  `sized_*`: for all inputs of exactly the sizes at which /repo calls the item.
//! `upto_*`: for all inputs up to the stated length (bounded).
//! The right-hand sides are the texts of the specification functions of shim.rs.in.
#![allow(dead_code)]
use std::num::Wrapping as W;

fn be16(s: &[u8], k: usize) -> u16 { ((s[k] as u16) << 8) | (s[k + 1] as u16) }
fn le16(s: &[u8], k: usize) -> u16 { (s[k] as u16) | ((s[k + 1] as u16) << 8) }
fn be32(s: &[u8], k: usize) -> u32 { ((s[k] as u32) << 24) | ((s[k + 1] as u32) << 16) | ((s[k + 2] as u32) << 8) | (s[k + 3] as u32) }
fn le32(s: &[u8], k: usize) -> u32 { (s[k] as u32) | ((s[k + 1] as u32) << 8) | ((s[k + 2] as u32) << 16) | ((s[k + 3] as u32) << 24) }
fn le64(s: &[u8], k: usize) -> u64 {
    (s[k] as u64) | ((s[k + 1] as u64) << 8) | ((s[k + 2] as u64) << 16) | ((s[k + 3] as u64) << 24)
        | ((s[k + 4] as u64) << 32) | ((s[k + 5] as u64) << 40) | ((s[k + 6] as u64) << 48) | ((s[k + 7] as u64) << 56)
}
fn le16_bytes(x: u16) -> [u8; 2] { [x as u8, (x >> 8) as u8] }
fn be32_bytes(x: u32) -> [u8; 4] { [(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] }
fn le32_bytes(x: u32) -> [u8; 4] { [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] }
fn le64_bytes(x: u64) -> [u8; 8] {
    [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8]
}
fn swap16(x: u16) -> u16 { (x << 8) | (x >> 8) }
fn swap32(x: u32) -> u32 { (x << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24) }
fn swap64(x: u64) -> u64 {
    (x << 56) | ((x & 0xff00) << 40) | ((x & 0xff_0000) << 24) | ((x & 0xff00_0000) << 8)
        | ((x >> 8) & 0xff00_0000) | ((x >> 24) & 0xff_0000) | ((x >> 40) & 0xff00) | (x >> 56)
}

#[cfg(kani)]
mod proofs {
    use super::*;
    use byteorder::{BigEndian, ByteOrder, LittleEndian};
    use std::io::{Cursor, Read, Write};
    use std::mem;

    macro_rules! wrapping {
        ($name:ident, $shift:ident, $t:ty, $wide:ty, $bits:expr) => {
            #[kani::proof]
            fn $name() {
                let (a, b): ($t, $t) = (kani::any(), kani::any());
                let m: $wide = 1 << $bits;
                assert!((W(a) + W(b)).0 == ((a as $wide + b as $wide) % m) as $t);
                assert!((W(a) - W(b)).0 == ((a as $wide + m - b as $wide) % m) as $t);
                assert!((W(a) ^ W(b)).0 == a ^ b && (W(a) & W(b)).0 == a & b && (W(a) | W(b)).0 == a | b);
                assert!((!W(a)).0 == !a && (W(a) == W(b)) == (a == b));
                let mut c = W(a);
                c += W(b);
                assert!(c == W(a) + W(b));
                c = W(a);
                c -= W(b);
                assert!(c == W(a) - W(b));
                c = W(a);
                c ^= W(b);
                assert!(c.0 == a ^ b);
                c = W(a);
                c &= W(b);
                assert!(c.0 == a & b);
                c = W(a);
                c |= W(b);
                assert!(c.0 == a | b);
            }
            #[kani::proof]
            fn $shift() {
                let (a, n): ($t, usize) = (kani::any(), kani::any());
                assert!((W(a) << n).0 == a << ((n % $bits) as $t));
                assert!((W(a) >> n).0 == a >> ((n % $bits) as $t));
                let mut c = W(a);
                c <<= n;
                assert!(c == W(a) << n);
                c = W(a);
                c >>= n;
                assert!(c == W(a) >> n);
            }
        };
    }
    wrapping!(all_wrapping_u8, all_wrapping_shift_u8, u8, u32, 8);
    wrapping!(all_wrapping_u16, all_wrapping_shift_u16, u16, u32, 16);
    wrapping!(all_wrapping_u32, all_wrapping_shift_u32, u32, u64, 32);
    wrapping!(all_wrapping_u64, all_wrapping_shift_u64, u64, u128, 64);

    macro_rules! product {
        ($name:ident, $t:ty, $wide:ty) => {
            #[kani::proof]
            #[kani::solver(z3)]
            fn $name() {
                let (a, b): ($t, $t) = (kani::any(), kani::any());
                assert!((W(a) * W(b)).0 == (a as $wide * b as $wide) as $t);
                let mut c = W(a);
                c *= W(b);
                assert!(c == W(a) * W(b));
            }
        };
    }
    product!(all_wrapping_mul_u8, u8, u16);
    product!(all_wrapping_mul_u16, u16, u32);
    product!(all_wrapping_mul_u32, u32, u64);
    product!(all_wrapping_mul_u64, u64, u128);

    #[kani::proof]
    fn all_rotate() {
        let (x, n): (u32, u32) = (kani::any(), kani::any());
        kani::assume(n < 32);
        assert!(x.rotate_right(n) == if n == 0 { x } else { (x >> n) | (x << (32 - n)) });
        assert!(x.rotate_left(n) == if n == 0 { x } else { (x << n) | (x >> (32 - n)) });
    }
    #[kani::proof]
    fn all_bytes() {
        let s: [u8; 4] = kani::any();
        let x: u32 = kani::any();
        assert!(u32::from_le_bytes(s) == le32(&s, 0) && u32::from_be_bytes(s) == be32(&s, 0));
        assert!(x.to_le_bytes() == le32_bytes(x) && x.to_be_bytes() == be32_bytes(x));
    }
    #[kani::proof]
    fn all_endian() {
        let (a, b, c): (u16, u32, u64) = (kani::any(), kani::any(), kani::any());
        assert!(a.to_be() == swap16(a) && b.to_be() == swap32(b) && c.to_be() == swap64(c));
        assert!(a.to_le() == a && b.to_le() == b && c.to_le() == c);
    }
    #[kani::proof]
    fn all_transmute() {
        let (a, b, c, d): (u8, u16, u32, u64) = (kani::any(), kani::any(), kani::any(), kani::any());
        let (s1, s2, s4, s8): ([u8; 1], [u8; 2], [u8; 4], [u8; 8]) = (kani::any(), kani::any(), kani::any(), kani::any());
        unsafe {
            assert!(mem::transmute::<u8, [u8; 1]>(a) == [a]);
            assert!(mem::transmute::<u16, [u8; 2]>(b) == le16_bytes(b));
            assert!(mem::transmute::<u32, [u8; 4]>(c) == le32_bytes(c));
            assert!(mem::transmute::<u64, [u8; 8]>(d) == le64_bytes(d));
            assert!(mem::transmute::<[u8; 1], u8>(s1) == s1[0]);
            assert!(mem::transmute::<[u8; 2], u16>(s2) == le16(&s2, 0));
            assert!(mem::transmute::<[u8; 4], u32>(s4) == le32(&s4, 0));
            assert!(mem::transmute::<[u8; 8], u64>(s8) == le64(&s8, 0));
        }
        let _ = be16(&s2, 0);
    }
    #[kani::proof]
    fn all_replace_min() {
        let (mut a, b): (u64, u64) = (kani::any(), kani::any());
        let o = a;
        assert!(mem::replace(&mut a, b) == o && a == b);
        let (x, y): (usize, usize) = (kani::any(), kani::any());
        assert!(std::cmp::min(x, y) == if x < y { x } else { y });
        assert!(std::mem::size_of::<usize>() == 8);
    }
    macro_rules! words {
        ($read:ident, $write:ident, $n:expr, $order:ident, $from:ident, $to:ident) => {
            #[kani::proof]
            #[kani::unwind(70)]
            fn $read() {
                let src: [u8; 4 * $n] = kani::any();
                let mut dst: [u32; $n] = kani::any();
                $order::read_u32_into(&src, &mut dst);
                let i: usize = kani::any();
                kani::assume(i < $n);
                assert!(dst[i] == $from(&src, 4 * i));
            }
            #[kani::proof]
            #[kani::unwind(70)]
            fn $write() {
                let src: [u32; $n] = kani::any();
                let mut dst: [u8; 4 * $n] = kani::any();
                $order::write_u32_into(&src, &mut dst);
                let i: usize = kani::any();
                kani::assume(i < 4 * $n);
                assert!(dst[i] == $to(src[i / 4])[i % 4]);
            }
        };
    }
    words!(sized_le_read_3, sized_le_write_3, 3, LittleEndian, le32, le32_bytes);
    words!(sized_le_read_4, sized_le_write_4, 4, LittleEndian, le32, le32_bytes);
    words!(sized_le_read_8, sized_le_write_8, 8, LittleEndian, le32, le32_bytes);
    words!(sized_le_read_16, sized_le_write_16, 16, LittleEndian, le32, le32_bytes);
    words!(sized_be_read_8, sized_be_write_8, 8, BigEndian, be32, be32_bytes);
    words!(sized_be_read_16, sized_be_write_16, 16, BigEndian, be32, be32_bytes);

    const L: usize = 5;
    /// any vector of at most L bytes
    fn any_vec() -> Vec<u8> {
        let n: usize = kani::any();
        kani::assume(n <= L);
        let a: [u8; L] = kani::any();
        let mut v = Vec::with_capacity(L);
        let mut i = 0;
        while i < n {
            v.push(a[i]);
            i += 1;
        }
        v
    }
    fn same(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut i = 0;
        while i < a.len() {
            if a[i] != b[i] {
                return false;
            }
            i += 1;
        }
        true
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_vec() {
        let a = any_vec();
        let b = any_vec();
        assert!(same(&a[..].to_vec(), &a));
        let mut c = a.clone();
        assert!(same(&c, &a));
        c.extend(&b);
        assert!(c.len() == a.len() + b.len() && same(&c[..a.len()], &a) && same(&c[a.len()..], &b));
        let mut d = a.clone();
        d.extend_from_slice(&b);
        assert!(same(&c, &d));
        let mut e = a.clone();
        e.extend(b.clone());
        assert!(same(&c, &e));
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_repeat() {
        let (x, n): (u8, usize) = (kani::any(), kani::any());
        kani::assume(n <= L);
        let mut a = any_vec();
        let k = a.len();
        a.extend(std::iter::repeat(x).take(n));
        assert!(a.len() == k + n);
        let v = vec![x; n];
        assert!(v.len() == n && same(&a[k..], &v));
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(v[i] == x);
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_try_into() {
        let a = any_vec();
        let r: Result<[u8; 4], _> = a[..].try_into();
        assert!(r.is_ok() == (a.len() == 4));
        if let Ok(t) = r {
            assert!(same(&t, &a));
        }
        let r: Result<&[u8; 4], _> = (&a[..]).try_into();
        assert!(r.is_ok() == (a.len() == 4));
        if let Ok(t) = r {
            assert!(same(t, &a));
        }
    }
    /// the contract of io::Read::read for a source that holds `rem` and does not fail
    fn read_contract<R: Read>(r: &mut R, rem: &[u8], after: impl Fn(&R) -> Vec<u8>) {
        let mut buf = any_vec();
        let n0 = buf.len();
        let n = r.read(&mut buf).unwrap();
        assert!(buf.len() == n0 && n <= n0 && n <= rem.len());
        assert!(same(&buf[..n], &rem[..n]));
        assert!(!(n == 0 && n0 > 0) || rem.is_empty());
        assert!(same(&after(r), &rem[n..]));
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_read_slice() {
        let a = any_vec();
        let mut r = &a[..];
        read_contract(&mut r, &a, |r| r.to_vec());
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_read_cursor() {
        let a = any_vec();
        let mut r = Cursor::new(&a[..]);
        assert!(r.position() == 0);
        let p: u64 = kani::any();
        kani::assume(p <= a.len() as u64);
        r.set_position(p);
        read_contract(&mut r, &a[p as usize..], |r| a[r.position() as usize..].to_vec());
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_read_cursor_vec() {
        let a = any_vec();
        let mut r = Cursor::new(a.clone());
        let p: u64 = kani::any();
        kani::assume(p <= a.len() as u64);
        r.set_position(p);
        read_contract(&mut r, &a[p as usize..], |r| a[r.position() as usize..].to_vec());
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_read_to_end() {
        let a = any_vec();
        let b = any_vec();
        let mut buf = b.clone();
        let mut r = Cursor::new(&a[..]);
        let n = r.read_to_end(&mut buf).unwrap();
        assert!(n == a.len() && same(&buf[..b.len()], &b) && same(&buf[b.len()..], &a) && r.position() == a.len() as u64);
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_write_vec() {
        let a = any_vec();
        let d = any_vec();
        let mut v = a.clone();
        let n = v.write(&d).unwrap();
        assert!(n <= d.len() && same(&v[..a.len()], &a) && same(&v[a.len()..], &d[..n]));
        let mut v = a.clone();
        assert!(v.write_all(&d).is_ok() && v.flush().is_ok());
        assert!(same(&v[..a.len()], &a) && same(&v[a.len()..], &d));
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_write_slice() {
        let mut a = any_vec();
        let o = a.clone();
        let d = any_vec();
        let k = if d.len() < o.len() { d.len() } else { o.len() };
        {
            let mut s = &mut a[..];
            let n = s.write(&d).unwrap();
            assert!(n == k && s.len() == o.len() - k && same(s, &o[k..]));
        }
        assert!(same(&a[..k], &d[..k]) && same(&a[k..], &o[k..]));
    }
    /// the shape that rules R6 and R7 give to loops over iterator adaptors visits the same elements in the same order
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_chunks() {
        let a = any_vec();
        let n: usize = kani::any();
        kani::assume(n > 0 && n <= L + 1);
        let mut it = a.chunks(n);
        let mut k = 0;
        while k < a.len() {
            let hi = if a.len() - k < n { a.len() } else { k + n };
            let c = it.next();
            assert!(c.is_some() && same(c.unwrap(), &a[k..hi]));
            k = hi;
        }
        assert!(it.next().is_none());
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_enumerate_zip() {
        let mut a = any_vec();
        let mut b = any_vec();
        let n: usize = kani::any();
        kani::assume(n <= L + 1);
        let (a0, b0) = (a.clone(), b.clone());
        let mut count = 0;
        for (i, v) in a.iter_mut().enumerate().take(n) {
            assert!(i == count && *v == a0[i]);
            *v = 0;
            count += 1;
        }
        let m = if a0.len() < n { a0.len() } else { n };
        assert!(count == m && same(&a[m..], &a0[m..]));
        count = 0;
        for (x, y) in b.iter_mut().zip(a0.iter()) {
            assert!(*x == b0[count] && *y == a0[count]);
            *x = 1;
            count += 1;
        }
        let m = if a0.len() < b0.len() { a0.len() } else { b0.len() };
        assert!(count == m && same(&b[m..], &b0[m..]));
    }
    #[kani::proof]
    #[kani::unwind(12)]
    fn upto_zip_extend() {
        let a = any_vec();
        let b = any_vec();
        let mut r: Vec<u8> = Vec::new();
        r.extend(a.iter().zip(b.iter()).map(|(x, y)| x ^ y));
        let m = if a.len() < b.len() { a.len() } else { b.len() };
        assert!(r.len() == m);
        let i: usize = kani::any();
        kani::assume(i < m);
        assert!(r[i] == a[i] ^ b[i]);
        let mut c = [0u8; L];
        c[..a.len()].clone_from_slice(&a);
        assert!(same(&c[..a.len()], &a));
    }
    #[kani::proof]
    fn all_default() {
        let (a, b): ([u32; 5], [u32; 4]) = (Default::default(), Default::default());
        assert!(a == [0; 5] && b == [0; 4]);
    }
    #[kani::proof]
    fn all_io_error() {
        use std::io::{Error, ErrorKind};
        let k = ErrorKind::Interrupted;
        let e = Error::from(k);
        assert!(e.kind() == k && e.kind() != ErrorKind::UnexpectedEof);
    }
}
