//@module crypto::wrapping
//@trait ToWrapping
    spec fn wide(self) -> u64;
//@fn ToWrapping::to_w64
    ensures r.0 == self.wide(),
//@fn ToWrapping::to_w32
    ensures r.0 == self.wide() as u32,
//@fn ToWrapping::to_w16
    ensures r.0 == self.wide() as u16,
//@fn ToWrapping::to_w8
    ensures r.0 == self.wide() as u8,
//@impl <Wrapping < u64 > as ToWrapping>
    open spec fn wide(self) -> u64 { self.0 as u64 }
//@fn w64
    ensures r.0 == val,
//@fn <Wrapping < u64 > as ToWrapping>::to_w8
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 8u64) - 1) as u64) == (x as u8) as u64) by (bit_vector); assert(((1u64 << 8u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u64 > as ToWrapping>::to_w16
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 16u64) - 1) as u64) == (x as u16) as u64) by (bit_vector); assert(((1u64 << 16u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u64 > as ToWrapping>::to_w32
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 32u64) - 1) as u64) == (x as u32) as u64) by (bit_vector); assert(((1u64 << 32u64) - 1) >= 0) by (bit_vector); }
//@impl <Wrapping < u32 > as ToWrapping>
    open spec fn wide(self) -> u64 { self.0 as u64 }
//@fn w32
    ensures r.0 == val,
//@fn <Wrapping < u32 > as ToWrapping>::to_w8
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 8u64) - 1) as u64) == (x as u8) as u64) by (bit_vector); assert(((1u64 << 8u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u32 > as ToWrapping>::to_w16
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 16u64) - 1) as u64) == (x as u16) as u64) by (bit_vector); assert(((1u64 << 16u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u32 > as ToWrapping>::to_w32
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 32u64) - 1) as u64) == (x as u32) as u64) by (bit_vector); assert(((1u64 << 32u64) - 1) >= 0) by (bit_vector); }
//@impl <Wrapping < u16 > as ToWrapping>
    open spec fn wide(self) -> u64 { self.0 as u64 }
//@fn w16
    ensures r.0 == val,
//@fn <Wrapping < u16 > as ToWrapping>::to_w8
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 8u64) - 1) as u64) == (x as u8) as u64) by (bit_vector); assert(((1u64 << 8u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u16 > as ToWrapping>::to_w16
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 16u64) - 1) as u64) == (x as u16) as u64) by (bit_vector); assert(((1u64 << 16u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u16 > as ToWrapping>::to_w32
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 32u64) - 1) as u64) == (x as u32) as u64) by (bit_vector); assert(((1u64 << 32u64) - 1) >= 0) by (bit_vector); }
//@impl <Wrapping < u8 > as ToWrapping>
    open spec fn wide(self) -> u64 { self.0 as u64 }
//@fn w8
    ensures r.0 == val,
//@fn <Wrapping < u8 > as ToWrapping>::to_w8
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 8u64) - 1) as u64) == (x as u8) as u64) by (bit_vector); assert(((1u64 << 8u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u8 > as ToWrapping>::to_w16
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 16u64) - 1) as u64) == (x as u16) as u64) by (bit_vector); assert(((1u64 << 16u64) - 1) >= 0) by (bit_vector); }
//@fn <Wrapping < u8 > as ToWrapping>::to_w32
//@hint start
    proof { let x = self.0 as u64; assert(x & (((1u64 << 32u64) - 1) as u64) == (x as u32) as u64) by (bit_vector); assert(((1u64 << 32u64) - 1) >= 0) by (bit_vector); }
