"""Generates the parts of the shim that are regular: std::num::Wrapping."""

def wrapping():
    o = ['pub mod num {', 'use vstd::prelude::*;', 'use vstd::std_specs::ops::*;', 'use vstd::std_specs::cmp::*;', 'verus! {',
         '// std::num::Wrapping<T> for u8..u64: operators wrap modulo 2^N, shifts mask the amount',
         '#[derive(Copy, Clone)]', 'pub struct Wrapping<T>(pub T);']
    for t, n in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        mod = '0x1' + '0' * (n // 4)
        W = 'Wrapping<%s>' % t
        ops = [
            ('Add', 'add', W, '((self.0 + o.0) % {m}) as {t}', 'self.0.wrapping_add(o.0)'),
            ('Sub', 'sub', W, '((self.0 - o.0) % {m}) as {t}', 'self.0.wrapping_sub(o.0)'),
            ('Mul', 'mul', W, '((self.0 * o.0) % {m}) as {t}', 'self.0.wrapping_mul(o.0)'),
            ('BitXor', 'bitxor', W, 'self.0 ^ o.0', None),
            ('BitAnd', 'bitand', W, 'self.0 & o.0', None),
            ('BitOr', 'bitor', W, 'self.0 | o.0', None),
            ('Shl', 'shl', 'usize', 'self.0 << (((o % {n}) as {t}))', None),
            ('Shr', 'shr', 'usize', 'self.0 >> (((o % {n}) as {t}))', None),
        ]
        for tr, f, rhs, spec, body in ops:
            sp = spec.format(m=mod, t=t, n=n)
            bd = body or spec.format(m=mod, t=t, n=n)
            g = '<%s>' % rhs if rhs == 'usize' else ''
            for asg in (False, True):
                T = tr + ('Assign' if asg else '')
                F = f + ('_assign' if asg else '')
                if not asg:
                    o.append('''impl std::ops::{T}{g} for {W} {{ type Output = {W};
  fn {F}(self, o: {rhs}) -> (r: {W}) {{ Wrapping({bd}) }} }}
impl {T}SpecImpl{g} for {W} {{
  open spec fn obeys_{F}_spec() -> bool {{ true }}
  open spec fn {F}_req(self, o: {rhs}) -> bool {{ true }}
  open spec fn {F}_spec(self, o: {rhs}) -> {W} {{ Wrapping({sp}) }} }}'''.format(T=T, g=g, W=W, F=F, rhs=rhs, bd=bd, sp=sp))
                else:
                    o.append('''impl std::ops::{T}{g} for {W} {{
  fn {F}(&mut self, o: {rhs}) {{ self.0 = {bd}; }} }}
impl {T}SpecImpl{g} for {W} {{
  open spec fn obeys_{F}_spec() -> bool {{ true }}
  open spec fn {F}_req(&self, o: {rhs}) -> bool {{ true }}
  open spec fn {F}_spec(&self, o: {rhs}) -> &{W} {{ &Wrapping({sp}) }} }}'''.format(T=T, g=g, W=W, F=F, rhs=rhs, bd=bd, sp=sp))
        o.append('''impl std::ops::Not for {W} {{ type Output = {W};
  fn not(self) -> (r: {W}) {{ Wrapping(!self.0) }} }}
impl NotSpecImpl for {W} {{
  open spec fn obeys_not_spec() -> bool {{ true }}
  open spec fn not_req(self) -> bool {{ true }}
  open spec fn not_spec(self) -> {W} {{ Wrapping(!self.0) }} }}
impl std::cmp::PartialEq for {W} {{ fn eq(&self, o: &{W}) -> (r: bool) {{ self.0 == o.0 }} }}
impl PartialEqSpecImpl for {W} {{
  open spec fn obeys_eq_spec() -> bool {{ true }}
  open spec fn eq_spec(&self, o: &{W}) -> bool {{ self.0 == o.0 }} }}'''.format(W=W))
    o.append('} // verus!')
    o.append('pub mod traits { pub use crate::vshim::enum_primitive::FromPrimitive; }')
    o.append('} // mod num')
    return '\n'.join(o)


def shim(path):
    return open(path).read().replace('//@@WRAPPING@@', wrapping())
