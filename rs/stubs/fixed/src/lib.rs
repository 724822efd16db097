//! Offline stand-in for the `fixed` crate (blockworks fork, 1.11), written from its
//! documentation.  The real crate is not available in the sandbox.
//!
//! Semantics implemented (and assumed by the verifier as the dependency contract):
//!   add/sub/neg           exact on the bits, panic on i128/u128 overflow
//!   mul                   floor(a*b / 2^F), panic on overflow
//!   div                   trunc((a<<F) / b), panic on overflow and on b == 0
//!   to integer            floor, panic if it does not fit
//!   from integer          exact, panic if it does not fit
//!   from float            nearest, ties to even; panic if not finite / does not fit
//!   to float              nearest, ties to even
#![allow(clippy::all)]
use core::cmp::Ordering;
use core::fmt;
use core::iter::Sum;
use core::ops::*;
use core::str::FromStr;

/// Unsigned 256 bit value as (hi, lo)
#[inline]
fn wide_mul_u128(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = (1u128 << 64) - 1;
    let (a1, a0) = (a >> 64, a & M);
    let (b1, b0) = (b >> 64, b & M);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
    let lo = (p00 & M) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}
/// floor division of (hi,lo) by d, None if the quotient does not fit u128
fn wide_div_u128(hi: u128, lo: u128, d: u128) -> Option<(u128, u128)> {
    if d == 0 || hi >= d {
        return None;
    }
    if hi == 0 {
        return Some((lo / d, lo % d));
    }
    let mut rem = hi;
    let mut q = 0u128;
    let mut i = 128;
    while i > 0 {
        i -= 1;
        let top = rem >> 127;
        rem = (rem << 1) | ((lo >> i) & 1);
        q <<= 1;
        if top == 1 || rem >= d {
            rem = rem.wrapping_sub(d);
            q |= 1;
        }
    }
    Some((q, rem))
}

/// value = bits / 2^frac, from any numeric type
#[derive(Clone, Copy)]
pub enum Num {
    /// exact rational: (negative, magnitude, number of fractional bits)
    Fix(bool, u128, u32),
    NotFinite,
    /// magnitude does not fit the above
    TooBig,
}

pub mod traits {
    use super::Num;
    pub trait ToFixed {
        fn to_num_repr(self) -> Num;
    }
    pub trait FromFixed: Sized {
        /// None on overflow
        fn from_repr(neg: bool, mag: u128, frac: u32) -> Option<Self>;
    }
}
use traits::*;

macro_rules! int_conv {
    ($($t:ty),*) => {$(
        impl ToFixed for $t {
            #[inline]
            fn to_num_repr(self) -> Num {
                #[allow(unused_comparisons)]
                let neg = self < 0;
                let mag = if neg { (self as i128).unsigned_abs() } else { self as u128 };
                Num::Fix(neg, mag, 0)
            }
        }
        impl FromFixed for $t {
            #[inline]
            fn from_repr(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                let q = if frac >= 128 { 0 } else { mag >> frac };
                let exact = if frac >= 128 { mag == 0 } else { (q << frac) == mag };
                if neg {
                    let m = if exact { q } else { q + 1 };
                    if m > (1u128 << 127) { return None; }
                    let v = (m as i128).wrapping_neg();
                    <$t>::try_from(v).ok()
                } else {
                    <$t>::try_from(q).ok()
                }
            }
        }
    )*}
}
int_conv!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

impl ToFixed for bool {
    fn to_num_repr(self) -> Num {
        Num::Fix(false, self as u128, 0)
    }
}
impl ToFixed for f64 {
    fn to_num_repr(self) -> Num {
        if !self.is_finite() {
            return Num::NotFinite;
        }
        let bits = self.to_bits();
        let neg = bits >> 63 == 1;
        let exp = ((bits >> 52) & 0x7ff) as i32;
        let m = bits & ((1u64 << 52) - 1);
        let (m, e) = if exp == 0 {
            (m, -1074)
        } else {
            (m | (1u64 << 52), exp - 1075)
        };
        // value = m * 2^e
        if m == 0 {
            return Num::Fix(false, 0, 0);
        }
        if e >= 0 {
            if e > 74 {
                return Num::TooBig;
            }
            Num::Fix(neg, (m as u128) << e, 0)
        } else {
            Num::Fix(neg, m as u128, (-e) as u32)
        }
    }
}
impl ToFixed for f32 {
    fn to_num_repr(self) -> Num {
        (self as f64).to_num_repr()
    }
}
impl FromFixed for f64 {
    fn from_repr(neg: bool, mag: u128, frac: u32) -> Option<Self> {
        // u128 as f64 rounds to nearest even; scaling by a power of two is exact here
        let v = (mag as f64) * (2f64).powi(-(frac as i32));
        Some(if neg { -v } else { v })
    }
}
impl FromFixed for f32 {
    fn from_repr(neg: bool, mag: u128, frac: u32) -> Option<Self> {
        let v = ((mag as f32) as f64) * (2f64).powi(-(frac as i32));
        Some((if neg { -v } else { v }) as f32)
    }
}

macro_rules! fixed_type {
    ($name:ident, $inner:ty, $frac:expr, $signed:expr) => {
        #[derive(Copy, Clone, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(transparent)]
        pub struct $name {
            bits: $inner,
        }
        unsafe impl bytemuck::Zeroable for $name {}
        unsafe impl bytemuck::Pod for $name {}

        impl $name {
            pub const ZERO: $name = $name { bits: 0 };
            pub const ONE: $name = $name { bits: 1 << $frac };
            pub const DELTA: $name = $name { bits: 1 };
            pub const MAX: $name = $name { bits: <$inner>::MAX };
            pub const MIN: $name = $name { bits: <$inner>::MIN };
            pub const FRAC: u32 = $frac;
            #[inline]
            pub const fn from_bits(bits: $inner) -> Self {
                Self { bits }
            }
            #[inline]
            pub const fn to_bits(self) -> $inner {
                self.bits
            }
            #[inline]
            pub const fn is_zero(self) -> bool {
                self.bits == 0
            }
            fn of_repr(r: Num) -> Option<Self> {
                match r {
                    Num::NotFinite => panic!("not finite"),
                    Num::TooBig => None,
                    Num::Fix(neg, mag, frac) => {
                        // round to nearest even when coming from a float (frac > F), floor
                        // when coming from a fixed: both callers pass frac appropriately
                        let (m, exact) = if frac <= $frac {
                            let sh = $frac - frac;
                            if sh >= 128 || (mag << sh) >> sh != mag {
                                return None;
                            }
                            (mag << sh, true)
                        } else {
                            let sh = frac - $frac;
                            if sh >= 128 {
                                (0, mag == 0)
                            } else {
                                let q = mag >> sh;
                                (q, (q << sh) == mag)
                            }
                        };
                        let _ = exact;
                        Self::of_sign_mag(neg, m)
                    }
                }
            }
            fn of_repr_nearest(r: Num) -> Option<Self> {
                match r {
                    Num::Fix(neg, mag, frac) if frac > $frac => {
                        let sh = frac - $frac;
                        if sh >= 128 {
                            return Some(Self::ZERO);
                        }
                        let q = mag >> sh;
                        let r = mag & ((1u128 << sh) - 1);
                        let half = 1u128 << (sh - 1);
                        let up = r > half || (r == half && q & 1 == 1);
                        Self::of_sign_mag(neg, q + up as u128)
                    }
                    r => Self::of_repr(r),
                }
            }
            fn of_repr_floor(r: Num) -> Option<Self> {
                match r {
                    Num::Fix(neg, mag, frac) if frac > $frac && neg => {
                        let sh = frac - $frac;
                        if sh >= 128 {
                            return Self::of_sign_mag(true, (mag != 0) as u128);
                        }
                        let q = mag >> sh;
                        let up = (q << sh) != mag;
                        Self::of_sign_mag(neg, q + up as u128)
                    }
                    r => Self::of_repr(r),
                }
            }
            #[inline]
            fn of_sign_mag(neg: bool, m: u128) -> Option<Self> {
                let lim: u128 = <$inner>::MAX as u128;
                if neg {
                    if m == 0 {
                        return Some(Self::ZERO);
                    }
                    if !$signed || m > lim + 1 {
                        return None;
                    }
                    Some(Self {
                        bits: (m as $inner).wrapping_neg(),
                    })
                } else {
                    if m > lim {
                        return None;
                    }
                    Some(Self { bits: m as $inner })
                }
            }
            #[inline]
            fn sign_mag(self) -> (bool, u128) {
                #[allow(unused_comparisons)]
                if self.bits < 0 {
                    (true, (self.bits as i128).unsigned_abs())
                } else {
                    (false, self.bits as u128)
                }
            }
            #[inline]
            pub fn from_num<T: FixSrc>(v: T) -> Self {
                Self::checked_from_num(v).expect("overflow")
            }
            #[inline]
            pub fn checked_from_num<T: FixSrc>(v: T) -> Option<Self> {
                if T::FLOAT {
                    match v.to_num_repr() {
                        Num::NotFinite => None,
                        r => Self::of_repr_nearest(r),
                    }
                } else {
                    Self::of_repr_floor(v.to_num_repr())
                }
            }
            pub fn saturating_from_num<T: FixSrc>(v: T) -> Self {
                let r = v.to_num_repr();
                let neg = match r {
                    Num::Fix(n, _, _) => n,
                    _ => false,
                };
                Self::checked_from_num(v).unwrap_or(if neg { Self::MIN } else { Self::MAX })
            }
            #[inline]
            pub fn to_num<T: FromFixed>(self) -> T {
                self.checked_to_num().expect("overflow")
            }
            #[inline]
            pub fn checked_to_num<T: FromFixed>(self) -> Option<T> {
                let (n, m) = self.sign_mag();
                T::from_repr(n, m, $frac)
            }
            #[inline]
            pub const fn checked_add(self, o: Self) -> Option<Self> {
                match self.bits.checked_add(o.bits) {
                    Some(bits) => Some(Self { bits }),
                    None => None,
                }
            }
            #[inline]
            pub const fn checked_sub(self, o: Self) -> Option<Self> {
                match self.bits.checked_sub(o.bits) {
                    Some(bits) => Some(Self { bits }),
                    None => None,
                }
            }
            #[inline]
            pub fn checked_mul(self, o: Self) -> Option<Self> {
                let (n1, m1) = self.sign_mag();
                let (n2, m2) = o.sign_mag();
                let (hi, lo) = wide_mul_u128(m1, m2);
                let neg = n1 != n2;
                // magnitude >> F
                if $frac < 128 && hi >> $frac != 0 {
                    return None;
                }
                let mut m = (hi << (128 - $frac)) | (lo >> $frac);
                if neg && (lo & ((1u128 << $frac) - 1)) != 0 {
                    m = m.checked_add(1)?;
                }
                Self::of_sign_mag(neg, m)
            }
            #[inline]
            pub fn checked_div(self, o: Self) -> Option<Self> {
                let (n1, m1) = self.sign_mag();
                let (n2, m2) = o.sign_mag();
                if m2 == 0 {
                    return None;
                }
                let hi = m1 >> (128 - $frac);
                let lo = m1 << $frac;
                let (q, _) = wide_div_u128(hi, lo, m2)?;
                Self::of_sign_mag(n1 != n2, q)
            }
            #[inline]
            pub const fn checked_rem(self, o: Self) -> Option<Self> {
                match self.bits.checked_rem(o.bits) {
                    Some(bits) => Some(Self { bits }),
                    None => None,
                }
            }
            #[inline]
            pub const fn checked_mul_int(self, o: $inner) -> Option<Self> {
                match self.bits.checked_mul(o) {
                    Some(bits) => Some(Self { bits }),
                    None => None,
                }
            }
            #[inline]
            pub const fn checked_div_int(self, o: $inner) -> Option<Self> {
                match self.bits.checked_div(o) {
                    Some(bits) => Some(Self { bits }),
                    None => None,
                }
            }
            pub fn saturating_div(self, o: Self) -> Self {
                let (n1, _) = self.sign_mag();
                let (n2, m2) = o.sign_mag();
                if m2 == 0 { panic!("division by zero") }
                self.checked_div(o)
                    .unwrap_or(if n1 != n2 { Self::MIN } else { Self::MAX })
            }
            pub const fn saturating_add(self, o: Self) -> Self {
                Self {
                    bits: self.bits.saturating_add(o.bits),
                }
            }
            pub const fn saturating_sub(self, o: Self) -> Self {
                Self {
                    bits: self.bits.saturating_sub(o.bits),
                }
            }
            pub fn saturating_mul(self, o: Self) -> Self {
                let (n1, _) = self.sign_mag();
                let (n2, _) = o.sign_mag();
                self.checked_mul(o)
                    .unwrap_or(if n1 != n2 { Self::MIN } else { Self::MAX })
            }
            pub const fn wrapping_add(self, o: Self) -> Self {
                Self {
                    bits: self.bits.wrapping_add(o.bits),
                }
            }
            pub const fn wrapping_sub(self, o: Self) -> Self {
                Self {
                    bits: self.bits.wrapping_sub(o.bits),
                }
            }
            /// rounds towards -inf
            pub const fn floor(self) -> Self {
                Self {
                    bits: (self.bits >> $frac) << $frac,
                }
            }
            pub fn checked_ceil(self) -> Option<Self> {
                let f = self.floor();
                if f.bits == self.bits {
                    Some(self)
                } else {
                    f.checked_add(Self::ONE)
                }
            }
            pub fn ceil(self) -> Self {
                self.checked_ceil().expect("overflow")
            }
            /// nearest, ties away from zero
            pub fn round(self) -> Self {
                let f = self.floor();
                let r = self.bits - f.bits;
                let half = 1 << ($frac - 1);
                #[allow(unused_comparisons)]
                let up = if self.bits < 0 { r > half } else { r >= half };
                if up {
                    f.checked_add(Self::ONE).expect("overflow")
                } else {
                    f
                }
            }
            pub const fn int(self) -> Self {
                self.floor()
            }
            pub const fn frac(self) -> Self {
                Self {
                    bits: self.bits - self.floor().bits,
                }
            }
        }

        impl ToFixed for $name {
            fn to_num_repr(self) -> Num {
                let (n, m) = self.sign_mag();
                Num::Fix(n, m, $frac)
            }
        }
        impl FixSrc for $name {
            const FLOAT: bool = false;
        }
        impl FromFixed for $name {
            fn from_repr(neg: bool, mag: u128, frac: u32) -> Option<Self> {
                Self::of_repr_floor(Num::Fix(neg, mag, frac))
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(self, f)
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let (n, m) = self.sign_mag();
                let mut int = m >> $frac;
                let mut fr = m & ((1u128 << $frac) - 1);
                let digits = f.precision().unwrap_or(($frac as usize * 30103) / 100000 + 1);
                let mut s = Vec::new();
                for _ in 0..digits {
                    let (h, l) = wide_mul_u128(fr, 10);
                    let d = (h << (128 - $frac)) | (l >> $frac);
                    fr = l & ((1u128 << $frac) - 1);
                    s.push(d as u8);
                }
                if fr >> ($frac - 1) != 0 {
                    let mut i = s.len();
                    loop {
                        if i == 0 {
                            int += 1;
                            break;
                        }
                        i -= 1;
                        if s[i] == 9 {
                            s[i] = 0;
                        } else {
                            s[i] += 1;
                            break;
                        }
                    }
                }
                if f.precision().is_none() {
                    while s.last() == Some(&0) {
                        s.pop();
                    }
                }
                let mut out = int.to_string();
                if !s.is_empty() {
                    out.push('.');
                    for d in s {
                        out.push((b'0' + d) as char);
                    }
                }
                f.pad_integral(!n, "", &out)
            }
        }
        impl FromStr for $name {
            type Err = ParseFixedError;
            fn from_str(s: &str) -> Result<Self, ParseFixedError> {
                let (neg, t) = match s.strip_prefix('-') {
                    Some(t) => (true, t),
                    None => (false, s.strip_prefix('+').unwrap_or(s)),
                };
                let (i, f) = t.split_once('.').unwrap_or((t, ""));
                if i.is_empty() && f.is_empty() {
                    return Err(ParseFixedError);
                }
                let int: u128 = if i.is_empty() {
                    0
                } else {
                    i.parse().map_err(|_| ParseFixedError)?
                };
                let f = &f[..f.len().min(24)];
                let fr: u128 = if f.is_empty() {
                    0
                } else {
                    f.parse().map_err(|_| ParseFixedError)?
                };
                let den = 10u128.pow(f.len() as u32);
                let (h, l) = wide_mul_u128(fr, 1u128 << $frac);
                let (q, r) = wide_div_u128(h, l, den).ok_or(ParseFixedError)?;
                let up = r > den - r || (r == den - r && q & 1 == 1);
                if int >> (128 - $frac) != 0 {
                    return Err(ParseFixedError);
                }
                Self::of_sign_mag(neg, (int << $frac) + q + up as u128).ok_or(ParseFixedError)
            }
        }
        impl serde::Serialize for $name {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                use serde::ser::SerializeStruct;
                if s.is_human_readable() {
                    s.serialize_str(&self.to_string())
                } else {
                    let mut st = s.serialize_struct(stringify!($name), 1)?;
                    st.serialize_field("bits", &self.bits)?;
                    st.end()
                }
            }
        }
        impl<'de> serde::Deserialize<'de> for $name {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                use serde::de::Error;
                let s = String::deserialize(d)?;
                s.parse().map_err(|_| D::Error::custom("fixed"))
            }
        }
        impl borsh::BorshSerialize for $name {
            fn serialize<W: borsh::maybestd::io::Write>(
                &self,
                w: &mut W,
            ) -> borsh::maybestd::io::Result<()> {
                borsh::BorshSerialize::serialize(&self.bits, w)
            }
        }
        impl borsh::BorshDeserialize for $name {
            fn deserialize_reader<R: borsh::maybestd::io::Read>(
                r: &mut R,
            ) -> borsh::maybestd::io::Result<Self> {
                Ok(Self {
                    bits: borsh::BorshDeserialize::deserialize_reader(r)?,
                })
            }
        }
        fixed_type!(@op $name, Add, add, AddAssign, add_assign, |a: $name, b: $name| a.checked_add(b).expect("attempt to add with overflow"));
        fixed_type!(@op $name, Sub, sub, SubAssign, sub_assign, |a: $name, b: $name| a.checked_sub(b).expect("attempt to subtract with overflow"));
        fixed_type!(@op $name, Mul, mul, MulAssign, mul_assign, |a: $name, b: $name| a.checked_mul(b).expect("attempt to multiply with overflow"));
        fixed_type!(@op $name, Div, div, DivAssign, div_assign, |a: $name, b: $name| {
            if b.bits == 0 { panic!("division by zero") }
            a.checked_div(b).expect("attempt to divide with overflow")
        });
        fixed_type!(@op $name, Rem, rem, RemAssign, rem_assign, |a: $name, b: $name| a.checked_rem(b).expect("division by zero"));
        impl Sum for $name {
            fn sum<I: Iterator<Item = $name>>(i: I) -> $name {
                i.fold($name::ZERO, |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $name> for $name {
            fn sum<I: Iterator<Item = &'a $name>>(i: I) -> $name {
                i.fold($name::ZERO, |a, b| a + *b)
            }
        }
        impl Mul<$inner> for $name {
            type Output = $name;
            fn mul(self, o: $inner) -> $name {
                $name { bits: self.bits.checked_mul(o).expect("attempt to multiply with overflow") }
            }
        }
        impl Div<$inner> for $name {
            type Output = $name;
            fn div(self, o: $inner) -> $name {
                $name { bits: self.bits.checked_div(o).expect("attempt to divide with overflow") }
            }
        }
        impl Mul<$name> for $inner {
            type Output = $name;
            fn mul(self, o: $name) -> $name { o * self }
        }
        impl Shr<u32> for $name {
            type Output = $name;
            fn shr(self, o: u32) -> $name { $name { bits: self.bits >> o } }
        }
        impl Shl<u32> for $name {
            type Output = $name;
            fn shl(self, o: u32) -> $name { $name { bits: self.bits << o } }
        }
        impl Shr<i32> for $name {
            type Output = $name;
            fn shr(self, o: i32) -> $name { $name { bits: self.bits >> o } }
        }
        impl Shl<i32> for $name {
            type Output = $name;
            fn shl(self, o: i32) -> $name { $name { bits: self.bits << o } }
        }
        impl MulAssign<$inner> for $name {
            fn mul_assign(&mut self, o: $inner) { *self = *self * o; }
        }
        impl DivAssign<$inner> for $name {
            fn div_assign(&mut self, o: $inner) { *self = *self / o; }
        }
        fixed_type!(@cmp $name, i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64);
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $body:expr) => {
        impl $tr<$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name { ($body)(self, o) }
        }
        impl $tr<&$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &$name) -> $name { ($body)(self, *o) }
        }
        impl $tr<$name> for &$name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name { ($body)(*self, o) }
        }
        impl $tr<&$name> for &$name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &$name) -> $name { ($body)(*self, *o) }
        }
        impl $tra<$name> for $name {
            #[inline]
            fn $fa(&mut self, o: $name) { *self = ($body)(*self, o) }
        }
        impl $tra<&$name> for $name {
            #[inline]
            fn $fa(&mut self, o: &$name) { *self = ($body)(*self, *o) }
        }
    };
    (@cmp $name:ident, $($t:ident)*) => {$(
        impl PartialEq<$t> for $name {
            #[inline]
            fn eq(&self, o: &$t) -> bool { cmp_num(self.to_num_repr(), (*o).to_num_repr()) == Some(Ordering::Equal) }
        }
        impl PartialOrd<$t> for $name {
            #[inline]
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> { cmp_num(self.to_num_repr(), (*o).to_num_repr()) }
        }
        impl PartialEq<$name> for $t {
            #[inline]
            fn eq(&self, o: &$name) -> bool { cmp_num((*self).to_num_repr(), o.to_num_repr()) == Some(Ordering::Equal) }
        }
        impl PartialOrd<$name> for $t {
            #[inline]
            fn partial_cmp(&self, o: &$name) -> Option<Ordering> { cmp_num((*self).to_num_repr(), o.to_num_repr()) }
        }
    )*};
}

/// exact comparison (NaN/inf handled approximately: not comparable)
pub fn cmp_num(a: Num, b: Num) -> Option<Ordering> {
    match (a, b) {
        (Num::Fix(na, ma, fa), Num::Fix(nb, mb, fb)) => {
            if ma == 0 && mb == 0 {
                return Some(Ordering::Equal);
            }
            let na = na && ma != 0;
            let nb = nb && mb != 0;
            if na != nb {
                return Some(if na { Ordering::Less } else { Ordering::Greater });
            }
            // compare ma/2^fa with mb/2^fb
            let c = {
                let (ia, ib) = (sh(ma, fa), sh(mb, fb));
                if ia != ib {
                    ia.cmp(&ib)
                } else {
                    // compare the fractional parts aligned at 128 bits; longer tails are
                    // only possible for tiny floats and compared on the remaining bits
                    frac_bits(ma, fa).cmp(&frac_bits(mb, fb))
                }
            };
            Some(if na { c.reverse() } else { c })
        }
        (Num::TooBig, Num::Fix(..)) => Some(Ordering::Greater),
        (Num::Fix(..), Num::TooBig) => Some(Ordering::Less),
        _ => None,
    }
}
fn sh(m: u128, f: u32) -> u128 {
    if f >= 128 {
        0
    } else {
        m >> f
    }
}
/// fractional part as a 256 bit number (value * 2^256)
fn frac_bits(m: u128, f: u32) -> (u128, u128) {
    if f == 0 {
        return (0, 0);
    }
    if f <= 128 {
        let x = if f == 128 { m } else { m << (128 - f) };
        (x, 0)
    } else {
        let s = f - 128;
        if s < 128 {
            (m >> s, m << (128 - s))
        } else if s < 256 {
            (0, m >> (s - 128))
        } else {
            (0, (m != 0) as u128)
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseFixedError;
impl fmt::Display for ParseFixedError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("invalid fixed literal")
    }
}
impl std::error::Error for ParseFixedError {}

/// source types of `from_num`
pub trait FixSrc: ToFixed + Copy {
    const FLOAT: bool;
}
macro_rules! src { ($f:expr; $($t:ty),*) => {$( impl FixSrc for $t { const FLOAT: bool = $f; } )*} }
src!(false; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, bool);
src!(true; f32, f64);

fixed_type!(I80F48, i128, 48u32, true);
fixed_type!(U64F64, u128, 64u32, false);
fixed_type!(U80F48, u128, 48u32, false);

impl I80F48 {
    pub const fn abs(self) -> Self {
        Self { bits: self.bits.abs() }
    }
    pub fn checked_neg(self) -> Option<Self> {
        self.bits.checked_neg().map(|bits| Self { bits })
    }
    pub const fn is_negative(self) -> bool {
        self.bits < 0
    }
    pub const fn is_positive(self) -> bool {
        self.bits > 0
    }
    pub fn round_to_zero(self) -> Self {
        if self.bits < 0 { Self { bits: -((-self.bits >> 48) << 48) } } else { self.floor() }
    }
    pub fn signum(self) -> Self {
        match self.bits.signum() {
            1 => Self::ONE,
            -1 => Self { bits: -(1 << 48) },
            _ => Self::ZERO,
        }
    }
}
impl Neg for I80F48 {
    type Output = I80F48;
    #[inline]
    fn neg(self) -> I80F48 {
        I80F48 {
            bits: self.bits.checked_neg().expect("attempt to negate with overflow"),
        }
    }
}
impl Neg for &I80F48 {
    type Output = I80F48;
    #[inline]
    fn neg(self) -> I80F48 {
        -*self
    }
}
macro_rules! lossless { ($name:ident; $($t:ty),*) => {$( impl From<$t> for $name { #[inline] fn from(v: $t) -> Self { Self::from_num(v) } } )*} }
lossless!(I80F48; i8, i16, i32, i64, u8, u16, u32, u64, bool);
lossless!(U64F64; u8, u16, u32, u64, bool);
lossless!(U80F48; u8, u16, u32, u64, bool);
macro_rules! lossy { ($($t:ty),*) => {$( impl From<I80F48> for $t { fn from(v: I80F48) -> $t { v.to_num() } } )*} }
lossy!(f64);

pub mod types {
    pub use crate::{I80F48, U64F64, U80F48};
}
