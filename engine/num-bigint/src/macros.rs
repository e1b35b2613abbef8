macro_rules! binop {
    ($Ty:ident, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:expr) => {
        impl<'a, 'b> $Tr<&'b $Ty> for &'a $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$Ty) -> $Ty {
                $f(self, o)
            }
        }
        impl<'a> $Tr<&'a $Ty> for $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$Ty) -> $Ty {
                $f(&self, o)
            }
        }
        impl<'a> $Tr<$Ty> for &'a $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $Ty) -> $Ty {
                $f(self, &o)
            }
        }
        impl $Tr<$Ty> for $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $Ty) -> $Ty {
                $f(&self, &o)
            }
        }
        impl<'a> $TrA<&'a $Ty> for $Ty {
            #[inline]
            fn $ma(&mut self, o: &$Ty) {
                *self = $f(self, o);
            }
        }
        impl $TrA<$Ty> for $Ty {
            #[inline]
            fn $ma(&mut self, o: $Ty) {
                *self = $f(self, &o);
            }
        }
    };
}

macro_rules! scalar_op {
    ($Ty:ident, $Tr:ident, $m:ident, $TrA:ident, $ma:ident, $f:expr; $($s:ty),*) => {$(
        impl $Tr<$s> for $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $s) -> $Ty { $f(&self, &<$Ty>::from(o)) }
        }
        impl<'a> $Tr<&'a $s> for $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$s) -> $Ty { $f(&self, &<$Ty>::from(*o)) }
        }
        impl<'a> $Tr<$s> for &'a $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $s) -> $Ty { $f(self, &<$Ty>::from(o)) }
        }
        impl<'a, 'b> $Tr<&'b $s> for &'a $Ty {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$s) -> $Ty { $f(self, &<$Ty>::from(*o)) }
        }
        impl $Tr<$Ty> for $s {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $Ty) -> $Ty { $f(&<$Ty>::from(self), &o) }
        }
        impl<'a> $Tr<&'a $Ty> for $s {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$Ty) -> $Ty { $f(&<$Ty>::from(self), o) }
        }
        impl<'a> $Tr<$Ty> for &'a $s {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: $Ty) -> $Ty { $f(&<$Ty>::from(*self), &o) }
        }
        impl<'a, 'b> $Tr<&'b $Ty> for &'a $s {
            type Output = $Ty;
            #[inline]
            fn $m(self, o: &$Ty) -> $Ty { $f(&<$Ty>::from(*self), o) }
        }
        impl $TrA<$s> for $Ty {
            #[inline]
            fn $ma(&mut self, o: $s) { *self = $f(self, &<$Ty>::from(o)); }
        }
    )*};
}

macro_rules! all_ops {
    ($Ty:ident; $($s:ty),*) => {
        binop!($Ty, Add, add, AddAssign, add_assign, f_add);
        binop!($Ty, Sub, sub, SubAssign, sub_assign, f_sub);
        binop!($Ty, Mul, mul, MulAssign, mul_assign, f_mul);
        binop!($Ty, Div, div, DivAssign, div_assign, f_div);
        binop!($Ty, Rem, rem, RemAssign, rem_assign, f_rem);
        binop!($Ty, BitAnd, bitand, BitAndAssign, bitand_assign, f_and);
        binop!($Ty, BitOr, bitor, BitOrAssign, bitor_assign, f_or);
        binop!($Ty, BitXor, bitxor, BitXorAssign, bitxor_assign, f_xor);
        scalar_op!($Ty, Add, add, AddAssign, add_assign, f_add; $($s),*);
        scalar_op!($Ty, Sub, sub, SubAssign, sub_assign, f_sub; $($s),*);
        scalar_op!($Ty, Mul, mul, MulAssign, mul_assign, f_mul; $($s),*);
        scalar_op!($Ty, Div, div, DivAssign, div_assign, f_div; $($s),*);
        scalar_op!($Ty, Rem, rem, RemAssign, rem_assign, f_rem; $($s),*);

        impl Shl<usize> for $Ty { type Output = $Ty; fn shl(self, k: usize) -> $Ty { f_shl(&self, k) } }
        impl<'a> Shl<usize> for &'a $Ty { type Output = $Ty; fn shl(self, k: usize) -> $Ty { f_shl(self, k) } }
        impl ShlAssign<usize> for $Ty { fn shl_assign(&mut self, k: usize) { *self = f_shl(self, k); } }
        impl Shr<usize> for $Ty { type Output = $Ty; fn shr(self, k: usize) -> $Ty { f_shr(&self, k) } }
        impl<'a> Shr<usize> for &'a $Ty { type Output = $Ty; fn shr(self, k: usize) -> $Ty { f_shr(self, k) } }
        impl ShrAssign<usize> for $Ty { fn shr_assign(&mut self, k: usize) { *self = f_shr(self, k); } }

        impl PartialEq for $Ty { fn eq(&self, o: &$Ty) -> bool { self.0.eq(&o.0) } }
        impl Eq for $Ty {}
        impl Ord for $Ty { fn cmp(&self, o: &$Ty) -> Ordering { self.0.cmp(&o.0) } }
        impl PartialOrd for $Ty {
            fn partial_cmp(&self, o: &$Ty) -> Option<Ordering> { Some(self.cmp(o)) }
            fn lt(&self, o: &$Ty) -> bool { self.0.lt(&o.0) }
            fn le(&self, o: &$Ty) -> bool { self.0.le(&o.0) }
            fn gt(&self, o: &$Ty) -> bool { o.0.lt(&self.0) }
            fn ge(&self, o: &$Ty) -> bool { o.0.le(&self.0) }
        }
        // equal values must hash alike, and equality may be a branch: one bucket
        impl std::hash::Hash for $Ty { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { h.write_u8(7) } }
        impl Default for $Ty { fn default() -> $Ty { Zero::zero() } }
        impl Zero for $Ty {
            fn zero() -> $Ty { $Ty(T::C(Big::zero())) }
            fn set_zero(&mut self) { self.0 = T::C(Big::zero()) }
            fn is_zero(&self) -> bool { self.0.is_zero() }
        }
        impl One for $Ty {
            fn one() -> $Ty { $Ty(T::C(Big::one())) }
            fn set_one(&mut self) { self.0 = T::C(Big::one()) }
            fn is_one(&self) -> bool { self.0.eq(&T::int(1)) }
        }
        impl fmt::Display for $Ty {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let (n, s) = crate::digits10(&self.0);
                f.pad_integral(!n, "", &s)
            }
        }
        impl fmt::Debug for $Ty { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
        impl fmt::LowerHex for $Ty { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::LowerHex::fmt(&self.real(), f) } }
        impl fmt::UpperHex for $Ty { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::UpperHex::fmt(&self.real(), f) } }
        impl fmt::Binary for $Ty { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Binary::fmt(&self.real(), f) } }
        impl fmt::Octal for $Ty { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Octal::fmt(&self.real(), f) } }
        impl FromStr for $Ty {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<$Ty, ParseBigIntError> { <$Ty as Num>::from_str_radix(s, 10) }
        }
        impl<X> Sum<X> for $Ty where $Ty: Add<X, Output = $Ty> {
            fn sum<I: Iterator<Item = X>>(iter: I) -> Self { iter.fold(Zero::zero(), <$Ty>::add) }
        }
        impl<X> Product<X> for $Ty where $Ty: Mul<X, Output = $Ty> {
            fn product<I: Iterator<Item = X>>(iter: I) -> Self { iter.fold(One::one(), <$Ty>::mul) }
        }
        impl CheckedAdd for $Ty { fn checked_add(&self, v: &$Ty) -> Option<$Ty> { Some(self + v) } }
        impl CheckedMul for $Ty { fn checked_mul(&self, v: &$Ty) -> Option<$Ty> { Some(self * v) } }
        impl CheckedDiv for $Ty { fn checked_div(&self, v: &$Ty) -> Option<$Ty> { if v.is_zero() { None } else { Some(self / v) } } }
        impl ToPrimitive for $Ty {
            fn to_i64(&self) -> Option<i64> { prim!(self, i64) }
            fn to_u64(&self) -> Option<u64> { prim!(self, u64) }
            fn to_i128(&self) -> Option<i128> { prim!(self, i128) }
            fn to_u128(&self) -> Option<u128> { prim!(self, u128) }
            fn to_isize(&self) -> Option<isize> { prim!(self, isize) }
            fn to_usize(&self) -> Option<usize> { prim!(self, usize) }
            fn to_i32(&self) -> Option<i32> { prim!(self, i32) }
            fn to_u32(&self) -> Option<u32> { prim!(self, u32) }
            fn to_i16(&self) -> Option<i16> { prim!(self, i16) }
            fn to_u16(&self) -> Option<u16> { prim!(self, u16) }
            fn to_i8(&self) -> Option<i8> { prim!(self, i8) }
            fn to_u8(&self) -> Option<u8> { prim!(self, u8) }
            fn to_f32(&self) -> Option<f32> { self.real().to_f32() }
            fn to_f64(&self) -> Option<f64> { self.real().to_f64() }
        }
    };
}

macro_rules! prim {
    ($self:ident, $t:ty) => {
        $self.0.to_prim(&Big::from(<$t>::MIN), &Big::from(<$t>::MAX)).map(|v| v.to_string().parse::<$t>().unwrap())
    };
}
