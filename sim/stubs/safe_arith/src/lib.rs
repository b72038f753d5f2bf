//! Stand-in for Lighthouse's `safe_arith`: checked arithmetic.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Copy, Hash)]
pub enum ArithError {
    Overflow,
    DivisionByZero,
}
impl std::fmt::Display for ArithError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ArithError {}
pub type Result<T> = std::result::Result<T, ArithError>;

pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn safe_add(&self, other: Rhs) -> Result<Self>;
    fn safe_sub(&self, other: Rhs) -> Result<Self>;
    fn safe_mul(&self, other: Rhs) -> Result<Self>;
    fn safe_div(&self, other: Rhs) -> Result<Self>;
    fn safe_rem(&self, other: Rhs) -> Result<Self>;
    fn safe_shl(&self, other: u32) -> Result<Self>;
    fn safe_shr(&self, other: u32) -> Result<Self>;
    fn safe_add_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_add(other)?;
        Ok(())
    }
    fn safe_sub_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_sub(other)?;
        Ok(())
    }
    fn safe_mul_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_mul(other)?;
        Ok(())
    }
    fn safe_div_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_div(other)?;
        Ok(())
    }
    fn safe_rem_assign(&mut self, other: Rhs) -> Result<()> {
        *self = self.safe_rem(other)?;
        Ok(())
    }
}
macro_rules! imp { ($($t:ty),*) => {$(
    impl SafeArith for $t {
        const ZERO: Self = 0;
        const ONE: Self = 1;
        fn safe_add(&self, o: Self) -> Result<Self> { self.checked_add(o).ok_or(ArithError::Overflow) }
        fn safe_sub(&self, o: Self) -> Result<Self> { self.checked_sub(o).ok_or(ArithError::Overflow) }
        fn safe_mul(&self, o: Self) -> Result<Self> { self.checked_mul(o).ok_or(ArithError::Overflow) }
        fn safe_div(&self, o: Self) -> Result<Self> { self.checked_div(o).ok_or(ArithError::DivisionByZero) }
        fn safe_rem(&self, o: Self) -> Result<Self> { self.checked_rem(o).ok_or(ArithError::DivisionByZero) }
        fn safe_shl(&self, o: u32) -> Result<Self> { self.checked_shl(o).ok_or(ArithError::Overflow) }
        fn safe_shr(&self, o: u32) -> Result<Self> { self.checked_shr(o).ok_or(ArithError::Overflow) }
    }
)*} }
imp!(u8, u16, u32, u64, u128, usize, i64);

/// Extension trait for iterators, providing a safe sum.
pub trait SafeArithIter<T> {
    fn safe_sum(self) -> Result<T>;
}
impl<I, T> SafeArithIter<T> for I
where
    I: Iterator<Item = T>,
    T: SafeArith,
{
    fn safe_sum(mut self) -> Result<T> {
        self.try_fold(T::ZERO, |acc, x| acc.safe_add(x))
    }
}
