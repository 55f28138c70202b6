use crate::plonk::Assigned;
use ff::Field;
use std::ops::{Add, Mul, Neg, Sub};

/// A value that might exist within a circuit.
#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Self { inner: None }
    }
    pub const fn known(value: V) -> Self {
        Self { inner: Some(value) }
    }
    pub fn inner(self) -> Option<V> {
        self.inner
    }
    pub fn assign(self) -> Result<V, crate::plonk::Error> {
        self.inner.ok_or(crate::plonk::Error::Synthesis)
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn is_none(&self) -> bool {
        self.inner.is_none()
    }
    pub fn assert_if_known<P: FnOnce(&V) -> bool>(&self, p: P) {
        if let Some(v) = self.inner.as_ref() {
            assert!(p(v));
        }
    }
    pub fn error_if_known_and<P: FnOnce(&V) -> bool>(&self, p: P) -> Result<(), crate::plonk::Error> {
        match self.inner.as_ref() {
            Some(v) if p(v) => Err(crate::plonk::Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn map<W, F: FnOnce(V) -> W>(self, f: F) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, F: FnOnce(V) -> Value<W>>(self, f: F) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, other: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(other.inner) }
    }
    pub fn to_field<F: Field>(&self) -> Value<Assigned<F>>
    where
        for<'v> Assigned<F>: From<&'v V>,
    {
        Value { inner: self.inner.as_ref().map(|v| v.into()) }
    }
    pub fn into_field<F: Field>(self) -> Value<Assigned<F>>
    where
        V: Into<Assigned<F>>,
    {
        Value { inner: self.inner.map(|v| v.into()) }
    }
    pub fn double(self) -> Value<V>
    where
        V: Add<Output = V> + Clone,
    {
        Value { inner: self.inner.map(|v| v.clone() + v) }
    }
    pub fn square(self) -> Value<V>
    where
        V: Mul<Output = V> + Clone,
    {
        Value { inner: self.inner.map(|v| v.clone() * v) }
    }
}
impl<V, W> Value<(V, W)> {
    pub fn unzip(self) -> (Value<V>, Value<W>) {
        match self.inner {
            Some((a, b)) => (Value::known(a), Value::known(b)),
            None => (Value::unknown(), Value::unknown()),
        }
    }
}
impl<V> Value<&V> {
    pub fn copied(self) -> Value<V>
    where
        V: Copy,
    {
        Value { inner: self.inner.copied() }
    }
    pub fn cloned(self) -> Value<V>
    where
        V: Clone,
    {
        Value { inner: self.inner.cloned() }
    }
}
impl<V, const LEN: usize> Value<[V; LEN]> {
    pub fn transpose_array(self) -> [Value<V>; LEN] {
        let mut it = self.inner.map(|a| a.into_iter());
        [(); LEN].map(|_| Value { inner: it.as_mut().and_then(|i| i.next()) })
    }
}
impl<V, I: IntoIterator<Item = V>> Value<I> {
    pub fn transpose_vec(self, length: usize) -> Vec<Value<V>> {
        match self.inner {
            Some(v) => v.into_iter().map(Value::known).collect(),
            None => (0..length).map(|_| Value::unknown()).collect(),
        }
    }
}
impl<F: Field> Value<Assigned<F>> {
    pub fn evaluate(self) -> Value<F> {
        Value { inner: self.inner.map(|v| v.evaluate()) }
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(iter: I) -> Self {
        Self { inner: iter.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        Value { inner: self.inner.map(|v| -v) }
    }
}
macro_rules! op {
    ($tr:ident, $f:ident) => {
        impl<V, O> $tr for Value<V>
        where
            V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, r: Self) -> Value<O> {
                Value { inner: self.inner.zip(r.inner).map(|(a, b)| $tr::$f(a, b)) }
            }
        }
        impl<V, O> $tr for &Value<V>
        where
            for<'v> &'v V: $tr<Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, r: Self) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(r.inner.as_ref()).map(|(a, b)| $tr::$f(a, b)) }
            }
        }
        impl<V, O> $tr<Value<V>> for &Value<V>
        where
            for<'v> &'v V: $tr<V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, r: Value<V>) -> Value<O> {
                Value { inner: self.inner.as_ref().zip(r.inner).map(|(a, b)| $tr::$f(a, b)) }
            }
        }
        impl<V, O> $tr<&Value<V>> for Value<V>
        where
            for<'v> V: $tr<&'v V, Output = O>,
        {
            type Output = Value<O>;
            fn $f(self, r: &Value<V>) -> Value<O> {
                Value { inner: self.inner.zip(r.inner.as_ref()).map(|(a, b)| $tr::$f(a, b)) }
            }
        }
    };
}
op!(Add, add);
op!(Sub, sub);
op!(Mul, mul);
