//! Signatures of the public API over safe owners of the standard library. Nothing here runs.
//! With cfg(strict) every handle has a destructor that may look at its items.
#![allow(unused, dead_code, unconditional_recursion)]
pub mod base {
    use std::ops::{Deref, DerefMut};
    macro_rules! strict { ($($n:ident)*) => { $(#[cfg(strict)] impl<T> Drop for $n<T> { fn drop(&mut self) {} })* } }
    macro_rules! family {
        ($m:ident, $own:ident, $Sh:ident, $Wk:ident, $Pa:ident, $Mu:ident, $MI:ident, $MP:ident, $Ptr:path, $WPtr:path) => {
            pub mod $m {
                use super::*;
                use $Ptr as Ptr;
                use $WPtr as WPtr;
                pub struct $Sh<T>(Option<Ptr<[T]>>);
                pub struct $Wk<T>(Option<WPtr<[T]>>);
                pub struct $Pa<T>(Option<Ptr<[T]>>);
                pub struct $Mu<T>(Vec<T>);
                pub struct $MI<T>(Option<std::vec::IntoIter<T>>);
                pub struct $MP<T>(Option<std::vec::IntoIter<Vec<T>>>);
                strict!($Sh $Wk $Pa $Mu $MI $MP);
                impl<T> $Sh<T> {
                    pub fn from_boxed_slice(slice: Box<[T]>) -> Self { loop {} }
                    pub fn from_vec(vec: Vec<T>) -> Self { loop {} }
                    pub fn clone_left(this: &Self) -> Self { loop {} }
                    pub fn clone_right(this: &Self) -> Self { loop {} }
                    pub fn split_off_left(this: &mut Self) -> Self { loop {} }
                    pub fn split_off_right(this: &mut Self) -> Self { loop {} }
                    pub fn split_into_parts(this: Self, n: usize) -> $Pa<T> { loop {} }
                    pub fn get_mut(this: &mut Self) -> Option<&mut [T]> { loop {} }
                    pub fn into_mut(this: Self) -> Result<$Mu<T>, Self> { loop {} }
                    pub fn downgrade(this: &Self) -> $Wk<T> { loop {} }
                }
                impl<T> Clone for $Sh<T> { fn clone(&self) -> Self { loop {} } }
                impl<T> Deref for $Sh<T> { type Target = [T]; fn deref(&self) -> &[T] { loop {} } }
                impl<T> AsRef<[T]> for $Sh<T> { fn as_ref(&self) -> &[T] { loop {} } }
                impl<T> std::borrow::Borrow<[T]> for $Sh<T> { fn borrow(&self) -> &[T] { loop {} } }
                impl<T> From<Vec<T>> for $Sh<T> { fn from(v: Vec<T>) -> Self { loop {} } }
                impl<T> From<Box<[T]>> for $Sh<T> { fn from(v: Box<[T]>) -> Self { loop {} } }
                impl<T> From<$Mu<T>> for $Sh<T> { fn from(v: $Mu<T>) -> Self { loop {} } }
                impl<T> std::iter::FromIterator<T> for $Sh<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { loop {} } }
                impl<T> $Wk<T> {
                    pub fn new() -> Self { loop {} }
                    pub fn upgrade(&self) -> Option<$Sh<T>> { loop {} }
                }
                impl<T> Clone for $Wk<T> { fn clone(&self) -> Self { loop {} } }
                impl<T> $Pa<T> { pub fn as_slice(&self) -> &[T] { loop {} } }
                impl<T> Clone for $Pa<T> { fn clone(&self) -> Self { loop {} } }
                impl<T> Iterator for $Pa<T> { type Item = $Sh<T>; fn next(&mut self) -> Option<$Sh<T>> { loop {} } }
                impl<T> DoubleEndedIterator for $Pa<T> { fn next_back(&mut self) -> Option<$Sh<T>> { loop {} } }
                impl<T> ExactSizeIterator for $Pa<T> {}
                impl<T> $Mu<T> {
                    pub fn from_boxed_slice(slice: Box<[T]>) -> Self { loop {} }
                    pub fn from_vec(vec: Vec<T>) -> Self { loop {} }
                    pub fn split_off_left(this: &mut Self) -> Self { loop {} }
                    pub fn split_off_right(this: &mut Self) -> Self { loop {} }
                    pub fn split_into_parts(this: Self, n: usize) -> $MP<T> { loop {} }
                    pub fn into_immut(this: Self) -> $Sh<T> { loop {} }
                }
                impl<T> Deref for $Mu<T> { type Target = [T]; fn deref(&self) -> &[T] { loop {} } }
                impl<T> DerefMut for $Mu<T> { fn deref_mut(&mut self) -> &mut [T] { loop {} } }
                impl<T> AsRef<[T]> for $Mu<T> { fn as_ref(&self) -> &[T] { loop {} } }
                impl<T> AsMut<[T]> for $Mu<T> { fn as_mut(&mut self) -> &mut [T] { loop {} } }
                impl<T> std::borrow::Borrow<[T]> for $Mu<T> { fn borrow(&self) -> &[T] { loop {} } }
                impl<T> std::borrow::BorrowMut<[T]> for $Mu<T> { fn borrow_mut(&mut self) -> &mut [T] { loop {} } }
                impl<T> From<Vec<T>> for $Mu<T> { fn from(v: Vec<T>) -> Self { loop {} } }
                impl<T> From<Box<[T]>> for $Mu<T> { fn from(v: Box<[T]>) -> Self { loop {} } }
                impl<T> std::convert::TryFrom<$Sh<T>> for $Mu<T> { type Error = $Sh<T>; fn try_from(v: $Sh<T>) -> Result<Self, $Sh<T>> { loop {} } }
                impl<T> std::iter::FromIterator<T> for $Mu<T> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { loop {} } }
                impl<T: Clone> Clone for $Mu<T> { fn clone(&self) -> Self { loop {} } }
                impl<T> IntoIterator for $Mu<T> { type Item = T; type IntoIter = $MI<T>; fn into_iter(self) -> $MI<T> { loop {} } }
                impl<T> $MI<T> {
                    pub fn as_slice(&self) -> &[T] { loop {} }
                    pub fn as_mut_slice(&mut self) -> &mut [T] { loop {} }
                    pub fn split_off_from(&mut self, at: usize) -> Self { loop {} }
                    pub fn split_off_to(&mut self, at: usize) -> Self { loop {} }
                }
                impl<T> Iterator for $MI<T> { type Item = T; fn next(&mut self) -> Option<T> { loop {} } }
                impl<T> DoubleEndedIterator for $MI<T> { fn next_back(&mut self) -> Option<T> { loop {} } }
                impl<T> ExactSizeIterator for $MI<T> {}
                impl<T> $MP<T> {
                    pub fn as_slice(&self) -> &[T] { loop {} }
                    pub fn as_mut_slice(&mut self) -> &mut [T] { loop {} }
                }
                impl<T> Iterator for $MP<T> { type Item = $Mu<T>; fn next(&mut self) -> Option<$Mu<T>> { loop {} } }
                impl<T> DoubleEndedIterator for $MP<T> { fn next_back(&mut self) -> Option<$Mu<T>> { loop {} } }
                impl<T> ExactSizeIterator for $MP<T> {}
            }
        };
    }
    family!(rc, Rc, RcSlice, WeakSlice, RcSliceParts, RcSliceMut, RcSliceMutIter, RcSliceMutParts, std::rc::Rc, std::rc::Weak);
    family!(arc, Arc, ArcSlice, WeakSlice, ArcSliceParts, ArcSliceMut, ArcSliceMutIter, ArcSliceMutParts, std::sync::Arc, std::sync::Weak);
}
pub use base::{arc, rc};
pub use arc::{ArcSlice, ArcSliceMut};
pub use rc::{RcSlice, RcSliceMut};
