//! Generic access to a few concrete string types, for monitors that need to
//! hand their own iterators, closures and ranges to the library.
use crate::subj::Txt;
use arraystring::error::{OutOfBounds, Utf16, Utf8};
use arraystring::{prelude::*, Error};
use std::fmt::{Debug, Display, Write};
use std::hash::Hash;
use std::ops::{Add, RangeBounds};
use std::str::FromStr;

pub trait Api:
    Txt
    + Copy
    + Default
    + Ord
    + Hash
    + Debug
    + Display
    + Write
    + FromStr<Err = OutOfBounds>
    + for<'a> From<&'a str>
    + for<'a> Add<&'a str, Output = Self>
    + FromIterator<char>
    + for<'a> FromIterator<&'a str>
    + Extend<char>
    + for<'a> Extend<&'a char>
    + for<'a> Extend<&'a str>
    + PartialEq<str>
    + for<'a> PartialEq<&'a str>
    + AsMut<str>
    + std::borrow::BorrowMut<str>
    + 'static
{
    type Drained: Iterator<Item = char>
        + DoubleEndedIterator
        + std::iter::FusedIterator
        + Copy
        + Default
        + Debug
        + Ord
        + Hash;
    const NAME: &'static str;
    fn t_new() -> Self;
    fn t_try_from_str(s: impl AsRef<str>) -> Result<Self, OutOfBounds>;
    fn t_from_str_truncate(s: impl AsRef<str>) -> Self;
    fn t_try_from_iterator<S: AsRef<str>>(i: impl IntoIterator<Item = S>) -> Result<Self, OutOfBounds>;
    fn t_from_iterator_truncate<S: AsRef<str>>(i: impl IntoIterator<Item = S>) -> Self;
    fn t_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds>;
    fn t_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self;
    fn t_try_from_utf16(s: impl AsRef<[u16]>) -> Result<Self, Error>;
    fn t_from_utf16_truncate(s: impl AsRef<[u16]>) -> Result<Self, Utf16>;
    fn t_from_utf16_lossy_truncate(s: impl AsRef<[u16]>) -> Self;
    fn t_try_push_str(&mut self, s: impl AsRef<str>) -> Result<(), OutOfBounds>;
    fn t_push_str_truncate(&mut self, s: impl AsRef<str>);
    fn t_try_push(&mut self, c: char) -> Result<(), OutOfBounds>;
    fn t_truncate(&mut self, n: usize) -> Result<(), Utf8>;
    fn t_pop(&mut self) -> Option<char>;
    fn t_trim(&mut self);
    fn t_remove(&mut self, i: usize) -> Result<char, Error>;
    fn t_retain(&mut self, f: impl FnMut(char) -> bool);
    fn t_try_insert(&mut self, i: usize, c: char) -> Result<(), Error>;
    fn t_try_insert_str(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error>;
    fn t_insert_str_truncate(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error>;
    fn t_split_off(&mut self, i: usize) -> Result<Self, Error>;
    fn t_clear(&mut self);
    fn t_drain(&mut self, r: impl RangeBounds<usize>) -> Result<Self::Drained, Error>;
    fn t_drained(d: &Self::Drained) -> &str;
    fn t_replace_range(&mut self, r: impl RangeBounds<usize>, s: impl AsRef<str>) -> Result<(), Error>;
}

macro_rules! api {
    ($t:ty, $n:literal, $name:literal) => {
        impl Api for $t {
            type Drained = Drain<$n>;
            const NAME: &'static str = $name;
            fn t_new() -> Self {
                <$t>::new()
            }
            fn t_try_from_str(s: impl AsRef<str>) -> Result<Self, OutOfBounds> {
                <$t>::try_from_str(s)
            }
            fn t_from_str_truncate(s: impl AsRef<str>) -> Self {
                <$t>::from_str_truncate(s)
            }
            fn t_try_from_iterator<S: AsRef<str>>(i: impl IntoIterator<Item = S>) -> Result<Self, OutOfBounds> {
                <$t>::try_from_iterator(i)
            }
            fn t_from_iterator_truncate<S: AsRef<str>>(i: impl IntoIterator<Item = S>) -> Self {
                <$t>::from_iterator_truncate(i)
            }
            fn t_try_from_chars(i: impl IntoIterator<Item = char>) -> Result<Self, OutOfBounds> {
                <$t>::try_from_chars(i)
            }
            fn t_from_chars_truncate(i: impl IntoIterator<Item = char>) -> Self {
                <$t>::from_chars_truncate(i)
            }
            fn t_try_from_utf16(s: impl AsRef<[u16]>) -> Result<Self, Error> {
                <$t>::try_from_utf16(s)
            }
            fn t_from_utf16_truncate(s: impl AsRef<[u16]>) -> Result<Self, Utf16> {
                <$t>::from_utf16_truncate(s)
            }
            fn t_from_utf16_lossy_truncate(s: impl AsRef<[u16]>) -> Self {
                <$t>::from_utf16_lossy_truncate(s)
            }
            fn t_try_push_str(&mut self, s: impl AsRef<str>) -> Result<(), OutOfBounds> {
                self.try_push_str(s)
            }
            fn t_push_str_truncate(&mut self, s: impl AsRef<str>) {
                self.push_str_truncate(s)
            }
            fn t_try_push(&mut self, c: char) -> Result<(), OutOfBounds> {
                self.try_push(c)
            }
            fn t_truncate(&mut self, n: usize) -> Result<(), Utf8> {
                self.truncate(n)
            }
            fn t_pop(&mut self) -> Option<char> {
                self.pop()
            }
            fn t_trim(&mut self) {
                self.trim()
            }
            fn t_remove(&mut self, i: usize) -> Result<char, Error> {
                self.remove(i)
            }
            fn t_retain(&mut self, f: impl FnMut(char) -> bool) {
                self.retain(f)
            }
            fn t_try_insert(&mut self, i: usize, c: char) -> Result<(), Error> {
                self.try_insert(i, c)
            }
            fn t_try_insert_str(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error> {
                self.try_insert_str(i, s)
            }
            fn t_insert_str_truncate(&mut self, i: usize, s: impl AsRef<str>) -> Result<(), Error> {
                self.insert_str_truncate(i, s)
            }
            fn t_split_off(&mut self, i: usize) -> Result<Self, Error> {
                self.split_off(i)
            }
            fn t_clear(&mut self) {
                self.clear()
            }
            fn t_drain(&mut self, r: impl RangeBounds<usize>) -> Result<Self::Drained, Error> {
                self.drain(r)
            }
            fn t_drained(d: &Self::Drained) -> &str {
                d.as_str()
            }
            fn t_replace_range(&mut self, r: impl RangeBounds<usize>, s: impl AsRef<str>) -> Result<(), Error> {
                self.replace_range(r, s)
            }
        }
    };
}
api!(ArrayString<1>, 1, "ArrayString<1>");
api!(ArrayString<2>, 2, "ArrayString<2>");
api!(ArrayString<3>, 3, "ArrayString<3>");
api!(ArrayString<4>, 4, "ArrayString<4>");
api!(ArrayString<7>, 7, "ArrayString<7>");
api!(ArrayString<8>, 8, "ArrayString<8>");
api!(ArrayString<24>, 24, "SmallString");
api!(ArrayString<32>, 32, "ArrayString<32>");
api!(ArrayString<63>, 63, "ArrayString<63>");
api!(ArrayString<64>, 64, "ArrayString<64>");
api!(ArrayString<128>, 128, "ArrayString<128>");
api!(ArrayString<200>, 200, "ArrayString<200>");
api!(ArrayString<16>, 16, "ArrayString<16>");
api!(ArrayString<127>, 127, "ArrayString<127>");
api!(ArrayString<129>, 129, "ArrayString<129>");
api!(ArrayString<254>, 254, "ArrayString<254>");
api!(ArrayString<255>, 255, "MaxString");
api!(CacheString, 63, "CacheString");

pub const TYPES: usize = 18;
/// Runs `$f::<T>($args)` for the type numbered `$k`.
#[macro_export]
macro_rules! for_type {
    ($k:expr, $f:ident ( $($a:expr),* )) => {{
        use arraystring::prelude::*;
        match $k % $crate::api::TYPES {
            0 => $f::<ArrayString<1>>($($a),*),
            1 => $f::<ArrayString<2>>($($a),*),
            2 => $f::<ArrayString<3>>($($a),*),
            3 => $f::<ArrayString<4>>($($a),*),
            4 => $f::<ArrayString<7>>($($a),*),
            5 => $f::<ArrayString<8>>($($a),*),
            6 => $f::<ArrayString<24>>($($a),*),
            7 => $f::<ArrayString<32>>($($a),*),
            8 => $f::<ArrayString<63>>($($a),*),
            9 => $f::<ArrayString<64>>($($a),*),
            10 => $f::<ArrayString<128>>($($a),*),
            11 => $f::<ArrayString<200>>($($a),*),
            12 => $f::<ArrayString<255>>($($a),*),
            13 => $f::<ArrayString<16>>($($a),*),
            14 => $f::<ArrayString<127>>($($a),*),
            15 => $f::<ArrayString<129>>($($a),*),
            16 => $f::<ArrayString<254>>($($a),*),
            _ => $f::<CacheString>($($a),*),
        }
    }};
}
