//! Which traits the types have.
use arraystring::prelude::*;
use arraystring::Error;
use std::panic::{RefUnwindSafe, UnwindSafe};

fn plain<T: Copy + Clone + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + 'static>() {
    assert!(!std::mem::needs_drop::<T>(), "{} has drop glue", std::any::type_name::<T>());
}
fn string<T>()
where
    T: Copy + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + 'static,
    T: Default + AsRef<str> + Eq + Ord + std::hash::Hash + std::fmt::Debug + std::fmt::Display,
{
    plain::<T>();
    assert_eq!(T::default().as_ref(), "");
}
fn main() {
    string::<ArrayString<1>>();
    string::<ArrayString<23>>();
    string::<ArrayString<255>>();
    string::<SmallString>();
    string::<MaxString>();
    string::<CacheString>();
    plain::<Drain<1>>();
    plain::<Drain<64>>();
    plain::<Drain<255>>();
    plain::<OutOfBounds>();
    plain::<Utf8>();
    plain::<Utf16>();
    plain::<Error>();
}
