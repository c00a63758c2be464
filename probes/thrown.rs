//! Errors as boxed errors; strings in a panic payload and across catch_unwind.
use arraystring::prelude::*;
use arraystring::error::Error;
use std::panic::{catch_unwind, panic_any};

fn asked(text: &str) -> Result<ArrayString<4>, Box<dyn std::error::Error + Send + Sync>> {
    let mut s = ArrayString::<4>::try_from_str(text)?;
    s.try_insert(1, 'x')?;
    Ok(s)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert_eq!(asked("abc").unwrap().as_str(), "axbc");
    assert!(asked("abcde").unwrap_err().downcast_ref::<OutOfBounds>().is_some());
    assert!(matches!(asked("é").unwrap_err().downcast_ref::<Error>(), Some(Error::Utf8)));
    let s = CacheString::from("kept");
    let got = catch_unwind(move || {
        let mut t = s;
        t.push_str_truncate(" and thrown");
        panic_any(t);
    });
    let t = *got.unwrap_err().downcast::<CacheString>().unwrap();
    assert_eq!((s.as_str(), t.as_str()), ("kept", "kept and thrown"));
    let n = catch_unwind(|| s.len()).unwrap();
    assert_eq!(n, 4);
}
