//! Type-erased handles on the real string types: every call goes through the
//! public API of the crate under test, inside a monitored window.
use crate::op::*;
use crate::win;
use arraystring::error::{OutOfBounds, Utf16, Utf8};
use arraystring::{prelude::*, Error};
use std::any::Any;
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{Debug, Display, Write as _};
use std::hash::{Hash, Hasher};
use std::ops::{Bound, Deref, DerefMut};
use std::str::FromStr;

pub trait ToObs {
    fn obs(&self) -> Obs;
}
impl ToObs for Error {
    fn obs(&self) -> Obs {
        match self {
            Error::Utf8 => Obs::Utf8,
            Error::Utf16 => Obs::Utf16,
            Error::OutOfBounds => Obs::Oob,
        }
    }
}
impl ToObs for OutOfBounds {
    fn obs(&self) -> Obs {
        Obs::Oob
    }
}
impl ToObs for Utf8 {
    fn obs(&self) -> Obs {
        Obs::Utf8
    }
}
impl ToObs for Utf16 {
    fn obs(&self) -> Obs {
        Obs::Utf16
    }
}
impl ToObs for std::fmt::Error {
    fn obs(&self) -> Obs {
        Obs::FmtErr
    }
}
impl ToObs for () {
    fn obs(&self) -> Obs {
        Obs::Unit
    }
}
impl ToObs for char {
    fn obs(&self) -> Obs {
        Obs::Char(*self)
    }
}
impl<T: ToObs, E: ToObs> ToObs for Result<T, E> {
    fn obs(&self) -> Obs {
        match self {
            Ok(t) => t.obs(),
            Err(e) => e.obs(),
        }
    }
}
impl<T: ToObs> ToObs for Option<T> {
    fn obs(&self) -> Obs {
        match self {
            Some(t) => t.obs(),
            None => Obs::NoChar,
        }
    }
}

/// FNV-1a, so that hashing is deterministic, with a record of how the byte stream was cut into
/// writes: there are hashers for which that matters.
#[derive(Clone)]
pub struct Fnv(pub u64, pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325, 0)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in if cfg!(miri) { &b[..b.len().min(16)] } else { b } {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self.1 = self.1.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(b.len() as u64 + 1);
    }
}
pub fn fnv<T: Hash + ?Sized>(t: &T) -> (u64, u64) {
    let mut h = Fnv::default();
    win!(t.hash(&mut h));
    (h.0, h.1)
}

/// A copy of what the library shows as text, which may not be text at all.
pub fn own(s: &str) -> String {
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(t) => t.to_owned(),
        Err(_) => format!("<not UTF-8: {:02x?}>", s.as_bytes()),
    }
}
pub const NOT_TEXT: [&str; 3] = ["<broken", "<not UTF-8", "<outside"];

#[derive(Debug, PartialEq, Clone)]
pub struct CmpObs {
    pub eq: bool,
    pub ne: bool,
    pub cmp: Ordering,
    pub partial: Option<Ordering>,
    pub lt: bool,
    pub le: bool,
    pub gt: bool,
    pub ge: bool,
    pub hash_a: (u64, u64),
    pub hash_b: (u64, u64),
    /// max() and min() are what the order says, and hash as that
    pub extremes: [(u64, u64); 3],
    /// as elements of a slice and of a tuple
    pub within: [(u64, u64); 2],
}
pub fn cmp_all<T: Ord + Hash + Copy>(a: &T, b: &T) -> CmpObs {
    CmpObs {
        eq: win!(a == b),
        ne: win!(a != b),
        cmp: win!(a.cmp(b)),
        partial: win!(a.partial_cmp(b)),
        lt: win!(a < b),
        le: win!(a <= b),
        gt: win!(a > b),
        ge: win!(a >= b),
        hash_a: fnv(a),
        hash_b: fnv(b),
        extremes: [
            fnv(&win!(Ord::max(*a, *b))),
            fnv(&win!(Ord::min(*a, *b))),
            fnv(&win!(Ord::clamp(*a, Ord::min(*a, *b), Ord::max(*a, *b)))),
        ],
        within: [fnv(&[*a, *b][..]), fnv(&(*b, 7u8, *a))],
    }
}

pub const WAYS: usize = 10;
pub trait Subject: Any {
    fn cap(&self) -> usize;
    fn is_cache(&self) -> bool;
    fn apply(&mut self, op: &Op) -> Obs;
    /// Reads the text through every shared view; Err describes a broken invariant.
    fn state(&self) -> Result<String, String>;
    fn index(&self, v: View) -> Obs;
    fn display(&self) -> &dyn Display;
    fn debug(&self) -> &dyn Debug;
    fn cmp_with(&self, o: &dyn Subject) -> CmpObs;
    /// (== str, == &str, Borrow<str> hash, own hash)
    fn vs_str(&self, s: &str) -> (bool, bool);
    /// == and != with a piece of its own text, as str and &str; a byte range on boundaries.
    fn vs_own(&self, a: usize, b: usize) -> [bool; 4];
    fn own_hash(&self) -> (u64, u64);
    fn drain_vs(&self, a: R, o: &dyn Subject, b: R) -> Option<(CmpObs, String, String)>;
    fn dup(&self) -> Box<dyn Subject>;
    /// A copy made in the given way (there are WAYS of them).
    fn dup_by(&self, way: usize) -> Result<Box<dyn Subject>, String>;
    fn any(&self) -> &dyn Any;
    fn any_mut(&mut self) -> &mut dyn Any;
    fn layout(&self) -> (usize, usize);
}

/// In ordinary builds the string sits between canaries; under a sanitizer or
/// Miri it gets an exact allocation of its own instead.
#[cfg(not(any(asan, miri)))]
#[repr(C)]
pub struct Slot<T> {
    pre: [u8; 64],
    pub val: T,
    post: [u8; 64],
}
#[cfg(not(any(asan, miri)))]
impl<T> Slot<T> {
    pub fn new(val: T) -> Self {
        Slot { pre: [0xA5; 64], val, post: [0x5A; 64] }
    }
    pub fn intact(&self) -> bool {
        // volatile: the optimiser must not assume nobody wrote here
        unsafe {
            let a = std::ptr::read_volatile(&self.pre);
            let b = std::ptr::read_volatile(&self.post);
            a == [0xA5; 64] && b == [0x5A; 64]
        }
    }
}
#[cfg(any(asan, miri))]
pub struct Slot<T> {
    pub val: T,
}
#[cfg(any(asan, miri))]
impl<T> Slot<T> {
    pub fn new(val: T) -> Self {
        Slot { val }
    }
    pub fn intact(&self) -> bool {
        true
    }
}

macro_rules! subject {
    ($name:ident, $t:ty, $cache:expr) => {
        pub struct $name(pub Slot<$t>);
        impl $name {
            pub fn boxed() -> Box<dyn Subject> {
                Box::new($name(Slot::new(win!(<$t>::new()))))
            }
        }
        impl Subject for $name {
            fn cap(&self) -> usize {
                <$t>::capacity()
            }
            fn is_cache(&self) -> bool {
                $cache
            }
            #[inline(never)]
            fn apply(&mut self, op: &Op) -> Obs {
                type T = $t;
                let s = &mut self.0.val;
                macro_rules! put {
                    ($e:expr) => {{
                        *s = win!($e);
                        Obs::Unit
                    }};
                }
                macro_rules! tryput {
                    ($e:expr) => {{
                        match win!($e) {
                            Ok(v) => {
                                *s = v;
                                Obs::Unit
                            }
                            Err(e) => e.obs(),
                        }
                    }};
                }
                match op {
                    Op::New => put!(T::new()),
                    Op::Default => put!(<T as Default>::default()),
                    Op::TryFromStr(x) => tryput!(T::try_from_str(x.as_str())),
                    Op::FromStrTrunc(x) => put!(T::from_str_truncate(x.as_str())),
                    Op::FromRefStr(x) => put!(<T as From<&str>>::from(x.as_str())),
                    Op::Parse(x) => tryput!(<T as FromStr>::from_str(x.as_str())),
                    Op::TryFromIter(x) => tryput!(T::try_from_iterator(x.iter())),
                    Op::FromIterTrunc(x) => put!(T::from_iterator_truncate(x.iter())),
                    Op::CollectStrs(x) => put!(x.iter().map(|x| x.as_str()).collect::<T>()),
                    Op::TryFromChars(x) => tryput!(T::try_from_chars(x.chars())),
                    Op::FromCharsTrunc(x) => put!(T::from_chars_truncate(x.chars())),
                    Op::CollectChars(x) => put!(x.chars().collect::<T>()),
                    Op::TryFromUtf16(x) => tryput!(T::try_from_utf16(&x[..])),
                    Op::Utf16Trunc(x) => tryput!(T::from_utf16_truncate(&x[..])),
                    Op::Utf16Lossy(x) => put!(T::from_utf16_lossy_truncate(&x[..])),
                    Op::TryPushStr(x) => win!(s.try_push_str(x.as_str())).obs(),
                    Op::PushStrTrunc(x) => win!(s.push_str_truncate(x.as_str())).obs(),
                    Op::TryPush(c) => win!(s.try_push(*c)).obs(),
                    Op::Truncate(n) => win!(s.truncate(*n)).obs(),
                    Op::Pop => win!(s.pop()).obs(),
                    Op::Trim => win!(s.trim()).obs(),
                    Op::Remove(i) => win!(s.remove(*i)).obs(),
                    Op::Retain(p) => {
                        let mut calls: Vec<char> = Vec::with_capacity(1024);
                        let mut n = 0usize;
                        win!(s.retain(|c| {
                            if n < 1024 {
                                calls.push(c);
                            }
                            n += 1;
                            p.keep(c, n - 1)
                        }));
                        if n > calls.len() {
                            return Obs::Text(format!("predicate called {n} times"));
                        }
                        Obs::Calls(calls.into_iter().collect())
                    }
                    Op::TryInsert(i, c) => win!(s.try_insert(*i, *c)).obs(),
                    Op::TryInsertStr(i, x) => win!(s.try_insert_str(*i, x.as_str())).obs(),
                    Op::InsertStrTrunc(i, x) => win!(s.insert_str_truncate(*i, x.as_str())).obs(),
                    Op::SplitOff(i) => match win!(s.split_off(*i)) {
                        Ok(o) => {
                            let r = check_text::<T>(&o);
                            match r {
                                Ok(t) => Obs::Text(t),
                                Err(e) => Obs::Text(format!("<broken: {e}>")),
                            }
                        }
                        Err(e) => e.obs(),
                    },
                    Op::Clear => win!(s.clear()).obs(),
                    Op::Drain(r, plan, steps) => {
                        let d = win!(s.drain(*r));
                        match d {
                            Ok(mut d) => {
                                let mut log = String::new();
                                for k in 0..*steps {
                                    let back = (*plan >> (k % 64)) & 1 == 1;
                                    let left = own(win!(d.as_str())).chars().count();
                                    let (lo, hi) = win!(d.size_hint());
                                    if lo > left || hi.map_or(false, |h| h < left) {
                                        return Obs::Text(format!(
                                            "size_hint ({lo}, {hi:?}) excludes the {left} chars left"
                                        ));
                                    }
                                    let c = if back { win!(d.next_back()) } else { win!(d.next()) };
                                    let _ = write!(
                                        log,
                                        "{}{:?}[{}]",
                                        if back { '<' } else { '>' },
                                        c,
                                        own(win!(d.as_str()))
                                    );
                                }
                                Obs::Text(log)
                            }
                            Err(e) => e.obs(),
                        }
                    }
                    Op::ReplaceRange(r, x) => win!(s.replace_range(*r, x.as_str())).obs(),
                    Op::Add(x) => put!(*s + x.as_str()),
                    Op::WriteStr(x) => win!(s.write_str(x)).obs(),
                    Op::WriteChar(c) => win!(s.write_char(*c)).obs(),
                    Op::WriteFmt(a, b, w, n) => {
                        win!(write!(s, "{a}{b:>w$}{c:?}|{n}", c = b, w = *w as usize)).obs()
                    }
                    Op::WriteLit(k) => win!(crate::op::write_literal(s, *k)).obs(),
                    Op::ExtendChars(x) => win!(s.extend(x.chars())).obs(),
                    Op::ExtendCharRefs(x) => {
                        let v: Vec<char> = x.chars().collect();
                        win!(s.extend(v.iter())).obs()
                    }
                    Op::ExtendStrs(x) => win!(s.extend(x.iter().map(|x| x.as_str()))).obs(),
                    Op::Mutate(v, e) => {
                        let m: &mut str = win!(match *v {
                            View::AsMutStr => s.as_mut_str(),
                            View::AsMut => AsMut::<str>::as_mut(s),
                            View::BorrowMut => BorrowMut::<str>::borrow_mut(s),
                            View::DerefMut => Txt::derefm(s),
                            View::IdxFull => &mut s[..],
                            View::IdxFrom(a) => &mut s[a..],
                            View::IdxTo(b) => &mut s[..b],
                            View::IdxRange(a, b) => &mut s[a..b],
                            View::IdxToIncl(b) => &mut s[..=b],
                            View::IdxIncl(a, b) => &mut s[a..=b],
                            View::IdxDone(a, b) => &mut s[done(a, b)],
                        });
                        match e {
                            Edit::Upper => m.make_ascii_uppercase(),
                            Edit::Lower => m.make_ascii_lowercase(),
                            Edit::Look => {}
                        }
                        // (addresses only: `s` is not used while `m` is alive)
                        let (a, n) = (m.as_ptr() as usize, m.len());
                        let shown = own(m);
                        let (lo, size) = (s as *const T as usize, std::mem::size_of::<T>());
                        if n > 0 && (a < lo || a + n > lo + size) {
                            return Obs::Text("<outside of the string's own storage>".into());
                        }
                        Obs::Text(shown)
                    }
                    Op::CloneInto(x) => {
                        let mut d = win!(<T>::from_str_truncate(x));
                        win!(d.clone_from(s));
                        win!(s.clear());
                        *s = d;
                        Obs::Unit
                    }
                    Op::CloneSwap => {
                        let c = win!(Clone::clone(&*s));
                        win!(s.clear());
                        for _ in 0..T::capacity() {
                            let _ = win!(s.try_push('#'));
                        }
                        // both ways of cloning: a new value, and into an existing one
                        win!(s.clone_from(&c));
                        if fnv(s) == fnv(&c) {
                            *s = win!(s.clone());
                        }
                        Obs::Unit
                    }
                }
            }
            #[inline(never)]
            fn state(&self) -> Result<String, String> {
                if !self.0.intact() {
                    return Err("memory next to the string was overwritten".into());
                }
                check_text::<$t>(&self.0.val)
            }
            #[inline(never)]
            fn index(&self, v: View) -> Obs {
                let s = &self.0.val;
                let m: &str = win!(match v {
                    View::AsMutStr => s.as_str(),
                    View::AsMut => AsRef::<str>::as_ref(s),
                    View::BorrowMut => Borrow::<str>::borrow(s),
                    View::DerefMut => Txt::derefd(s),
                    View::IdxFull => &s[..],
                    View::IdxFrom(a) => &s[a..],
                    View::IdxTo(b) => &s[..b],
                    View::IdxRange(a, b) => &s[a..b],
                    View::IdxToIncl(b) => &s[..=b],
                    View::IdxIncl(a, b) => &s[a..=b],
                    View::IdxDone(a, b) => &s[done(a, b)],
                });
                Obs::Text(own(m))
            }
            fn display(&self) -> &dyn Display {
                &self.0.val
            }
            fn debug(&self) -> &dyn Debug {
                &self.0.val
            }
            #[inline(never)]
            fn cmp_with(&self, o: &dyn Subject) -> CmpObs {
                let o = o.any().downcast_ref::<$name>().expect("same type");
                cmp_all(&self.0.val, &o.0.val)
            }
            fn vs_own(&self, a: usize, b: usize) -> [bool; 4] {
                let s = &self.0.val;
                let piece = &win!(s.as_str())[a..b];
                [win!(*s == *piece), win!(*s == piece), !win!(*s != *piece), !win!(*s != piece)]
            }
            fn vs_str(&self, x: &str) -> (bool, bool) {
                let s = &self.0.val;
                (win!(s == x), win!(s == &x))
            }
            fn own_hash(&self) -> (u64, u64) {
                fnv(&self.0.val)
            }
            #[inline(never)]
            fn drain_vs(&self, a: R, o: &dyn Subject, b: R) -> Option<(CmpObs, String, String)> {
                let o = o.any().downcast_ref::<$name>().expect("same type");
                let (mut x, mut y) = (self.0.val, o.0.val);
                let (x, y) = (win!(x.drain(a)).ok()?, win!(y.drain(b)).ok()?);
                let c = cmp_all(&x, &y);
                Some((c, own(win!(x.as_str())), own(win!(y.as_str()))))
            }
            fn dup(&self) -> Box<dyn Subject> {
                Box::new($name(Slot::new(self.0.val)))
            }
            #[inline(never)]
            fn dup_by(&self, way: usize) -> Result<Box<dyn Subject>, String> {
                type T = $t;
                let s = &self.0.val;
                let filler = "%".repeat(<$t>::capacity());
                let full = || win!(T::from_str_truncate(filler.as_str()));
                let want = own(win!(s.as_str()));
                let same = |v: &T, how: &str| match check_text::<T>(v) {
                    Ok(t) if t == want => Ok(()),
                    o => Err(format!("{how}: {o:?} instead of {want:?}")),
                };
                let v: T = match way % WAYS {
                    0 => *s,
                    1 => win!(Clone::clone(s)),
                    2 => {
                        let mut v = full();
                        win!(v.clone_from(s));
                        v
                    }
                    3 => {
                        let a = [*s; 3];
                        same(&a[0], "first of an array")?;
                        same(&a[2], "last of an array")?;
                        a[1]
                    }
                    4 => {
                        let mut v = vec![*s; 2];
                        v.push(*s);
                        v.insert(0, full());
                        let w = v.clone();
                        for (x, y) in v.iter().zip(&w) {
                            same(y, "cloned with its vector").or_else(|e| if own(win!(x.as_str())) == own(win!(y.as_str())) { Ok(()) } else { Err(e) })?;
                        }
                        v.remove(2)
                    }
                    5 => {
                        let mut v = full();
                        let old = std::mem::replace(&mut v, *s);
                        let mut x = v;
                        let mut o = old;
                        std::mem::swap(&mut x, &mut o);
                        same(&o, "swapped")?;
                        let back = std::mem::take(&mut o);
                        if check_text::<T>(&o) != Ok(String::new()) {
                            return Err(format!("mem::take leaves {:?}", check_text::<T>(&o)));
                        }
                        if own(win!(x.as_str())) != filler {
                            return Err("a swapped string is not the one swapped".into());
                        }
                        back
                    }
                    6 => {
                        let mut rc = std::rc::Rc::new(*s);
                        let other = std::rc::Rc::clone(&rc);
                        let m = std::rc::Rc::make_mut(&mut rc);
                        win!(m.clear());
                        let _ = win!(m.try_push('!'));
                        same(&other, "the shared one, after its copy was edited")?;
                        *other
                    }
                    7 => {
                        let mut d = full();
                        win!(d.as_mut_str().make_ascii_lowercase());
                        d = *s;
                        let mut gone = *s;
                        win!(gone.clear());
                        for _ in 0..<$t>::capacity() {
                            let _ = win!(gone.try_push('&'));
                        }
                        same(&d, "a copy of an original edited since")?;
                        d
                    }
                    8 => match Some(s).cloned() {
                        Some(v) => *Box::new(v),
                        None => return Err("Option::cloned of Some gave None".into()),
                    },
                    _ => {
                        let mut it = std::iter::repeat(*s);
                        let _ = it.next();
                        let c: std::borrow::Cow<'_, str> = std::borrow::Cow::Borrowed(win!(s.as_str()));
                        let mut all: Vec<T> = it.take(2).collect();
                        all.sort();
                        all.dedup();
                        if all.len() != 1 || all[0] != *c {
                            return Err(format!("two copies count as {}", all.len()));
                        }
                        all[0]
                    }
                };
                Ok(Box::new($name(Slot::new(v))))
            }
            fn any(&self) -> &dyn Any {
                self
            }
            fn any_mut(&mut self) -> &mut dyn Any {
                self
            }
            fn layout(&self) -> (usize, usize) {
                (std::mem::size_of::<$t>(), std::mem::align_of::<$t>())
            }
        }
    };
}

/// Reads the text through every shared view and cross-checks them.
/// The bytes are validated before anything treats them as UTF-8.
pub trait Txt: AsRef<[u8]> + AsRef<str> + Borrow<str> {
    fn cap() -> usize;
    fn length(&self) -> usize;
    fn text(&self) -> &str;
    fn derefd(&self) -> &str;
    fn derefm(&mut self) -> &mut str;
    fn empty(&self) -> bool;
}
pub fn check_text<T: Txt>(t: &T) -> Result<String, String> {
    let len = win!(t.length());
    if len > T::cap() {
        return Err(format!("length {len} exceeds the capacity {}", T::cap()));
    }
    let bytes: &[u8] = win!(t.as_ref());
    if bytes.len() != len {
        return Err(format!("len() is {len} but {} bytes are exposed", bytes.len()));
    }
    let (lo, hi) = (t as *const T as usize, t as *const T as usize + std::mem::size_of::<T>());
    let p = bytes.as_ptr() as usize;
    if p < lo || p + bytes.len() > hi {
        return Err("exposed bytes lie outside of the string's own storage".into());
    }
    let s = match std::str::from_utf8(bytes) {
        Ok(s) => s,
        Err(e) => return Err(format!("text is not UTF-8 ({e}): {bytes:02x?}")),
    };
    let views: [(&str, &str); 4] = [
        ("as_str", win!(t.text())),
        ("AsRef<str>", win!(AsRef::<str>::as_ref(t))),
        ("Borrow<str>", win!(Borrow::<str>::borrow(t))),
        ("Deref", win!(t.derefd())),
    ];
    for (n, v) in views {
        if v.as_bytes() != bytes {
            return Err(format!("{n} shows {:02x?}, AsRef<[u8]> shows {bytes:02x?}", v.as_bytes()));
        }
    }
    if win!(t.empty()) != bytes.is_empty() {
        return Err("is_empty disagrees with the text".into());
    }
    Ok(s.to_owned())
}

macro_rules! txt {
    ($t:ty) => {
        impl Txt for $t {
            fn cap() -> usize {
                <$t>::capacity()
            }
            fn length(&self) -> usize {
                self.len()
            }
            fn text(&self) -> &str {
                self.as_str()
            }
            fn derefd(&self) -> &str {
                Deref::deref(self)
            }
            fn derefm(&mut self) -> &mut str {
                DerefMut::deref_mut(self)
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
        }
    };
}

subject!(Cache, CacheString, true);
impl Txt for CacheString {
    fn cap() -> usize {
        CacheString::capacity()
    }
    fn length(&self) -> usize {
        self.len()
    }
    fn text(&self) -> &str {
        self.as_str()
    }
    fn derefd(&self) -> &str {
        let a: &ArrayString<63> = Deref::deref(self);
        Deref::deref(a)
    }
    fn derefm(&mut self) -> &mut str {
        let a: &mut ArrayString<63> = DerefMut::deref_mut(self);
        DerefMut::deref_mut(a)
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
}

macro_rules! all {
    ($($id:ident $n:literal)*) => {
        pub const CAPS: &[usize] = &[$($n),*];
        // one module each, so that the compiler can generate their code in parallel
        $( #[allow(non_snake_case)] mod $id { use super::*; subject!($id, ArrayString<$n>, false); txt!(ArrayString<$n>); } )*
        /// A fresh empty string of capacity `n`.
        pub fn make(n: usize) -> Box<dyn Subject> {
            match n {
                $( $n => $id::$id::boxed(), )*
                _ => panic!("capacity {n} is not instantiated"),
            }
        }
    };
}
#[cfg(feature = "allcaps")]
include!("caps_all.rs");
#[cfg(not(feature = "allcaps"))]
include!("caps_some.rs");

pub fn make_cache() -> Box<dyn Subject> {
    Cache::boxed()
}

pub fn show_range(r: &R) -> String {
    let a = match r.0 {
        Bound::Included(x) => format!("{x}"),
        Bound::Excluded(x) => format!("({x}"),
        Bound::Unbounded => String::new(),
    };
    let b = match r.1 {
        Bound::Included(x) => format!("={x}"),
        Bound::Excluded(x) => format!("{x}"),
        Bound::Unbounded => String::new(),
    };
    format!("{a}..{b}")
}
