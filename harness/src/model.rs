//! Executable specification: std `String` plus a capacity.
//! For an operation on a known text it lists every outcome the properties allow.
use crate::op::*;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// completes, everything fits
    Fit,
    /// completes, something had to be cut off
    Cut,
    /// must be refused
    Refuse,
}

pub struct Expect {
    pub class: Class,
    /// allowed (what the caller sees, text afterwards)
    pub allowed: Vec<(Obs, String)>,
}

pub fn floor(s: &str, n: usize) -> &str {
    if n >= s.len() {
        return s;
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    &s[..k]
}

fn ok(class: Class, o: Obs, t: String) -> Expect {
    Expect { class, allowed: vec![(o, t)] }
}
fn refuse(errs: &[Obs], t: &str) -> Expect {
    debug_assert!(!errs.is_empty());
    Expect { class: Class::Refuse, allowed: errs.iter().map(|e| (e.clone(), t.to_owned())).collect() }
}
/// A constructor that keeps the longest prefix of `full`.
fn cut(full: &str, cap: usize) -> Expect {
    let k = floor(full, cap);
    ok(if k.len() == full.len() { Class::Fit } else { Class::Cut }, Obs::Unit, k.to_owned())
}
fn all_or_oob(full: &str, cap: usize, before: &str) -> Expect {
    if full.len() <= cap {
        ok(Class::Fit, Obs::Unit, full.to_owned())
    } else {
        refuse(&[Obs::Oob], before)
    }
}
fn append_cut(text: &str, add: &str, cap: usize) -> Expect {
    let k = floor(add, cap - text.len());
    let mut t = text.to_owned();
    t.push_str(k);
    ok(if k.len() == add.len() { Class::Fit } else { Class::Cut }, Obs::Unit, t)
}

/// Model of a `fmt::Write` sink: each piece is taken whole or refused.
pub struct Sink {
    pub text: String,
    pub cap: usize,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.text.len() + s.len() > self.cap {
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Bounds and boundary errors that apply to a..b of `text`.
fn range_errs(text: &str, a: usize, b: usize) -> Vec<Obs> {
    let mut e = vec![];
    if a > b || b > text.len() {
        e.push(Obs::Oob);
    }
    if [a, b].iter().any(|&i| i <= text.len() && !text.is_char_boundary(i)) {
        e.push(Obs::Utf8);
    }
    e
}

/// Text log of a double-ended drain: see `subj::drain_log`.
pub fn drain_log(removed: &str, plan: u64, steps: u8) -> String {
    let mut it = removed.chars();
    let mut log = String::new();
    for k in 0..steps {
        let back = (plan >> (k % 64)) & 1 == 1;
        let c = if back { it.next_back() } else { it.next() };
        let _ = write!(log, "{}{:?}[{}]", if back { '<' } else { '>' }, c, it.as_str());
    }
    log
}

fn view_range(v: View, len: usize) -> (usize, usize) {
    match v {
        View::AsMutStr | View::AsMut | View::BorrowMut | View::DerefMut | View::IdxFull => (0, len),
        View::IdxFrom(a) => (a as usize, len),
        View::IdxTo(b) => (0, b as usize),
        View::IdxRange(a, b) => (a as usize, b as usize),
        View::IdxToIncl(b) => (0, b as usize + 1),
        View::IdxIncl(a, b) => (a as usize, b as usize + 1),
        // as str treats it: empty, after the last position
        View::IdxDone(a, b) if a <= b => (b as usize + 1, b as usize + 1),
        View::IdxDone(a, b) => (a as usize, b as usize + 1),
    }
}

pub const INDEX_PANIC: &str = "<index panic>";

pub fn spec(op: &Op, text: &str, cap: usize) -> Expect {
    use Op::*;
    let len = text.len();
    match op {
        New | Default | Clear => ok(Class::Fit, Obs::Unit, String::new()),
        TryFromStr(s) | Parse(s) | TryFromChars(s) => all_or_oob(s, cap, text),
        FromStrTrunc(s) | FromRefStr(s) | FromCharsTrunc(s) | CollectChars(s) => cut(s, cap),
        TryFromIter(v) => all_or_oob(&v.concat(), cap, text),
        FromIterTrunc(v) | CollectStrs(v) => cut(&v.concat(), cap),
        TryFromUtf16(v) => {
            let whole = String::from_utf16(v);
            match whole {
                Ok(s) if s.len() <= cap => ok(Class::Fit, Obs::Unit, s),
                Ok(_) => refuse(&[Obs::Oob], text),
                Err(_) => {
                    // invalid data; being too long as well is only certain if the
                    // valid part already exceeds the capacity
                    let valid: usize = char::decode_utf16(v.iter().copied())
                        .filter_map(|c| c.ok())
                        .map(|c| c.len_utf8())
                        .sum();
                    if valid > cap {
                        refuse(&[Obs::Utf16, Obs::Oob], text)
                    } else {
                        refuse(&[Obs::Utf16], text)
                    }
                }
            }
        }
        Utf16Trunc(v) => match String::from_utf16(v) {
            Ok(s) => cut(&s, cap),
            Err(_) => {
                // where does the data turn invalid: before or after the capacity ran out?
                let mut pre = String::new();
                for c in char::decode_utf16(v.iter().copied()) {
                    match c {
                        Ok(c) => {
                            if pre.len() + c.len_utf8() > cap {
                                // invalid only past the cut: both readings of the documentation pass
                                return Expect {
                                    class: Class::Cut,
                                    allowed: vec![(Obs::Unit, pre), (Obs::Utf16, text.to_owned())],
                                };
                            }
                            pre.push(c);
                        }
                        Err(_) => break,
                    }
                }
                refuse(&[Obs::Utf16], text)
            }
        },
        Utf16Lossy(v) => cut(&String::from_utf16_lossy(v), cap),
        TryPushStr(s) => {
            if len + s.len() <= cap {
                ok(Class::Fit, Obs::Unit, format!("{text}{s}"))
            } else {
                refuse(&[Obs::Oob], text)
            }
        }
        WriteStr(s) => {
            if len + s.len() <= cap {
                ok(Class::Fit, Obs::Unit, format!("{text}{s}"))
            } else {
                refuse(&[Obs::FmtErr], text)
            }
        }
        PushStrTrunc(s) | Add(s) | ExtendChars(s) | ExtendCharRefs(s) => append_cut(text, s, cap),
        ExtendStrs(v) => append_cut(text, &v.concat(), cap),
        TryPush(c) => {
            if len + c.len_utf8() <= cap {
                ok(Class::Fit, Obs::Unit, format!("{text}{c}"))
            } else {
                refuse(&[Obs::Oob], text)
            }
        }
        WriteChar(c) => {
            if len + c.len_utf8() <= cap {
                ok(Class::Fit, Obs::Unit, format!("{text}{c}"))
            } else {
                refuse(&[Obs::FmtErr], text)
            }
        }
        WriteFmt(a, b, w, n) => {
            let mut sink = Sink { text: text.to_owned(), cap };
            let r = write!(sink, "{a}{b:>w$}{c:?}|{n}", c = b, w = *w as usize);
            match r {
                Ok(()) => ok(Class::Fit, Obs::Unit, sink.text),
                // pieces before the refused one stay: the result is still what the sink got
                Err(_) => ok(Class::Refuse, Obs::FmtErr, sink.text),
            }
        }
        WriteLit(k) => {
            let mut sink = Sink { text: text.to_owned(), cap };
            match crate::op::write_literal(&mut sink, *k) {
                Ok(()) => ok(Class::Fit, Obs::Unit, sink.text),
                Err(_) => ok(Class::Refuse, Obs::FmtErr, sink.text),
            }
        }
        Truncate(n) => {
            if *n >= len {
                ok(Class::Fit, Obs::Unit, text.to_owned())
            } else if text.is_char_boundary(*n) {
                ok(Class::Fit, Obs::Unit, text[..*n].to_owned())
            } else {
                refuse(&[Obs::Utf8], text)
            }
        }
        Pop => {
            let mut t = text.to_owned();
            match t.pop() {
                Some(c) => ok(Class::Fit, Obs::Char(c), t),
                None => ok(Class::Fit, Obs::NoChar, t),
            }
        }
        Trim => ok(Class::Fit, Obs::Unit, text.trim().to_owned()),
        Remove(i) => {
            if *i >= len {
                refuse(&[Obs::Oob], text)
            } else if !text.is_char_boundary(*i) {
                refuse(&[Obs::Utf8], text)
            } else {
                let mut t = text.to_owned();
                let c = t.remove(*i);
                ok(Class::Fit, Obs::Char(c), t)
            }
        }
        Retain(p) => {
            let mut calls = String::new();
            let mut t = text.to_owned();
            let mut k = 0;
            t.retain(|c| {
                calls.push(c);
                k += 1;
                p.keep(c, k - 1)
            });
            ok(Class::Fit, Obs::Calls(calls), t)
        }
        TryInsert(i, c) => {
            let mut b = [0; 4];
            insert(text, *i, c.encode_utf8(&mut b), cap)
        }
        TryInsertStr(i, s) => insert(text, *i, s, cap),
        InsertStrTrunc(i, s) => {
            if *i > len {
                refuse(&[Obs::Oob], text)
            } else if !text.is_char_boundary(*i) {
                refuse(&[Obs::Utf8], text)
            } else {
                let k = floor(s, cap - len);
                let mut t = text.to_owned();
                t.insert_str(*i, k);
                ok(if k.len() == s.len() { Class::Fit } else { Class::Cut }, Obs::Unit, t)
            }
        }
        SplitOff(i) => {
            if *i > len {
                refuse(&[Obs::Oob], text)
            } else if !text.is_char_boundary(*i) {
                refuse(&[Obs::Utf8], text)
            } else {
                ok(Class::Fit, Obs::Text(text[*i..].to_owned()), text[..*i].to_owned())
            }
        }
        Drain(r, plan, steps) => {
            let (a, b) = resolve(r, len);
            let e = range_errs(text, a, b);
            if !e.is_empty() {
                return refuse(&e, text);
            }
            let mut t = text.to_owned();
            t.replace_range(a..b, "");
            ok(Class::Fit, Obs::Text(drain_log(&text[a..b], *plan, *steps)), t)
        }
        ReplaceRange(r, s) => {
            let (a, b) = resolve(r, len);
            let mut e = range_errs(text, a, b);
            if s.len() > cap || (a <= b && b <= len && len - (b - a) + s.len() > cap) {
                if !e.contains(&Obs::Oob) {
                    e.push(Obs::Oob);
                }
            }
            if !e.is_empty() {
                return refuse(&e, text);
            }
            let mut t = text.to_owned();
            t.replace_range(a..b, s);
            ok(Class::Fit, Obs::Unit, t)
        }
        Mutate(v, e) => {
            let (a, b) = view_range(*v, len);
            match text.get(a..b) {
                None => ok(Class::Fit, Obs::Panic(INDEX_PANIC.into()), text.to_owned()),
                Some(sub) => {
                    let new = match e {
                        Edit::Upper => sub.to_ascii_uppercase(),
                        Edit::Lower => sub.to_ascii_lowercase(),
                        Edit::Look => sub.to_owned(),
                    };
                    let t = format!("{}{}{}", &text[..a], new, &text[b..]);
                    ok(Class::Fit, Obs::Text(new), t)
                }
            }
        }
        CloneSwap | CloneInto(_) => ok(Class::Fit, Obs::Unit, text.to_owned()),
    }
}

fn insert(text: &str, i: usize, s: &str, cap: usize) -> Expect {
    let mut e = vec![];
    if i > text.len() || text.len() + s.len() > cap {
        e.push(Obs::Oob);
    }
    if i <= text.len() && !text.is_char_boundary(i) {
        e.push(Obs::Utf8);
    }
    if !e.is_empty() {
        return refuse(&e, text);
    }
    let mut t = text.to_owned();
    t.insert_str(i, s);
    ok(Class::Fit, Obs::Unit, t)
}
