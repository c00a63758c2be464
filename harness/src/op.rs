//! The operations a history is made of, and what can be observed of one.
use std::fmt::Write as _;
use std::ops::Bound;

pub type R = (Bound<usize>, Bound<usize>);

/// Predicates for `retain`; some are stateful (depend on the call number).
#[derive(Clone, Debug, PartialEq)]
pub enum Pred {
    All,
    None,
    Ascii,
    NotWhite,
    Hash(u64),
    /// keeps call k iff bit (k % 64) is set
    Turn(u64),
    /// drops exactly call k
    DropNth(usize),
}
impl Pred {
    pub fn keep(&self, c: char, call: usize) -> bool {
        match self {
            Pred::All => true,
            Pred::None => false,
            Pred::Ascii => c.is_ascii(),
            Pred::NotWhite => !c.is_whitespace(),
            Pred::Hash(s) => crate::rng::mix(*s ^ c as u64) & 1 == 1,
            Pred::Turn(s) => (s >> (call % 64)) & 1 == 1,
            Pred::DropNth(k) => call != *k,
        }
    }
}

/// Ways of obtaining a mutable view of the text.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum View {
    AsMutStr,
    AsMut,
    BorrowMut,
    DerefMut,
    IdxFull,
    IdxFrom(u8),
    IdxTo(u8),
    IdxRange(u8, u8),
    IdxToIncl(u8),
    IdxIncl(u8, u8),
    /// an inclusive range that has been iterated to its end
    IdxDone(u8, u8),
}
/// In-place edits that keep UTF-8 validity.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edit {
    Upper,
    Lower,
    /// read only: what does the view show?
    Look,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    New,
    Default,
    TryFromStr(String),
    FromStrTrunc(String),
    FromRefStr(String),
    Parse(String),
    TryFromIter(Vec<String>),
    FromIterTrunc(Vec<String>),
    CollectStrs(Vec<String>),
    TryFromChars(String),
    FromCharsTrunc(String),
    CollectChars(String),
    TryFromUtf16(Vec<u16>),
    Utf16Trunc(Vec<u16>),
    Utf16Lossy(Vec<u16>),
    TryPushStr(String),
    PushStrTrunc(String),
    TryPush(char),
    Truncate(usize),
    Pop,
    Trim,
    Remove(usize),
    Retain(Pred),
    TryInsert(usize, char),
    TryInsertStr(usize, String),
    InsertStrTrunc(usize, String),
    SplitOff(usize),
    Clear,
    /// plan: one bit per step, 1 = from the back
    Drain(R, u64, u8),
    ReplaceRange(R, String),
    Add(String),
    WriteStr(String),
    WriteChar(char),
    /// write!(s, "{a}{b:>w$}{c:?}|{n}")
    WriteFmt(String, String, u8, i64),
    /// `write!` of a literal without arguments (which, see `write_literal`)
    WriteLit(u8),
    ExtendChars(String),
    ExtendCharRefs(String),
    ExtendStrs(Vec<String>),
    Mutate(View, Edit),
    /// replace self by a clone, scribbling over the original
    CloneSwap,
    /// clone into a string that holds this (cut to what fits), and go on with that one
    CloneInto(String),
}

/// What a caller saw.
#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    Unit,
    Oob,
    Utf8,
    Utf16,
    FmtErr,
    Char(char),
    NoChar,
    Text(String),
    /// predicate calls in order
    Calls(String),
    Panic(String),
}
impl Obs {
    pub fn is_err(&self) -> bool {
        matches!(self, Obs::Oob | Obs::Utf8 | Obs::Utf16 | Obs::FmtErr)
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            New => "new",
            Default => "default",
            TryFromStr(_) => "try_from_str",
            FromStrTrunc(_) => "from_str_truncate",
            FromRefStr(_) => "From<&str>",
            Parse(_) => "FromStr",
            TryFromIter(_) => "try_from_iterator",
            FromIterTrunc(_) => "from_iterator_truncate",
            CollectStrs(_) => "FromIterator<&str>",
            TryFromChars(_) => "try_from_chars",
            FromCharsTrunc(_) => "from_chars_truncate",
            CollectChars(_) => "FromIterator<char>",
            TryFromUtf16(_) => "try_from_utf16",
            Utf16Trunc(_) => "from_utf16_truncate",
            Utf16Lossy(_) => "from_utf16_lossy_truncate",
            TryPushStr(_) => "try_push_str",
            PushStrTrunc(_) => "push_str_truncate",
            TryPush(_) => "try_push",
            Truncate(_) => "truncate",
            Pop => "pop",
            Trim => "trim",
            Remove(_) => "remove",
            Retain(_) => "retain",
            TryInsert(..) => "try_insert",
            TryInsertStr(..) => "try_insert_str",
            InsertStrTrunc(..) => "insert_str_truncate",
            SplitOff(_) => "split_off",
            Clear => "clear",
            Drain(..) => "drain",
            ReplaceRange(..) => "replace_range",
            Add(_) => "add",
            WriteStr(_) => "write_str",
            WriteChar(_) => "write_char",
            WriteFmt(..) => "write_fmt",
            WriteLit(_) => "write_fmt of a literal",
            ExtendChars(_) => "Extend<char>",
            ExtendCharRefs(_) => "Extend<&char>",
            ExtendStrs(_) => "Extend<&str>",
            Mutate(..) => "mutable view",
            CloneSwap => "clone",
            CloneInto(_) => "clone_from",
        }
    }
    /// Compact rendering for witnesses and samples.
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self);
        if s.len() > 700 {
            let mut cut = 600;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            let n = s.len();
            s.truncate(cut);
            let _ = write!(s, "...({n} bytes of debug text)");
        }
        s
    }
}

pub fn done(a: u8, b: u8) -> std::ops::RangeInclusive<u8> {
    let mut r = a..=b;
    while r.next().is_some() {}
    r
}

pub fn resolve(r: &R, len: usize) -> (usize, usize) {
    let a = match r.0 {
        Bound::Included(t) => t,
        Bound::Excluded(t) => t.saturating_add(1),
        Bound::Unbounded => 0,
    };
    let b = match r.1 {
        Bound::Included(t) => t.saturating_add(1),
        Bound::Excluded(t) => t,
        Bound::Unbounded => len,
    };
    (a, b)
}

/// What `WriteLit` does, to the subject and to the model's sink alike.
pub fn write_literal<W: std::fmt::Write>(w: &mut W, k: u8) -> std::fmt::Result {
    match k {
        0 => write!(w, ""),
        1 => write!(w, "x"),
        2 => write!(w, "\u{e9}"),
        3 => write!(w, "\u{1f980}"),
        4 => write!(w, "ab\u{e9}cd"),
        5 => write!(w, "{{}}"),
        6 => writeln!(w, "a line"),
        7 => write!(w, "twenty bytes of text"),
        _ => write!(w, "\u{20ac} seventy bytes or so of plain text, longer than what most of the types hold, \u{20ac}"),
    }
}
pub const LITERALS: u8 = 9;
