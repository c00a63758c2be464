//! Workload generation: texts, sizes and indices that sit on the edges.
use crate::op::*;
use crate::rng::Rng;
use std::ops::Bound;

pub const ONE: &[char] = &[
    'a', 'b', 'z', 'A', 'Q', 'Z', '0', '9', ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\0', '"', '\\', '\u{7f}', '%', '{', '}',
    '/', '\'', '\u{1b}', '\u{1c}', '\u{1f}', '@', '[', '`', '\u{1}', '\u{8}', '$', '&', '<', '>', ',', '.', '-', '+', '_', ':', ';', '~',
];
pub const TWO: &[char] = &[
    '\u{80}', '\u{85}', '\u{a0}', 'é', 'ß', 'Ñ', '\u{300}', '\u{ff}', '\u{100}', '\u{17f}', '\u{7bf}', '\u{7ff}', '\u{ad}', 'ñ', '\u{e9}',
    '\u{301}', 'İ', 'ı', 'א', '\u{61c}', '\u{9f}', '×',
];
pub const THREE: &[char] = &[
    '\u{800}', '€', '\u{1680}', '\u{180e}', '\u{2000}', '\u{2003}', '\u{200a}', '\u{200b}', '\u{2028}', '\u{2029}', '\u{202f}',
    '\u{205f}', '\u{3000}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{fffe}', 'あ', '\u{fff}', '\u{1000}',
    '\u{200c}', '\u{200d}', '\u{200e}', '\u{2060}', '\u{20ac}', '\u{fe0f}', '\u{fffc}', '\u{1100}', '\u{1161}', '각', 'ﬁ', 'ẞ', '\u{fdd0}', '\u{ff21}',
];
pub const FOUR: &[char] = &['\u{10000}', '🤔', '𝄞', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{10ffff}', '\u{1f3fb}', '\u{1f1e6}', '\u{e0001}', '\u{1f468}', '\u{1fffe}'];
pub const WHITE: &[char] = &[
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2003}', '\u{2028}', '\u{2029}',
    '\u{202f}', '\u{205f}', '\u{3000}',
];

pub fn any_char(r: &mut Rng) -> char {
    loop {
        let hi = *r.pick(&[0x7f, 0x7ff, 0xffff, 0x10ffff]);
        if let Some(c) = char::from_u32(r.below(hi + 1) as u32) {
            return c;
        }
    }
}
pub fn ch(r: &mut Rng, mode: usize) -> char {
    match mode {
        0 => *r.pick(ONE),
        1 => (b'a' + r.below(26) as u8) as char,
        2 => *r.pick(TWO),
        3 => *r.pick(THREE),
        4 => *r.pick(FOUR),
        5 => *r.pick(WHITE),
        6 => {
            if r.chance(1, 2) {
                *r.pick(WHITE)
            } else {
                *r.pick(&['x', 'é', '€', '🤔', '\u{200b}', '\u{feff}'])
            }
        }
        7 => any_char(r),
        _ => match r.below(4) {
            0 => *r.pick(ONE),
            1 => *r.pick(TWO),
            2 => *r.pick(THREE),
            _ => *r.pick(FOUR),
        },
    }
}
/// Pieces that mean something to somebody: grapheme clusters, escapes, values that look like another type's.
pub const WORDS: &[&str] = &[
    "null", "NULL", "true", "false", "0", "-1", "12", "1e5", "NaN", "inf", "''", "\"\"", "--", "/*", "\\n", "\\u0041", "\\0", "%s", "%00",
    "{}", "{0}", "{{", "&amp;", "0x41", "C:\\", "://", "\r\n", "\n\n", "  ", "\0\0", "x'41'", "None", "Some", "e\u{301}", "\u{1f468}\u{200d}\u{1f469}",
    "\u{1f1e9}\u{1f1ea}", "\u{1f44d}\u{1f3fd}", "\u{2764}\u{fe0f}", "\u{1100}\u{1161}\u{11a8}", "\u{202e}", "\u{feff}", "\u{c3}\u{a9}", "\u{fffd}\u{fffd}", "à", "ss", "ß", "i\u{307}",
];
/// About `len` bytes of text (exactly `len` if `exact`).
pub fn text(r: &mut Rng, len: usize, exact: bool) -> String {
    let mode = r.below(10);
    let mut s = String::new();
    while s.len() < len {
        let c = ch(r, mode);
        if s.len() + c.len_utf8() > len {
            if !exact {
                break;
            }
            s.push((b'a' + r.below(26) as u8) as char);
        } else {
            s.push(c);
        }
    }
    if !cfg!(miri) && s.len() > 1 && r.chance(1, 5) {
        shape(r, &mut s);
    }
    s
}
/// Gives a text one of the shapes that random characters never form. Keeps its length.
fn shape(r: &mut Rng, s: &mut String) {
    let n = s.len();
    let ends = |r: &mut Rng| *r.pick(&['\0', ' ', '\n', '\u{7f}', 'a']);
    match r.below(9) {
        7 | 8 => {
            // words: all of it, or one among other text
            let all = r.chance(1, 3);
            let mut t = String::new();
            let w = *r.pick(WORDS);
            let at = if all { 0 } else { r.below(n) };
            while t.len() < n {
                let w = if all && r.chance(1, 2) { *r.pick(WORDS) } else { w };
                let put = if (all || t.len() == at) && t.len() + w.len() <= n { w } else { "k" };
                t.push_str(put);
            }
            *s = t;
        }
        0 | 1 => {
            // a chosen last byte
            if s.as_bytes()[n - 1] < 128 {
                s.pop();
                let c = ends(r);
                s.push(c);
            }
        }
        2 => {
            if s.as_bytes()[0] < 128 {
                s.remove(0);
                let c = ends(r);
                s.insert(0, c);
            }
        }
        3 => {
            // one character over and over, padded at the end
            let m = r.below(9);
            let c = ch(r, m);
            *s = c.to_string().repeat(n / c.len_utf8());
            while s.len() < n {
                s.push('x');
            }
        }
        4 | 5 => {
            // a long run of one width with a single character of another
            let (m, w) = (*r.pick(&[1, 2, 3, 4]), *r.pick(&[1, 2, 3, 4, 5]));
            let odd = ch(r, w);
            let fill = ch(r, m);
            let at = r.below(n);
            s.clear();
            let mut done = false;
            while s.len() < n {
                let c = if !done && s.len() >= at { done = true; odd } else { fill };
                s.push(if s.len() + c.len_utf8() <= n { c } else { 'y' });
            }
        }
        _ => {
            // the same half twice
            let mut k = n / 2;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            let half = s[..k].to_owned();
            *s = format!("{half}{half}");
            while s.len() < n {
                s.push('z');
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// stay mostly within the free room
    Roomy,
    Edge,
}

/// A length worth trying for an argument, given what is free.
pub fn arg_len(r: &mut Rng, cap: usize, len: usize) -> usize {
    let free = cap - len;
    match r.below(16) {
        0 => 0,
        1 => r.below(4) + 1,
        2 | 3 => free,
        4 => free + 1,
        5 => free + r.below(5),
        6 => free.saturating_sub(r.below(5)),
        7 => cap,
        8 => cap + r.below(5),
        9 => *r.pick(&[255usize, 256, 257, 258, 260, 511, 512, 513]),
        10 => 256 + r.below(free + 4),
        11 => {
            if r.chance(1, 40) {
                65536 + r.below(free + 4)
            } else {
                r.below(600)
            }
        }
        _ => r.below(free + 2),
    }
}
pub fn arg(r: &mut Rng, cap: usize, len: usize) -> String {
    let mut n = arg_len(r, cap, len);
    if cfg!(miri) && n > 40 && !r.chance(1, 10) {
        n = if cap - len < 30 { cap - len + r.below(8) } else { r.below(30) };
    }
    let exact = r.chance(2, 3);
    text(r, n, exact)
}
pub fn args(r: &mut Rng, cap: usize, len: usize) -> Vec<String> {
    let whole = arg(r, cap, len);
    let parts = if r.chance(1, 6) { r.below(48) } else { r.below(6) };
    split(r, &whole, parts)
}
fn split(r: &mut Rng, whole: &str, parts: usize) -> Vec<String> {
    let mut v = vec![];
    let mut rest = whole;
    for _ in 0..parts {
        let mut k = r.below(rest.len() + 1);
        while !rest.is_char_boundary(k) {
            k -= 1;
        }
        v.push(rest[..k].to_owned());
        rest = &rest[k..];
    }
    if !(rest.is_empty() && r.chance(1, 2)) {
        v.push(rest.to_owned());
    }
    if r.chance(1, 6) {
        let k = r.below(v.len() + 1);
        // (sometimes more pieces than any string has bytes)
        let many = if r.chance(1, 40) { 200 + r.below(400) } else { 1 };
        for _ in 0..if cfg!(miri) { 1 } else { many } {
            v.insert(k, String::new());
        }
    }
    v
}

pub fn idx(r: &mut Rng, text: &str, cap: usize) -> usize {
    let len = text.len();
    match r.below(20) {
        0..=8 => {
            // a boundary
            let mut k = r.below(len + 1);
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            k
        }
        9..=11 => r.below(len + 1),
        12 => {
            // inside a char, if there is one
            match (0..len).filter(|&i| !text.is_char_boundary(i)).nth(0) {
                Some(_) => {
                    let v: Vec<usize> = (0..len).filter(|&i| !text.is_char_boundary(i)).collect();
                    *r.pick(&v)
                }
                None => len,
            }
        }
        13 => len,
        14 => len + 1,
        15 => 0,
        16 => *r.pick(&[cap, cap + 1, 255, 256, 257, 511, 512]),
        17 => {
            // what would be fine if it were cut to fewer bits
            let k = match r.below(4) {
                0 => len,
                _ => r.below(len + 1),
            };
            match r.below(6) {
                0 => (1 << 16) + k,
                1 => (1u64 << 32) as usize + k,
                2 => (1 << (usize::BITS - 1)) + k,
                _ => 256 * (1 + r.below(3)) + k,
            }
        }
        18 => *r.pick(&[
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            usize::MAX / 2 + 1,
            (1u64 << 32) as usize,
            (1u64 << 32) as usize + 1,
            (1 << 16) + 1,
            usize::MAX - 255,
            usize::MAX - 254,
        ]),
        _ => len + r.below(8),
    }
}
pub fn range(r: &mut Rng, text: &str, cap: usize) -> R {
    let (mut a, mut b) = (idx(r, text, cap), idx(r, text, cap));
    if a > b && r.chance(7, 8) {
        std::mem::swap(&mut a, &mut b);
    }
    if r.chance(1, 6) {
        b = a;
    }
    let lo = match r.below(6) {
        0 => Bound::Unbounded,
        1 => Bound::Excluded(if r.chance(1, 8) { a } else { a.wrapping_sub(1) }),
        _ => Bound::Included(a),
    };
    let hi = match r.below(6) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(if r.chance(1, 8) { b } else { b.wrapping_sub(1) }),
        _ => Bound::Excluded(b),
    };
    (lo, hi)
}
pub fn pred(r: &mut Rng) -> Pred {
    match r.below(10) {
        0 => Pred::All,
        1 => Pred::None,
        2 => Pred::Ascii,
        3 => Pred::NotWhite,
        4 | 5 => Pred::Turn(r.u64()),
        6 => Pred::DropNth(r.below(8)),
        _ => Pred::Hash(r.u64()),
    }
}
pub fn utf16(r: &mut Rng, cap: usize, len: usize) -> Vec<u16> {
    let s = arg(r, cap, len);
    let mut v: Vec<u16> = s.encode_utf16().collect();
    if r.chance(1, 2) {
        // damage it
        for _ in 0..r.range(1, 3) {
            let sur = match r.below(5) {
                0 => 0xD800,
                1 => 0xDBFF,
                2 => 0xDC00,
                3 => 0xDFFF,
                _ => 0xD800 + r.below(0x800) as u16,
            };
            match r.below(4) {
                0 => v.push(sur),
                1 => v.insert(0, sur),
                2 => {
                    let k = r.below(v.len() + 1);
                    v.insert(k, sur)
                }
                _ => {
                    if !v.is_empty() {
                        let k = r.below(v.len());
                        if r.chance(1, 2) {
                            v[k] = sur;
                        } else {
                            let _ = v.remove(k);
                        }
                    }
                }
            }
        }
    }
    v
}
pub fn view(r: &mut Rng, text: &str) -> View {
    let len = text.len();
    let mut i = || -> u8 {
        match r.below(10) {
            0..=6 => {
                let mut k = r.below(len + 1);
                while !text.is_char_boundary(k) {
                    k -= 1;
                }
                k as u8
            }
            7 => r.below(len + 1) as u8,
            8 => *r.pick(&[0, 255, 254, 128, 127]),
            _ => (len + r.below(3)).min(255) as u8,
        }
    };
    let (a, b) = (i(), i());
    let (lo, hi) = if a > b && r.chance(7, 8) { (b, a) } else { (a, b) };
    let dec = if r.chance(4, 5) { hi.wrapping_sub(1) } else { hi };
    match r.below(10) {
        0 => View::AsMutStr,
        1 => View::AsMut,
        2 => View::BorrowMut,
        3 => View::DerefMut,
        4 => View::IdxFull,
        5 => View::IdxFrom(a),
        6 => View::IdxTo(a),
        7 => View::IdxRange(lo, hi),
        8 => View::IdxToIncl(dec),
        _ => View::IdxIncl(lo, dec),
    }
}

/// Which families of operations a workload should favour.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Any,
    Construct,
    Utf16,
    Append,
    Insert,
    Delete,
    Drain,
    Replace,
    Fmt,
    View,
    Extend,
}
pub const ALL_FOCUS: &[Focus] = &[
    Focus::Any,
    Focus::Construct,
    Focus::Utf16,
    Focus::Append,
    Focus::Insert,
    Focus::Delete,
    Focus::Drain,
    Focus::Replace,
    Focus::Fmt,
    Focus::View,
    Focus::Extend,
];

/// A text easily mistaken for `t`: one character changed for another of its size, or cut or
/// extended, or unrelated.
pub fn near(r: &mut Rng, t: &str, cap: usize) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let k = r.below(8);
    if k < 4 && !v.is_empty() {
        let i = if k == 0 { v.len() / 2 } else { r.below(v.len()) };
        v[i] = match (v[i].len_utf8(), v[i]) {
            (1, 'x') => 'y',
            (1, _) => 'x',
            (2, 'é') => 'è',
            (2, _) => 'é',
            (3, '€') => '₭',
            (3, _) => '€',
            (_, '🤔') => '🤕',
            _ => '🤔',
        };
        v.into_iter().collect()
    } else if k < 6 {
        let n = r.below(v.len() + 1);
        v.truncate(n);
        v.into_iter().collect()
    } else if k == 6 {
        format!("{t}x")
    } else {
        arg(r, cap, 0)
    }
}

/// An argument, now and then one related to what the text has at (or in front of) `at`.
fn given(r: &mut Rng, cap: usize, used: usize, text_now: &str, at: usize) -> String {
    if text_now.is_empty() || !r.chance(1, 5) {
        return arg(r, cap, used);
    }
    let len = text_now.len();
    let floor = |mut k: usize| {
        while !text_now.is_char_boundary(k) {
            k -= 1;
        }
        k
    };
    let at = floor(at.min(len));
    let back = r.below(at + 1);
    let (p, q) = match r.below(8) {
        0 => (0, len),
        1 => (0, floor(r.below(len + 1))),
        2 => (floor(r.below(len + 1)), len),
        3 => (floor(back), at),
        4 => (at, len),
        _ => (at, floor(at + r.below(len - at + 1))),
    };
    let mut s = text_now[p..q].to_owned();
    let m = r.below(10);
    match r.below(8) {
        0 => s.push(ch(r, m)),
        1 => {
            let _ = s.pop();
        }
        2 => {
            let _ = s.pop();
            s.push(ch(r, m));
        }
        3 => s = s.repeat(2 + r.below(3)),
        4 => s.insert(0, ch(r, m)),
        _ => {}
    }
    s
}

pub fn op(r: &mut Rng, f: Focus, text_now: &str, cap: usize) -> Op {
    let len = text_now.len();
    let fam = if f == Focus::Any || r.chance(3, 10) { ALL_FOCUS[1 + r.below(ALL_FOCUS.len() - 1)] } else { f };
    match fam {
        Focus::Any => unreachable!(),
        Focus::Construct => match r.below(14) {
            0 => Op::New,
            1 => Op::Default,
            2 => Op::TryFromStr(arg(r, cap, 0)),
            3 => Op::FromStrTrunc(arg(r, cap, 0)),
            4 => Op::FromRefStr(arg(r, cap, 0)),
            5 => Op::Parse(arg(r, cap, 0)),
            6 => Op::TryFromIter(args(r, cap, 0)),
            7 => Op::FromIterTrunc(args(r, cap, 0)),
            8 => Op::CollectStrs(args(r, cap, 0)),
            9 => Op::TryFromChars(arg(r, cap, 0)),
            10 => Op::FromCharsTrunc(arg(r, cap, 0)),
            11 => Op::CollectChars(arg(r, cap, 0)),
            12 => Op::CloneInto(near(r, text_now, cap)),
            _ => Op::CloneSwap,
        },
        Focus::Utf16 => match r.below(3) {
            0 => Op::TryFromUtf16(utf16(r, cap, 0)),
            1 => Op::Utf16Trunc(utf16(r, cap, 0)),
            _ => Op::Utf16Lossy(utf16(r, cap, 0)),
        },
        Focus::Append => match r.below(5) {
            0 => Op::TryPushStr(given(r, cap, len, text_now, len)),
            1 => Op::PushStrTrunc(given(r, cap, len, text_now, len)),
            2 | 3 => {
                let m = r.below(10);
                Op::TryPush(ch(r, m))
            }
            _ => Op::Add(given(r, cap, len, text_now, len)),
        },
        Focus::Insert => match r.below(4) {
            0 => {
                let m = r.below(10);
                Op::TryInsert(idx(r, text_now, cap), ch(r, m))
            }
            1 => {
                let i = idx(r, text_now, cap);
                Op::TryInsertStr(i, given(r, cap, len, text_now, i))
            }
            _ => {
                let i = idx(r, text_now, cap);
                Op::InsertStrTrunc(i, given(r, cap, len, text_now, i))
            }
        },
        Focus::Delete => match r.below(9) {
            0 | 1 => Op::Truncate(idx(r, text_now, cap)),
            2 => Op::Pop,
            3 => Op::Trim,
            4 | 5 => Op::Remove(idx(r, text_now, cap)),
            6 => Op::Retain(pred(r)),
            7 => Op::SplitOff(idx(r, text_now, cap)),
            _ => {
                if r.chance(1, 3) {
                    Op::Clear
                } else {
                    Op::Pop
                }
            }
        },
        Focus::Drain => {
            let rg = range(r, text_now, cap);
            let plan = match r.below(4) {
                0 => 0,
                1 => u64::MAX,
                _ => r.u64(),
            };
            let n = match r.below(4) {
                0 => 0,
                1 => r.below(4),
                _ => r.below(20),
            };
            Op::Drain(rg, plan, n as u8)
        }
        Focus::Replace => {
            let rg = range(r, text_now, cap);
            let (a, b) = resolve(&rg, len);
            let cut = if a <= b && b <= len { b - a } else { 0 };
            let at = if r.chance(3, 4) { a } else { b };
            let with = given(r, cap, len - cut, text_now, at);
            Op::ReplaceRange(rg, with)
        }
        Focus::Fmt => match r.below(5) {
            4 => Op::WriteLit(r.below(crate::op::LITERALS as usize) as u8),
            0 => Op::WriteStr(given(r, cap, len, text_now, len)),
            1 => {
                let m = r.below(10);
                Op::WriteChar(ch(r, m))
            }
            _ => {
                let (x, y) = (r.below(8), r.below(8));
                let a = text(r, x, false);
                let b = text(r, y, false);
                Op::WriteFmt(a, b, r.below(12) as u8, r.u64() as i8 as i64)
            }
        },
        Focus::View => {
            let v = view(r, text_now);
            let e = *r.pick(&[Edit::Upper, Edit::Lower, Edit::Look]);
            Op::Mutate(v, e)
        }
        Focus::Extend => match r.below(3) {
            0 => Op::ExtendChars(given(r, cap, len, text_now, len)),
            1 => Op::ExtendCharRefs(given(r, cap, len, text_now, len)),
            _ => Op::ExtendStrs(args(r, cap, len)),
        },
    }
}
