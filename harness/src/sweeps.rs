//! Systematic workloads: geometry of lengths and indices, exhaustive small
//! strings, every Unicode scalar value, every short UTF-16 sequence.
use crate::engine::*;
use crate::gen;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::subj::{make, make_cache, Subject, CAPS};
use std::ops::Bound::*;

/// Exactly `len` bytes of text in one of several styles.
pub fn styled(style: usize, len: usize) -> String {
    let unit: &[char] = match style % 7 {
        0 => &['a', 'b', 'C', 'd', 'E', 'f', 'G'],
        1 => &['é', 'ß'],
        2 => &['€', '\u{2003}', 'あ'],
        3 => &['🤔', '𝄞'],
        4 => &['a', 'é', '€', '🤔'],
        5 => &[' ', '\u{a0}', 'x', '\u{3000}', '\u{85}'],
        _ => &['🤔', 'z', '€', ' ', 'é', 'Q'],
    };
    let mut s = String::new();
    let pad_front = style % 2 == 1;
    let mut k = style;
    while s.len() < len {
        let ch = unit[k % unit.len()];
        k += 1;
        if s.len() + ch.len_utf8() > len {
            break;
        }
        s.push(ch);
    }
    while s.len() < len {
        if pad_front {
            s.insert(0, 'p');
        } else {
            s.push('q');
        }
    }
    s
}

fn put(c: &mut Ctx, s: &mut dyn Subject, text: &mut String, want: &str, stale: bool) -> bool {
    if stale {
        let fill = "\u{7f}".repeat(s.cap());
        if !step(c, s, text, &Op::TryPushStr(fill)) || !step(c, s, text, &Op::Clear) {
            return false;
        }
    }
    step(c, s, text, &Op::TryPushStr(want.to_owned()))
}

/// Runs one operation on a copy of the subject.
fn on_copy(c: &mut Ctx, s: &dyn Subject, text: &str, op: Op) -> bool {
    let mut d = s.dup();
    let mut t = text.to_owned();
    step(c, &mut *d, &mut t, &op)
}

fn dedup(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v.dedup();
    v
}

/// Lengths x positions x argument sizes around every edge, for every capacity.
pub fn geom(c: &mut Ctx) {
    let ncap = CAPS.len() as u64 + 1;
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let which = (k % ncap) as usize;
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x6e0) ^ mix(k));
        let mut s = if which == CAPS.len() { make_cache() } else { make(CAPS[which]) };
        let cap = s.cap();
        let lens = if cap <= 12 {
            (0..=cap).collect()
        } else {
            dedup(vec![0, 1, 2, 3, 4, cap / 2, cap - 5, cap - 4, cap - 3, cap - 2, cap - 1, cap, cap])
        };
        let round = k / ncap;
        let len = lens[((round + mix(c.cfg.seed ^ which as u64)) % lens.len() as u64) as usize];
        let style = r.below(14);
        let base = styled(style, len);
        let mut text = String::new();
        let stale = r.chance(1, 2);
        if !put(c, &mut *s, &mut text, &base, stale) {
            continue;
        }
        geom_one(c, &mut r, &*s, &text, cap);
    }
}

/// Every capacity, empty and nearly full (thorough: every length), with every operation at the
/// edges of the text and of the room left.
pub fn brim(c: &mut Ctx) {
    let mut k = 0;
    for which in 0..=CAPS.len() {
        let cap = if which == CAPS.len() { 63 } else { CAPS[which] };
        let lens: Vec<usize> = if c.cfg.big { (0..=cap).collect() } else { (0..=1).chain(cap.saturating_sub(6).max(2)..=cap).filter(|&l| l <= cap).collect() };
        for len in lens {
            k += 1;
            if !c.unit(k) {
                continue;
            }
            let mut r = Rng::new(mix(c.cfg.seed ^ 0xb21) ^ mix(k));
            let mut s = if which == CAPS.len() { make_cache() } else { make(cap) };
            let base = styled(r.below(14), len);
            let mut text = String::new();
            let stale = r.chance(1, 2);
            if put(c, &mut *s, &mut text, &base, stale) {
                brim_one(c, &mut r, &*s, &text, cap);
            }
        }
    }
    c.note("brim: capacities x lengths", k);
}

fn brim_one(c: &mut Ctx, r: &mut Rng, s: &dyn Subject, text: &str, cap: usize) {
    let len = text.len();
    let free = cap - len;
    let al = dedup(vec![0, 1, free.saturating_sub(4), free.saturating_sub(1), free, free + 1, free + 3, 256 + free]);
    let mut n = r.below(14);
    let mut arg = |l: usize| {
        n += 1;
        styled(n * 5 + len, l)
    };
    macro_rules! go {
        ($e:expr) => {
            if !on_copy(c, s, text, $e) && !c.violations.is_empty() {
                return;
            }
        };
    }
    for &l in &al {
        go!(Op::TryPushStr(arg(l)));
        go!(Op::PushStrTrunc(arg(l)));
        go!(Op::Add(arg(l)));
        go!(Op::WriteStr(arg(l)));
        go!(Op::ExtendChars(arg(l)));
        go!(Op::ExtendCharRefs(arg(l)));
        go!(Op::ExtendStrs(vec![arg(l / 2), arg(l - l / 2)]));
        // constructors, around the capacity
        let l = len + l;
        go!(Op::TryFromStr(arg(l)));
        go!(Op::FromStrTrunc(arg(l)));
        go!(Op::FromRefStr(arg(l)));
        go!(Op::Parse(arg(l)));
        go!(Op::TryFromIter(vec![arg(l / 3), arg(l - l / 3)]));
        go!(Op::FromIterTrunc(vec![arg(l / 3), arg(l - l / 3)]));
        go!(Op::CollectStrs(vec![arg(l / 3), arg(l - l / 3)]));
        go!(Op::TryFromChars(arg(l)));
        go!(Op::FromCharsTrunc(arg(l)));
        go!(Op::CollectChars(arg(l)));
        let u: Vec<u16> = arg(l).encode_utf16().collect();
        go!(Op::TryFromUtf16(u.clone()));
        go!(Op::Utf16Trunc(u.clone()));
        go!(Op::Utf16Lossy(u));
    }
    for op in [
        Op::Pop,
        Op::Trim,
        Op::Clear,
        Op::CloneSwap,
        Op::CloneInto(gen::near(r, text, cap)),
        Op::Retain(Pred::All),
        Op::Retain(Pred::NotWhite),
        Op::Retain(Pred::Turn(r.u64())),
        Op::WriteLit(8),
        Op::WriteFmt("é".into(), "x".into(), (free % 250) as u8, 7),
        Op::Mutate(View::AsMutStr, Edit::Upper),
    ] {
        go!(op);
    }
    for ch in ['x', 'é', '€', '🤔'] {
        go!(Op::TryPush(ch));
        go!(Op::WriteChar(ch));
    }
    let mut idx = vec![0, 1, len / 2, len.saturating_sub(1), len, len + 1, cap + 1, 256, usize::MAX];
    idx.push(model_boundary(text, r.below(len + 1)));
    idx.push(model_boundary(text, len / 2));
    let idx = dedup(idx);
    for &i in &idx {
        go!(Op::Truncate(i));
        go!(Op::Remove(i));
        go!(Op::SplitOff(i));
        for ch in ['x', 'é', '€', '🤔'] {
            go!(Op::TryInsert(i, ch));
        }
        for &l in &al {
            go!(Op::TryInsertStr(i, arg(l)));
            go!(Op::InsertStrTrunc(i, arg(l)));
        }
        let p = r.u64();
        go!(Op::Drain((Included(i), Unbounded), p, 3));
        go!(Op::Drain((Unbounded, Excluded(i)), p, 3));
        let j = model_boundary(text, (i.min(len) + r.below(9)).min(len));
        let cut = j.saturating_sub(i);
        for l in [0, cut, free + cut, free + cut + 1, (free + cut).saturating_sub(1)] {
            go!(Op::ReplaceRange((Included(i), Excluded(j)), arg(l)));
        }
    }
}

/// The last character boundary at or before `i`.
fn model_boundary(text: &str, i: usize) -> usize {
    crate::model::floor(text, i).len()
}

fn geom_one(c: &mut Ctx, r: &mut Rng, s: &dyn Subject, text: &str, cap: usize) {
    let len = text.len();
    let free = cap - len;
    let small = cap <= 16 || c.cfg.big;
    let mut idx: Vec<usize> = if small {
        (0..=len + 2).collect()
    } else {
        let mut v: Vec<usize> = (0..=4).chain(len.saturating_sub(5)..=len + 2).collect();
        v.extend([len / 2, len / 2 + 1, 127, 128, 129]);
        for _ in 0..4 {
            v.push(r.below(len + 1));
        }
        v
    };
    idx.extend([cap, cap + 1, 254, 255, 256, 257, 256 + len, 512, usize::MAX, usize::MAX - 1, (1u64 << 32) as usize]);
    let idx = dedup(idx);
    let mut al = vec![0, 1, 2, 3, 4, free, free + 1, free + 2, free + 3, free + 4, cap, cap + 1, 255, 256, 257, 256 + free];
    al.extend((1..=4).map(|d| free.saturating_sub(d)));
    let al = dedup(al);
    let mut n = 0usize;
    let mut arg = |l: usize| {
        n += 1;
        styled(n * 5 + len, l)
    };
    macro_rules! go {
        ($e:expr) => {
            if !on_copy(c, s, text, $e) && !c.violations.is_empty() {
                return;
            }
        };
    }
    for &l in &al {
        go!(Op::TryPushStr(arg(l)));
        go!(Op::PushStrTrunc(arg(l)));
        go!(Op::Add(arg(l)));
        go!(Op::WriteStr(arg(l)));
        go!(Op::ExtendChars(arg(l)));
        go!(Op::ExtendCharRefs(arg(l)));
        let a = arg(l);
        let mut mid = r.below(a.len() + 1);
        while !a.is_char_boundary(mid) {
            mid -= 1;
        }
        let two = vec![a[..mid].to_owned(), a[mid..].to_owned()];
        go!(Op::ExtendStrs(two.clone()));
        match r.below(4) {
            0 => {
                go!(Op::TryFromStr(arg(l)));
                go!(Op::FromStrTrunc(arg(l)));
                go!(Op::Parse(arg(l)));
            }
            1 => {
                go!(Op::FromRefStr(arg(l)));
                go!(Op::TryFromIter(two.clone()));
                go!(Op::FromIterTrunc(two.clone()));
                go!(Op::CollectStrs(two));
            }
            2 => {
                go!(Op::TryFromChars(arg(l)));
                go!(Op::FromCharsTrunc(arg(l)));
                go!(Op::CollectChars(arg(l)));
            }
            _ => {
                let u: Vec<u16> = arg(l).encode_utf16().collect();
                go!(Op::TryFromUtf16(u.clone()));
                go!(Op::Utf16Trunc(u.clone()));
                go!(Op::Utf16Lossy(u));
            }
        }
    }
    for op in [
        Op::Pop,
        Op::Trim,
        Op::Clear,
        Op::CloneSwap,
        Op::CloneInto(gen::near(r, &text, cap)),
        Op::CloneInto(gen::near(r, &text, cap)),
        Op::New,
        Op::Default,
        Op::Retain(Pred::All),
        Op::Retain(Pred::None),
        Op::Retain(Pred::NotWhite),
        Op::Retain(Pred::Turn(r.u64())),
        Op::TryPush('x'),
        Op::TryPush('é'),
        Op::TryPush('€'),
        Op::TryPush('🤔'),
        Op::WriteChar('€'),
        Op::WriteChar('🤔'),
        Op::WriteFmt("é".into(), "x".into(), (free % 250) as u8, 7),
        Op::WriteLit(0),
        Op::WriteLit(1),
        Op::WriteLit(4),
        Op::WriteLit(7),
        Op::WriteLit(8),
        Op::Mutate(View::AsMutStr, Edit::Upper),
        Op::Mutate(View::AsMut, Edit::Lower),
        Op::Mutate(View::BorrowMut, Edit::Upper),
        Op::Mutate(View::DerefMut, Edit::Lower),
        Op::Mutate(View::IdxFull, Edit::Upper),
    ] {
        go!(op);
    }
    for &i in &idx {
        go!(Op::Truncate(i));
        go!(Op::Remove(i));
        go!(Op::SplitOff(i));
        for ch in ['x', 'é', '€', '🤔'] {
            go!(Op::TryInsert(i, ch));
        }
        for (lo, hi) in [
            (Included(i), Unbounded),
            (Excluded(i), Unbounded),
            (Unbounded, Excluded(i)),
            (Unbounded, Included(i)),
        ] {
            let p = r.u64();
            go!(Op::Drain((lo, hi), p, 3));
        }
        for _ in 0..6 {
            let l = *r.pick(&al);
            go!(Op::TryInsertStr(i, arg(l)));
            go!(Op::InsertStrTrunc(i, arg(l)));
        }
        if i <= 255 {
            let j = i as u8;
            for v in [View::IdxFrom(j), View::IdxTo(j), View::IdxToIncl(j)] {
                go!(Op::Mutate(v, if j % 2 == 0 { Edit::Upper } else { Edit::Lower }));
            }
        }
    }
    for _ in 0..60 {
        let (a, b) = (*r.pick(&idx), *r.pick(&idx));
        let (a, b) = if a > b && r.chance(9, 10) { (b, a) } else { (a, b) };
        let cut = if a <= b && b <= len { b - a } else { 0 };
        let f = free + cut;
        let l = *r.pick(&[0, 1, cut, f, f + 1, f.saturating_sub(1), f + 2, cut + 1, cut.saturating_sub(1), cap, 256, 256 + f, 256 + cut]);
        let lo = if a > 0 && r.chance(1, 4) { Excluded(a - 1) } else { Included(a) };
        let hi = if b > 0 && r.chance(1, 4) { Included(b - 1) } else { Excluded(b) };
        go!(Op::ReplaceRange((lo, hi), arg(l)));
        let p = r.u64();
        go!(Op::Drain((lo, hi), p, 6));
        if a <= 255 && b <= 255 {
            go!(Op::Mutate(View::IdxRange(a as u8, b as u8), Edit::Upper));
            go!(Op::Mutate(View::IdxIncl(a as u8, b as u8), Edit::Lower));
        }
    }
}

/// Every text over `alpha` of at most `max` bytes.
pub fn words(alpha: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut k = 0;
    while k < all.len() {
        let w = all[k].clone();
        for &ch in alpha {
            if w.len() + ch.len_utf8() <= max {
                let mut x = w.clone();
                x.push(ch);
                all.push(x);
            }
        }
        k += 1;
    }
    all
}

/// Every text, every operation and every argument, for the smallest capacities.
pub fn exhaustive(c: &mut Ctx) {
    let alpha = ['a', ' ', 'é', '€', '🤔'];
    let maxcap = if c.cfg.big { 6 } else { 4 };
    let mut k = 0;
    for cap in 1..=maxcap {
        let texts = words(&alpha, cap);
        let args = words(&alpha, cap + 1);
        for text in &texts {
            for stale in [false, true] {
                k += 1;
                if !c.unit(k) {
                    continue;
                }
                let mut s = make(cap);
                let mut t = String::new();
                if !put(c, &mut *s, &mut t, text, stale) {
                    continue;
                }
                exh_one(c, &*s, text, cap, &args);
            }
        }
    }
    c.note("exhaustive: texts x histories", k);
}
fn exh_one(c: &mut Ctx, s: &dyn Subject, text: &str, cap: usize, args: &[String]) {
    macro_rules! go {
        ($e:expr) => {
            if !on_copy(c, s, text, $e) && !c.violations.is_empty() {
                return;
            }
        };
    }
    let chars = ['a', ' ', 'é', '€', '🤔'];
    let top = cap + 2;
    for op in [Op::Pop, Op::Trim, Op::Clear, Op::CloneSwap] {
        go!(op);
    }
    for bits in 0..(1u64 << text.chars().count()) {
        go!(Op::Retain(Pred::Turn(bits)));
    }
    for ch in chars {
        go!(Op::TryPush(ch));
        go!(Op::WriteChar(ch));
    }
    for a in args {
        for op in [
            Op::TryPushStr(a.clone()),
            Op::PushStrTrunc(a.clone()),
            Op::Add(a.clone()),
            Op::WriteStr(a.clone()),
            Op::ExtendChars(a.clone()),
            Op::ExtendCharRefs(a.clone()),
            Op::ExtendStrs(vec![a.clone()]),
            Op::CloneInto(a.clone()),
        ] {
            go!(op);
        }
        if text.is_empty() {
            let u: Vec<u16> = a.encode_utf16().collect();
            for op in [
                Op::TryFromStr(a.clone()),
                Op::FromStrTrunc(a.clone()),
                Op::FromRefStr(a.clone()),
                Op::Parse(a.clone()),
                Op::TryFromChars(a.clone()),
                Op::FromCharsTrunc(a.clone()),
                Op::CollectChars(a.clone()),
                Op::TryFromUtf16(u.clone()),
                Op::Utf16Trunc(u.clone()),
                Op::Utf16Lossy(u),
            ] {
                go!(op);
            }
            for (m, _) in a.char_indices().chain([(a.len(), ' ')]) {
                let v = vec![a[..m].to_owned(), a[m..].to_owned()];
                go!(Op::TryFromIter(v.clone()));
                go!(Op::FromIterTrunc(v.clone()));
                go!(Op::CollectStrs(v.clone()));
                go!(Op::ExtendStrs(v));
            }
        }
    }
    for i in 0..=top {
        go!(Op::Truncate(i));
        go!(Op::Remove(i));
        go!(Op::SplitOff(i));
        for ch in chars {
            go!(Op::TryInsert(i, ch));
        }
        for a in args {
            go!(Op::TryInsertStr(i, a.clone()));
            go!(Op::InsertStrTrunc(i, a.clone()));
        }
        for j in 0..=top {
            let plain = (Included(i), Excluded(j));
            for (n, rg) in [plain, (Excluded(i), Excluded(j)), (Included(i), Included(j)), (Excluded(i), Included(j))]
                .into_iter()
                .enumerate()
            {
                for plan in 0..8 {
                    if n == 0 || plan == 2 {
                        go!(Op::Drain(rg, plan, 3));
                    }
                }
                go!(Op::ReplaceRange(rg, String::new()));
                go!(Op::ReplaceRange(rg, "é".into()));
            }
            for a in args {
                go!(Op::ReplaceRange(plain, a.clone()));
            }
            let (x, y) = (i as u8, j as u8);
            for v in [View::IdxRange(x, y), View::IdxIncl(x, y)] {
                go!(Op::Mutate(v, Edit::Upper));
            }
        }
        let x = i as u8;
        for v in [View::IdxFrom(x), View::IdxTo(x), View::IdxToIncl(x)] {
            go!(Op::Mutate(v, Edit::Upper));
        }
        for rg in [(Unbounded, Excluded(i)), (Unbounded, Included(i)), (Included(i), Unbounded), (Excluded(i), Unbounded)] {
            go!(Op::Drain(rg, 1, 2));
            go!(Op::ReplaceRange(rg, "a".into()));
        }
    }
}

/// Every Unicode scalar value through the operations that look at characters.
pub fn chars(c: &mut Ctx) {
    // count = how many of the 4352 blocks of 256 code points to visit
    let blocks = 0x110000 / 256;
    let stride = (blocks / c.cfg.count.clamp(1, blocks)).max(1);
    for k in 0..blocks {
        let interesting = k < 16 || (0x16..0x31).contains(&k) || (0xd7..=0xe0).contains(&k) || k >= 0x10ff || k == 0xff || k == 0x100 || k == 0xfe;
        if !interesting && (k + c.cfg.seed) % stride != 0 {
            continue;
        }
        if !c.unit(k) {
            continue;
        }
        let caps = [4usize, 5, 8, 12, 63, 255];
        let mut subjects: Vec<Box<dyn Subject>> = caps.iter().map(|&n| make(n)).collect();
        subjects.push(make_cache());
        for low in 0..256u32 {
            let Some(ch) = char::from_u32(k as u32 * 256 + low) else { continue };
            let i = (ch as usize * 7 + c.cfg.seed as usize) % subjects.len();
            let s = &mut subjects[i];
            let mut text = s.state().unwrap_or_default();
            if !char_script(c, &mut **s, &mut text, ch) {
                if !c.violations.is_empty() {
                    return;
                }
                *s = if s.is_cache() { make_cache() } else { make(s.cap()) };
            }
        }
    }
}
fn char_script(c: &mut Ctx, s: &mut dyn Subject, text: &mut String, ch: char) -> bool {
    let cap = s.cap();
    let one = ch.to_string();
    let n = one.len();
    let mut u = [0; 2];
    let mut units: Vec<u16> = ch.encode_utf16(&mut u).to_vec();
    let mut ops = vec![
        Op::TryFromChars(one.clone()),
        Op::TryFromUtf16(units.clone()),
        Op::Utf16Lossy(units.clone()),
        Op::Trim,
        Op::New,
        Op::TryPush(ch),
        Op::Trim,
        Op::New,
        Op::WriteChar(ch),
        Op::Mutate(View::AsMutStr, Edit::Upper),
        Op::Mutate(View::DerefMut, Edit::Lower),
        Op::Pop,
        Op::TryInsert(0, ch),
        Op::TryInsert(n, ch),
        Op::Truncate(n),
        Op::Drain((Unbounded, Unbounded), 2, 2),
        Op::CollectChars(one.clone()),
        Op::Retain(Pred::NotWhite),
        Op::ExtendChars(one.clone()),
        Op::Remove(0),
        Op::FromStrTrunc(one.repeat(cap / n + 1)),
        Op::FromCharsTrunc(one.repeat(cap / n + 1)),
        Op::SplitOff(n),
    ];
    if cap >= 2 * n + 1 {
        let sur = format!("{ch}x{ch}");
        ops.extend([
            Op::TryFromStr(sur.clone()),
            Op::Trim,
            Op::TryFromStr(sur),
            Op::Remove(n),
            Op::Pop,
            Op::Clear,
            Op::TryFromStr(format!("x{ch}y")),
            Op::Trim,
            Op::ReplaceRange((Included(1), Excluded(1 + n)), "-".into()),
            Op::ReplaceRange((Included(1), Excluded(2)), one.clone()),
            Op::Drain((Included(1), Excluded(1 + n)), 0, 1),
        ]);
        units.push('z' as u16);
        ops.push(Op::Utf16Trunc(units));
    }
    for op in ops {
        if !step(c, s, text, &op) {
            return false;
        }
    }
    true
}

/// Every short UTF-16 sequence over the units that matter, for the smallest capacities.
pub fn utf16(c: &mut Ctx) {
    let alpha: &[u16] = &[0x61, 0xe9, 0x20ac, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff];
    let n = alpha.len();
    let max: usize = if c.cfg.big { 5 } else { 4 };
    let caps = [1usize, 2, 3, 4, 5, 6, 7, 8, 12];
    let mut k = 0;
    for len in 0..=max {
        for first in 0..(if len == 0 { 1 } else { n }) {
            for second in 0..(if len < 2 { 1 } else { n }) {
                k += 1;
                if !c.unit(k) {
                    continue;
                }
                let mut subjects: Vec<Box<dyn Subject>> = caps.iter().map(|&n| make(n)).collect();
                let rest = len.saturating_sub(2);
                for code in 0..n.pow(rest as u32) {
                    let mut v = vec![];
                    if len > 0 {
                        v.push(alpha[first]);
                    }
                    if len > 1 {
                        v.push(alpha[second]);
                    }
                    let mut x = code;
                    for _ in 0..rest {
                        v.push(alpha[x % n]);
                        x /= n;
                    }
                    for s in subjects.iter_mut() {
                        for op in [Op::TryFromUtf16(v.clone()), Op::Utf16Trunc(v.clone()), Op::Utf16Lossy(v.clone())] {
                            let mut t = s.state().unwrap_or_default();
                            if !step(c, &mut **s, &mut t, &op) {
                                if !c.violations.is_empty() {
                                    return;
                                }
                                *s = make(s.cap());
                            }
                        }
                    }
                }
            }
        }
    }
    // every single unit, and every unit next to each kind of surrogate
    for hi in 0..256u64 {
        k += 1;
        if !c.unit(k) {
            continue;
        }
        let mut s = make(6);
        let mut t = String::new();
        for lo in 0..256u64 {
            let u = (hi << 8 | lo) as u16;
            for v in [vec![u], vec![0xd800, u], vec![u, 0xdc00], vec![0xdbff, u, 0x62], vec![0x61, u, 0xdfff]] {
                for op in [Op::TryFromUtf16(v.clone()), Op::Utf16Trunc(v.clone()), Op::Utf16Lossy(v.clone())] {
                    if !step(c, &mut *s, &mut t, &op) {
                        if !c.violations.is_empty() {
                            return;
                        }
                        s = make(6);
                        t.clear();
                    }
                }
            }
        }
    }
    // long inputs with the defect placed around the point where the capacity runs out
    for j in 0..c.cfg.count {
        k += 1;
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x16) ^ mix(j));
        let mut s = subject_for(&mut r);
        let mut t = String::new();
        for _ in 0..12 {
            let cap = s.cap();
            let v = if r.chance(1, 2) {
                gen::utf16(&mut r, cap, 0)
            } else {
                let mut v: Vec<u16> = styled(r.below(14), (cap + r.below(9)).saturating_sub(4)).encode_utf16().collect();
                let near = v.len().saturating_sub(r.below(8));
                v.insert(near, *r.pick(&[0xd800, 0xdc00, 0xdbff, 0xdfff]));
                v
            };
            let op = match r.below(3) {
                0 => Op::TryFromUtf16(v),
                1 => Op::Utf16Trunc(v),
                _ => Op::Utf16Lossy(v),
            };
            if !step(c, &mut *s, &mut t, &op) {
                break;
            }
        }
    }
}
