//! Monitors for the trait surface: comparison, formatting, indexing, draining,
//! the cache-line string, layout and error values.
use crate::api::Api;
use crate::engine::*;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::subj::*;
use crate::sweeps::styled;
use crate::{alloc, for_type, gen, model, win};
use std::collections::{BTreeMap, HashMap};
use std::fmt::{self, Display, Write};
use std::ops::Bound::*;

pub fn seeded(c: &Ctx, salt: u64, k: u64) -> Rng {
    Rng::new(mix(c.cfg.seed ^ salt) ^ mix(k))
}

pub fn renderings(d: &dyn std::fmt::Display, w: usize, p: usize) -> Vec<String> {
    vec![
        format!("{d}"),
        format!("{d:w$}"),
        format!("{d:.p$}"),
        format!("{d:>w$.p$}"),
        format!("{d:<w$}"),
        format!("{d:*^w$}"),
        format!("{d:é^w$.p$}"),
        format!("{d:#}"),
        format!("{d:+.p$}"),
        format!("{d:0w$}"),
    ]
}

/// Brings a fresh subject to `want` along one of several routes; None if the
/// library did not get there (which other properties judge).
fn routed(r: &mut Rng, mk: &dyn Fn() -> Box<dyn Subject>, want: &str, route: usize) -> Option<Box<dyn Subject>> {
    let mut s = mk();
    let cap = s.cap();
    let w = || want.to_owned();
    let ops: Vec<Op> = match route {
        0 => vec![Op::TryFromStr(w())],
        1 => {
            let l = cap - r.below(cap / 4 + 1);
            vec![Op::TryFromStr(gen::text(r, l, true)), Op::Clear, Op::TryPushStr(w())]
        }
        2 => {
            let l = cap - want.len();
            vec![Op::TryPushStr(w()), Op::TryPushStr(gen::text(r, l, true)), Op::Truncate(want.len())]
        }
        3 => {
            let mut v = vec![Op::FromStrTrunc("~".repeat(cap)), Op::Clear];
            v.extend(want.chars().rev().map(|ch| Op::TryInsert(0, ch)));
            v
        }
        4 => {
            let l = r.below(cap + 1);
            vec![Op::TryFromStr(gen::text(r, l, true)), Op::ReplaceRange((Unbounded, Unbounded), w())]
        }
        5 => {
            let l = cap - want.len();
            let mut x = gen::text(r, l, true);
            let n = x.len();
            x.push_str(want);
            vec![Op::TryFromStr(x), Op::Drain((Unbounded, Excluded(n)), 0, 0)]
        }
        6 => vec![Op::FromStrTrunc("z".repeat(cap)), Op::Retain(Pred::None), Op::CollectChars(w()), Op::CloneSwap],
        _ => {
            let l = cap - want.len();
            let mut v = vec![Op::TryPushStr(gen::text(r, l, false)), Op::Clear, Op::TryPushStr(w())];
            let more = (cap - want.len()) / 4;
            for _ in 0..more.min(5) {
                v.push(Op::TryPush('🤔'));
            }
            for _ in 0..more.min(5) {
                v.push(Op::Pop);
            }
            v
        }
    };
    for op in &ops {
        match guarded(|| s.apply(op)) {
            Ok(_) => {}
            Err(_) => return None,
        }
    }
    match guarded(|| s.state()) {
        Ok(Ok(t)) if t == want => Some(s),
        _ => None,
    }
}

fn related(r: &mut Rng, cap: usize) -> Vec<String> {
    let l = r.below(cap + 1);
    let base = gen::text(r, l, true);
    let mut v = vec![base.clone(), String::new(), "\0".repeat(r.below(cap + 1))];
    let mut p = base.clone();
    p.pop();
    v.push(p);
    for add in ["\0", "a", "\u{7f}", "é", "\0\0"] {
        v.push(format!("{base}{add}"));
    }
    let cs: Vec<char> = base.chars().collect();
    if !cs.is_empty() {
        for _ in 0..4 {
            let k = r.below(cs.len());
            let mut x = cs.clone();
            let m = r.below(10);
            x[k] = gen::ch(r, m);
            v.push(x.iter().collect());
        }
        let k = r.below(cs.len());
        v.push(cs[k..].iter().collect());
        v.push(cs[..k].iter().collect());
        // the same characters in another order, so that sums and lengths agree
        let (i, j) = (r.below(cs.len()), r.below(cs.len()));
        let mut x = cs.clone();
        x.swap(i, j);
        v.push(x.iter().collect());
        let mut x = cs.clone();
        x.rotate_left(k);
        v.push(x.iter().collect());
        v.push(cs.iter().rev().collect());
        // the same but for case, white space at the ends, or what is not seen
        v.push(base.to_ascii_uppercase());
        v.push(cs.iter().map(|c| if r.chance(1, 4) { c.to_ascii_lowercase() } else { *c }).collect());
        v.push(base.trim_end().to_owned());
        v.push(format!(" {base}"));
        v.push(format!("{}\u{200b}{}", cs[..k].iter().collect::<String>(), cs[k..].iter().collect::<String>()));
        v.push(base.replace('é', "e\u{301}"));
        v.push(base.replace('\0', ""));
        // two bytes changed by opposite amounts
        let mut b = base.clone().into_bytes();
        if b[..].iter().filter(|b| (40..100).contains(*b)).count() >= 2 {
            let at: Vec<usize> = (0..b.len()).filter(|i| (40..100).contains(&b[*i])).collect();
            let (i, j) = (*r.pick(&at), *r.pick(&at));
            b[i] += 1;
            b[j] -= 1;
            v.push(String::from_utf8(b).unwrap());
        }
    }
    let l = r.below(cap + 1);
    v.push(gen::text(r, l, true));
    v.retain(|t| t.len() <= cap);
    while v.len() > 11 {
        let k = r.below(v.len());
        v.swap_remove(k);
    }
    v
}

pub fn cmp_expected(a: &str, b: &str) -> CmpObs {
    CmpObs {
        eq: a == b,
        ne: a != b,
        cmp: a.cmp(b),
        partial: Some(a.cmp(b)),
        lt: a < b,
        le: a <= b,
        gt: a > b,
        ge: a >= b,
        hash_a: fnv(a),
        hash_b: fnv(b),
        extremes: [fnv(a.max(b)), fnv(a.min(b)), fnv(a)],
        within: [fnv(&[a, b][..]), fnv(&(b, 7u8, a))],
    }
}

/// Equality, ordering and hashing against those of the texts (C10, C09).
pub fn cmp(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0xc3, k);
        let first = subject_for(&mut r);
        let (cap, cache) = (first.cap(), first.is_cache());
        let mk: Box<dyn Fn() -> Box<dyn Subject>> =
            if cache { Box::new(|| make_cache()) } else { Box::new(move || make(cap)) };
        let mut pool: Vec<(String, usize, Box<dyn Subject>)> = vec![];
        for t in related(&mut r, cap) {
            for _ in 0..2 {
                let route = r.below(8);
                match routed(&mut r, &*mk, &t, route) {
                    Some(s) => pool.push((t.clone(), route, s)),
                    None => c.note("texts not reached", 1),
                }
            }
        }
        let mut bad = None;
        'outer: for (ta, ra, a) in &pool {
            for (tb, rb, b) in &pool {
                let _ = alloc::take();
                let got = guarded(|| a.cmp_with(&**b));
                let n = alloc::take();
                let exp = cmp_expected(ta, tb);
                let _ = alloc::take();
                c.tick("compare", if ta == tb { "same text" } else { "different text" });
                c.case(&(cap, ta, ra, tb, rb));
                if n > 0 {
                    bad = Some((&["C09"][..], format!("comparing and hashing {ta:?} and {tb:?} made {n} allocator calls")));
                    break 'outer;
                }
                match got {
                    Ok(g) if g == exp => {}
                    g => {
                        bad = Some((
                            &["C10"][..],
                            format!("capacity {cap}: {ta:?} (route {ra}) vs {tb:?} (route {rb}): {g:?}, but the texts give {exp:?}"),
                        ));
                        break 'outer;
                    }
                }
                let v = guarded(|| a.vs_str(tb));
                if v != Ok((ta == tb, ta == tb)) {
                    bad = Some((&["C10"][..], format!("capacity {cap}: {ta:?} (route {ra}) == &str {tb:?} gives {v:?}")));
                    break 'outer;
                }
                // pieces of itself
                let (x, y) = (gen::idx(&mut r, ta, cap), gen::idx(&mut r, ta, cap));
                for (x, y) in [(0, x), (x, ta.len()), (x, y), (0, ta.len())] {
                    if ta.get(x..y).is_none() {
                        continue;
                    }
                    let want = x == 0 && y == ta.len() || ta[x..y] == **ta;
                    let v = guarded(|| a.vs_own(x, y));
                    c.tick("compare with its own text", if want { "all" } else { "a part" });
                    if v != Ok([want; 4]) {
                        bad = Some((&["C10"][..], format!("capacity {cap}: {ta:?} (route {ra}) compared with the bytes {x}..{y} of its own text (==, == &str, not !=, not != &str): {v:?}")));
                        break 'outer;
                    }
                }
                // texts no string of this type can hold
                let long = match r.below(5) {
                    0 => format!("{ta}{}", "\0".repeat(256)),
                    1 if !tb.is_empty() => format!("{ta}{}", tb.repeat(256 / tb.len() + 1)),
                    2 => format!("{ta}{}", "x".repeat(cap + 1 - ta.len())),
                    3 => format!("{ta}{tb}{}", "k".repeat(512 - tb.len())),
                    _ => format!("{}{ta}", "\0".repeat(cap + 1 - ta.len())),
                };
                let v = guarded(|| a.vs_str(&long));
                if v != Ok((false, false)) {
                    bad = Some((&["C10"][..], format!("capacity {cap}: {ta:?} (route {ra}) == &str {long:?} gives {v:?}")));
                    break 'outer;
                }
                // draining iterators compare by what is left in them
                let (i, j) = (gen::idx(&mut r, ta, cap), gen::idx(&mut r, tb, cap));
                let d = guarded(|| a.drain_vs((Included(i), Unbounded), &**b, (Unbounded, Excluded(j))));
                match d {
                    Ok(Some((g, x, y))) => {
                        c.tick("compare drained", "seen");
                        if g != cmp_expected(&x, &y) {
                            bad = Some((
                                &["C10", "C13"][..],
                                format!("capacity {cap}: drained {x:?} vs {y:?}: {g:?}, but the texts give {:?}", cmp_expected(&x, &y)),
                            ));
                            break 'outer;
                        }
                    }
                    Ok(None) => {}
                    Err(m) => {
                        bad = Some((&["C08", "C13"][..], format!("drain of {ta:?} panicked: {m}")));
                        break 'outer;
                    }
                }
            }
        }
        if bad.is_none() {
            // a single character changed, at every position in turn
            let of = |text: &str| {
                let mut s = mk();
                matches!(guarded(|| { s.apply(&Op::FromStrTrunc(text.to_owned())); s.state() }), Ok(Ok(t)) if t == text).then_some(s)
            };
            let l = cap - if r.chance(1, 2) { 0 } else { r.below(cap) };
            let base = gen::text(&mut r, l, true);
            let step = if cfg!(miri) { cap / 4 + 1 } else { 1 };
            if let Some(a) = of(&base) {
                for (i, ch) in base.char_indices().step_by(step) {
                    let other = match ch.len_utf8() {
                        1 => if ch == 'q' { 'Q' } else { 'q' },
                        2 => if ch == 'ñ' { 'ò' } else { 'ñ' },
                        3 => if ch == '€' { '₭' } else { '€' },
                        _ => if ch == '🤔' { '🤕' } else { '🤔' },
                    };
                    let mut t = base.clone();
                    t.replace_range(i..i + ch.len_utf8(), other.encode_utf8(&mut [0; 4]));
                    let Some(b) = of(&t) else { continue };
                    let exp = cmp_expected(&base, &t);
                    let got = guarded(|| a.cmp_with(&*b));
                    let v = guarded(|| (a.vs_str(&t), b.vs_str(&t)));
                    let d = guarded(|| a.drain_vs((Unbounded, Unbounded), &*b, (Unbounded, Unbounded)));
                    let _ = alloc::take();
                    c.tick("compare", "one character changed");
                    if got.as_ref() != Ok(&exp) || v != Ok(((false, false), (true, true))) || matches!(&d, Ok(Some((g, x, y))) if *g != cmp_expected(x, y)) {
                        bad = Some((
                            &["C10"][..],
                            format!("capacity {cap}: {base:?} and {t:?} (changed at byte {i}): {got:?}, drained {d:?}, == &str {v:?}; the texts give {exp:?}"),
                        ));
                        break;
                    }
                }
            }
        }
        if let Some((p, w)) = bad {
            c.finding(p, w);
            continue;
        }
        c.sample(|| format!("capacity {cap}: {} strings compared pairwise, e.g. {:?}", pool.len(), pool.iter().map(|p| (p.0.as_str(), p.1)).take(3).collect::<Vec<_>>()));
        let texts: Vec<String> = pool.iter().map(|p| p.0.clone()).collect();
        for_type!(r.below(1 << 20), maps(c, &texts));
    }
}
/// Collections keyed by the strings must be usable through `&str`.
fn maps<T: Api>(c: &mut Ctx, texts: &[String]) {
    let mut h: HashMap<T, usize, std::hash::BuildHasherDefault<Fnv>> = HashMap::default();
    let mut hd: HashMap<T, usize> = HashMap::new();
    let mut b: BTreeMap<T, usize> = BTreeMap::new();
    let mut m: BTreeMap<String, usize> = BTreeMap::new();
    let mut list = vec![];
    for (i, t) in texts.iter().enumerate() {
        let Ok(mut v) = T::t_try_from_str("~".repeat(T::cap())) else { return };
        v.t_clear();
        if v.t_try_push_str(t).is_err() || check_text(&v).as_ref() != Ok(t) {
            continue;
        }
        h.insert(v, i);
        hd.insert(v, i);
        b.insert(v, i);
        m.insert(t.clone(), i);
        list.push(v);
    }
    for t in texts {
        let want = m.get(t.as_str());
        c.tick("lookup by &str", if want.is_some() { "present" } else { "absent" });
        let got = (h.get(t.as_str()), hd.get(t.as_str()), b.get(t.as_str()));
        if got != (want, want, want) {
            c.finding(&["C10"], format!("{}: looking up {t:?} by &str found {got:?} in hash and tree maps, expected {want:?}", T::NAME));
            return;
        }
    }
    let order: Vec<String> = b.keys().map(|k| check_text(k).unwrap_or_default()).collect();
    let model: Vec<String> = m.keys().cloned().collect();
    list.sort();
    list.dedup();
    let sorted: Vec<String> = list.iter().map(|k| check_text(k).unwrap_or_default()).collect();
    if order != model || sorted != model {
        c.finding(&["C10"], format!("{}: sorted as {order:?} / {sorted:?}, the texts sort as {model:?}", T::NAME));
    }
}

/// Fixed-size, non-allocating formatting sink.
pub struct Buf {
    b: [u8; 2048],
    n: usize,
    limit: usize,
}
impl Buf {
    pub fn new(limit: usize) -> Self {
        Buf { b: [0; 2048], n: 0, limit }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
}
impl Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.n + s.len() > self.limit.min(2048) {
            return Err(fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
        Ok(())
    }
}

/// Formatting the string must give what formatting its text gives (C11, C09).
pub fn format(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0xf7, k);
        let mut s = subject_for(&mut r);
        let cap = s.cap();
        let l = if r.chance(1, 3) { cap - r.below(cap.min(4) + 1) } else { r.below(cap + 1) };
        let exact = r.chance(1, 2);
        let text = gen::text(&mut r, l, exact);
        let stale = "*".repeat(cap);
        if guarded(|| {
            s.apply(&Op::FromStrTrunc(stale));
            s.apply(&Op::Clear);
            s.apply(&Op::TryPushStr(text.clone()));
            s.state()
        }) != Ok(Ok(text.clone()))
        {
            c.note("texts not reached", 1);
            continue;
        }
        let t = text.as_str();
        let n = t.chars().count();
        let w = *r.pick(&[0, 1, n, n + 1, n + 2, n.saturating_sub(1), 7, 260, n + 9]);
        let p = *r.pick(&[0, 1, n, n + 1, n.saturating_sub(1), n / 2, 3, 255, 256]);
        let d = s.display();
        let mut bad = None;
        macro_rules! specs {
            ($($f:literal),* $(,)?) => {$(
                if bad.is_none() {
                    bad = one_format(c, $f, t, |b: &mut Buf| write!(b, $f, d, w = w, p = p), format!($f, t, w = w, p = p), w, p);
                }
            )*};
        }
        specs!(
            "{0:>w$.p$}", "{0:<w$.p$}", "{0:^w$.p$}", "{0:*>w$.p$}", "{0:é<w$.p$}", "{0:🤔^w$.p$}", "{0:0>w$.p$}", "{0:\0^w$.p$}",
            "{0:#w$.p$}", "{0:+w$.p$}", "{0:-w$.p$}", "{0:0w$.p$}", "{0:w$.p$}", "[{0:-^w$.p$}|{0:.p$}|{0:w$.p$}]",
        );
        macro_rules! plain {
            ($($f:literal),* $(,)?) => {$(
                if bad.is_none() {
                    bad = one_format(c, $f, t, |b: &mut Buf| write!(b, $f, d), format!($f, t), 0, 0);
                }
            )*};
        }
        plain!("{}", "{0}{0}", "{:5}", "{:>12}", "{:^9}", "{:.0}", "{:.1}", "{:.3}", "{:_<4.2}", "{:+}", "{:#}", "{:08}", "<{:1}>", "{{{}}}");
        if let Some((props, what)) = bad {
            c.finding(props, format!("capacity {cap}{}: {what}", if s.is_cache() { " (CacheString)" } else { "" }));
            continue;
        }
        // a sink that gives up: an error iff the text does not fit, never a panic
        let lim = r.below(t.len() + 2);
        let mut b = Buf::new(lim);
        let got = guarded(|| write!(b, "{}", d).is_ok());
        c.tick("display into a full sink", if lim < t.len() { "refused" } else { "fits" });
        if got != Ok(lim >= t.len()) || !t.as_bytes().starts_with(b.bytes()) {
            c.finding(&["C11"], format!("displaying {t:?} into a sink with room for {lim} bytes: {got:?}, sink holds {:?}", String::from_utf8_lossy(b.bytes())));
            continue;
        }
        // Debug output shows the text
        let dbg = s.debug();
        for (f, out) in [("{:?}", guarded(|| format!("{:?}", dbg))), ("{:#?}", guarded(|| format!("{:#?}", dbg)))] {
            c.tick("debug", "seen");
            match out {
                Ok(o) if o.contains(&format!("{t:?}")) => {
                    let mut b = Buf::new(2048);
                    let _ = alloc::take();
                    let again = guarded(|| win!(if f == "{:?}" { write!(b, "{:?}", dbg) } else { write!(b, "{:#?}", dbg) }));
                    let n = alloc::take();
                    if n > 0 && again.is_ok() {
                        c.finding(&["C09"], format!("{f} of a string holding {t:?} made {n} allocator calls"));
                        break;
                    }
                    if o.len() < 2048 && (again != Ok(Ok(())) || b.bytes() != o.as_bytes()) {
                        c.finding(&["C11"], format!("{f} of a string holding {t:?} gives {o:?} once and {:?} then", String::from_utf8_lossy(b.bytes())));
                        break;
                    }
                }
                o => {
                    c.finding(&["C11"], format!("{f} of a string holding {t:?} gives {o:?}, which does not show its text"));
                    break;
                }
            }
        }
        c.sample(|| format!("capacity {cap}, text {t:?}, width {w}, precision {p}: 30 format specs agree with str"));
    }
    for k in 0..c.cfg.count / 4 {
        if !c.unit(c.cfg.count + k) {
            continue;
        }
        let mut r = seeded(c, 0xf8, k);
        for_type!(r.below(1 << 20), writer(c, &mut r));
    }
}
#[allow(clippy::too_many_arguments)]
fn one_format(
    c: &mut Ctx,
    f: &'static str,
    t: &str,
    run: impl FnOnce(&mut Buf) -> fmt::Result,
    want: String,
    w: usize,
    p: usize,
) -> Option<(&'static [&'static str], String)> {
    c.tick("format", "compared");
    c.case(&(f, t, w, p));
    let mut b = Buf::new(2048);
    let _ = alloc::take();
    let got = guarded(|| win!(run(&mut b)));
    let n = alloc::take();
    if want.len() > 2048 {
        return None;
    }
    match got {
        Err(m) => Some((&["C11", "C08"], format!("{f:?} (w={w}, p={p}) of {t:?} panicked: {m}"))),
        Ok(r) => {
            if r.is_err() || b.bytes() != want.as_bytes() {
                Some((
                    &["C11"],
                    format!("{f:?} (w={w}, p={p}) of {t:?} gives {r:?} {:?}, str gives {want:?}", String::from_utf8_lossy(b.bytes())),
                ))
            } else if n > 0 {
                Some((&["C09"], format!("{f:?} of {t:?} made {n} allocator calls")))
            } else {
                None
            }
        }
    }
}
/// Something that writes its pieces one by one and keeps going or stops on refusal.
struct Pieces<'a> {
    v: &'a [String],
    stubborn: bool,
    panic_at: Option<usize>,
}
impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut last = Ok(());
        for (k, p) in self.v.iter().enumerate() {
            if self.panic_at == Some(k) {
                panic!("mine");
            }
            last = if p.chars().count() == 1 { f.write_char(p.chars().next().unwrap()) } else { f.write_str(p) };
            if last.is_err() && !self.stubborn {
                return last;
            }
        }
        last
    }
}
/// The string as a `fmt::Write` sink: each piece whole or not at all.
fn writer<T: Api>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    for _ in 0..6 {
        let l = r.below(cap + 1);
        let start = gen::text(r, l, false);
        let pieces: Vec<String> = (0..r.below(7))
            .map(|_| {
                let l = *r.pick(&[0, 1, 1, 2, 3, 4, cap / 3, cap - start.len(), cap - start.len() + 1, 256]);
                gen::text(r, l, true)
            })
            .collect();
        let stubborn = r.chance(1, 2);
        let Ok(mut s) = T::t_try_from_str(&start) else { continue };
        let panic_at = if r.chance(1, 6) { Some(r.below(8)) } else { None };
        let show = || Pieces { v: &pieces, stubborn, panic_at };
        let mut m = model::Sink { text: start.clone(), cap };
        let want = guarded(|| write!(m, "{}", show()));
        let dynamic = r.chance(1, 2);
        let _ = alloc::take();
        let got = guarded(|| {
            win!(if dynamic {
                let w: &mut dyn Write = &mut s;
                w.write_fmt(format_args!("{}", show()))
            } else {
                write!(s, "{}", show())
            })
        });
        let n = alloc::take();
        c.tick("write pieces", if want.is_err() { "unwound" } else if want == Ok(Ok(())) { "fits" } else { "refused" });
        c.case(&(cap, &start, &pieces, stubborn, panic_at));
        if n > 0 && got.is_ok() {
            c.finding(&["C09"], format!("{}: writing {pieces:?} made {n} allocator calls", T::NAME));
            return;
        }
        let after = guarded(|| check_text(&s)).unwrap_or_else(|m| Err(m));
        if got != want || after.as_ref() != Ok(&m.text) {
            let tags: &[&str] = if want.is_err() { &["C11", "C19"] } else { &["C11"] };
            c.finding(
                tags,
                format!("{} holding {start:?}: writing the pieces {pieces:?} (going on after a refusal: {stubborn}, Display panics at {panic_at:?}) gives {got:?} and {after:?}; expected {want:?} and {:?}", T::NAME, m.text),
            );
            return;
        }
    }
}

/// Every one-sided u8 range and many two-sided ones, shared and mutable (C12).
pub fn index(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0x1d, k);
        let mut s = subject_for(&mut r);
        let cap = s.cap();
        let len = match r.below(4) {
            0 => cap,
            1 => cap - r.below(cap.min(3) + 1),
            _ => r.below(cap + 1),
        };
        let style = r.below(14);
        let text = if r.chance(1, 2) { styled(style, len) } else { gen::text(&mut r, len, true) };
        let mut t = String::new();
        let ok = step(c, &mut *s, &mut t, &Op::FromStrTrunc("~".repeat(cap)))
            && step(c, &mut *s, &mut t, &Op::Clear)
            && step(c, &mut *s, &mut t, &Op::TryPushStr(text.clone()));
        if !ok {
            continue;
        }
        let mut views = vec![View::IdxFull];
        let all = c.cfg.big || r.chance(1, 3);
        for a in 0..=255u8 {
            let near = (a as usize) < 5 || a > 250 || (a as usize).abs_diff(len) < 6 || (a as usize).abs_diff(len / 2) < 5;
            if all || near {
                views.extend([View::IdxFrom(a), View::IdxTo(a), View::IdxToIncl(a)]);
            }
        }
        let n = if c.cfg.big { 4000 } else { 250 };
        for _ in 0..n {
            let mut pick = || -> u8 {
                match r.below(8) {
                    0 => *r.pick(&[0, 1, 254, 255, 128, 127]),
                    1 => r.below(256) as u8,
                    2 => (len + r.below(4)).min(255) as u8,
                    _ => r.below(len + 1) as u8,
                }
            };
            let (a, b) = (pick(), pick());
            let (a, b) = if a > b && r.chance(5, 6) { (b, a) } else { (a, b) };
            views.push(View::IdxRange(a, b));
            views.push(View::IdxIncl(a, b));
            if r.chance(1, 8) {
                views.push(View::IdxDone(a, b));
            }
            if a > 0 {
                views.push(View::IdxIncl(a, a - 1));
            }
        }
        for v in views {
            if !index_one(c, &mut *s, &text, v) {
                break;
            }
            if r.chance(1, 3) {
                let mut d = s.dup();
                let mut t = text.clone();
                let e = *r.pick(&[Edit::Upper, Edit::Lower, Edit::Look]);
                if !step(c, &mut *d, &mut t, &Op::Mutate(v, e)) {
                    break;
                }
            }
        }
    }
}
fn index_one(c: &mut Ctx, s: &mut dyn Subject, text: &str, v: View) -> bool {
    let want = match model::spec(&Op::Mutate(v, Edit::Look), text, s.cap()).allowed.remove(0).0 {
        Obs::Panic(_) => Err(()),
        o => Ok(o),
    };
    let _ = alloc::take();
    let got = guarded(|| s.index(v));
    let n = alloc::take();
    c.tick("index", if want.is_ok() { "shows" } else { "panics" });
    c.case(&(s.cap(), text, format!("{v:?}")));
    c.sample(|| format!("text {text:?} indexed by {v:?}: {got:?}"));
    if n > 0 && got.is_ok() {
        return !c.finding(&["C09"], format!("indexing {text:?} by {v:?} made {n} allocator calls"));
    }
    if got.as_ref().map_err(|_| ()) != want.as_ref().map_err(|_| ()) {
        c.finding(&["C12"], format!("capacity {}, text {text:?} indexed by {v:?}: {got:?}; the same index on str: {want:?}", s.cap()));
        return false;
    }
    true
}

/// Shared and mutable views of the text (C20).
pub fn views(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0x71, k);
        for_type!(r.below(1 << 20), views_of(c, &mut r));
    }
}
fn views_of<T: Api>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    let mut s = T::t_from_str_truncate("~".repeat(cap));
    s.t_clear();
    let l = if r.chance(1, 3) { cap } else { r.below(cap + 1) };
    let mut text = gen::text(r, l, true);
    if s.t_try_push_str(&text).is_err() {
        return;
    }
    for _ in 0..12 {
        // an edit in place that keeps the text valid: reverse it char-wise into itself
        // (same multiset of chars), rotate, or change ASCII bytes
        let kind = r.below(5);
        let way = r.below(4);
        let seed = r.u64();
        let edit = |m: &mut str| -> Option<()> {
            match kind {
                0 => m.make_ascii_uppercase(),
                1 => m.make_ascii_lowercase(),
                2 => {
                    let v: String = m.chars().rev().collect();
                    // SAFETY: same bytes in a different, still valid, order
                    unsafe { m.as_bytes_mut().copy_from_slice(v.as_bytes()) };
                }
                3 => {
                    let mut v: Vec<char> = m.chars().collect();
                    if !v.is_empty() {
                        let k = seed as usize % v.len();
                        v.rotate_left(k);
                    }
                    let v: String = v.into_iter().collect();
                    // SAFETY: as above
                    unsafe { m.as_bytes_mut().copy_from_slice(v.as_bytes()) };
                }
                _ => {
                    // SAFETY: ASCII bytes are replaced by ASCII bytes
                    for (i, b) in unsafe { m.as_bytes_mut() }.iter_mut().enumerate() {
                        if b.is_ascii() {
                            let m = mix(seed ^ i as u64);
                            *b = if m >> 60 == 0 { *b"\0 \n\x7f".get((m >> 32) as usize & 3).unwrap() } else { (m % 128) as u8 };
                        }
                    }
                }
            }
            Some(())
        };
        let mut want = text.clone();
        edit(&mut want);
        let _ = alloc::take();
        let (p0, p1) = (&s as *const T as usize, std::mem::size_of::<T>());
        let got = guarded(|| {
            let m: &mut str = win!(match way {
                0 => AsMut::<str>::as_mut(&mut s),
                1 => std::borrow::BorrowMut::<str>::borrow_mut(&mut s),
                _ => Txt::derefm(&mut s),
            });
            let a = m.as_ptr() as usize;
            let inside = m.is_empty() || (a >= p0 && a + m.len() <= p0 + p1);
            let valid = std::str::from_utf8(m.as_bytes()).is_ok();
            let shown = String::from_utf8_lossy(m.as_bytes()).into_owned();
            if valid {
                edit(m);
            }
            (inside, valid, shown)
        });
        let after = guarded(|| check_text(&s)).unwrap_or_else(Err);
        c.tick("edit in place", ["upper", "lower", "reverse", "rotate", "ascii"][kind]);
        c.case(&(cap, &text, kind, seed, way));
        if got != Ok((true, true, text.clone())) || after.as_ref() != Ok(&want) {
            let tags: &[&str] = match (&got, &after) {
                (Ok((true, true, _)), Ok(_)) => &["C20"],
                _ => &["C20", "C01", "C02"],
            };
            c.finding(tags, format!("{}: editing {text:?} through a mutable view (way {way}, edit {kind}): view {got:?}, text afterwards {after:?}, expected {want:?}", T::NAME));
            return;
        }
        c.sample(|| format!("{}: {text:?} edited in place to {want:?}", T::NAME));
        text = want;
        // later operations see the edit
        if r.chance(1, 3) {
            let p = s.t_pop();
            let q = text.pop();
            if p != q {
                c.finding(&["C20", "C03"], format!("{}: pop after an in-place edit gives {p:?}, expected {q:?}", T::NAME));
                return;
            }
        }
    }
}

/// Draining iterators behave like `chars()` of the removed text (C13).
pub fn drains(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0xd4, k);
        for_type!(r.below(1 << 20), drain_of(c, &mut r));
    }
}
fn drain_of<T: Api>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    let l = r.below(cap + 1);
    let text = gen::text(r, l, true);
    let mut bounds: Vec<usize> = text.char_indices().map(|x| x.0).collect();
    bounds.push(text.len());
    for kind in 0..KINDS.len() {
        let (mut a, mut b) = (*r.pick(&bounds), *r.pick(&bounds));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        if r.chance(1, 4) {
            a = 0;
        }
        if r.chance(1, 4) {
            b = text.len();
        }
        let removed = text[a..b].to_owned();
        let rest = format!("{}{}", &text[..a], &text[b..]);
        let mut s = T::t_from_str_truncate("~".repeat(cap));
        s.t_clear();
        if s.t_try_push_str(&text).is_err() {
            return;
        }
        let n = r.below(5);
        let plan = r.u64();
        let _ = alloc::take();
        let out = guarded(|| -> Result<(), String> {
            let d = win!(s.t_drain(a..b)).map_err(|e| format!("refused: {e:?}"))?;
            drain_use::<T>(d, &removed, kind, n, plan)
        });
        let after = guarded(|| check_text(&s)).unwrap_or_else(Err);
        c.tick("drain use", KINDS[kind]);
        c.case(&(cap, &text, a, b, kind, n, plan));
        match out {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                let p: &[&str] = match kind {
                    _ if m.contains("allocator") => &["C09"],
                    // (copies)
                    12 | 13 | 27 | 29 => &["C13", "C21"],
                    _ => &["C13"],
                };
                if c.finding(p, format!("{}: draining {a}..{b} of {text:?} ({}): {m}", T::NAME, KINDS[kind])) {
                    return;
                }
            }
            Err(m) => {
                if c.finding(&["C13", "C08"], format!("{}: draining {a}..{b} of {text:?} ({}) panicked: {m}", T::NAME, KINDS[kind])) {
                    return;
                }
            }
        }
        if after.as_ref() != Ok(&rest) {
            if c.finding(&["C13"], format!("{}: after draining {a}..{b} of {text:?} ({}) the text is {after:?}, expected {rest:?}", T::NAME, KINDS[kind])) {
                return;
            }
        }
    }
    c.sample(|| format!("{}: {text:?} drained in {} ways", T::NAME, KINDS.len()));
}
const KINDS: [&str; 30] = [
    "dropped", "collect", "rev", "count", "last", "nth", "nth_back", "fold", "rfold", "position", "max/min", "take+rest", "clone",
    "copies", "debug", "fused", "fused from the back", "both ends", "by_ref", "forgotten", "find/rfind", "size_hint",
    "closure panics", "nth after nth", "step and skip", "try_fold", "lexicographic", "unequal ends", "adapters", "clone_from",
];
fn drain_use<T: Api>(mut d: T::Drained, removed: &str, kind: usize, n: usize, plan: u64) -> Result<(), String> {
    let mut m = removed.chars();
    macro_rules! same {
        ($a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("got {a:?}, chars() of the removed text {removed:?} gives {b:?}"));
            }
        }};
    }
    let left = |d: &T::Drained| own(T::t_drained(d));
    same!(left(&d), removed.to_owned());
    match kind {
        0 => drop(d),
        1 => same!(d.collect::<String>(), removed.to_owned()),
        2 => same!(d.rev().collect::<String>(), m.rev().collect::<String>()),
        3 => same!(d.count(), m.count()),
        4 => same!(d.last(), m.last()),
        5 => {
            same!(d.nth(n), m.nth(n));
            same!(left(&d), m.as_str().to_owned());
            same!(d.nth(0), m.nth(0));
        }
        6 => {
            same!(d.nth_back(n), m.nth_back(n));
            same!(left(&d), m.as_str().to_owned());
            same!(d.nth_back(0), m.nth_back(0));
        }
        7 => same!(d.fold(String::new(), |a, c| format!("{a}{c}")), removed.to_owned()),
        8 => same!(d.rfold(String::new(), |a, c| format!("{a}{c}")), m.rev().collect::<String>()),
        9 => {
            same!(d.position(|c| !c.is_ascii()), m.position(|c| !c.is_ascii()));
            same!(left(&d), m.as_str().to_owned());
        }
        10 => {
            same!(Iterator::max(d), removed.chars().max());
            same!(Iterator::min(d), m.min());
        }
        11 => {
            same!(d.by_ref().take(n).collect::<String>(), m.by_ref().take(n).collect::<String>());
            same!(d.collect::<String>(), m.as_str().to_owned());
        }
        12 => {
            for _ in 0..n {
                same!(d.next(), m.next());
            }
            let mut e = Clone::clone(&d);
            same!(e.next_back(), m.clone().next_back());
            same!(left(&d), m.as_str().to_owned());
            same!(d.eq(m.clone()), true);
        }
        13 => {
            let e = d;
            for _ in 0..n {
                same!(d.next_back(), m.next_back());
            }
            same!(left(&e), removed.to_owned());
            same!(e == d, removed == m.as_str());
            same!(e.cmp(d), Iterator::cmp(removed.chars(), m.clone()));
            same!(Ord::cmp(&e, &d), removed.cmp(m.as_str()));
            same!(fnv(&d), fnv(m.as_str()));
        }
        14 => {
            for _ in 0..n {
                same!(d.next(), m.next());
            }
            let o = format!("{d:?}");
            let mut b = Buf::new(2048);
            let _ = alloc::take();
            let _ = win!(write!(b, "{d:?}"));
            let made = alloc::take();
            if made > 0 {
                return Err(format!("Debug made {made} allocator calls"));
            }
            if !o.contains(&format!("{:?}", m.as_str())) {
                return Err(format!("Debug shows {o}, {:?} is left", m.as_str()));
            }
            same!(left(&T::Drained::default()), String::new());
        }
        15 | 16 => {
            let chars = removed.chars().count();
            for _ in 0..chars {
                let _ = if kind == 15 { d.next() } else { d.next_back() };
            }
            for k in 0..6 {
                let x = if (plan >> k) & 1 == 1 { d.next() } else { d.next_back() };
                same!(x, None);
                same!(left(&d), String::new());
            }
            let (lo, hi) = d.size_hint();
            if lo != 0 {
                return Err(format!("size_hint after the end is ({lo}, {hi:?})"));
            }
        }
        17 => {
            for k in 0..removed.chars().count() + 3 {
                let back = (plan >> (k % 64)) & 1 == 1;
                let (x, y) = if back { (win!(d.next_back()), m.next_back()) } else { (win!(d.next()), m.next()) };
                same!(x, y);
                same!(left(&d), m.as_str().to_owned());
            }
        }
        18 => {
            let mut got = String::new();
            for c in d.by_ref() {
                got.push(c);
                if got.chars().count() > n {
                    break;
                }
            }
            got.extend(d.rev());
            let mut want = String::new();
            for c in m.by_ref() {
                want.push(c);
                if want.chars().count() > n {
                    break;
                }
            }
            want.extend(m.rev());
            same!(got, want);
        }
        19 => std::mem::forget(d),
        20 => {
            same!(d.rfind(|c| c.is_whitespace()), m.rfind(|c| c.is_whitespace()));
            same!(d.find(|c| c.len_utf8() > 1), m.find(|c| c.len_utf8() > 1));
            same!(left(&d), m.as_str().to_owned());
        }
        22 => {
            // a consumer that panics has taken the characters it was given, and no more
            let at = n;
            let mut k = 0;
            let out = guarded(|| {
                d.by_ref().for_each(|_| {
                    if k == at {
                        panic!("mine");
                    }
                    k += 1;
                })
            });
            let _ = m.nth(at);
            same!(out.is_err(), removed.chars().count() > at);
            same!(left(&d), m.as_str().to_owned());
            same!(d.next_back(), m.next_back());
        }
        23 => {
            for k in 0..4u32 {
                let n = match (plan >> (8 * k)) & 15 {
                    0 => usize::MAX,
                    1 => 127 + (plan >> 40) as usize % 130,
                    x => x as usize % 7,
                };
                if (plan >> (48 + k)) & 1 == 1 {
                    same!(d.nth(n), m.nth(n));
                } else {
                    same!(d.nth_back(n), m.nth_back(n));
                }
                same!(left(&d), m.as_str().to_owned());
            }
        }
        24 => {
            let e = d;
            same!(e.step_by(n + 1).collect::<String>(), m.clone().step_by(n + 1).collect::<String>());
            let e = d;
            same!(e.skip(n).collect::<String>(), m.clone().skip(n).collect::<String>());
            let e = d;
            same!(e.rev().skip(n).step_by(2).collect::<String>(), m.clone().rev().skip(n).step_by(2).collect::<String>());
            let e = d;
            same!(e.zip(d).count(), m.clone().count());
            let e = d;
            same!(e.chain(d).rev().collect::<String>(), m.clone().chain(m.clone()).rev().collect::<String>());
            let mut p = d.peekable();
            same!(p.peek().copied(), m.clone().next());
            same!(p.collect::<Vec<char>>(), m.collect::<Vec<char>>());
        }
        25 => {
            let f = |a: u32, c: char| if a as usize > n { Err(c) } else { Ok(a + c.len_utf8() as u32) };
            same!(d.try_fold(0, f), m.try_fold(0, f));
            same!(left(&d), m.as_str().to_owned());
            same!(d.try_rfold(0, f), m.try_rfold(0, f));
            same!(left(&d), m.as_str().to_owned());
            same!(d.any(|c| c == ' '), m.any(|c| c == ' '));
            same!(d.all(|c| c < 'x'), m.all(|c| c < 'x'));
            same!(left(&d), m.as_str().to_owned());
        }
        26 => {
            let (mut e, mut o) = (d, m.clone());
            let _ = (e.nth(n), o.nth(n));
            let (e2, d2) = (e, d);
            same!(Iterator::partial_cmp(e2, d2), Iterator::partial_cmp(o.clone(), m.clone()));
            let (e2, d2) = (e, d);
            same!(Iterator::eq(e2, d2), Iterator::eq(o.clone(), m.clone()));
            let e2 = d;
            same!(e2.min_by_key(|c| c.len_utf8()), m.clone().min_by_key(|c| c.len_utf8()));
            let e2 = d;
            same!(e2.max_by_key(|c| c.len_utf8()), m.clone().max_by_key(|c| c.len_utf8()));
            let (a, b): (String, String) = d.partition(|c| c.is_alphanumeric());
            same!((a, b), m.partition::<String, _>(|c| c.is_alphanumeric()));
        }
        28 => {
            let last = m.clone().last().unwrap_or('x');
            same!(d.reduce(|a, c| if a > c { a } else { c }), m.clone().reduce(|a, c| if a > c { a } else { c }));
            same!(d.map_while(|c| (c != last).then_some(c)).collect::<String>(), m.clone().map_while(|c| (c != last).then_some(c)).collect::<String>());
            same!(d.skip_while(|c| c.is_ascii()).collect::<String>(), m.clone().skip_while(|c| c.is_ascii()).collect::<String>());
            same!(d.by_ref().take_while(|c| c.is_ascii()).collect::<String>(), m.by_ref().take_while(|c| c.is_ascii()).collect::<String>());
            same!(left(&d), m.as_str().to_owned());
            same!(d.find_map(|c| c.to_digit(16)), m.find_map(|c| c.to_digit(16)));
            same!(left(&d), m.as_str().to_owned());
            same!(d.enumerate().map(|(i, c)| (c, i)).collect::<Vec<_>>(), m.clone().enumerate().map(|(i, c)| (c, i)).collect::<Vec<_>>());
            same!(d.flat_map(|c| c.to_uppercase()).rev().collect::<String>(), m.clone().flat_map(|c| c.to_uppercase()).rev().collect::<String>());
            same!(d.filter(|c| *c != last).next_back(), m.clone().filter(|c| *c != last).next_back());
            if !removed.is_empty() {
                same!(d.cycle().take(n + 3).collect::<String>(), m.clone().cycle().take(n + 3).collect::<String>());
            }
            let (mut e, mut o) = (d, m.clone());
            let _ = (e.next_back(), o.next_back());
            same!(
                (Iterator::lt(e, d), Iterator::le(e, d), Iterator::gt(e, d), Iterator::ge(e, d), Iterator::ne(e, d)),
                (o.clone().lt(m.clone()), o.clone().le(m.clone()), o.clone().gt(m.clone()), o.clone().ge(m.clone()), o.ne(m.clone()))
            );
            let (a, b): (String, Vec<u32>) = d.map(|c| (c, c as u32)).unzip();
            let w: (String, Vec<u32>) = m.clone().map(|c| (c, c as u32)).unzip();
            same!((a, b), w);
            let mut s = String::new();
            s.extend(d);
            same!(s, m.as_str().to_owned());
            same!(d.is_sorted(), m.is_sorted());
        }
        29 => {
            // cloned into one that is partly used, or not used at all
            let mut e = d;
            for _ in 0..n {
                same!(e.next_back(), m.next_back());
            }
            let mut f = d;
            let _ = f.nth((plan % 5) as usize);
            f.clone_from(&e);
            same!(left(&f), m.as_str().to_owned());
            same!(left(&e), m.as_str().to_owned());
            e.clone_from(&d);
            same!(left(&e), removed.to_owned());
            same!(f.rev().collect::<String>(), m.rev().collect::<String>());
        }
        27 => {
            // copies consumed from opposite ends compare by what each still has
            let mut e = d;
            let mut o = m.clone();
            for _ in 0..n {
                same!(d.next(), m.next());
                same!(e.next_back(), o.next_back());
            }
            same!(d == e, m.as_str() == o.as_str());
            same!(Ord::cmp(&d, &e), m.as_str().cmp(o.as_str()));
            same!(PartialOrd::partial_cmp(&d, &e), m.as_str().partial_cmp(o.as_str()));
            same!((d < e, d <= e, d > e, d >= e, d != e), {
                let (x, y) = (m.as_str(), o.as_str());
                (x < y, x <= y, x > y, x >= y, x != y)
            });
            same!(fnv(&d), fnv(m.as_str()));
            same!(fnv(&e), fnv(o.as_str()));
        }
        _ => loop {
            let left = m.clone().count();
            let (lo, hi) = d.size_hint();
            if lo > left || hi.is_some_and(|h| h < left) {
                return Err(format!("size_hint is ({lo}, {hi:?}) with {left} characters left"));
            }
            let _ = alloc::take();
            let (x, y) = if plan & (1 << (left % 64)) != 0 { (win!(d.next_back()), m.next_back()) } else { (win!(d.next()), m.next()) };
            let n = alloc::take();
            if n > 0 {
                return Err(format!("{n} allocator calls while iterating"));
            }
            same!(x, y);
            if y.is_none() {
                break;
            }
        },
    }
    Ok(())
}

/// The cache-line string next to the plain string of the same capacity (C14).
pub fn cache(c: &mut Ctx) {
    use arraystring::prelude::*;
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0xca, k);
        let (mut a, mut b) = (make_cache(), make(63));
        if a.cap() != b.cap() {
            c.finding(&["C14"], format!("capacities differ: {} and {}", a.cap(), b.cap()));
            return;
        }
        let n = 4 + r.below(50);
        let mut script = vec![];
        for _ in 0..n {
            let text = match guarded(|| b.state()) {
                Ok(Ok(t)) => t,
                _ => break,
            };
            let op = gen::op(&mut r, gen::Focus::Any, &text, 63);
            c.remember(|| op.show());
            script.push(op.name());
            let (x, y) = (guarded(|| a.apply(&op)), guarded(|| b.apply(&op)));
            let (s, t) = (guarded(|| a.state()), guarded(|| b.state()));
            c.tick(op.name(), if matches!(&x, Ok(o) if o.is_err()) { "refused" } else { "done" });
            c.case(&(text.as_str(), op.show()));
            let x = x.map_err(|_| "panic");
            let y = y.map_err(|_| "panic");
            if x != y || s != t {
                c.finding(
                    &["C14"],
                    format!("text {text:?} : {} gives {x:?} and {s:?} on CacheString, {y:?} and {t:?} on ArrayString<63>", op.show()),
                );
                break;
            }
            let Ok(Ok(t)) = t else { break };
            if r.chance(1, 3) {
                let v = gen::view(&mut r, &t);
                let (i, j) = (guarded(|| a.index(v)).map_err(|_| ()), guarded(|| b.index(v)).map_err(|_| ()));
                let (h, g) = (guarded(|| a.own_hash()), guarded(|| b.own_hash()));
                let (e, f) = (guarded(|| a.vs_str(&t)), guarded(|| b.vs_str(&t)));
                let (w, p) = (r.below(70), r.below(70));
                let d = guarded(|| renderings(a.display(), w, p));
                let q = guarded(|| renderings(b.display(), w, p));
                c.tick("trait views", "compared");
                if i != j || h != g || e != f || d != q {
                    c.finding(
                        &["C14"],
                        format!("text {t:?}: index {v:?} {i:?}/{j:?}, hash {h:?}/{g:?}, == {e:?}/{f:?}, display {d:?}/{q:?} on CacheString/ArrayString<63>"),
                    );
                    break;
                }
            }
        }
        c.sample(|| format!("side by side: {}", script.iter().take(12).copied().collect::<Vec<_>>().join(", ")));
        // conversion, comparison and layout
        let (la, lb) = (r.below(64), r.below(64));
        let (ta, tb) = (gen::text(&mut r, la, true), if r.chance(1, 3) { String::new() } else { gen::text(&mut r, lb, true) });
        let (Ok(x), Ok(y)) = (ArrayString::<63>::try_from_str(&ta), ArrayString::<63>::try_from_str(&tb)) else { continue };
        let (p, q) = (CacheString::from(x), CacheString::from(y));
        c.tick("compare", "side by side");
        let (m, w) = (cmp_all(&p, &q), cmp_all(&x, &y));
        if m != w || *p != x || AsRef::<[u8]>::as_ref(&p) != ta.as_bytes() {
            c.finding(&["C14"], format!("{ta:?} vs {tb:?}: {m:?} on CacheString, {w:?} on ArrayString<63>; converted text {p:?}"));
            break;
        }
    }
    // where instances end up in memory
    let k = c.cfg.count;
    if c.unit(k) {
        let one = CacheString::new();
        let arr = [CacheString::new(); 5];
        let vec = vec![CacheString::new(); 9];
        let boxed: Vec<Box<CacheString>> = (0..20).map(|_| Box::new(CacheString::new())).collect();
        #[repr(C)]
        struct In(u8, CacheString, u8, Option<CacheString>);
        let field = In(1, CacheString::new(), 2, Some(CacheString::new()));
        let mut at: Vec<usize> = vec![&one as *const _ as usize, &field.1 as *const _ as usize, field.3.as_ref().unwrap() as *const _ as usize];
        at.extend(arr.iter().map(|x| x as *const _ as usize));
        at.extend(vec.iter().map(|x| x as *const _ as usize));
        at.extend(boxed.iter().map(|x| &**x as *const _ as usize));
        std::hint::black_box((field.0, field.2));
        let (size, align) = (std::mem::size_of::<CacheString>(), std::mem::align_of::<CacheString>());
        for a in &at {
            c.tick("placement", "seen");
            if a % 64 != 0 {
                c.finding(&["C14"], format!("an instance lives at an address that is {} modulo 64", a % 64));
                break;
            }
        }
        let stride: Vec<usize> = at[3..8].windows(2).map(|w| w[1] - w[0]).collect();
        if size != 64 || align != 64 || stride.iter().any(|&s| s != 64) || CacheString::capacity() != 63 {
            c.finding(&["C14"], format!("size {size}, alignment {align}, array stride {stride:?}, capacity {}", CacheString::capacity()));
        }
    }
}

macro_rules! probe {
    ($c:ident, $seen:ident, $($n:literal)*) => {$({
        // picks the first method if the capacity is supported at all
        struct P<T>(std::marker::PhantomData<T>);
        trait No { fn go(&self) -> Option<Result<(), String>> { None } }
        impl<T> No for &P<T> {}
        trait Yes { fn go(&self) -> Option<Result<(), String>>; }
        impl<T: Default + Write + AsRef<[u8]> + std::str::FromStr + Extend<char> + Copy> Yes for P<T> {
            fn go(&self) -> Option<Result<(), String>> { Some(beyond::<T>($n)) }
        }
        #[allow(unused_imports)]
        let r = (&P::<arraystring::ArrayString<$n>>(std::marker::PhantomData)).go();
        $seen += 1;
        $c.tick("unlisted capacity", if r.is_some() { "accepted" } else { "rejected" });
        if let Some(Err(m)) = r {
            $c.finding(&["C15", "C01"], format!("capacity {} is accepted but does not work: {m}", $n));
        }
    })*};
}
/// A capacity outside 1..=255 that the library accepts has to work like any other.
fn beyond<T: Default + Write + AsRef<[u8]> + std::str::FromStr + Extend<char> + Copy>(n: usize) -> Result<(), String> {
    for l in [0, 1, n.saturating_sub(1), n, n + 1, 255, 256, 257] {
        let text = "k".repeat(l);
        let mut s = T::default();
        let r = guarded(|| s.write_str(&text)).map_err(|m| format!("writing {l} bytes panicked: {m}"))?;
        let b = s.as_ref();
        if r.is_ok() != (l <= n) || b.len() != (if l <= n { l } else { 0 }) {
            return Err(format!("writing {l} bytes gives {r:?} and a text of {} bytes", b.len()));
        }
        let p = guarded(|| T::from_str(&text).is_ok()).map_err(|m| format!("parsing {l} bytes panicked: {m}"))?;
        if p != (l <= n) {
            return Err(format!("parsing {l} bytes gives ok={p}"));
        }
        let mut s = T::default();
        guarded(|| s.extend(text.chars())).map_err(|m| format!("extending by {l} chars panicked: {m}"))?;
        if s.as_ref().len() != l.min(n) {
            return Err(format!("extending by {l} chars gives {} bytes", s.as_ref().len()));
        }
    }
    Ok(())
}

/// Every capacity exists, has the size it should, and works (C15).
pub fn layout(c: &mut Ctx) {
    use arraystring::prelude::*;
    use std::any::TypeId;
    if c.unit(0) {
        let mut probes = 0u64;
        probe!(c, probes, 0 256 257 258 300 319 320 511 512 513 767 768 1000 1023 1024 4096 65535 65536 65537);
        c.note("capacities outside 1..=255 probed", probes);
        c.case(&probes);
        let facts = [
            (SmallString::capacity() == 3 * std::mem::size_of::<usize>(), "SmallString::capacity()"),
            (MaxString::capacity() == 255, "MaxString::capacity()"),
            (CacheString::capacity() == 63, "CacheString::capacity()"),
            (TypeId::of::<MaxString>() == TypeId::of::<ArrayString<255>>(), "MaxString is ArrayString<255>"),
            (std::mem::size_of::<SmallString>() == 3 * std::mem::size_of::<usize>() + 1, "size of SmallString"),
            (std::mem::size_of::<MaxString>() == 256, "size of MaxString"),
        ];
        for (ok, what) in facts {
            c.tick("alias", "checked");
            if !ok {
                c.finding(&["C15"], format!("unexpected: {what}"));
            }
        }
    }
    for (i, &n) in CAPS.iter().enumerate() {
        if !c.unit(i as u64 + 1) {
            continue;
        }
        let mut s = make(n);
        c.tick("capacity", "instantiated");
        c.case(&("capacity", n));
        if s.cap() != n || s.layout() != (n + 1, 1) {
            c.finding(&["C15"], format!("capacity {n}: reports {} and has size and alignment {:?}", s.cap(), s.layout()));
            continue;
        }
        let mut text = String::new();
        // fill one character at a time with each width, then empty it again
        for ch in ['a', 'é', '€', '🤔'] {
            let mut good = true;
            for _ in 0..n / ch.len_utf8() + 1 {
                good = good && step(c, &mut *s, &mut text, &Op::TryPush(ch));
            }
            for l in [n, n + 1] {
                good = good && step(c, &mut *s, &mut text, &Op::TryFromStr(styled(4, l)));
                good = good && step(c, &mut *s, &mut text, &Op::FromStrTrunc(styled(3, l)));
                good = good && step(c, &mut *s, &mut text, &Op::CollectChars(styled(2, l)));
                good = good && step(c, &mut *s, &mut text, &Op::ReplaceRange((Unbounded, Unbounded), styled(1, l)));
                good = good && step(c, &mut *s, &mut text, &Op::ReplaceRange((Included(0), Excluded(0)), "x".into()));
            }
            while good && !text.is_empty() {
                good = step(c, &mut *s, &mut text, &Op::Pop);
            }
            if !good {
                break;
            }
        }
        c.sample(|| format!("capacity {n}: filled and emptied with characters of 1 to 4 bytes"));
    }
}

/// Error values: kinds survive conversion, compare, hash and print apart (C05).
pub fn errors(c: &mut Ctx) {
    use arraystring::error::{OutOfBounds, Utf16, Utf8};
    use arraystring::Error;
    if !c.unit(0) {
        return;
    }
    let bytes: Vec<u8> = vec![0x61, 0xff];
    let utf8 = std::str::from_utf8(&bytes).unwrap_err();
    let dec = || char::decode_utf16([0xd800u16]).next().unwrap().unwrap_err();
    let _ = alloc::take();
    let _ = std::hint::black_box(win!((Error::from(OutOfBounds), Error::from(Utf8), Error::from(Utf16), Error::from(utf8), Error::from(dec()), Error::from("a".encode_utf16()))));
    let _ = std::hint::black_box(win!((Utf8::from(utf8), Utf16::from(dec()), Utf16::from("a".encode_utf16()))));
    if alloc::take() > 0 {
        c.finding(&["C09"], "making an error value allocates".into());
        return;
    }
    let made: Vec<(Error, Obs, &str)> = vec![
        (Error::from(OutOfBounds), Obs::Oob, "From<OutOfBounds>"),
        (Error::from(Utf8), Obs::Utf8, "From<Utf8>"),
        (Error::from(Utf16), Obs::Utf16, "From<Utf16>"),
        (Error::from(utf8), Obs::Utf8, "From<Utf8Error>"),
        (Error::from(dec()), Obs::Utf16, "From<DecodeUtf16Error>"),
        (Error::from("a".encode_utf16()), Obs::Utf16, "From<EncodeUtf16>"),
        (Error::from(Utf8::from(utf8)), Obs::Utf8, "Utf8 from Utf8Error"),
        (Error::from(Utf16::from(dec())), Obs::Utf16, "Utf16 from DecodeUtf16Error"),
        (Error::from(Utf16::from("a".encode_utf16())), Obs::Utf16, "Utf16 from EncodeUtf16"),
        (Error::Utf8, Obs::Utf8, "Utf8"),
        (Error::Utf16, Obs::Utf16, "Utf16"),
        (Error::OutOfBounds, Obs::Oob, "OutOfBounds"),
        (Error::from(OutOfBounds::default()), Obs::Oob, "OutOfBounds::default"),
    ];
    for (a, ka, na) in &made {
        c.tick("error conversion", "checked");
        if a.obs() != *ka {
            c.finding(&["C05"], format!("{na} gives {a:?}"));
            return;
        }
        for (b, kb, nb) in &made {
            c.case(&(na, nb));
            let same = ka == kb;
            let _ = alloc::take();
            let _ = std::hint::black_box(win!((a == b, a.clone(), *a)));
            let _ = std::hint::black_box((fnv(a), fnv(b)));
            if alloc::take() > 0 {
                c.finding(&["C09"], format!("comparing, copying or hashing the errors {na} and {nb} allocates"));
                return;
            }
            let ok = (a == b) == same
                && (a != b) != same
                && (!same || fnv(a) == fnv(b))
                && (!same || a.to_string() == b.to_string())
                && (!same || format!("{a:?}") == format!("{b:?}"))
                && *a == a.clone();
            if !ok {
                c.finding(&["C05"], format!("error values from {na} and {nb} do not compare, hash or print as their kinds do"));
                return;
            }
        }
    }
    let shown: [(&str, &dyn Display); 6] = [
        ("Error::Utf8", &Error::Utf8),
        ("Error::Utf16", &Error::Utf16),
        ("Error::OutOfBounds", &Error::OutOfBounds),
        ("Utf8", &Utf8),
        ("Utf16", &Utf16),
        ("OutOfBounds", &OutOfBounds),
    ];
    for (n, e) in shown {
        c.tick("error display", "checked");
        match guarded(|| e.to_string()) {
            Ok(t) if !t.is_empty() => {
                let mut b = Buf::new(2048);
                let _ = alloc::take();
                let shown = guarded(|| win!(write!(b, "{e} {e:>12} {e:*<3.2} {e:#} {e:^+40} {e:08.0}")));
                let n_allocs = alloc::take();
                if n_allocs > 0 {
                    c.finding(&["C09"], format!("displaying the error {n} allocates"));
                    return;
                }
                if !matches!(shown, Ok(Ok(()))) {
                    c.finding(&["C08", "C11"], format!("displaying the error {n} gives {shown:?}"));
                    return;
                }
                for room in 0..t.len() + 2 {
                    let mut tiny = Buf::new(room);
                    let _ = alloc::take();
                    let shown = guarded(|| win!(write!(tiny, "{e}")));
                    if alloc::take() > 0 && shown.is_ok() {
                        c.finding(&["C09"], format!("displaying the error {n} into a sink with room for {room} allocates"));
                        return;
                    }
                    if shown.as_ref() != Ok(&if room < t.len() { Err(fmt::Error) } else { Ok(()) }) {
                        c.finding(&["C08", "C11"], format!("displaying the error {n} ({t:?}) into a sink with room for {room} gives {shown:?}"));
                        return;
                    }
                }
            }
            o => {
                c.finding(&["C11"], format!("displaying the error {n} gives {o:?}"));
                return;
            }
        }
    }
    let debugged: [(&str, &dyn std::fmt::Debug); 6] = [
        ("Error::Utf8", &Error::Utf8),
        ("Error::Utf16", &Error::Utf16),
        ("Error::OutOfBounds", &Error::OutOfBounds),
        ("Utf8", &Utf8),
        ("Utf16", &Utf16),
        ("OutOfBounds", &OutOfBounds),
    ];
    for (n, e) in debugged {
        c.tick("error debug", "checked");
        let mut b = Buf::new(2048);
        let _ = alloc::take();
        let shown = guarded(|| win!(write!(b, "{e:?} {e:#?} {e:>9.2?}")));
        if alloc::take() > 0 {
            c.finding(&["C09"], format!("debug output of the error {n} allocates"));
            return;
        }
        if !matches!(shown, Ok(Ok(()))) {
            c.finding(&["C08", "C11"], format!("debug output of the error {n} gives {shown:?}"));
            return;
        }
        // a sink that refuses is told apart, not panicked over
        let mut tiny = Buf::new(0);
        match guarded(|| win!(write!(tiny, "{e:?}"))) {
            Ok(_) => {}
            Err(p) => {
                c.finding(&["C08", "C11"], format!("debug output of the error {n} into a refusing sink panics: {p}"));
                return;
            }
        }
    }
    #[cfg(feature = "as-std")]
    {
        let all: Vec<Box<dyn std::error::Error>> = vec![Box::new(Error::Utf8), Box::new(Utf8), Box::new(Utf16), Box::new(OutOfBounds)];
        for e in all {
            c.tick("std error", "asked for its source");
            if e.source().is_some() {
                c.note("errors with a source", 1);
            }
            c.tick("std error", if e.to_string().is_empty() { "silent" } else { "described" });
        }
    }
    c.sample(|| format!("{} error values compared pairwise", made.len()));
}

#[derive(Clone, Copy, PartialEq)]
pub enum Glyph {
    Format,
    Compare,
    Index,
}
/// Every Unicode scalar value in short texts: shown (C11), compared with its
/// neighbours and its other cases (C10), sliced around and through (C12).
/// count = how many of the 4352 blocks of 256 code points to visit.
pub fn glyphs(c: &mut Ctx, what: Glyph) {
    let blocks = 0x110000 / 256u64;
    let stride = (blocks / c.cfg.count.clamp(1, blocks)).max(1);
    for k in 0..blocks {
        let early = k < 8 || k == 0x20 || (0xd7..=0xe0).contains(&k) || k == 0xfe || k == 0xff || k == 0x10ff;
        if !(early && stride < blocks) && (k + c.cfg.seed) % stride != 0 {
            continue;
        }
        if !c.unit(k) {
            continue;
        }
        let mut r = seeded(c, 0x91, k);
        let cap = *r.pick(&[12usize, 16, 63, 255]);
        let mk: Box<dyn Fn() -> Box<dyn Subject>> = if r.chance(1, 5) { Box::new(|| make_cache()) } else { Box::new(move || make(cap)) };
        let of = |t: &str| {
            let mut s = mk();
            matches!(guarded(|| { s.apply(&Op::TryPushStr("~".repeat(12))); s.apply(&Op::FromStrTrunc(t.to_owned())); s.state() }), Ok(Ok(x)) if x == t).then_some(s)
        };
        for low in 0..256u32 {
            let Some(ch) = char::from_u32(k as u32 * 256 + low) else { continue };
            let t = match r.below(3) {
                0 => format!("{ch}"),
                1 => format!("x{ch}"),
                _ => format!("{ch}-{ch}"),
            };
            let Some(s) = of(&t) else {
                c.note("texts not reached", 1);
                continue;
            };
            let ok = match what {
                Glyph::Format => glyph_format(c, &*s, &t),
                Glyph::Compare => {
                    // neighbours, other cases, what it is often confused with
                    let other = match r.below(6) {
                        0 | 1 => char::from_u32(ch as u32 ^ 1 << r.below(12)).unwrap_or('\u{fffd}'),
                        2 => ch.to_uppercase().next().unwrap_or('x'),
                        3 => ch.to_lowercase().next().unwrap_or('x'),
                        4 => char::from_u32((ch as u32).wrapping_add(1)).unwrap_or('\u{d7ff}'),
                        _ => *r.pick(&['\0', ' ', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}']),
                    };
                    let u = if r.chance(1, 4) { t.replacen(ch, "", 1) } else { t.replacen(ch, other.encode_utf8(&mut [0; 4]), 1) };
                    match of(&u) {
                        Some(o) => glyph_compare(c, &*s, &t, &*o, &u),
                        None => true,
                    }
                }
                Glyph::Index => glyph_index(c, &*s, &t),
            };
            if !ok {
                break;
            }
        }
    }
}
fn glyph_format(c: &mut Ctx, s: &dyn Subject, t: &str) -> bool {
    let d = s.display();
    let mut bad = None;
    macro_rules! plain {
        ($($f:literal),* $(,)?) => {$(
            if bad.is_none() {
                bad = one_format(c, $f, t, |b: &mut Buf| write!(b, $f, d), format!($f, t), 0, 0);
            }
        )*};
    }
    plain!("{}", "{:>5}", "{:.1}", "{:*^7.2}", "{:#}");
    if bad.is_none() {
        c.tick("debug", "seen");
        let (want, dbg) = (format!("{t:?}"), s.debug());
        for (f, out) in [("{:?}", guarded(|| format!("{dbg:?}"))), ("{:#?}", guarded(|| format!("{dbg:#?}")))] {
            if !out.as_ref().is_ok_and(|o| o.contains(&want)) {
                bad = Some((&["C11"][..], format!("{f} of a string holding {t:?} gives {out:?}, which does not show its text")));
            }
        }
    }
    match bad {
        Some((props, w)) => {
            c.finding(props, w);
            false
        }
        None => true,
    }
}
fn glyph_compare(c: &mut Ctx, a: &dyn Subject, ta: &str, b: &dyn Subject, tb: &str) -> bool {
    c.tick("compare", if ta == tb { "same text" } else { "different text" });
    c.case(&(a.cap(), ta, tb));
    let got = guarded(|| (a.cmp_with(b), b.cmp_with(a), a.vs_str(tb), a.vs_str(ta)));
    let exp = (cmp_expected(ta, tb), cmp_expected(tb, ta), (ta == tb, ta == tb), (true, true));
    let _ = alloc::take();
    if got.as_ref() != Ok(&exp) {
        c.finding(&["C10"], format!("{ta:?} and {tb:?}: {got:?}, but the texts give {exp:?}"));
        return false;
    }
    true
}
fn glyph_index(c: &mut Ctx, s: &dyn Subject, t: &str) -> bool {
    let mut d = s.dup();
    let n = t.len() as u8;
    let mut text = t.to_owned();
    for i in 0..=n {
        let j = i + (i < n) as u8;
        for v in [View::IdxFrom(i), View::IdxTo(i), View::IdxRange(i, n), View::IdxToIncl(i), View::IdxIncl(i, j)] {
            if !index_one(c, &mut *d, t, v) || !step(c, &mut *d, &mut text, &Op::Mutate(v, Edit::Look)) {
                return false;
            }
        }
    }
    true
}
