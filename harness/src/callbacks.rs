//! Code supplied by the caller: iterators that never end, lie or panic,
//! predicates, and conversions that change their answer between calls.
use crate::api::Api;
use crate::engine::*;
use crate::model;
use crate::rng::{mix, Rng};
use crate::subj::{check_text, Slot, ToObs};
use crate::{alloc, for_type, gen, win};
use crate::op::Op;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::ops::{Bound, RangeBounds};

/// Marks a panic raised by the caller's own code.
const MINE: &str = "caller's own panic";
const RUNAWAY: &str = "iterator drained without end";

thread_local! {
    /// While set, the caller's own code now and then uses other strings of the library.
    static NEST: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static NESTED: RefCell<(u64, Option<String>)> = const { RefCell::new((0, None)) };
}
/// What caller-supplied code does on the side: a few operations on strings of its own,
/// judged like any other.
fn nested() {
    let Some(mut r) = NEST.with(|n| n.borrow_mut().take()) else { return };
    alloc::pause(|| {
        if r.chance(1, 3) {
            let done = side_work(&mut r);
            NESTED.with(|n| {
                let mut n = n.borrow_mut();
                n.0 += 1;
                if n.1.is_none() {
                    n.1 = done.err();
                }
            });
        }
    });
    NEST.with(|n| *n.borrow_mut() = Some(r));
}
fn side_work(r: &mut Rng) -> Result<(), String> {
    let mut s = subject_for(r);
    let cap = s.cap();
    let mut text = String::new();
    for _ in 0..r.range(1, 4) {
        let f = *r.pick(gen::ALL_FOCUS);
        let op = gen::op(r, f, &text, cap);
        if matches!(op, Op::Mutate(..)) {
            continue;
        }
        let exp = model::spec(&op, &text, cap);
        let got = s.apply(&op);
        let after = s.state()?;
        if !exp.allowed.iter().any(|(o, t)| *o == got && *t == after) {
            return Err(format!("{} on {} (capacity {cap}) inside caller-supplied code gives {got:?} and the text {}", op.show(), clip(&text), clip(&after)));
        }
        text = after;
    }
    Ok(())
}
/// Switches `nested` on for the calls that follow.
fn nest_on(r: &mut Rng) {
    let on = !cfg!(miri) && r.chance(1, 3);
    let seed = r.u64();
    NEST.with(|n| *n.borrow_mut() = on.then(|| Rng::new(seed)));
}
/// Switches it off and reports what went wrong on the side.
fn nest_off(c: &mut Ctx) -> bool {
    NEST.with(|n| *n.borrow_mut() = None);
    let (n, bad) = NESTED.with(|n| std::mem::take(&mut *n.borrow_mut()));
    if n > 0 {
        c.note("library uses inside caller-supplied code", n);
    }
    if let Some(m) = bad {
        c.finding(&["C21", "C19", "C03", "C02"], m);
        return false;
    }
    true
}

/// Iterator over `items`, then (optionally) a lone `None`, then more.
struct It<T> {
    items: Vec<T>,
    /// index at which one `None` is returned before going on
    gap: Option<usize>,
    gapped: bool,
    pos: usize,
    /// start over at the end: never finishes
    endless: bool,
    panic_at: Option<usize>,
    hint: (usize, Option<usize>),
    pulls: std::rc::Rc<Cell<usize>>,
}
impl<T: Clone> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        alloc::pause(|| {
            self.pulls.set(self.pulls.get() + 1);
            if self.pulls.get() < 12 {
                nested();
            }
            if self.pulls.get() > 5000 {
                panic!("{RUNAWAY}");
            }
            if self.panic_at == Some(self.pos) {
                panic!("{MINE}");
            }
            if self.gap == Some(self.pos) && !self.gapped {
                self.gapped = true;
                return None;
            }
            if self.pos >= self.items.len() {
                if !self.endless || self.items.is_empty() {
                    return None;
                }
                self.pos = 0;
            }
            self.pos += 1;
            Some(self.items[self.pos - 1].clone())
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn hint(r: &mut Rng, n: usize) -> (usize, Option<usize>) {
    *r.pick(&[
        (0, None),
        (n, Some(n)),
        (usize::MAX, None),
        (usize::MAX, Some(usize::MAX)),
        (0, Some(0)),
        (n + 1000, Some(n + 1000)),
        (300, Some(1)),
        (256, Some(256)),
        (1, Some(2)),
    ])
}

/// Caller-supplied iterators and predicates (C19).
pub fn callbacks(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0xcb) ^ mix(k));
        let t = r.below(1 << 20);
        if r.chance(1, 6) {
            for_type!(t, by_value(c, &mut r));
        } else if r.chance(1, 5) {
            for_type!(t, displays(c, &mut r));
        } else if r.chance(1, 4) {
            for_type!(t, predicates(c, &mut r));
        } else {
            for_type!(t, iterators(c, &mut r));
        }
    }
}

fn prepared<T: Api>(r: &mut Rng) -> Option<(Slot<T>, String)> {
    let cap = T::cap();
    let mut s = Slot::new(T::t_new());
    if r.chance(1, 2) {
        s.val = T::t_from_str_truncate("~".repeat(cap));
        s.val.t_clear();
    }
    let l = match r.below(4) {
        0 => cap,
        1 => 0,
        _ => r.below(cap + 1),
    };
    let exact = r.chance(1, 2);
    let text = gen::text(r, l, exact);
    s.val.t_try_push_str(&text).ok()?;
    Some((s, text))
}

fn iterators<T: Api>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    for _ in 0..8 {
        let Some((mut s, before)) = prepared::<T>(r) else { return };
        let kind = r.below(9);
        const NAMES: [&str; 9] = [
            "try_from_chars", "from_chars_truncate", "FromIterator<char>", "Extend<char>", "Extend<&char>", "try_from_iterator",
            "from_iterator_truncate", "FromIterator<&str>", "Extend<&str>",
        ];
        let strs = kind >= 5;
        let appends = matches!(kind, 3 | 4 | 8);
        let trying = matches!(kind, 0 | 5);
        // what the iterator yields
        let n = r.below(8) + if r.chance(1, 3) { cap } else { 0 };
        let m = r.below(10);
        let items: Vec<String> = (0..n)
            .map(|_| {
                if strs {
                    let l = *r.pick(&[0, 1, 1, 2, 3, 4, 5, cap / 2, cap, cap + 1, 256]);
                    gen::text(r, l, false)
                } else {
                    gen::ch(r, m).to_string()
                }
            })
            .collect();
        let endless = r.chance(1, 3) && !items.is_empty() && items.iter().all(|i| !i.is_empty());
        let gap = if r.chance(1, 4) { Some(r.below(n + 1)) } else { None };
        let panic_at = if r.chance(1, 6) { Some(r.below(n + 1)) } else { None };
        let h = hint(r, n);
        let pulls = std::rc::Rc::new(Cell::new(0));
        // what may come out: everything before the first None, panics stopping earlier
        let stop = gap.unwrap_or(n).min(n);
        let once: String = items[..stop].concat();
        let full = if endless && gap.is_none() {
            once.repeat(600 / once.len().max(1) + 2)
        } else {
            once.clone()
        };
        let chars: Vec<char> = items.iter().filter_map(|i| i.chars().next()).collect();
        let refs: Vec<&str> = items.iter().map(|i| i.as_str()).collect();
        macro_rules! it {
            ($v:expr) => {
                It { items: $v, gap, gapped: false, pos: 0, endless, panic_at, hint: h, pulls: pulls.clone() }
            };
        }
        let _ = alloc::take();
        nest_on(r);
        let got = guarded(|| {
            let v = &mut s.val;
            match kind {
                0 => {
                    let it = it!(chars.clone());
                    win!(T::t_try_from_chars(it)).map(|x| *v = x).is_ok()
                }
                1 => {
                    let it = it!(chars.clone());
                    *v = win!(T::t_from_chars_truncate(it));
                    true
                }
                2 => {
                    let it = it!(chars.clone());
                    *v = win!(<T as FromIterator<char>>::from_iter(it));
                    true
                }
                3 => {
                    let it = it!(chars.clone());
                    win!(Extend::<char>::extend(v, it));
                    true
                }
                4 => {
                    let it = it!(chars.iter().collect::<Vec<&char>>());
                    win!(Extend::<&char>::extend(v, it));
                    true
                }
                5 => {
                    let it = it!(refs.clone());
                    win!(T::t_try_from_iterator(it)).map(|x| *v = x).is_ok()
                }
                6 => {
                    let it = it!(refs.clone());
                    *v = win!(T::t_from_iterator_truncate(it));
                    true
                }
                7 => {
                    let it = it!(refs.clone());
                    *v = win!(<T as FromIterator<&str>>::from_iter(it));
                    true
                }
                _ => {
                    let it = it!(refs.clone());
                    win!(Extend::<&str>::extend(v, it));
                    true
                }
            }
        });
        let _ = alloc::take();
        if !nest_off(c) {
            return;
        }
        let room = if appends { cap - before.len() } else { cap };
        let fits = full.len() <= room;
        let want_ok = !trying || fits;
        let base = if appends { before.as_str() } else { "" };
        let want = if want_ok { format!("{base}{}", model::floor(&full, room)) } else { before.clone() };
        let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
        let describe = || {
            format!(
                "{} holding {before:?}: {} over {} items {:?} (endless: {endless}, None before item {gap:?}, panics at {panic_at:?}, size_hint {h:?})",
                T::NAME,
                NAMES[kind],
                n,
                items.iter().take(6).collect::<Vec<_>>()
            )
        };
        c.tick(NAMES[kind], if got.is_err() { "unwound" } else if endless { "endless" } else if fits { "fits" } else { "too long" });
        c.case(&(cap, &before, &items, kind, gap, endless, panic_at));
        c.sample(|| format!("{} -> {got:?}", describe()));
        match &got {
            Err(m) if m == MINE => {
                // the caller's panic comes through; the string stays usable
                // and holds whole characters, in order, of what was offered
                match &after {
                    Ok(t) => {
                        let whole = t.strip_prefix(before.as_str()).is_some_and(|rest| {
                            if appends { full.starts_with(rest) || once.starts_with(rest) } else { rest.is_empty() }
                        });
                        if !whole {
                            c.finding(&["C19"], format!("{}: after the iterator panicked the text is {t:?}", describe()));
                            return;
                        }
                    }
                    Err(e) => {
                        c.finding(&["C19", "C01", "C02"], format!("{}: after the iterator panicked: {e}", describe()));
                        return;
                    }
                }
            }
            Err(m) => {
                c.finding(&["C19", "C08"], format!("{}: {m}", describe()));
                return;
            }
            Ok(ok) => {
                // a panic_at the library never reached: the result must be the ordinary one
                if *ok != want_ok || after.as_ref() != Ok(&want) {
                    let mut tags = vec!["C19"];
                    if after.is_err() {
                        tags.extend(["C01", "C02"]);
                    }
                    c.finding(&tags, format!("{}: ok={ok} and {after:?}; expected ok={want_ok} and {want:?}", describe()));
                    return;
                }
                // The first item that cannot fit settles the outcome. `extend` may gather a whole
                // capacity of its own before it appends, so the bound is counted from an empty
                // string; one item more is let pass.
                let mut total = 0;
                let mut most = 2;
                for item in items[..stop].iter().cycle().take(if endless && gap.is_none() { 5000 } else { stop }) {
                    total += item.len();
                    if total > cap {
                        break;
                    }
                    most += 1;
                }
                if pulls.get() > most {
                    c.finding(&["C19"], format!("{}: {} items were asked for, the outcome was settled after {most}", describe(), pulls.get()));
                    return;
                }
            }
        }
    }
}

fn predicates<T: Api>(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..8 {
        let Some((mut s, before)) = prepared::<T>(r) else { return };
        let n = before.chars().count();
        let panic_at = if r.chance(1, 2) { Some(r.below(n + 1)) } else { None };
        let bits = r.u64();
        let mut calls: Vec<char> = Vec::with_capacity(2048);
        let mut k = 0usize;
        let _ = alloc::take();
        nest_on(r);
        let got = guarded(|| {
            win!(s.val.t_retain(|ch| alloc::pause(|| {
                if k < 20 {
                    nested();
                }
                if panic_at == Some(k) {
                    panic!("{MINE}");
                }
                if k > 2000 {
                    panic!("{RUNAWAY}");
                }
                calls.push(ch);
                k += 1;
                mix(bits ^ k as u64) & 1 == 1
            })))
        });
        let n_alloc = alloc::take();
        if !nest_off(c) {
            return;
        }
        let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
        let seen: String = calls.iter().collect();
        let want_seen: String = before.chars().take(panic_at.unwrap_or(n)).collect();
        let kept: String = before.chars().enumerate().filter(|(i, _)| mix(bits ^ (*i as u64 + 1)) & 1 == 1).map(|x| x.1).collect();
        c.tick("retain", if got.is_err() { "unwound" } else { "done" });
        c.case(&(T::cap(), &before, panic_at, bits));
        let fine = match &got {
            Err(m) if m == MINE => {
                panic_at.is_some_and(|p| p < n)
                    && after.as_ref().is_ok_and(|t| t.len() <= before.len() && t.chars().all(|x| before.contains(x)))
            }
            Err(_) => false,
            Ok(()) => panic_at.map_or(true, |p| p >= n) && after.as_ref() == Ok(&kept),
        };
        if !fine || seen != want_seen {
            let mut tags = vec!["C19"];
            if after.is_err() {
                tags.extend(["C01", "C02"]);
            }
            c.finding(
                &tags,
                format!("{} holding {before:?}: retain with a predicate panicking at call {panic_at:?}: {got:?}, predicate saw {seen:?} (expected {want_seen:?}), text afterwards {after:?} (expected {kept:?} if it completes)", T::NAME),
            );
            return;
        }
        if got.is_ok() && n_alloc > 0 {
            c.finding(&["C09"], format!("{}: retain on {before:?} made {n_alloc} allocator calls", T::NAME));
            return;
        }
    }
}

/// Something handed over by value: `live` says how many exist.
struct Counted {
    text: String,
    wide: Vec<u16>,
    live: std::rc::Rc<Cell<i64>>,
    dropped: bool,
    panics: bool,
}
impl Counted {
    fn new(text: &str, live: &std::rc::Rc<Cell<i64>>, panics: bool) -> Counted {
        live.set(live.get() + 1);
        Counted { text: text.into(), wide: text.encode_utf16().collect(), live: live.clone(), dropped: false, panics }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.live.set(self.live.get() - if self.dropped { 1 << 32 } else { 1 });
        self.dropped = true;
    }
}
impl AsRef<str> for Counted {
    fn as_ref(&self) -> &str {
        if self.panics {
            panic!("{MINE}");
        }
        &self.text
    }
}
impl AsRef<[u16]> for Counted {
    fn as_ref(&self) -> &[u16] {
        &self.wide
    }
}
impl RangeBounds<usize> for Counted {
    fn start_bound(&self) -> Bound<&usize> {
        Bound::Unbounded
    }
    fn end_bound(&self) -> Bound<&usize> {
        Bound::Excluded(&0)
    }
}

/// Values handed over are dropped, once, whatever becomes of the operation (C19, C02).
fn by_value<T: Api>(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..8 {
        let Some((mut s, before)) = prepared::<T>(r) else { return };
        let cap = T::cap();
        let kind = r.below(17);
        const NAMES: [&str; 17] = [
            "try_from_str", "from_str_truncate", "try_push_str", "push_str_truncate", "try_insert_str", "insert_str_truncate", "replace_range",
            "try_from_iterator", "from_iterator_truncate", "try_from_chars", "from_chars_truncate", "try_from_utf16", "from_utf16_truncate",
            "from_utf16_lossy_truncate", "retain", "drain", "extend",
        ];
        let live = std::rc::Rc::new(Cell::new(0i64));
        let a = gen::arg(r, cap, before.len());
        let i = gen::idx(r, &before, cap);
        let panics = r.chance(1, 6);
        let n = r.below(6);
        let texts: Vec<String> = (0..n).map(|_| gen::arg(r, cap, cap / 2)).collect();
        let stop = r.below(n + 2);
        let many = || {
            // the iterator owns something, and makes what it yields
            let own = Counted::new("", &live, false);
            let live = live.clone();
            let texts = texts.clone();
            (0..texts.len()).map(move |k| {
                if panics && k == stop {
                    panic!("{MINE}");
                }
                own.live.set(own.live.get());
                Counted::new(&texts[k], &live, panics && k + 1 == stop)
            })
        };
        let chars = || {
            let own = Counted::new("", &live, false);
            a.chars().map(move |ch| {
                own.live.set(own.live.get());
                ch
            })
        };
        let one = || Counted::new(&a, &live, panics);
        let _ = alloc::take();
        let got = guarded(|| {
            let v = &mut s.val;
            match kind {
                0 => T::t_try_from_str(one()).is_ok(),
                1 => T::t_from_str_truncate(one()).t_try_push_str("").is_ok(),
                2 => v.t_try_push_str(one()).is_ok(),
                3 => {
                    v.t_push_str_truncate(one());
                    true
                }
                4 => v.t_try_insert_str(i, one()).is_ok(),
                5 => v.t_insert_str_truncate(i, one()).is_ok(),
                6 => v.t_replace_range(Counted::new("", &live, false), one()).is_ok(),
                7 => T::t_try_from_iterator(many()).is_ok(),
                8 => T::t_from_iterator_truncate(many()).t_try_push_str("").is_ok(),
                9 => T::t_try_from_chars(chars()).is_ok(),
                10 => T::t_from_chars_truncate(chars()).t_try_push_str("").is_ok(),
                11 => T::t_try_from_utf16(one()).is_ok(),
                12 => T::t_from_utf16_truncate(one()).is_ok(),
                13 => T::t_from_utf16_lossy_truncate(one()).t_try_push_str("").is_ok(),
                14 => {
                    let own = one();
                    v.t_retain(move |ch| {
                        if own.panics && ch > 'n' {
                            panic!("{MINE}");
                        }
                        ch.is_alphabetic()
                    });
                    true
                }
                15 => v.t_drain(one()).is_ok(),
                _ => {
                    Extend::<char>::extend(v, chars());
                    true
                }
            }
        });
        let _ = alloc::take();
        c.tick("handed over by value", match &got {
            Ok(true) => "accepted",
            Ok(false) => "refused",
            Err(_) => "unwound",
        });
        c.case(&(cap, &before, kind, &a, i, &texts, panics));
        let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
        let mine = matches!(&got, Err(m) if m == MINE);
        if live.get() != 0 || after.is_err() || (got.is_err() && !(panics && mine)) {
            let mut tags = vec!["C19", "C02"];
            if after.is_err() {
                tags.push("C01");
            }
            c.finding(
                &tags,
                format!(
                    "{} holding {before:?}: {} with an argument by value ({}, items {:?}, panicking {panics}): {got:?}; {} of the values handed over are left (0 expected; below 0: dropped twice); text {}",
                    T::NAME,
                    NAMES[kind],
                    clip(&a),
                    texts.iter().map(|t| t.len()).collect::<Vec<_>>(),
                    live.get(),
                    clip(&format!("{after:?}"))
                ),
            );
            return;
        }
    }
}

/// A value whose display comes in pieces, and may fail or panic between two of them.
struct Pieces<'a> {
    v: &'a [String],
    fails_at: Option<usize>,
    panics_at: Option<usize>,
    /// go on after a piece was refused
    stubborn: bool,
}
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (i, p) in self.v.iter().enumerate() {
            alloc::pause(nested);
            if self.panics_at == Some(i) {
                panic!("{MINE}");
            }
            if self.fails_at == Some(i) {
                return Err(std::fmt::Error);
            }
            let one = p.chars().next().filter(|c| c.len_utf8() == p.len());
            let r = match one {
                Some(c) if i % 2 == 0 => f.write_char(c),
                _ => f.write_str(p),
            };
            if !self.stubborn {
                r?;
            }
        }
        Ok(())
    }
}

/// `write!` of values with a display of their own (C11, C19, C04).
fn displays<T: Api>(c: &mut Ctx, r: &mut Rng) {
    for _ in 0..8 {
        let Some((mut s, before)) = prepared::<T>(r) else { return };
        let cap = T::cap();
        let n = r.below(7);
        let v: Vec<String> = (0..n)
            .map(|_| {
                let l = *r.pick(&[0, 1, 1, 2, 3, 4, 5, cap / 2, cap - before.len(), cap - before.len() + 1]);
                gen::text(r, l, false)
            })
            .collect();
        let at = |r: &mut Rng| if r.chance(1, 5) { Some(r.below(n + 1)) } else { None };
        let (fails_at, panics_at) = (at(r), at(r));
        let p = Pieces { v: &v, fails_at, panics_at, stubborn: r.chance(1, 4) };
        let mut sink = model::Sink { text: before.clone(), cap };
        let shape = r.below(3);
        let want = guarded(|| match shape {
            0 => write!(sink, "{p}").is_ok(),
            1 => write!(sink, "<{p}>{n}").is_ok(),
            _ => write!(sink, "{p}{p}").is_ok(),
        });
        let _ = alloc::take();
        nest_on(r);
        let got = guarded(|| match shape {
            0 => win!(write!(s.val, "{p}")).is_ok(),
            1 => win!(write!(s.val, "<{p}>{n}")).is_ok(),
            _ => win!(write!(s.val, "{p}{p}")).is_ok(),
        });
        let allocs = alloc::take();
        if !nest_off(c) {
            return;
        }
        let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
        c.tick("write! of a caller's display", match &want {
            Ok(true) => "fits",
            Ok(false) => "refused",
            Err(_) => "unwound",
        });
        c.case(&(cap, &before, &v, fails_at, panics_at, shape));
        let describe = || format!("{} holding {before:?}: write! (shape {shape}) of a value displayed in pieces {v:?} (error before {fails_at:?}, panic before {panics_at:?}, going on after a refusal: {})", T::NAME, p.stubborn);
        c.sample(|| format!("{} -> {got:?}, {}", describe(), clip(&format!("{after:?}"))));
        // (after the caller's own panic some of the pieces before it may not have arrived)
        let fine = match (&want, &after) {
            (Err(_), Ok(t)) => t.starts_with(&before) && sink.text.starts_with(t.as_str()),
            _ => after.as_ref() == Ok(&sink.text),
        };
        if got != want || !fine {
            let mut tags = vec!["C11", "C19"];
            if want == Ok(false) {
                tags.push("C04");
            }
            if after.is_err() {
                tags.extend(["C01", "C02"]);
            }
            c.finding(&tags, format!("{}: {got:?} and {after:?}; a sink with that much room: {want:?} and {:?}", describe(), sink.text));
            return;
        }
        if got == Ok(true) && allocs > 0 {
            c.finding(&["C09"], format!("{}: {allocs} allocator calls", describe()));
            return;
        }
    }
}

/// Honest values of the caller's, which use the library on the side.
struct Honest<'a>(&'a str, &'a [u16]);
impl AsRef<str> for Honest<'_> {
    fn as_ref(&self) -> &str {
        nested();
        self.0
    }
}
impl AsRef<[u16]> for Honest<'_> {
    fn as_ref(&self) -> &[u16] {
        nested();
        self.1
    }
}
impl Drop for Honest<'_> {
    fn drop(&mut self) {
        nested();
    }
}
struct HonestRange(Bound<usize>, Bound<usize>);
impl RangeBounds<usize> for HonestRange {
    fn start_bound(&self) -> Bound<&usize> {
        nested();
        by_ref(&self.0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        nested();
        by_ref(&self.1)
    }
}
struct HonestIter<I>(I);
impl<I: Iterator> Iterator for HonestIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        nested();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        nested();
        self.0.size_hint()
    }
}
impl<I> Drop for HonestIter<I> {
    fn drop(&mut self) {
        nested();
    }
}
#[derive(Default)]
struct HonestHasher(Vec<u8>);
impl std::hash::Hasher for HonestHasher {
    fn write(&mut self, b: &[u8]) {
        nested();
        self.0.extend(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
#[derive(Default)]
struct HonestSink(String);
impl std::fmt::Write for HonestSink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        nested();
        self.0.push_str(s);
        Ok(())
    }
}

/// Calls come out the same whether or not the code they call uses the library too (C21, C19).
pub fn undisturbed(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x57d) ^ mix(k));
        for_type!(r.below(1 << 20), undisturbed_one(c, &mut r));
    }
}
const CALLS: [&str; 24] = [
    "try_from_str", "from_str_truncate", "try_push_str", "push_str_truncate", "try_insert_str", "insert_str_truncate", "replace_range",
    "try_from_iterator", "from_iterator_truncate", "try_from_chars", "from_chars_truncate", "try_from_utf16", "from_utf16_truncate",
    "from_utf16_lossy_truncate", "retain", "drain", "Extend<char>", "Extend<&str>", "Extend<&char>", "hash", "display and debug", "FromIterator",
    "drain consumed", "write!",
];
fn undisturbed_one<T: Api>(c: &mut Ctx, r: &mut Rng) {
    use std::hash::Hash;
    let cap = T::cap();
    for _ in 0..CALLS.len() {
        let Some((s, before)) = prepared::<T>(r) else { return };
        let kind = r.below(CALLS.len());
        let l = *r.pick(&[0, before.len(), cap]);
        let a = gen::arg(r, cap, l);
        let u = gen::utf16(r, cap, 0);
        let (from, to) = gen::range(r, &before, cap);
        let i = gen::idx(r, &before, cap);
        let many: Vec<String> = (0..r.below(5)).map(|_| gen::arg(r, cap, cap / 2)).collect();
        let bits = r.u64();
        let seed = r.u64();
        let show = |v: Result<T, String>| match v {
            Ok(v) => format!("gives {:?}", check_text(&v)),
            Err(e) => format!("refused: {e}"),
        };
        fn unit<E: std::fmt::Debug>(v: Result<(), E>) -> String {
            format!("{v:?}")
        }
        let run = |v: &mut T| -> String {
            let one = || Honest(&a, &u);
            let strs = || HonestIter(many.iter().map(|m| Honest(m, &[])));
            let plain = || HonestIter(many.iter().map(|m| m.as_str()));
            let chars = || HonestIter(a.chars());
            let range = || HonestRange(from, to);
            match kind {
                0 => show(T::t_try_from_str(one()).map_err(|e| format!("{e:?}"))),
                1 => show(Ok(T::t_from_str_truncate(one()))),
                2 => unit(v.t_try_push_str(one())),
                3 => unit::<()>(Ok(v.t_push_str_truncate(one()))),
                4 => unit(v.t_try_insert_str(i, one())),
                5 => unit(v.t_insert_str_truncate(i, one())),
                6 => unit(v.t_replace_range(range(), one())),
                7 => show(T::t_try_from_iterator(strs()).map_err(|e| format!("{e:?}"))),
                8 => show(Ok(T::t_from_iterator_truncate(strs()))),
                9 => show(T::t_try_from_chars(chars()).map_err(|e| format!("{e:?}"))),
                10 => show(Ok(T::t_from_chars_truncate(chars()))),
                11 => show(T::t_try_from_utf16(one()).map_err(|e| format!("{e:?}"))),
                12 => show(T::t_from_utf16_truncate(one()).map_err(|e| format!("{e:?}"))),
                13 => show(Ok(T::t_from_utf16_lossy_truncate(one()))),
                14 => {
                    let mut seen = String::new();
                    v.t_retain(|ch| {
                        nested();
                        seen.push(ch);
                        mix(bits ^ seen.len() as u64) & 1 == 1
                    });
                    seen
                }
                15 => match v.t_drain(range()) {
                    Ok(d) => format!("drained {:?}", T::t_drained(&d)),
                    Err(e) => format!("{e:?}"),
                },
                16 => {
                    Extend::<char>::extend(v, chars());
                    String::new()
                }
                17 => {
                    Extend::<&str>::extend(v, plain());
                    String::new()
                }
                18 => {
                    let all: Vec<char> = a.chars().collect();
                    Extend::<&char>::extend(v, HonestIter(all.iter()));
                    String::new()
                }
                19 => {
                    let mut h = HonestHasher::default();
                    v.hash(&mut h);
                    format!("hashes {:?}", h.0)
                }
                20 => {
                    let mut o = HonestSink::default();
                    let ok = write!(o, "{v}{v:?}{v:>300}{v:<5.3}").is_ok();
                    format!("{ok} {}", o.0)
                }
                21 => show(Ok(if bits & 1 == 0 { chars().collect() } else { plain().collect() })),
                22 => match v.t_drain(range()) {
                    Ok(d) => {
                        let mut got = String::new();
                        let mut take = |ch| {
                            nested();
                            got.push(ch);
                        };
                        if bits & 1 == 0 {
                            d.for_each(&mut take);
                        } else {
                            d.rev().for_each(&mut take);
                        }
                        got
                    }
                    Err(e) => format!("{e:?}"),
                },
                _ => {
                    let p = Pieces { v: &many, fails_at: None, panics_at: None, stubborn: bits & 1 == 1 };
                    format!("{:?}", write!(v, "{p}."))
                }
            }
        };
        let both = |nest: Option<Rng>| {
            let mut v = Slot::new(s.val);
            NEST.with(|n| *n.borrow_mut() = nest);
            let got = guarded(|| run(&mut v.val));
            let after = guarded(|| if v.intact() { check_text(&v.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
            (got, after)
        };
        let want = both(None);
        let got = both(Some(Rng::new(seed)));
        if !nest_off(c) {
            return;
        }
        c.tick("with library use on the side", CALLS[kind]);
        c.case(&(cap, &before, kind, &a, i, from, to, bits));
        if got != want {
            c.finding(
                &["C21", "C19"],
                format!("{} holding {before:?}: {} (argument {}, at {i}, range {from:?} to {to:?}) comes out as {} while the caller's code uses other strings, and as {} otherwise", T::NAME, CALLS[kind], clip(&a), clip(&format!("{got:?}")), clip(&format!("{want:?}"))),
            );
            return;
        }
    }
}

/// Gives a different string each time it is asked.
struct FlipStr {
    v: Vec<String>,
    n: Cell<usize>,
    panic_at: Option<usize>,
}
impl AsRef<str> for FlipStr {
    fn as_ref(&self) -> &str {
        let k = self.n.get();
        self.n.set(k + 1);
        nested();
        if self.panic_at == Some(k) {
            panic!("{MINE}");
        }
        &self.v[k % self.v.len()]
    }
}
struct FlipU16 {
    v: Vec<Vec<u16>>,
    n: Cell<usize>,
}
impl AsRef<[u16]> for FlipU16 {
    fn as_ref(&self) -> &[u16] {
        let k = self.n.get();
        self.n.set(k + 1);
        nested();
        &self.v[k % self.v.len()]
    }
}
/// Gives different bounds each time it is asked.
struct FlipRange {
    v: Vec<(Bound<usize>, Bound<usize>)>,
    n: Cell<usize>,
}
impl FlipRange {
    fn turn(&self) -> usize {
        let k = self.n.get();
        self.n.set(k + 1);
        nested();
        k % self.v.len()
    }
}
fn by_ref(b: &Bound<usize>) -> Bound<&usize> {
    match b {
        Bound::Included(x) => Bound::Included(x),
        Bound::Excluded(x) => Bound::Excluded(x),
        Bound::Unbounded => Bound::Unbounded,
    }
}
impl RangeBounds<usize> for FlipRange {
    fn start_bound(&self) -> Bound<&usize> {
        by_ref(&self.v[self.turn()].0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        by_ref(&self.v[self.turn()].1)
    }
}

fn flip_str(r: &mut Rng, cap: usize, len: usize) -> FlipStr {
    let n = 2 + r.below(4);
    let v = (0..n).map(|_| gen::arg(r, cap, len)).collect();
    FlipStr { v, n: Cell::new(0), panic_at: if r.chance(1, 8) { Some(r.below(4)) } else { None } }
}

/// Hostile conversions and ranges: whatever they answer, memory stays intact (C02, C01).
pub fn evil(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0xe11) ^ mix(k));
        for_type!(r.below(1 << 20), evil_one(c, &mut r));
    }
}
fn evil_one<T: Api>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    let Some((mut s, _)) = prepared::<T>(r) else { return };
    for _ in 0..10 {
        let Ok(Ok(text)) = guarded(|| check_text(&s.val)) else { return };
        let kind = r.below(13);
        const NAMES: [&str; 13] = [
            "try_from_str", "from_str_truncate", "try_from_iterator", "from_iterator_truncate", "try_push_str", "push_str_truncate",
            "try_insert_str", "insert_str_truncate", "replace_range", "drain", "utf16", "utf16 truncate", "utf16 lossy",
        ];
        let a = flip_str(r, cap, text.len());
        let range = FlipRange { v: (0..2 + r.below(4)).map(|_| gen::range(r, &text, cap)).collect(), n: Cell::new(0) };
        let u = FlipU16 { v: (0..2 + r.below(3)).map(|_| gen::utf16(r, cap, 0)).collect(), n: Cell::new(0) };
        let i = gen::idx(r, &text, cap);
        let many: Vec<FlipStr> = (0..r.below(4)).map(|_| flip_str(r, cap, text.len())).collect();
        let mut bad_drain = false;
        nest_on(r);
        let got = guarded(|| {
            let v = &mut s.val;
            match kind {
                0 => win!(T::t_try_from_str(&a)).map(|x| *v = x).is_ok(),
                1 => {
                    *v = win!(T::t_from_str_truncate(&a));
                    true
                }
                2 => win!(T::t_try_from_iterator(&many)).map(|x| *v = x).is_ok(),
                3 => {
                    *v = win!(T::t_from_iterator_truncate(&many));
                    true
                }
                4 => win!(v.t_try_push_str(&a)).is_ok(),
                5 => {
                    win!(v.t_push_str_truncate(&a));
                    true
                }
                6 => win!(v.t_try_insert_str(i, &a)).is_ok(),
                7 => win!(v.t_insert_str_truncate(i, &a)).is_ok(),
                8 => win!(v.t_replace_range(range, &a)).is_ok(),
                9 => match win!(v.t_drain(range)) {
                    Ok(mut d) => {
                        bad_drain |= crate::subj::own(T::t_drained(&d)).starts_with("<not");
                        let _ = (d.next(), d.next_back());
                        bad_drain |= crate::subj::own(T::t_drained(&d)).starts_with("<not");
                        true
                    }
                    Err(e) => !e.obs().is_err(),
                },
                10 => win!(T::t_try_from_utf16(&u)).map(|x| *v = x).is_ok(),
                11 => win!(T::t_from_utf16_truncate(&u)).map(|x| *v = x).is_ok(),
                _ => {
                    *v = win!(T::t_from_utf16_lossy_truncate(&u));
                    true
                }
            }
        });
        let _ = alloc::take();
        if !nest_off(c) {
            return;
        }
        let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
        c.tick(NAMES[kind], match &got {
            Ok(true) => "accepted",
            Ok(false) => "refused",
            Err(_) => "unwound",
        });
        c.case(&(cap, &text, kind, &a.v, i));
        c.sample(|| format!("{} holding {}: {} with an argument that answers {:?} in turn", T::NAME, clip(&text), NAMES[kind], a.v.iter().map(|s| s.len()).collect::<Vec<_>>()));
        if bad_drain {
            c.finding(&["C02", "C01"], format!("{} holding {}: a drain over changing bounds shows what is not UTF-8", T::NAME, clip(&text)));
            return;
        }
        if let Ok(t) = &after {
            // whichever answer the library acted on, it acted on one of them, whole
            let with = |f: &dyn Fn(&str) -> String| a.v.iter().any(|x| *t == f(x));
            let room = cap - text.len();
            let ok = match (&got, kind) {
                (Err(m), _) if m != MINE => true,
                (Ok(false), _) => *t == text,
                (Ok(true), 0) => with(&|x| x.to_owned()),
                (Ok(true), 1) => with(&|x| model::floor(x, cap).to_owned()),
                (Ok(true), 4) => with(&|x| format!("{text}{x}")),
                (Ok(true), 5) => with(&|x| format!("{text}{}", model::floor(x, room))),
                (Ok(true), 6 | 7) if !text.is_char_boundary(i) => false,
                (Ok(true), 6) => with(&|x| format!("{}{x}{}", &text[..i], &text[i..])),
                (Ok(true), 7) => with(&|x| format!("{}{}{}", &text[..i], model::floor(x, room), &text[i..])),
                (_, 9..) => true,
                _ => t.chars().all(|x| {
                    text.contains(x) || a.v.iter().any(|a| a.contains(x)) || many.iter().any(|m| m.v.iter().any(|a| a.contains(x)))
                }),
            };
            if !ok {
                let tags: &[&str] = if got == Ok(false) { &["C04", "C19"] } else { &["C19"] };
                c.finding(
                    tags,
                    format!("{} holding {}: {} (at {i}) with an argument that answers {:?} in turn: {got:?} and the text {}", T::NAME, clip(&text), NAMES[kind], a.v, clip(t)),
                );
                return;
            }
        }
        if let Err(m) = &after {
            c.finding(
                &["C02", "C01"],
                format!("{} holding {}: {} with an argument that changes between calls ({:?}): {m}", T::NAME, clip(&text), NAMES[kind], a.v.iter().map(|s| s.len()).collect::<Vec<_>>()),
            );
            return;
        }
    }
}
