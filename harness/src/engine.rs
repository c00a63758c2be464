//! The monitor: drives one operation, observes it, and judges what was seen.
use crate::model::{self, Class};
use crate::op::*;
use crate::rng::mix;
use crate::subj::Subject;
use crate::{alloc, gen};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub static UNIT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub mode: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub count: u64,
    pub only: Option<u64>,
    pub soft_secs: u64,
    pub big: bool,
    pub sketch: Option<String>,
    pub progress: Option<String>,
    pub trace: Option<String>,
}

pub struct Ctx {
    /// every finding counts (the property promises all guarantees for something)
    pub accept_any: bool,
    /// units before this one are done with
    pub skip_to: u64,
    pub cfg: Cfg,
    pub start: Instant,
    pub violations: Vec<String>,
    /// findings that belong to properties other than the one being decided
    pub foreign: u64,
    pub events: u64,
    pub units: u64,
    pub seen: BTreeMap<(&'static str, &'static str), u64>,
    pub samples: Vec<String>,
    sketch: Vec<u64>,
    /// cases not in a sketch yet
    cases: Vec<u64>,
    progress: Option<std::fs::File>,
    pub allocs_watched: u64,
    pub digest: u64,
    pub blocks: Vec<u64>,
    pub notes: BTreeMap<String, u64>,
    history: Vec<String>,
    keep_history: bool,
}

const SKETCH_BITS: u64 = 1 << 24;

impl Ctx {
    pub fn new(cfg: Cfg) -> Self {
        let progress = cfg.progress.as_ref().map(|p| std::fs::File::create(p).expect("progress file"));
        let keep_history = cfg.only.is_some();
        Ctx {
            accept_any: false,
            skip_to: 0,
            cfg,
            start: Instant::now(),
            violations: vec![],
            foreign: 0,
            events: 0,
            units: 0,
            seen: BTreeMap::new(),
            samples: vec![],
            cases: vec![],
            sketch: if cfg!(miri) { vec![0; 1 << 10] } else { vec![0; (SKETCH_BITS / 64) as usize] },
            progress,
            allocs_watched: 0,
            digest: 0,
            blocks: vec![],
            notes: BTreeMap::new(),
            history: vec![],
            keep_history,
        }
    }
    /// A context for one thread of several: no bookkeeping of its own on disk.
    pub fn slim(cfg: Cfg) -> Self {
        let mut c = Ctx::new(cfg);
        c.sketch = vec![];
        c
    }
    pub fn absorb(&mut self, o: Ctx) {
        self.violations.extend(o.violations);
        self.foreign += o.foreign;
        self.events += o.events;
        self.allocs_watched += o.allocs_watched;
        for (k, n) in o.seen {
            *self.seen.entry(k).or_default() += n;
        }
        for k in o.cases {
            self.mark(k);
        }
        if self.samples.len() < 4 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
    fn mark(&mut self, h: u64) {
        let n = self.sketch.len() as u64 * 64;
        let b = mix(h) % n;
        self.sketch[(b / 64) as usize] |= 1 << (b % 64);
    }
    /// Starts unit `k` (a history, a sweep slice...); false if it is not for this worker.
    pub fn unit(&mut self, k: u64) -> bool {
        if let Some(o) = self.cfg.only {
            if o != k {
                return false;
            }
        } else if k % self.cfg.shards != self.cfg.shard {
            return false;
        }
        if self.violations.len() >= 3 || k < self.skip_to {
            return false;
        }
        if self.cfg.soft_secs > 0 && !cfg!(miri) && self.start.elapsed() > Duration::from_secs(self.cfg.soft_secs) {
            *self.notes.entry("units skipped at the soft time limit".into()).or_default() += 1;
            return false;
        }
        self.units += 1;
        self.history.clear();
        UNIT.store(k, Relaxed);
        crate::watch::log_level(k);
        crate::alloc::reseed(k);
        if let Some(f) = &mut self.progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(format!("{k:>20}\n").as_bytes(), 0);
        }
        true
    }
    pub fn tick(&mut self, name: &'static str, outcome: &'static str) {
        self.events += 1;
        *self.seen.entry((name, outcome)).or_default() += 1;
    }
    pub fn note(&mut self, what: &str, n: u64) {
        *self.notes.entry(what.into()).or_default() += n;
    }
    /// Registers a case in the distinct-case sketch.
    pub fn case<T: Hash>(&mut self, t: &T) {
        if cfg!(miri) {
            return;
        }
        let mut h = crate::subj::Fnv::default();
        t.hash(&mut h);
        if self.sketch.is_empty() {
            self.cases.push(h.finish());
        } else {
            self.mark(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
    /// Records a finding against `props`. True if it counts for this run.
    pub fn finding(&mut self, props: &[&str], what: String) -> bool {
        if !self.accept_any && !props.contains(&self.cfg.prop.as_str()) {
            self.foreign += 1;
            if self.foreign <= 3 {
                eprintln!("[not {}] {:?}: {}", self.cfg.prop, props, what);
            }
            return false;
        }
        let unit = UNIT.load(Relaxed);
        let hist = if self.keep_history {
            format!(",\"history\":[{}]", self.history.iter().map(|h| esc(h)).collect::<Vec<_>>().join(","))
        } else {
            String::new()
        };
        let line = format!(
            "{{\"kind\":\"violation\",\"property\":{},\"mode\":{},\"unit\":{},\"what\":{}{}}}",
            esc(&self.cfg.prop),
            esc(&self.cfg.mode),
            unit,
            esc(&what),
            hist
        );
        println!("{line}");
        let _ = std::io::stdout().flush();
        self.violations.push(line);
        true
    }
    pub fn remember(&mut self, f: impl FnOnce() -> String) {
        if self.keep_history {
            let s = f();
            self.history.push(s);
        }
    }
    pub fn finish(self) -> i32 {
        let mut seen = String::new();
        for ((a, b), n) in &self.seen {
            if !seen.is_empty() {
                seen.push(',');
            }
            let _ = write!(seen, "{}:{}", esc(&format!("{a}/{b}")), n);
        }
        let mut notes = String::new();
        for (a, n) in &self.notes {
            if !notes.is_empty() {
                notes.push(',');
            }
            let _ = write!(notes, "{}:{}", esc(a), n);
        }
        let bits: u64 = self.sketch.iter().map(|w| w.count_ones() as u64).sum();
        if let Some(p) = &self.cfg.sketch {
            let mut v = Vec::with_capacity(self.sketch.len() * 8);
            for w in &self.sketch {
                v.extend_from_slice(&w.to_le_bytes());
            }
            std::fs::write(p, v).expect("sketch file");
        }
        println!(
            "{{\"kind\":\"done\",\"mode\":{},\"events\":{},\"units\":{},\"distinct\":{},\"foreign\":{},\"library_calls\":{},\"allocs\":{},\"violations\":{},\"digest\":\"{:016x}\",\"blocks\":[{}],\"seen\":{{{}}},\"notes\":{{{}}},\"samples\":[{}]}}",
            esc(&self.cfg.mode),
            self.events,
            self.units,
            bits,
            self.foreign,
            alloc::OPS.load(Relaxed),
            self.allocs_watched,
            self.violations.len(),
            self.digest,
            self.blocks.iter().map(|b| format!("\"{b:016x}\"")).collect::<Vec<_>>().join(","),
            seen,
            notes,
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
        );
        if self.violations.is_empty() {
            0
        } else {
            3
        }
    }
}

/// Nesting of `guarded`: panics outside it are the monitor's own.
pub static GUARDED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
/// Runs `f`, turning an unwind into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.fetch_add(1, Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.fetch_sub(1, Relaxed);
    match r {
        Ok(t) => Ok(t),
        Err(e) => {
            alloc::reset();
            let _ = alloc::take();
            Err(e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "<non-string panic>".into()))
        }
    }
}

pub fn is_index(v: &View) -> bool {
    !matches!(v, View::AsMutStr | View::AsMut | View::BorrowMut | View::DerefMut)
}

/// The properties an operation's outcome speaks about, besides the general ones.
fn families(op: &Op) -> &'static [&'static str] {
    match op {
        Op::TryFromUtf16(_) | Op::Utf16Trunc(_) | Op::Utf16Lossy(_) => &["C07"],
        Op::Drain(..) => &["C13"],
        Op::WriteStr(_) | Op::WriteChar(_) | Op::WriteFmt(..) | Op::WriteLit(_) => &["C11"],
        Op::Mutate(v, _) => {
            if is_index(v) {
                &["C12"]
            } else {
                &["C20"]
            }
        }
        Op::Retain(_) => &["C19"],
        _ => &[],
    }
}

pub fn clip(s: &str) -> String {
    if s.len() <= 400 {
        format!("{s:?}")
    } else {
        format!("{:?}...({} bytes)", model::floor(s, 300), s.len())
    }
}

/// Performs `op` on `s`, whose text is `text`; judges the outcome. On success
/// `text` becomes the new text and true is returned; after a finding the
/// subject should be abandoned.
pub fn step(c: &mut Ctx, s: &mut dyn Subject, text: &mut String, op: &Op) -> bool {
    let cap = s.cap();
    let _ = alloc::take();
    c.remember(|| op.show());
    let exp = model::spec(op, text, cap);
    let got = guarded(|| s.apply(op));
    let allocs = alloc::take();
    let obs = match got {
        Ok(o) => o,
        Err(m) => Obs::Panic(match op {
            Op::Mutate(v, _) if is_index(v) && matches!(exp.allowed[0].0, Obs::Panic(_)) => {
                let _ = m;
                model::INDEX_PANIC.into()
            }
            _ => m,
        }),
    };
    let outcome = match (&exp.class, &obs) {
        (_, Obs::Panic(_)) => "panics",
        (Class::Fit, _) => "fits",
        (Class::Cut, _) => "cut",
        (Class::Refuse, _) => "refused",
    };
    c.tick(op.name(), outcome);
    if !cfg!(miri) {
        const AT: [&str; 8] = ["0 mod 8", "1 mod 8", "2 mod 8", "3 mod 8", "4 mod 8", "5 mod 8", "6 mod 8", "7 mod 8"];
        let at = std::ptr::from_ref(s.any()).cast::<u8>() as usize % 8;
        *c.seen.entry(("string at an address", AT[at])).or_default() += 1;
    }
    let trivial = text.is_empty() && matches!(op, Op::Pop | Op::Clear | Op::Trim | Op::New | Op::Default | Op::CloneSwap);
    // (the interpreter is four orders of magnitude slower: no bookkeeping there)
    if !trivial && !cfg!(miri) {
        let mut h = crate::subj::Fnv::default();
        (cap, s.is_cache(), text.as_str()).hash(&mut h);
        hash_op(op, &mut h);
        let k = h.finish();
        c.case(&k);
    }
    if c.samples.len() < 4 && text.len() > 2 && c.events % 97 == 13 {
        let t = format!("capacity {cap}, text {}: {} -> {:?} ({outcome})", clip(text), op.show(), obs);
        c.samples.push(t);
    }
    let describe = |obs: &Obs, after: &str| {
        format!(
            "{}capacity {cap}, text {} : {} -> {} and text {}; allowed: {}",
            if s.is_cache() { "CacheString, " } else { "" },
            clip(text),
            op.show(),
            clip(&format!("{obs:?}")),
            after,
            exp.allowed.iter().map(|(o, t)| format!("{} with {}", clip(&format!("{o:?}")), clip(t))).collect::<Vec<_>>().join(" or ")
        )
    };
    let mut good = true;
    if allocs != 0 && !matches!(obs, Obs::Panic(_)) {
        let w = format!("{} made {allocs} allocator call(s) on {}", op.show(), clip(text));
        c.finding(&["C09"], w);
        good = false;
    }
    c.allocs_watched += 1;
    let expect_panic = matches!(exp.allowed[0].0, Obs::Panic(_));
    if let Obs::Panic(_) = &obs {
        if !expect_panic {
            let mut tags: Vec<&str> = vec!["C08"];
            tags.extend(families(op));
            tags.extend(match exp.class {
                Class::Fit => &["C03"][..],
                Class::Cut => &["C06"][..],
                Class::Refuse => &["C05"][..],
            });
            let w = describe(&obs, "(unwound)");
            c.finding(&tags, w);
            good = false;
        }
    }
    // the state must be readable and well formed whatever happened
    let st = guarded(|| s.state());
    let st_allocs = alloc::take();
    let after = match st {
        Err(m) => {
            let w = format!("reading the text panicked ({m}) after {}", describe(&obs, "?"));
            c.finding(&["C01", "C02", "C08", "C03", "C20"], w);
            return false;
        }
        Ok(Err(m)) => {
            let w = format!("{m} after {}", describe(&obs, "?"));
            let mut tags = vec!["C01", "C02"];
            if m.contains("shows") || m.contains("disagrees") {
                tags.push("C20");
            }
            // a text that is not even well formed is not the expected one either
            tags.extend(match exp.class {
                Class::Fit => &["C03"][..],
                Class::Cut => &["C06"][..],
                Class::Refuse => &["C04"][..],
            });
            tags.extend(families(op));
            c.finding(&tags, w);
            return false;
        }
        Ok(Ok(t)) => t,
    };
    if st_allocs != 0 {
        let w = format!("reading the text made {st_allocs} allocator call(s) after {}", op.show());
        c.finding(&["C09"], w);
        good = false;
    }
    if !good {
        return false;
    }
    if exp.allowed.iter().any(|(o, t)| *o == obs && *t == after) {
        *text = after;
        return true;
    }
    // wrong: which promises does it break?
    let mut tags: Vec<&str> = families(op).to_vec();
    let err_expected = exp.class == Class::Refuse;
    if err_expected != obs.is_err() {
        tags.push("C05");
        tags.extend(match exp.class {
            Class::Fit => &["C03"][..],
            Class::Cut => &["C06"][..],
            Class::Refuse => &[][..],
        });
    }
    if obs.is_err() {
        if !exp.allowed.iter().any(|(o, _)| *o == obs) && err_expected {
            tags.push("C05");
        }
        if after != *text && !matches!(op, Op::WriteFmt(..)) {
            tags.push("C04");
        }
    } else if !err_expected {
        tags.push(if exp.class == Class::Cut { "C06" } else { "C03" });
        if let Op::ExtendChars(_) | Op::ExtendCharRefs(_) | Op::ExtendStrs(_) = op {
            tags.push("C19");
        }
    }
    if let Obs::Text(m) = &obs {
        if crate::subj::NOT_TEXT.iter().any(|x| m.contains(x)) && !exp.allowed.iter().any(|(o, _)| *o == obs) {
            tags.extend(["C01", "C02"]);
        }
    }
    let w = describe(&obs, &clip(&after));
    c.finding(&tags, w);
    false
}

pub fn hash_op(op: &Op, h: &mut impl Hasher) {
    // Debug text identifies an operation and its arguments; long arguments are hashed directly.
    std::mem::discriminant(op).hash(h);
    match op {
        Op::TryFromStr(s)
        | Op::FromStrTrunc(s)
        | Op::FromRefStr(s)
        | Op::Parse(s)
        | Op::TryFromChars(s)
        | Op::FromCharsTrunc(s)
        | Op::CollectChars(s)
        | Op::TryPushStr(s)
        | Op::PushStrTrunc(s)
        | Op::Add(s)
        | Op::WriteStr(s)
        | Op::ExtendChars(s)
        | Op::ExtendCharRefs(s) => s.hash(h),
        Op::TryFromIter(v) | Op::FromIterTrunc(v) | Op::CollectStrs(v) | Op::ExtendStrs(v) => v.hash(h),
        Op::TryFromUtf16(v) | Op::Utf16Trunc(v) | Op::Utf16Lossy(v) => v.hash(h),
        Op::TryPush(c) | Op::WriteChar(c) => c.hash(h),
        Op::Truncate(i) | Op::Remove(i) | Op::SplitOff(i) => i.hash(h),
        Op::TryInsert(i, c) => (i, c).hash(h),
        Op::TryInsertStr(i, s) | Op::InsertStrTrunc(i, s) => (i, s).hash(h),
        Op::Drain(r, p, n) => (r, p, n).hash(h),
        Op::ReplaceRange(r, s) => (r, s).hash(h),
        Op::WriteFmt(a, b, w, n) => (a, b, w, n).hash(h),
        Op::WriteLit(k) => k.hash(h),
        Op::Retain(_) | Op::Mutate(..) => format!("{op:?}").hash(h),
        Op::CloneInto(x) => x.hash(h),
        Op::New | Op::Default | Op::Pop | Op::Trim | Op::Clear | Op::CloneSwap => {}
    }
}

/// Fresh subject for history `k`.
pub fn subject_for(r: &mut crate::rng::Rng) -> Box<dyn Subject> {
    let caps = crate::subj::CAPS;
    if r.chance(1, 12) {
        return crate::subj::make_cache();
    }
    if cfg!(miri) {
        return crate::subj::make(*r.pick(&[1, 2, 3, 4, 5, 7, 8, 8, 16, 24, 32, 63, 255]));
    }
    let n = match r.below(4) {
        0 => *r.pick(&[1, 2, 3, 4, 5, 7, 8]),
        1 => *r.pick(&[23, 24, 31, 32, 63, 64, 127, 128, 129, 200, 253, 254, 255]),
        _ => *r.pick(caps),
    };
    crate::subj::make(n)
}

/// Random histories.
pub fn histories(c: &mut Ctx, focus: &[gen::Focus], ops: usize) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = crate::rng::Rng::new(mix(c.cfg.seed) ^ mix(k.wrapping_mul(0x10001)));
        let mut s = subject_for(&mut r);
        let mut text = String::new();
        let f = *r.pick(focus);
        let n = 4 + r.below(ops);
        for _ in 0..n {
            let op = gen::op(&mut r, f, &text, s.cap());
            if !step(c, &mut *s, &mut text, &op) {
                break;
            }
        }
    }
}
