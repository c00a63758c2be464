//! Several strings at once: interleaved, moved around in memory, on several threads.
use crate::alloc;
use crate::engine::*;
use crate::gen;
use crate::rng::{mix, Rng};
use crate::subj::*;
use std::sync::Barrier;

/// Interleaved histories of several strings. Every string keeps its own text.
pub fn herd(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x6e4d) ^ mix(k));
        let n = 2 + r.below(4);
        let same = r.chance(1, 2);
        let mut all: Vec<(Box<dyn Subject>, String)> = vec![];
        for i in 0..n {
            let s = if same && i > 0 {
                if all[0].0.is_cache() { make_cache() } else { make(all[0].0.cap()) }
            } else {
                subject_for(&mut r)
            };
            all.push((s, String::new()));
        }
        let steps = if cfg!(miri) { 12 } else { 30 + r.below(60) };
        'steps: for _ in 0..steps {
            let j = r.below(n);
            match r.below(12) {
                // moved to another place; the old place is given back
                0 => match copied(c, &*all[j].0, r.below(WAYS)) {
                    Some(d) => all[j].0 = d,
                    None => break 'steps,
                },
                // a copy of one string takes over the role of another
                1 if same => {
                    let i = r.below(n);
                    let Some(d) = copied(c, &*all[i].0, r.below(WAYS)) else { break 'steps };
                    all[j] = (d, all[i].1.clone());
                }
                2 => {
                    let i = r.below(n);
                    all.swap(i, j);
                }
                _ => {
                    let (s, t) = &mut all[j];
                    // arguments are often what another string holds
                    let op = gen::op(&mut r, gen::Focus::Any, t, s.cap());
                    if !step(c, &mut **s, t, &op) {
                        break 'steps;
                    }
                }
            }
            for (i, (s, t)) in all.iter().enumerate() {
                let now = guarded(|| s.state()).unwrap_or_else(Err);
                if now.as_ref() != Ok(t) {
                    c.finding(
                        &["C21", "C02", "C03", "C20"],
                        format!("string {i} (capacity {}) held {t:?} and shows {now:?} after an operation on string {j} (capacity {})", s.cap(), all[j].0.cap()),
                    );
                    break 'steps;
                }
            }
            c.tick("bystanders", "unchanged");
            let (i, h) = (r.below(n), r.below(n));
            if same && i != h {
                let got = guarded(|| all[i].0.cmp_with(&*all[h].0));
                let want = crate::traits::cmp_expected(&all[i].1, &all[h].1);
                if got.as_ref() != Ok(&want) {
                    c.finding(&["C10"], format!("{:?} vs {:?}: {got:?}, but the texts give {want:?}", all[i].1, all[h].1));
                    break 'steps;
                }
            }
        }
    }
}

/// A copy made in one of many ways, which show the same text.
fn copied(c: &mut Ctx, s: &dyn Subject, way: usize) -> Option<Box<dyn Subject>> {
    const NAMES: [&str; WAYS] =
        ["copy", "clone", "clone_from", "array", "cloned vector", "replaced, swapped, taken", "Rc::make_mut", "original edited since", "Option::cloned", "repeat and dedup"];
    c.tick("copies", NAMES[way]);
    let _ = alloc::take();
    let got = guarded(|| s.dup_by(way));
    let n = alloc::take();
    if n > 0 && matches!(got, Ok(Ok(_))) {
        c.finding(&["C09"], format!("copying ({}) made {n} allocator calls", NAMES[way]));
        return None;
    }
    match got {
        Ok(Ok(d)) => Some(d),
        o => {
            let what = format!("capacity {}, {:?}: {}: {:?}", s.cap(), s.state(), NAMES[way], o.map(|r| r.err()));
            c.finding(&["C21", "C03"], what);
            None
        }
    }
}

/// Originals and copies of them, edited in turn; nothing shows anywhere else.
pub fn values(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x7a1) ^ mix(k));
        let mut s = subject_for(&mut r);
        let mut text = String::new();
        let mut fine = true;
        for _ in 0..1 + r.below(6) {
            let op = gen::op(&mut r, gen::Focus::Any, &text, s.cap());
            fine = fine && step(c, &mut *s, &mut text, &op);
        }
        if !fine {
            continue;
        }
        let mut all = vec![(s, text)];
        for i in 0..if cfg!(miri) { 4 } else { 10 } {
            let from = r.below(all.len());
            let Some(d) = copied(c, &*all[from].0, (i + k as usize) % WAYS) else { break };
            let t = all[from].1.clone();
            all.push((d, t));
            for _ in 0..1 + r.below(3) {
                let j = r.below(all.len());
                let cap = all[j].0.cap();
                let (s, t) = &mut all[j];
                let op = gen::op(&mut r, gen::Focus::Any, t, cap);
                fine = fine && step(c, &mut **s, t, &op);
            }
            if !fine {
                break;
            }
            for (i, (s, t)) in all.iter().enumerate() {
                let now = guarded(|| s.state()).unwrap_or_else(Err);
                if now.as_ref() != Ok(t) {
                    c.finding(&["C21", "C03"], format!("copy {i} (capacity {}) held {t:?} and shows {now:?} after another one was edited", s.cap()));
                    fine = false;
                    break;
                }
            }
            if !fine {
                break;
            }
            c.tick("bystanders", "unchanged");
        }
    }
}

struct Shared<'a>(&'a dyn Subject);
// SAFETY: the strings are plain bytes; that reading them from several threads is
// fine is what is being observed
unsafe impl Sync for Shared<'_> {}
unsafe impl Send for Shared<'_> {}

/// The same kind of history on several threads at once, next to a string all of them read.
pub fn threads(c: &mut Ctx) {
    let width = if cfg!(miri) { 2 } else { 4 };
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x7479) ^ mix(k));
        let mut common = subject_for(&mut r);
        let mut held = String::new();
        for _ in 0..3 {
            let op = gen::op(&mut r, gen::Focus::Any, &held, common.cap());
            if !step(c, &mut *common, &mut held, &op) {
                return;
            }
        }
        let shared = Shared(&*common);
        let shared = &shared;
        let gate = Barrier::new(width);
        let (gate, held) = (&gate, &held);
        let subs: Vec<Ctx> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..width)
                .map(|w| {
                    let mut cfg = c.cfg.clone();
                    (cfg.sketch, cfg.progress, cfg.trace) = (None, None, None);
                    let accept = c.accept_any;
                    let seed = r.u64();
                    sc.spawn(move || {
                        let mut c = Ctx::slim(cfg);
                        c.accept_any = accept;
                        let mut r = Rng::new(seed);
                        let mut own = subject_for(&mut r);
                        let mut text = String::new();
                        gate.wait();
                        let steps = if cfg!(miri) { 8 } else { 60 };
                        for i in 0..steps {
                            let op = gen::op(&mut r, gen::Focus::Any, &text, own.cap());
                            if !step(&mut c, &mut *own, &mut text, &op) {
                                break;
                            }
                            if i % 4 == 0 {
                                let s = shared;
                                let seen = guarded(|| {
                                    (s.0.state(), s.0.own_hash(), s.0.display().to_string(), s.0.cmp_with(&*s.0.dup()).eq)
                                });
                                let want = (Ok(held.clone()), fnv(held.as_str()), held.clone(), true);
                                c.tick("shared reads", "seen");
                                if seen.as_ref() != Ok(&want) {
                                    c.finding(&["C21", "C02", "C20"], format!("thread {w} sees {seen:?} in a string holding {held:?} that nobody writes to"));
                                    break;
                                }
                            }
                        }
                        c
                    })
                })
                .collect();
            hs.into_iter().filter_map(|h| h.join().ok()).collect()
        });
        if subs.len() < width {
            panic!("a monitor thread panicked");
        }
        for s in subs {
            c.absorb(s);
        }
    }
}
