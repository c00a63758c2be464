//! Results of a fixed workload, digested block by block, so that builds of the
//! library in different configurations can be compared (C18).
use crate::engine::*;
use crate::op::*;
use crate::rng::{mix, Rng};
use crate::subj::Fnv;
use crate::gen;
use std::hash::Hasher;
use std::io::Write;
use std::ops::Bound::*;

pub fn run(c: &mut Ctx) {
    let mut trace = c.cfg.trace.clone().map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("trace file")));
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0xd16) ^ mix(k));
        let mut h = Fnv::default();
        if k == 0 {
            let line = guarded(fixed).unwrap_or_else(|_| "panic".into());
            h.write(line.as_bytes());
            c.tick("errors and layout", "seen");
            if let Some(t) = &mut trace {
                let _ = writeln!(t, "errors and layout -> {line}");
            }
        }
        // one block is several histories
        for _ in 0..40 {
            let mut s = subject_for(&mut r);
            let cap = s.cap();
            let mut text = String::new();
            for _ in 0..(3 + r.below(20)) {
                let op = gen::op(&mut r, gen::Focus::Any, &text, cap);
                let got = guarded(|| s.apply(&op));
                let outcome = match &got {
                    Ok(o) if o.is_err() => "refused",
                    Ok(_) => "done",
                    Err(_) => "panics",
                };
                c.tick(op.name(), outcome);
                c.case(&(cap, &text, op.show()));
                let seen = match &got {
                    Ok(o) => format!("{o:?}"),
                    Err(_) => "panic".to_owned(),
                };
                let state = guarded(|| s.state());
                let after = match &state {
                    Ok(Ok(t)) => t.clone(),
                    Ok(Err(e)) => format!("<broken: {e}>"),
                    Err(_) => "<unreadable>".into(),
                };
                let mut line = format!("{seen}|{after}|{:?}|", guarded(|| s.own_hash()).ok());
                if r.chance(1, 6) {
                    let v = gen::view(&mut r, &after);
                    line.push_str(&format!("{:?}|", guarded(|| s.index(v)).unwrap_or(Obs::Panic("".into()))));
                    line.push_str(&format!("{:>9.3}|{:?}", guarded(|| s.display().to_string()).unwrap_or_default(), guarded(|| format!("{:?}", s.debug())).ok()));
                }
                if r.chance(1, 6) {
                    // against another string of the same type, whole and drained, and against str
                    let other = if r.chance(1, 2) { gen::arg(&mut r, cap, 0) } else { text.clone() };
                    let mut o = s.dup();
                    let _ = guarded(|| o.apply(&Op::FromStrTrunc(other.clone())));
                    let (i, j) = (gen::idx(&mut r, &after, cap), gen::idx(&mut r, &other, cap));
                    let b = (
                        guarded(|| s.cmp_with(&*o)).ok(),
                        guarded(|| s.vs_str(&other)).ok(),
                        guarded(|| s.drain_vs((Included(i), Unbounded), &*o, (Unbounded, Excluded(j)))).ok(),
                    );
                    line.push_str(&format!("{b:?}|"));
                    let (w, p) = (r.below(cap + 9), r.below(cap + 2));
                    line.push_str(&format!("{:?}", guarded(|| crate::traits::renderings(s.display(), w, p)).ok()));
                }
                h.write(line.as_bytes());
                if let Some(t) = &mut trace {
                    let _ = writeln!(t, "capacity {cap}, text {} : {} -> {}", clip(&text), op.show(), clip(&line));
                }
                match state {
                    Ok(Ok(t)) => text = t,
                    _ => break,
                }
            }
        }
        c.blocks.push(h.finish());
    }
    c.sample(|| "one block = 40 histories of 3 to 22 operations; outcomes, texts, hashes and renderings go into its digest".into());
    if let Some(mut t) = trace {
        let _ = t.flush();
    }
}

/// What does not depend on any input.
fn fixed() -> String {
    use arraystring::error::{OutOfBounds, Utf16, Utf8};
    use arraystring::{prelude::*, Error};
    use std::mem::{align_of, size_of};
    let mut o = String::new();
    let all: [&dyn Fn() -> String; 6] = [
        &|| format!("{} {:?} {:?}", Error::Utf8, Error::Utf8, crate::subj::fnv(&Error::Utf8)),
        &|| format!("{} {:?} {:?}", Error::Utf16, Error::Utf16, crate::subj::fnv(&Error::Utf16)),
        &|| format!("{} {:?} {:?}", Error::OutOfBounds, Error::OutOfBounds, crate::subj::fnv(&Error::OutOfBounds)),
        &|| format!("{} {:?} {:?}", Utf8, Utf8, Error::from(Utf8)),
        &|| format!("{} {:?} {:?}", Utf16, Utf16, Error::from(Utf16)),
        &|| format!("{} {:?} {:?}", OutOfBounds, OutOfBounds, Error::from(OutOfBounds)),
    ];
    for f in all {
        o.push_str(&f());
        o.push('|');
    }
    o.push_str(&format!(
        "{:?}",
        [
            size_of::<CacheString>(), align_of::<CacheString>(), CacheString::capacity(),
            size_of::<SmallString>(), align_of::<SmallString>(), SmallString::capacity(),
            size_of::<MaxString>(), align_of::<MaxString>(), MaxString::capacity(),
            size_of::<ArrayString<1>>(), size_of::<ArrayString<128>>(), size_of::<Drain<8>>(),
        ]
    ));
    o.push_str(&format!("{:?}{:?}", CacheString::new(), Drain::<8>::default()));
    o
}
