//! Arguments longer than 2^16, 2^24, 2^31 and 2^32 bytes or units: lengths that wrap in any integer narrower
//! than usize. The memory is zeroed pages that are never written to, so it costs address space only.
use crate::alloc;
use crate::api::Api;
use crate::engine::*;
use crate::gen;
use crate::model::floor;
use crate::rng::Rng;
use crate::subj::{check_text, Slot};
use crate::{for_type, traits::seeded};
use std::alloc::Layout;
use std::time::Instant;

const HEAD: usize = 1024;
const ROOM: usize = (1 << 32) + (1 << 16) + 4096;

/// Zeroed memory with a head that can be written.
struct Zeros<T: 'static> {
    ptr: *mut T,
}
impl<T: Copy + Default> Zeros<T> {
    fn new() -> Option<Self> {
        let ptr = unsafe { std::alloc::alloc_zeroed(Layout::array::<T>(ROOM).unwrap()) } as *mut T;
        (!ptr.is_null()).then_some(Zeros { ptr })
    }
    fn with(&mut self, head: &[T], len: usize) -> &[T] {
        assert!(head.len() <= HEAD && head.len() <= len && len <= ROOM);
        unsafe {
            let h = std::slice::from_raw_parts_mut(self.ptr, HEAD);
            h.fill(T::default());
            h[..head.len()].copy_from_slice(head);
            std::slice::from_raw_parts(self.ptr, len)
        }
    }
}

pub fn run(c: &mut Ctx) {
    let (Some(mut bytes), Some(mut units)) = (Zeros::<u8>::new(), Zeros::<u16>::new()) else {
        c.note("no address space for huge arguments", 1);
        c.tick("huge arguments", "left out");
        return;
    };
    let t = Instant::now();
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        // an implementation may look at all of its argument; there is no point in insisting
        if t.elapsed().as_secs() > 60 {
            c.note("units left out: time", 1);
            continue;
        }
        let mut r = seeded(c, 0x4063, k);
        let which = r.below(1 << 20);
        for_type!(which, one(c, &mut r, &mut bytes, &mut units));
    }
}

fn one<T: Api>(c: &mut Ctx, r: &mut Rng, bytes: &mut Zeros<u8>, units: &mut Zeros<u16>) {
    let cap = T::cap();
    let l = match r.below(4) {
        0 => cap,
        1 => 0,
        _ => r.below(cap + 1),
    };
    let before = gen::text(r, l, true);
    let base = *r.pick(&[1usize << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 32, (1 << 32) + (1 << 16)]);
    let len = base
        + match r.below(5) {
            0 => 0,
            1 => cap - before.len(),
            2 => before.len(),
            3 => r.below(cap + 1),
            _ => r.below(600),
        };
    let head = if r.chance(1, 3) { before.clone() } else { gen::text(r, 300, true) };
    let text = unsafe { std::str::from_utf8_unchecked(bytes.with(head.as_bytes(), len)) };
    let i = gen::idx(r, &before, cap);
    let j = gen::idx(r, &before, cap);
    let start = |s: &str, room: usize| floor(s, room).to_owned();
    let inside = |i: usize| i <= before.len() && before.is_char_boundary(i);
    let free = cap - before.len();
    let head16: Vec<u16> = head.encode_utf16().collect();
    let wide = units.with(&head16, len);
    let kind = r.below(20);
    // (accepted, text afterwards, tags)
    let appended = format!("{before}{}", start(text, free));
    let (ok, want, tags): (bool, String, &[&str]) = match kind {
        0 | 1 | 2 => (false, before.clone(), &["C05", "C04", "C03"]),
        3 | 4 | 5 => (true, start(text, cap), &["C06"]),
        6 => (false, before.clone(), &["C05", "C04"]),
        7 | 8 | 9 => (true, appended, &["C06", "C03"]),
        10 => (false, before.clone(), &["C05", "C04"]),
        11 => {
            let mut t = before.clone();
            if inside(i) {
                t.insert_str(i, &start(text, free));
            }
            (inside(i), t, &["C06", "C05"])
        }
        12 => (false, before.clone(), &["C05", "C04"]),
        13 => (false, before.clone(), &["C11", "C04"]),
        14 => (false, before.clone(), &["C10"]),
        15 => (false, before.clone(), &["C10"]),
        16 => (false, before.clone(), &["C07", "C05"]),
        17 => (true, start(text, cap), &["C07"]),
        18 => (true, start(text, cap), &["C07"]),
        _ => (false, before.clone(), &["C05"]),
    };
    const NAMES: [&str; 20] = [
        "try_from_str", "FromStr", "try_from_iterator", "from_str_truncate", "From<&str>", "from_iterator_truncate", "try_push_str",
        "push_str_truncate", "+", "Extend<&str>", "try_insert_str", "insert_str_truncate", "replace_range", "write_str", "== str", "== &str",
        "try_from_utf16", "from_utf16_truncate", "from_utf16_lossy_truncate", "try_from_iterator of halves",
    ];
    let mut s = Slot::new(T::t_new());
    if s.val.t_try_push_str(&before).is_err() {
        return;
    }
    let _ = alloc::take();
    let got = guarded(|| {
        let v = &mut s.val;
        let made = |v: &mut T, x: T| {
            *v = x;
            true
        };
        match kind {
            0 => T::t_try_from_str(text).is_ok(),
            1 => text.parse::<T>().is_ok(),
            2 => T::t_try_from_iterator([text]).is_ok(),
            3 => made(v, T::t_from_str_truncate(text)),
            4 => made(v, T::from(text)),
            5 => made(v, T::t_from_iterator_truncate([text, "x"])),
            6 => v.t_try_push_str(text).is_ok(),
            7 => {
                v.t_push_str_truncate(text);
                true
            }
            8 => made(v, *v + text),
            9 => {
                v.extend([text]);
                true
            }
            10 => v.t_try_insert_str(i, text).is_ok(),
            11 => v.t_insert_str_truncate(i, text).is_ok(),
            12 => v.t_replace_range(i..j, text).is_ok(),
            13 => v.write_str(text).is_ok(),
            14 => *v == *text,
            15 => *v == text,
            16 => T::t_try_from_utf16(wide).is_ok(),
            17 => T::t_from_utf16_truncate(wide).map(|x| made(v, x)).is_ok(),
            18 => made(v, T::t_from_utf16_lossy_truncate(wide)),
            _ => T::t_try_from_iterator([&before[..], &text[..]]).is_ok(),
        }
    });
    let allocs = alloc::take();
    let after = guarded(|| if s.intact() { check_text(&s.val) } else { Err("memory next to the string was overwritten".into()) }).unwrap_or_else(Err);
    c.tick(NAMES[kind], if base < 1 << 32 { "long" } else { "above 2^32" });
    c.case(&(cap, &before, kind, len, i, j, &head));
    let about = || format!("{} holding {before:?}: {} of a text of {len} bytes (units) that starts with {head:?} and goes on with NULs (indices {i}, {j})", T::NAME, NAMES[kind]);
    match got {
        Err(m) => {
            c.finding(&["C08", "C05"], format!("{}: {m}", about()));
        }
        Ok(g) if g != ok || after.as_ref() != Ok(&want) => {
            let mut tags = tags.to_vec();
            if after.is_err() {
                tags.extend(["C01", "C02"]);
            }
            c.finding(&tags, format!("{}: {} and text {after:?}; expected {} and {want:?}", about(), g, ok));
        }
        Ok(_) if allocs > 0 => {
            c.finding(&["C09"], format!("{}: {allocs} allocator calls", about()));
        }
        _ => c.sample(about),
    }
}
