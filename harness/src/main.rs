mod alloc;
mod api;
mod callbacks;
#[cfg(feature = "as-diesel")]
mod rawsql;
#[cfg(feature = "as-diesel")]
mod db;
mod digest;
mod engine;
mod gen;
mod herd;
#[cfg(not(miri))]
mod huge;
mod model;
mod op;
mod rng;
#[cfg(feature = "as-serde")]
mod ser;
mod subj;
mod sweeps;
mod traits;
mod watch;

use engine::*;

#[cfg(not(miri))]
#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    std::panic::set_hook(Box::new(|p| {
        if GUARDED.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            let place = match p.location().map_or("src", |l| l.file()) {
                f if f.starts_with("src") => Place::Monitor,
                f if f.contains("/library/") || f.contains("/rustc/") => Place::Std,
                _ => Place::Library,
            };
            let what = format!("the monitor itself panicked in unit {}: {p}", UNIT.load(std::sync::atomic::Ordering::Relaxed));
            eprintln!("{what}");
            *CHOKED.lock().unwrap() = Some((place, what));
        }
    }));
    let mut cfg = Cfg {
        prop: "C01".into(),
        mode: "hist".into(),
        seed: 1,
        shard: 0,
        shards: 1,
        count: 100,
        only: None,
        soft_secs: 0,
        big: false,
        sketch: None,
        progress: None,
        trace: None,
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--prop" => cfg.prop = v(),
            "--mode" => cfg.mode = v(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--shard" => cfg.shard = v().parse().unwrap(),
            "--shards" => cfg.shards = v().parse().unwrap(),
            "--count" => cfg.count = v().parse().unwrap(),
            "--only" => cfg.only = Some(v().parse().unwrap()),
            "--soft" => cfg.soft_secs = v().parse().unwrap(),
            "--big" => cfg.big = true,
            "--sketch" => cfg.sketch = Some(v()),
            "--progress" => cfg.progress = Some(v()),
            "--trace" => cfg.trace = Some(v()),
            _ => panic!("unknown argument {k}"),
        }
    }
    watch::logger();
    let mut c = Ctx::new(cfg.clone());
    watch::dog(cfg.prop.clone(), cfg.mode.clone());
    // a promise about "everything" is broken by any finding
    c.accept_any = matches!(cfg.prop.as_str(), "C15");
    // A monitor that chokes on what the library returned must not hide what it would
    // have seen afterwards: the rest of the workload still runs.
    let mut choked = vec![];
    loop {
        let run = std::panic::AssertUnwindSafe(|| run(&mut c));
        if std::panic::catch_unwind(run).is_ok() {
            break;
        }
        choked.extend(CHOKED.lock().unwrap().take());
        c.skip_to = UNIT.load(std::sync::atomic::Ordering::Relaxed) + 1;
        if choked.len() >= 5 {
            break;
        }
    }
    if c.violations.is_empty() {
        // std's own code choking on a value it was handed means that the value was never a
        // valid str or char; a panic of the library where none can be expected breaks
        // whatever is being watched; anything else is a defect of the monitor
        if let Some((_, what)) = choked.iter().find(|x| x.0 == Place::Library) {
            c.accept_any = true;
            c.finding(&["C08"], what.replace("the monitor itself panicked", "the library panicked under the monitor"));
        } else if let Some((_, what)) = choked.iter().find(|x| x.0 == Place::Std) {
            c.finding(&["C01", "C02"], format!("std could not process what the library returned: {what}"));
        }
        if c.violations.is_empty() && !choked.is_empty() {
            std::process::exit(101);
        }
    }
    let code = c.finish();
    std::process::exit(code);
}

#[derive(PartialEq)]
enum Place {
    Monitor,
    Std,
    Library,
}
static CHOKED: std::sync::Mutex<Option<(Place, String)>> = std::sync::Mutex::new(None);

fn run(c: &mut Ctx) {
    match c.cfg.mode.clone().as_str() {
        "hist" => histories(c, gen::ALL_FOCUS, 60),
        "hist-construct" => histories(c, &[gen::Focus::Construct], 30),
        "hist-utf16" => histories(c, &[gen::Focus::Utf16], 30),
        "hist-append" => histories(c, &[gen::Focus::Append, gen::Focus::Extend], 60),
        "hist-insert" => histories(c, &[gen::Focus::Insert, gen::Focus::Replace], 60),
        "hist-delete" => histories(c, &[gen::Focus::Delete], 60),
        "hist-drain" => histories(c, &[gen::Focus::Drain], 60),
        "hist-fmt" => histories(c, &[gen::Focus::Fmt], 40),
        "hist-view" => histories(c, &[gen::Focus::View], 60),
        "geom" => sweeps::geom(c),
        "brim" => sweeps::brim(c),
        "exh" => sweeps::exhaustive(c),
        "chars" => sweeps::chars(c),
        "utf16" => sweeps::utf16(c),
        "cmp" => traits::cmp(c),
        "glyphs-fmt" => traits::glyphs(c, traits::Glyph::Format),
        "glyphs-cmp" => traits::glyphs(c, traits::Glyph::Compare),
        "glyphs-index" => traits::glyphs(c, traits::Glyph::Index),
        "fmt" => traits::format(c),
        "index" => traits::index(c),
        "views" => traits::views(c),
        "drains" => traits::drains(c),
        "cache" => traits::cache(c),
        "herd" => herd::herd(c),
        "values" => herd::values(c),
        "undisturbed" => callbacks::undisturbed(c),
        "threads" => herd::threads(c),
        #[cfg(not(miri))]
        "huge" => huge::run(c),
        "layout" => traits::layout(c),
        "errors" => traits::errors(c),
        "callbacks" => callbacks::callbacks(c),
        "evil" => callbacks::evil(c),
        "digest" => digest::run(c),
        #[cfg(feature = "as-serde")]
        "serde" => ser::run(c),
        #[cfg(feature = "as-diesel")]
        "diesel" => db::run(c),
        #[cfg(feature = "as-diesel")]
        "rawsql" => rawsql::run(c),
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2);
        }
    }
}
