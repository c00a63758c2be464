//! Background monitors: operations that do not come back, and the log sink.
use crate::alloc::{IN_OP, OPS};
use crate::engine::{esc, UNIT};
use std::sync::atomic::Ordering::Relaxed;

/// CPU seconds one library call may take before it counts as hung. Nothing
/// the library does takes more than a few microseconds.
pub const HANG_CPU_SECS: f64 = 15.0;
/// With arguments of several GiB, reading all of one is slow but not a hang.
pub const HUGE_CPU_SECS: f64 = 150.0;

#[cfg(not(miri))]
fn cpu() -> f64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // 2 = CLOCK_PROCESS_CPUTIME_ID: time the process really ran, so that a
    // starved machine is not mistaken for a hang
    unsafe { clock_gettime(2, &mut t) };
    t.s as f64 + t.n as f64 / 1e9
}

/// Reports a call that has been running for too long and ends the process.
pub fn dog(prop: String, mode: String) {
    #[cfg(miri)]
    let _ = (prop, mode, HANG_CPU_SECS, HUGE_CPU_SECS, &IN_OP, &OPS, &UNIT, esc as fn(&str) -> String, Relaxed);
    #[cfg(not(miri))]
    std::thread::spawn(move || {
        let limit = if mode == "huge" { HUGE_CPU_SECS } else { HANG_CPU_SECS };
        let mut last = (OPS.load(Relaxed), cpu());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = OPS.load(Relaxed);
            if n != last.0 || IN_OP.load(Relaxed) == 0 {
                last = (n, cpu());
            } else if cpu() - last.1 > limit {
                println!(
                    "{{\"kind\":\"violation\",\"property\":{},\"mode\":{},\"unit\":{},\"hang\":true,\"what\":{}}}",
                    esc(&prop),
                    esc(&mode),
                    UNIT.load(Relaxed),
                    esc(&format!("a library call has not returned after {limit} s of CPU time"))
                );
                // no unwinding, no destructors: the worker thread is stuck
                std::process::exit(3);
            }
        }
    });
}

/// With the library's logging compiled in, every record is really formatted,
/// into a sink that neither allocates nor keeps anything.
pub fn logger() {
    #[cfg(feature = "as-logs")]
    {
        use std::fmt::Write;
        struct Sink(usize);
        impl Write for Sink {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                self.0 += s.len();
                Ok(())
            }
        }
        struct Null;
        impl log::Log for Null {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                let mut s = Sink(0);
                let _ = s.write_fmt(*r.args());
                RECORDS.fetch_add(1, Relaxed);
            }
            fn flush(&self) {}
        }
        static NULL: Null = Null;
        if log::set_logger(&NULL).is_ok() {
            log::set_max_level(log::LevelFilter::Trace);
        }
    }
}
/// Most units run with every record wanted, some with few or none.
pub fn log_level(_k: u64) {
    #[cfg(feature = "as-logs")]
    log::set_max_level(match crate::rng::mix(_k ^ 0x109) % 8 {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Warn,
        2 => log::LevelFilter::Debug,
        _ => log::LevelFilter::Trace,
    });
}
pub static RECORDS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
