//! Strings, drains and errors read from and handed between threads.
use arraystring::prelude::*;
use arraystring::error::Error;
use std::sync::{mpsc, Arc, Mutex, OnceLock, RwLock};
use std::thread;

static TABLE: [SmallString; 3] = [SmallString::new(); 3];
static LATER: OnceLock<CacheString> = OnceLock::new();
static GUARDED: Mutex<ArrayString<20>> = Mutex::new(ArrayString::<20>::new());

fn main() {
    let text = "aé€😀";
    let s = ArrayString::<23>::from(text);
    let shared = Arc::new(RwLock::new(s));
    let (to, from) = mpsc::channel();
    let mut all = Vec::new();
    for k in 0..4u8 {
        let (shared, to, mut mine) = (Arc::clone(&shared), to.clone(), s);
        all.push(thread::spawn(move || {
            mine.clear();
            mine.try_push((b'0' + k) as char).unwrap();
            assert_eq!(shared.read().unwrap().as_str(), "aé€😀");
            assert!(TABLE.iter().all(|s| s.is_empty()));
            let c = *LATER.get_or_init(|| CacheString::from("once"));
            let drained = mine.drain(..).unwrap();
            let refused: Error = ArrayString::<1>::try_from_str("too long").unwrap_err().into();
            to.send((mine, c, drained, refused, k)).unwrap();
            GUARDED.lock().unwrap().try_push((b'0' + k) as char).unwrap();
        }));
    }
    drop(to);
    let mut n = 0;
    for (mine, c, drained, refused, k) in from {
        assert_eq!((mine.as_str(), c.as_str()), ("", "once"));
        assert_eq!(drained.collect::<String>(), k.to_string());
        assert!(matches!(refused, Error::OutOfBounds));
        n += 1;
    }
    for t in all {
        t.join().unwrap();
    }
    let mut held: Vec<char> = GUARDED.lock().unwrap().chars().collect();
    held.sort_unstable();
    assert_eq!((n, held), (4, vec!['0', '1', '2', '3']));
    // borrowed by scoped threads, then written to by one of them
    let mut cell = CacheString::from(text);
    thread::scope(|sc| {
        for _ in 0..3 {
            let r = &cell;
            sc.spawn(move || assert_eq!(r.as_str(), "aé€😀"));
        }
    });
    thread::scope(|sc| {
        let w = &mut cell;
        sc.spawn(move || w.push_str_truncate("!"));
    });
    assert_eq!(cell.as_str(), "aé€😀!");
    assert_eq!(s.as_str(), text);
}
