//! Strings in constants and statics, capacities in array lengths and types.
use arraystring::prelude::*;

const SHORT: ArrayString<5> = ArrayString::<5>::new();
const LONGEST: ArrayString<255> = MaxString::new();
const CACHE: CacheString = CacheString::new();
const CAP: usize = ArrayString::<17>::capacity();
const CACHE_CAP: usize = CacheString::capacity();
static TABLE: [ArrayString<23>; 4] = [ArrayString::<23>::new(); 4];
static ONE: CacheString = CacheString::new();
static ROOM: [u8; ArrayString::<9>::capacity()] = [0; 9];
type Same = ArrayString<{ SmallString::capacity() }>;

struct Named {
    name: SmallString,
    notes: [CacheString; 2],
}
impl Named {
    const EMPTY: Self = Self { name: SmallString::new(), notes: [CacheString::new(); 2] };
}

fn main() {
    assert_eq!((CAP, CACHE_CAP, ROOM.len(), Same::capacity()), (17, 63, 9, SmallString::capacity()));
    for s in &TABLE {
        assert_eq!(s.as_str(), "");
    }
    assert_eq!(ONE.as_str(), "");
    // a constant is as empty after a copy of it was filled
    let (mut a, mut b, mut c) = (SHORT, LONGEST, CACHE);
    a.push_str_truncate("aé€x");
    b.push_str_truncate("b".repeat(300));
    c.push_str_truncate("€".repeat(30));
    let mut n = Named::EMPTY;
    n.name.push_str_truncate("name");
    n.notes[1] = c;
    assert_eq!(a.as_str(), "aé");
    assert_eq!(b.as_str(), "b".repeat(255));
    assert_eq!(c.as_str(), "€".repeat(21));
    assert_eq!((n.name.as_str(), n.notes[0].as_str(), n.notes[1].as_str()), ("name", "", c.as_str()));
    assert_eq!((SHORT.as_str(), LONGEST.as_str(), CACHE.as_str()), ("", "", ""));
    assert_eq!((Named::EMPTY.name.as_str(), Named::EMPTY.notes[1].as_str()), ("", ""));
}
