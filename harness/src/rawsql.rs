//! The diesel conversions themselves, on raw values of the PostgreSQL and MySQL backends: no server
//! and no foreign code, so heap buffers are exactly as long as the value and Miri can watch (C17, C02).
use crate::engine::*;
use crate::model::floor;
use crate::rng::{mix, Rng};
use crate::subj::{check_text, Txt};
use crate::gen;
use arraystring::prelude::*;
use diesel::backend::Backend;
use diesel::deserialize::FromSql;
use diesel::mysql::{Mysql, MysqlType, MysqlValue};
use diesel::pg::{Pg, PgMetadataLookup, PgTypeMetadata, PgValue};
use diesel::query_builder::bind_collector::{BindCollector, RawBytesBindCollector};
use diesel::serialize::ToSql;
use diesel::sql_types::Text;
use std::num::NonZeroU32;

struct NoLookup;
impl PgMetadataLookup for NoLookup {
    fn lookup_type(&mut self, _: &str, _: Option<&str>) -> PgTypeMetadata {
        PgTypeMetadata::new(25, 1009)
    }
}

/// A value in a heap block of its own, of exactly its size, at every alignment.
struct Raw {
    block: Box<[u8]>,
    at: usize,
}
impl Raw {
    fn new(bytes: &[u8], at: usize) -> Raw {
        let mut v = vec![0xee; at];
        v.extend_from_slice(bytes);
        Raw { block: v.into_boxed_slice(), at }
    }
    fn bytes(&self) -> &[u8] {
        &self.block[self.at..]
    }
    /// The block is scribbled over and given back: nothing may still look at it.
    fn gone(mut self) {
        self.block.fill(0xff);
    }
}

trait Side: Backend {
    const NAME: &'static str;
    fn value<R>(bytes: &[u8], f: impl FnOnce(Self::RawValue<'_>) -> R) -> R;
    fn bind<T: ToSql<Text, Self> + ?Sized>(v: &T) -> Result<Vec<Option<Vec<u8>>>, String>;
}
impl Side for Pg {
    const NAME: &'static str = "PostgreSQL";
    fn value<R>(bytes: &[u8], f: impl FnOnce(PgValue<'_>) -> R) -> R {
        let oid = NonZeroU32::new(25).unwrap();
        f(PgValue::new(bytes, &oid))
    }
    fn bind<T: ToSql<Text, Self> + ?Sized>(v: &T) -> Result<Vec<Option<Vec<u8>>>, String> {
        let mut b = RawBytesBindCollector::<Pg>::new();
        let mut l = NoLookup;
        b.push_bound_value::<Text, T>(v, &mut l).map_err(|e| e.to_string())?;
        b.push_bound_value::<Text, T>(v, &mut l).map_err(|e| e.to_string())?;
        Ok(b.binds)
    }
}
impl Side for Mysql {
    const NAME: &'static str = "MySQL";
    fn value<R>(bytes: &[u8], f: impl FnOnce(MysqlValue<'_>) -> R) -> R {
        f(MysqlValue::new(bytes, MysqlType::String))
    }
    fn bind<T: ToSql<Text, Self> + ?Sized>(v: &T) -> Result<Vec<Option<Vec<u8>>>, String> {
        let mut b = RawBytesBindCollector::<Mysql>::new();
        b.push_bound_value::<Text, T>(v, &mut ()).map_err(|e| e.to_string())?;
        b.push_bound_value::<Text, T>(v, &mut ()).map_err(|e| e.to_string())?;
        Ok(b.binds)
    }
}

fn go<T, DB>(c: &mut Ctx, r: &mut Rng, name: &'static str)
where
    DB: Side,
    T: Txt + Copy + for<'x> From<&'x str> + FromSql<Text, DB> + ToSql<Text, DB>,
    String: FromSql<Text, DB>,
    str: ToSql<Text, DB>,
{
    let cap = T::cap();
    // ---- reading
    let l = *r.pick(&[0, 1, cap, cap + 1, cap + 2, cap + 3, cap + 4, 255, 256, 257, 300, 600, r.clone().below(cap + 6)]);
    let exact = r.chance(2, 3);
    let mut bytes = gen::text(r, l, exact).into_bytes();
    if r.chance(1, 5) {
        // not a text after all: near the front, around the capacity, or at the end
        let at = *r.pick(&[0, cap.min(bytes.len()), bytes.len(), r.clone().below(bytes.len() + 1)]);
        let junk: &[u8] = *r.pick(&[&[0xff][..], &[0xc3][..], &[0x80][..], &[0xe2, 0x82][..], &[0xed, 0xa0, 0x80][..], &[0xf4, 0x90, 0x80, 0x80][..]]);
        bytes.splice(at..at, junk.iter().copied());
    }
    c.case(&(name, DB::NAME, &bytes));
    let want = DB::value(&bytes, |v| <String as FromSql<Text, DB>>::from_sql(v)).map_err(|_| ());
    let raw = Raw::new(&bytes, r.below(9));
    let nullable = r.chance(1, 2);
    let got = guarded(|| {
        DB::value(raw.bytes(), |v| if nullable { T::from_nullable_sql(Some(v)) } else { T::from_sql(v) }).map_err(|_| ())
    });
    raw.gone();
    c.tick(if want.is_ok() { "value read" } else { "ill-formed value read" }, "compared");
    let seen = got.as_ref().map(|g| g.as_ref().map(|s| guarded(|| check_text(s))));
    let expect = want.as_ref().map(|w| Ok(Ok(floor(w, cap).to_owned()))).map_err(|_| &());
    if seen != Ok(expect.clone()) {
        let mut tags = vec!["C17"];
        if matches!(&seen, Ok(Ok(Err(_) | Ok(Err(_))))) {
            tags.extend(["C01", "C02"]);
        }
        c.finding(&tags, format!("{name} read from the {} value {:?}: {seen:?}, expected {expect:?}", DB::NAME, String::from_utf8_lossy(&bytes)));
        return;
    }
    // NULL is an error, as for String
    let null = guarded(|| <T as FromSql<Text, DB>>::from_nullable_sql(None).is_err());
    if null != Ok(<String as FromSql<Text, DB>>::from_nullable_sql(None).is_err()) {
        c.finding(&["C17"], format!("{name} read from a {} NULL: error = {null:?}", DB::NAME));
        return;
    }
    // ---- writing: what was read, and a text of its own
    let l = r.below(cap + 1);
    let own = gen::text(r, l, true);
    let mut all = vec![];
    if let Ok(Ok(s)) = got {
        all.push((s, floor(want.as_ref().unwrap(), cap).to_owned()));
    }
    all.push((T::from(&own), own));
    for (s, text) in all {
        let a = guarded(|| DB::bind(&s));
        let b = DB::bind(text.as_str());
        c.tick("value bound", "compared");
        if a != Ok(b.clone()) {
            c.finding(&["C17"], format!("{name} binds the text {text:?} for {} as {a:?}, str binds {b:?}", DB::NAME));
            return;
        }
    }
    c.sample(|| format!("{name} from {} value of {} bytes: {seen:?}", DB::NAME, bytes.len()));
}

pub fn run(c: &mut Ctx) {
    macro_rules! pick {
        ($c:expr, $r:expr, $($k:literal $t:ty, $n:literal;)*) => {
            match $r.below(10) {
                $($k => if $r.chance(1, 2) { go::<$t, Pg>($c, $r, $n) } else { go::<$t, Mysql>($c, $r, $n) },)*
                _ => if $r.chance(1, 2) { go::<CacheString, Pg>($c, $r, "CacheString") } else { go::<CacheString, Mysql>($c, $r, "CacheString") },
            }
        };
    }
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x5a1) ^ mix(k));
        for _ in 0..8 {
            let r = &mut r;
            pick! { c, r,
                0 ArrayString<1>, "ArrayString<1>";
                1 ArrayString<2>, "ArrayString<2>";
                2 ArrayString<3>, "ArrayString<3>";
                3 ArrayString<4>, "ArrayString<4>";
                4 ArrayString<8>, "ArrayString<8>";
                5 SmallString, "SmallString";
                6 ArrayString<63>, "ArrayString<63>";
                7 ArrayString<128>, "ArrayString<128>";
                8 MaxString, "MaxString";
            }
        }
    }
}
