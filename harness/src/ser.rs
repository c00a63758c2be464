//! Serialisation: same form as `str`, any string form accepted, longest prefix kept (C16).
use crate::api::Api;
use crate::engine::*;
use crate::model::floor;
use crate::rng::{mix, Rng};
use crate::subj::check_text;
use crate::gen;
use arraystring::prelude::*;
use serde::de::value::{BorrowedStrDeserializer, BytesDeserializer, CharDeserializer, Error as VErr, StrDeserializer, StringDeserializer, BorrowedBytesDeserializer};
use serde::de::{Deserialize, DeserializeOwned, IntoDeserializer};
use serde::Serialize;
use std::collections::BTreeMap;

pub fn run(c: &mut Ctx) {
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0x5e) ^ mix(k));
        let r = &mut r;
        match r.below(12) {
            0 => one::<ArrayString<1>>(c, r),
            1 => one::<ArrayString<2>>(c, r),
            2 => one::<ArrayString<3>>(c, r),
            3 => one::<ArrayString<4>>(c, r),
            4 => one::<ArrayString<7>>(c, r),
            5 => one::<ArrayString<8>>(c, r),
            6 => one::<ArrayString<24>>(c, r),
            7 => one::<ArrayString<63>>(c, r),
            8 => one::<ArrayString<128>>(c, r),
            9 => one::<ArrayString<200>>(c, r),
            10 => one::<ArrayString<255>>(c, r),
            _ => one::<CacheString>(c, r),
        }
    }
}

#[derive(Serialize, serde::Deserialize)]
struct Rec<T> {
    id: u32,
    name: T,
    alias: Option<T>,
    list: Vec<T>,
    pair: (T, u8),
}
#[derive(Serialize, serde::Deserialize)]
struct Wrap<T>(T);
#[derive(Serialize, serde::Deserialize)]
enum Any<T> {
    Text(T),
    Named { text: T },
}

/// Accepts a string and nothing else: what a value hands to a format, whatever the format.
struct OnlyStr;
macro_rules! refused {
    ($($f:ident($($a:ty),*) -> $r:ty;)*) => {$(
        fn $f(self $(, _: $a)*) -> Result<$r, Self::Error> {
            Err(not_a_str(stringify!($f)))
        }
    )*};
}
#[derive(Debug)]
struct NotAStr(String);
impl std::fmt::Display for NotAStr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for NotAStr {}
impl serde::ser::Error for NotAStr {
    fn custom<M: std::fmt::Display>(m: M) -> Self {
        NotAStr(m.to_string())
    }
}
fn not_a_str(how: &str) -> NotAStr {
    NotAStr(format!("written with {how}"))
}
type No = serde::ser::Impossible<String, NotAStr>;
impl serde::Serializer for OnlyStr {
    type Ok = String;
    type Error = NotAStr;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_str(self, s: &str) -> Result<String, NotAStr> {
        Ok(s.to_owned())
    }
    refused! {
        serialize_bool(bool) -> String;
        serialize_i8(i8) -> String;
        serialize_i16(i16) -> String;
        serialize_i32(i32) -> String;
        serialize_i64(i64) -> String;
        serialize_u8(u8) -> String;
        serialize_u16(u16) -> String;
        serialize_u32(u32) -> String;
        serialize_u64(u64) -> String;
        serialize_f32(f32) -> String;
        serialize_f64(f64) -> String;
        serialize_char(char) -> String;
        serialize_bytes(&[u8]) -> String;
        serialize_none() -> String;
        serialize_unit() -> String;
        serialize_unit_struct(&'static str) -> String;
        serialize_unit_variant(&'static str, u32, &'static str) -> String;
        serialize_seq(Option<usize>) -> No;
        serialize_tuple(usize) -> No;
        serialize_tuple_struct(&'static str, usize) -> No;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No;
        serialize_map(Option<usize>) -> No;
        serialize_struct(&'static str, usize) -> No;
        serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<String, NotAStr> {
        Err(not_a_str("serialize_some"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<String, NotAStr> {
        Err(not_a_str("serialize_newtype_struct"))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, NotAStr> {
        Err(not_a_str("serialize_newtype_variant"))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

/// JSON of `s` with a random choice of escapes, all denoting the same text.
fn json_of(r: &mut Rng, s: &str) -> String {
    let all = r.below(4);
    let mut o = String::from("\"");
    for ch in s.chars() {
        let must = ch == '"' || ch == '\\' || (ch as u32) < 0x20;
        if must || all == 0 || (all == 1 && r.chance(1, 3)) {
            let mut b = [0; 2];
            for u in ch.encode_utf16(&mut b) {
                o.push_str(&if r.chance(1, 2) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
            }
        } else {
            o.push(ch);
        }
    }
    o.push('"');
    o
}

/// What came out of a deserialiser against what a `String` would have got.
fn judge<T: Api>(c: &mut Ctx, how: &'static str, input: &str, got: Result<Result<T, String>, String>, want: Result<String, String>) -> bool {
    let cap = T::cap();
    let want_text = want.as_ref().map(|w| floor(w, cap).to_owned()).map_err(|e| e.clone());
    let outcome = match &want {
        Ok(w) if w.len() <= cap => "fits",
        Ok(_) => "cut",
        Err(_) => "not a string",
    };
    c.tick(how, outcome);
    c.case(&(cap, how, input));
    let shown = match &got {
        Err(m) => format!("panic: {m}"),
        Ok(Err(e)) => format!("error: {e}"),
        Ok(Ok(v)) => format!("{:?}", check_text(v)),
    };
    c.sample(|| format!("{} from {how}, {}: {}", T::NAME, clip(input), clip(&shown)));
    let good = match (&got, &want_text) {
        (Ok(Ok(v)), Ok(w)) => guarded(|| check_text(v)) == Ok(Ok(w.clone())),
        (Ok(Err(_)), Err(_)) => true,
        _ => false,
    };
    if !good {
        let mut tags = vec!["C16"];
        if let Ok(Ok(v)) = &got {
            if !matches!(guarded(|| check_text(v)), Ok(Ok(_))) {
                tags.extend(["C01", "C02"]);
            }
        }
        if got.is_err() {
            tags.push("C08");
        }
        c.finding(&tags, format!("{} read from {how}, {}: {}; String gives {:?}, so {want_text:?} was expected", T::NAME, clip(input), clip(&shown), want.as_ref().map(|w| clip(w))));
    }
    good
}

fn one<T: Api + Serialize + DeserializeOwned + for<'a> Deserialize<'a>>(c: &mut Ctx, r: &mut Rng) {
    let cap = T::cap();
    // writing: the same bytes as for str
    let l = r.below(cap + 1);
    let text = gen::text(r, l, true);
    let mut s = T::t_from_str_truncate("~".repeat(cap));
    s.t_clear();
    if s.t_try_push_str(&text).is_err() {
        return;
    }
    let t = text.as_str();
    let cbor = |v: &dyn Fn(&mut Vec<u8>) -> Result<(), String>| {
        let mut b = vec![];
        v(&mut b).map(|_| b)
    };
    let forms: Vec<(&'static str, bool)> = vec![
        ("json", guarded(|| serde_json::to_string(&s).ok()) == Ok(serde_json::to_string(t).ok())),
        ("bare", guarded(|| s.serialize(OnlyStr).ok()) == Ok(Some(t.to_owned()))),
        ("through a formatter", {
            // a `Formatter` is a serializer of its own
            struct Shown<'a, T>(&'a T);
            impl<T: Serialize> std::fmt::Display for Shown<'_, T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    self.0.serialize(f)
                }
            }
            let shown = |x: &dyn std::fmt::Display| {
                use std::fmt::Write;
                let mut o = String::new();
                write!(o, "{x}").map(|_| o)
            };
            guarded(|| shown(&Shown(&s))) == Ok(shown(&Shown(&t)))
        }),
        ("json value", guarded(|| serde_json::to_value(s).ok()) == Ok(serde_json::to_value(t).ok())),
        ("bincode", guarded(|| bincode::serialize(&s).ok()) == Ok(bincode::serialize(t).ok())),
        (
            "cbor",
            guarded(|| cbor(&|b| ciborium::into_writer(&s, b).map_err(|e| e.to_string())))
                == Ok(cbor(&|b| ciborium::into_writer(t, b).map_err(|e| e.to_string()))),
        ),
        ("in a structure", {
            let a = guarded(|| {
                serde_json::to_string(&Rec { id: 7, name: s, alias: Some(s), list: vec![s, s], pair: (s, 1) }).ok()
            });
            a == Ok(serde_json::to_string(&Rec { id: 7, name: t, alias: Some(t), list: vec![t, t], pair: (t, 1) }).ok())
        }),
        ("as a map key", {
            let m: BTreeMap<T, T> = [(s, s)].into_iter().collect();
            let n: BTreeMap<&str, &str> = [(t, t)].into_iter().collect();
            guarded(|| serde_json::to_string(&m).ok()) == Ok(serde_json::to_string(&n).ok())
        }),
    ];
    for (how, same) in forms {
        c.tick("serialize", how);
        if !same {
            c.finding(&["C16"], format!("{} holding {t:?}: its {how} form differs from that of the str", T::NAME));
            return;
        }
    }
    // reading: any text, in any form
    let src = {
        let l = *r.pick(&[0, 1, cap - 1, cap, cap, cap + 1, cap + 2, cap + 3, cap + 4, 255, 256, 257, 400, l, l]);
        let exact = r.chance(2, 3);
        gen::text(r, l, exact)
    };
    let j = json_of(r, &src);
    macro_rules! both {
        ($how:literal, $input:expr, $f:expr, $g:expr) => {{
            let got = guarded(|| ($f).map_err(|e| e.to_string()));
            let want: Result<String, String> = ($g).map_err(|e| e.to_string());
            if !judge::<T>(c, $how, $input, got, want) {
                return;
            }
        }};
    }
    both!("json str", &j, serde_json::from_str::<T>(&j), serde_json::from_str::<String>(&j));
    both!("json slice", &j, serde_json::from_slice::<T>(j.as_bytes()), serde_json::from_slice::<String>(j.as_bytes()));
    both!("json reader", &j, serde_json::from_reader::<_, T>(j.as_bytes()), serde_json::from_reader::<_, String>(j.as_bytes()));
    let v = serde_json::Value::String(src.clone());
    both!("json value", &j, serde_json::from_value::<T>(v.clone()), serde_json::from_value::<String>(v.clone()));
    both!("json value by reference", &j, T::deserialize(&v), String::deserialize(&v));
    let bytes = bincode::serialize(&src).unwrap_or_default();
    both!("bincode slice", &src, bincode::deserialize::<T>(&bytes), bincode::deserialize::<String>(&bytes));
    both!("bincode reader", &src, bincode::deserialize_from::<_, T>(&bytes[..]), bincode::deserialize_from::<_, String>(&bytes[..]));
    let mut cb = vec![];
    let _ = ciborium::into_writer(&src, &mut cb);
    both!("cbor", &src, ciborium::from_reader::<T, _>(&cb[..]), ciborium::from_reader::<String, _>(&cb[..]));
    both!("borrowed str", &src, T::deserialize(BorrowedStrDeserializer::<VErr>::new(&src)), String::deserialize(BorrowedStrDeserializer::<VErr>::new(&src)));
    both!("transient str", &src, T::deserialize(StrDeserializer::<VErr>::new(&src)), String::deserialize(StrDeserializer::<VErr>::new(&src)));
    both!(
        "owned String",
        &src,
        T::deserialize(IntoDeserializer::<VErr>::into_deserializer(src.clone()) as StringDeserializer<VErr>),
        String::deserialize(IntoDeserializer::<VErr>::into_deserializer(src.clone()) as StringDeserializer<VErr>)
    );
    let ch = src.chars().next().unwrap_or('x');
    both!("char", &src, T::deserialize(IntoDeserializer::<VErr>::into_deserializer(ch) as CharDeserializer<VErr>), String::deserialize(IntoDeserializer::<VErr>::into_deserializer(ch) as CharDeserializer<VErr>));
    // into a place that already holds something
    macro_rules! place {
        ($d:expr) => {{
            let mut p = s;
            T::deserialize_in_place($d, &mut p).map(|_| p)
        }};
    }
    both!("json str in place", &j, place!(&mut serde_json::Deserializer::from_str(&j)), serde_json::from_str::<String>(&j));
    both!("json reader in place", &j, place!(&mut serde_json::Deserializer::from_reader(j.as_bytes())), serde_json::from_str::<String>(&j));
    both!("borrowed str in place", &src, place!(BorrowedStrDeserializer::<VErr>::new(&src)), String::deserialize(BorrowedStrDeserializer::<VErr>::new(&src)));
    // byte strings: valid UTF-8 or not, `String` is the reference
    let mut raw = src.clone().into_bytes();
    if r.chance(2, 3) && !raw.is_empty() {
        for _ in 0..r.range(1, 2) {
            let k = match r.below(3) {
                0 => raw.len() - 1,
                1 => r.below(raw.len()),
                _ => r.below(raw.len().min(cap + 2)),
            };
            raw[k] = *r.pick(&[0x80, 0xff, 0xc0, 0xed, 0xf8, 0xbf, 0xe2]);
        }
    }
    let show = format!("{raw:02x?}");
    both!("transient bytes", &show, T::deserialize(BytesDeserializer::<VErr>::new(&raw)), String::deserialize(BytesDeserializer::<VErr>::new(&raw)));
    both!("borrowed bytes", &show, T::deserialize(BorrowedBytesDeserializer::<VErr>::new(&raw)), String::deserialize(BorrowedBytesDeserializer::<VErr>::new(&raw)));
    let mut quoted = vec![b'"'];
    quoted.extend(raw.iter().filter(|b| **b != b'"' && **b != b'\\' && **b >= 0x20));
    quoted.push(b'"');
    both!("json slice with arbitrary bytes", &show, serde_json::from_slice::<T>(&quoted), serde_json::from_slice::<String>(&quoted));
    both!("json reader with arbitrary bytes", &show, serde_json::from_reader::<_, T>(&quoted[..]), serde_json::from_reader::<_, String>(&quoted[..]));
    let mut bb = (raw.len() as u64).to_le_bytes().to_vec();
    bb.extend(&raw);
    if r.chance(1, 4) {
        bb.pop();
    }
    both!("bincode slice with arbitrary bytes", &show, bincode::deserialize::<T>(&bb), bincode::deserialize::<String>(&bb));
    both!("bincode reader with arbitrary bytes", &show, bincode::deserialize_from::<_, T>(&bb[..]), bincode::deserialize_from::<_, String>(&bb[..]));
    // things that are not strings
    let odd = *r.pick(&["12", "null", "true", "[\"a\"]", "{\"a\":1}", "1.5", "\"abc", "\"\\ud800\"", "\"\\udc00x\"", "\"\\x\"", "", "[]", "\"a\" b", "\"\\ud83e\\udd14\"", "\"\\ud83e\\u0041\"", "-1"]);
    both!("odd json str", odd, serde_json::from_str::<T>(odd), serde_json::from_str::<String>(odd));
    both!("odd json reader", odd, serde_json::from_reader::<_, T>(odd.as_bytes()), serde_json::from_reader::<_, String>(odd.as_bytes()));
    let n = r.u64();
    both!("number", &n.to_string(), T::deserialize(IntoDeserializer::<VErr>::into_deserializer(n)), String::deserialize(IntoDeserializer::<VErr>::into_deserializer(n)));
    both!("unit", "()", T::deserialize(IntoDeserializer::<VErr>::into_deserializer(())), String::deserialize(IntoDeserializer::<VErr>::into_deserializer(())));
    // inside structures
    let jj = format!(
        "{{\"id\":3,\"name\":{j},\"alias\":{},\"list\":[{j},{},{j}],\"pair\":[{j},9]}}",
        if r.chance(1, 3) { "null".to_owned() } else { j.clone() },
        json_of(r, t)
    );
    let parts = |v: Rec<String>| -> Vec<String> {
        let mut o = vec![v.name, v.alias.unwrap_or_else(|| "<none>".into()), v.pair.0];
        o.extend(v.list);
        o
    };
    let mine = |v: Rec<T>| -> Vec<String> {
        let tx = |x: T| check_text(&x).unwrap_or_else(|e| e);
        let mut o = vec![tx(v.name), v.alias.map(tx).unwrap_or_else(|| "<none>".into()), tx(v.pair.0)];
        o.extend(v.list.into_iter().map(tx));
        o
    };
    let want: Option<Vec<String>> = serde_json::from_str::<Rec<String>>(&jj).ok().map(parts).map(|v| {
        v.into_iter().map(|x| if x == "<none>" { x } else { floor(&x, cap).to_owned() }).collect()
    });
    for reader in [false, true] {
        let got = guarded(|| {
            if reader {
                serde_json::from_reader::<_, Rec<T>>(jj.as_bytes()).ok().map(mine)
            } else {
                serde_json::from_str::<Rec<T>>(&jj).ok().map(mine)
            }
        });
        c.tick("structure", if reader { "reader" } else { "str" });
        // "<none>" itself may have to be cut for small capacities: compare only when unambiguous
        if got != Ok(want.clone()) && src != "<none>" {
            c.finding(&["C16"], format!("{}: structure {} read as {got:?}, expected {want:?}", T::NAME, clip(&jj)));
            return;
        }
    }
    for (how, ok) in [
        ("newtype", {
            let a = guarded(|| serde_json::from_str::<Wrap<T>>(&j).ok().map(|w| check_text(&w.0)));
            a == Ok(Some(Ok(floor(&src, cap).to_owned())))
        }),
        ("enum", {
            let e = format!("{{\"Text\":{j}}}");
            let f = format!("{{\"Named\":{{\"text\":{j}}}}}");
            let g = |x: Any<T>| match x {
                Any::Text(t) | Any::Named { text: t } => check_text(&t),
            };
            let a = guarded(|| serde_json::from_str::<Any<T>>(&e).ok().map(g));
            let b = guarded(|| serde_json::from_str::<Any<T>>(&f).ok().map(g));
            a == Ok(Some(Ok(floor(&src, cap).to_owned()))) && a == b
        }),
        ("map key", {
            let m = format!("{{{j}:1}}");
            let a = guarded(|| serde_json::from_str::<BTreeMap<T, u8>>(&m).ok().map(|m| m.into_keys().map(|k| check_text(&k)).collect::<Vec<_>>()));
            a == Ok(Some(vec![Ok(floor(&src, cap).to_owned())]))
        }),
    ] {
        c.tick("structure", how);
        if !ok {
            c.finding(&["C16"], format!("{}: {} did not come back as the longest fitting prefix inside a {how}", T::NAME, clip(&j)));
            return;
        }
    }
    // what was written can be read back unchanged
    let back = guarded(|| {
        let a = serde_json::from_str::<T>(&serde_json::to_string(&s).ok()?).ok()?;
        let b = bincode::deserialize::<T>(&bincode::serialize(&s).ok()?).ok()?;
        let mut w = vec![];
        ciborium::into_writer(&s, &mut w).ok()?;
        let d = ciborium::from_reader::<T, _>(&w[..]).ok()?;
        Some([a, b, d].map(|x| check_text(&x)))
    });
    c.tick("round trip", "compared");
    let w = || Ok(text.clone());
    if back != Ok(Some([w(), w(), w()])) {
        c.finding(&["C16"], format!("{} holding {t:?} comes back as {back:?} through json, bincode and cbor", T::NAME));
    }
}
