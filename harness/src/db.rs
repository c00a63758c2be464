//! Database round trips through diesel and an in-memory SQLite (C17).
use crate::engine::*;
use crate::model::floor;
use crate::rng::{mix, Rng};
use crate::subj::{check_text, Txt};
use crate::gen;
use arraystring::prelude::*;
use diesel::prelude::*;
use diesel::sql_types::{Integer, Nullable, Text};

diesel::table! {
    names (id) {
        id -> Integer,
        name -> Text,
        alias -> Nullable<Text>,
    }
}

macro_rules! typed {
    ($m:ident, $t:ty, $name:literal) => {
        mod $m {
            use super::*;
            #[derive(AsChangeset, Identifiable, Queryable, Selectable, QueryableByName, Insertable, Clone, Debug)]
            #[diesel(table_name = names)]
            pub struct Row {
                pub id: i32,
                pub name: $t,
                pub alias: Option<$t>,
            }
            fn mk(r: &mut Rng, text: &str) -> Option<$t> {
                let mut s = <$t>::from_str_truncate("~".repeat(<$t>::capacity()));
                if r.chance(1, 2) {
                    s.clear();
                    s.try_push_str(text).ok()?;
                } else {
                    s = <$t>::try_from_str(text).ok()?;
                }
                (check_text(&s).as_deref() == Ok(text)).then_some(s)
            }
            pub fn go(c: &mut Ctx, r: &mut Rng, conn: &mut SqliteConnection) {
                let cap = <$t>::capacity();
                let _ = diesel::delete(names::table).execute(conn);
                // written by the library, read back as String and as itself
                let mut rows = vec![];
                for id in 0..6 {
                    let l = *r.pick(&[0, 1, cap, cap, cap - 1, r.clone().below(cap + 1)]);
                    let text = gen::text(r, l, true);
                    let l = r.below(cap + 1);
                    let alias = if r.chance(1, 3) { None } else { Some(gen::text(r, l, true)) };
                    let Some(name) = mk(r, &text) else { return };
                    let a = match &alias {
                        Some(a) => match mk(r, a) {
                            Some(x) => Some(x),
                            None => return,
                        },
                        None => None,
                    };
                    rows.push((id, text, alias, Row { id, name, alias: a }));
                }
                for (_, text, _, row) in &rows {
                    c.case(&($name, "write", text));
                    let done = guarded(|| diesel::insert_into(names::table).values(row).execute(conn));
                    if !matches!(done, Ok(Ok(1))) {
                        c.finding(&["C17"], format!("{}: inserting {text:?} gives {done:?}", $name));
                        return;
                    }
                }
                let back: Vec<(i32, String, Option<String>)> = names::table.order(names::id).load(conn).unwrap_or_default();
                let bytes: Vec<(i32, i32)> = names::table
                    .select((names::id, diesel::dsl::sql::<Integer>("length(CAST(name AS BLOB))")))
                    .order(names::id)
                    .load(conn)
                    .unwrap_or_default();
                let kinds: Vec<String> = names::table.select(diesel::dsl::sql::<Text>("typeof(name)")).load(conn).unwrap_or_default();
                let want: Vec<(i32, String, Option<String>)> = rows.iter().map(|x| (x.0, x.1.clone(), x.2.clone())).collect();
                let want_len: Vec<(i32, i32)> = rows.iter().map(|x| (x.0, x.1.len() as i32)).collect();
                c.tick("written, read as String", "compared");
                if back != want || bytes != want_len || kinds.iter().any(|k| k != "text") {
                    c.finding(&["C17"], format!("{}: stored rows read as {back:?} with sizes {bytes:?} of types {kinds:?}, wrote {want:?}", $name));
                    return;
                }
                let own = guarded(|| names::table.select(Row::as_select()).order(names::id).load::<Row>(conn).map_err(|e| e.to_string()));
                if !same(c, $name, "written and read back", &own, &want, cap) {
                    return;
                }
                // bound as query parameters
                for (id, text, alias, row) in &rows {
                    let hits: Result<Result<Vec<i32>, _>, _> =
                        guarded(|| names::table.filter(names::name.eq(row.name)).select(names::id).order(names::id).load(conn));
                    let expect: Vec<i32> = rows.iter().filter(|x| x.1 == *text).map(|x| x.0).collect();
                    c.tick("bound parameter", "compared");
                    if !matches!(&hits, Ok(Ok(h)) if *h == expect) {
                        c.finding(&["C17"], format!("{}: filtering by {text:?} finds {hits:?}, expected {expect:?}", $name));
                        return;
                    }
                    let n: Result<Result<Vec<i32>, _>, _> =
                        guarded(|| names::table.filter(names::alias.eq(row.alias)).select(names::id).order(names::id).load(conn));
                    let expect: Vec<i32> =
                        rows.iter().filter(|x| alias.is_some() && x.2 == *alias).map(|x| x.0).collect();
                    if !matches!(&n, Ok(Ok(h)) if *h == expect) {
                        c.finding(&["C17"], format!("{}: filtering by the nullable {alias:?} finds {n:?}, expected {expect:?}", $name));
                        return;
                    }
                }
                for (id, text, _, row) in &rows {
                    let up = guarded(|| diesel::update(names::table.find(id)).set(names::alias.eq(Some(row.name))).execute(conn));
                    let got: Option<Option<String>> = names::table.find(id).select(names::alias).first(conn).ok();
                    c.tick("updated", "compared");
                    if !matches!(up, Ok(Ok(1))) || got != Some(Some(text.clone())) {
                        c.finding(&["C17"], format!("{}: updating to {text:?} gives {up:?} and stores {got:?}", $name));
                        return;
                    }
                }
                // written as String, of any length: the longest fitting prefix comes back
                let _ = diesel::delete(names::table).execute(conn);
                let mut want = vec![];
                for id in 0..8 {
                    let l = *r.pick(&[0, 1, cap, cap + 1, cap + 2, cap + 3, cap + 4, 255, 256, 257, 300, 511, 4096, r.clone().below(cap + 6)]);
                    let exact = r.chance(2, 3);
                    let text = gen::text(r, l, exact);
                    let alias = if r.chance(1, 3) { None } else { Some(gen::arg(r, cap, 0)) };
                    let _ = diesel::insert_into(names::table)
                        .values((names::id.eq(id), names::name.eq(&text), names::alias.eq(&alias)))
                        .execute(conn);
                    c.case(&($name, "read", &text));
                    want.push((id, text, alias));
                }
                let own = guarded(|| names::table.order(names::id).load::<Row>(conn).map_err(|e| e.to_string()));
                if !same(c, $name, "stored as String and read", &own, &want, cap) {
                    return;
                }
                let named = guarded(|| {
                    diesel::sql_query("SELECT id, name, alias FROM names ORDER BY id").load::<Row>(conn).map_err(|e| e.to_string())
                });
                if !same(c, $name, "read by column name", &named, &want, cap) {
                    return;
                }
                // a single nullable column
                let one = guarded(|| names::table.select(names::alias).order(names::id).load::<Option<$t>>(conn).map_err(|e| e.to_string()));
                let got = one.map(|x| x.map(|v| v.into_iter().map(|a| a.map(|a| check_text(&a))).collect::<Vec<_>>()));
                let w: Vec<Option<Result<String, String>>> =
                    want.iter().map(|x| x.2.as_ref().map(|a| Ok(floor(a, cap).to_owned()))).collect();
                c.tick("nullable column", "compared");
                if got != Ok(Ok(w.clone())) {
                    c.finding(&["C17"], format!("{}: the nullable column reads {got:?}, expected {w:?}", $name));
                }
                // a NULL where a text is required is an error, as for String
                let null = guarded(|| diesel::select(diesel::dsl::sql::<Text>("NULL")).get_result::<$t>(conn).is_err());
                let string = diesel::select(diesel::dsl::sql::<Text>("NULL")).get_result::<String>(conn).is_err();
                c.tick("NULL as text", "compared");
                if null != Ok(string) {
                    c.finding(&["C17"], format!("{}: reading NULL: error={null:?}, for String error={string}", $name));
                }
            }
            fn same(
                c: &mut Ctx,
                ty: &str,
                what: &'static str,
                got: &Result<Result<Vec<Row>, String>, String>,
                want: &[(i32, String, Option<String>)],
                cap: usize,
            ) -> bool {
                c.tick(what, "compared");
                let seen = match got {
                    Ok(Ok(v)) => Ok(v
                        .iter()
                        .map(|x| (x.id, guarded(|| check_text(&x.name)), x.alias.map(|a| guarded(|| check_text(&a)))))
                        .collect::<Vec<_>>()),
                    Ok(Err(e)) => Err(format!("error {e}")),
                    Err(m) => Err(format!("panic {m}")),
                };
                let w: Vec<_> = want
                    .iter()
                    .map(|x| (x.0, Ok(Ok(floor(&x.1, cap).to_owned())), x.2.as_ref().map(|a| Ok(Ok(floor(a, cap).to_owned())))))
                    .collect();
                c.sample(|| format!("{ty} {what}: {}", clip(&format!("{seen:?}"))));
                if seen.as_ref() != Ok(&w) {
                    let bad = seen.as_ref().ok().and_then(|s| s.iter().zip(&w).find(|(a, b)| a != b)).map(|(a, b)| format!("{a:?} instead of {b:?}"));
                    let mut tags = vec!["C17"];
                    if let Ok(s) = &seen {
                        if s.iter().any(|x| !matches!(x.1, Ok(Ok(_)))) {
                            tags.extend(["C01", "C02"]);
                        }
                    }
                    c.finding(&tags, format!("{ty} {what}: {}", bad.unwrap_or_else(|| format!("{seen:?}, expected {w:?}"))));
                    return false;
                }
                true
            }
        }
    };
}
typed!(n1, ArrayString<1>, "ArrayString<1>");
typed!(n3, ArrayString<3>, "ArrayString<3>");
typed!(n4, ArrayString<4>, "ArrayString<4>");
typed!(n8, ArrayString<8>, "ArrayString<8>");
typed!(n24, SmallString, "SmallString");
typed!(n63, ArrayString<63>, "ArrayString<63>");
typed!(n200, ArrayString<200>, "ArrayString<200>");
typed!(n255, MaxString, "MaxString");
typed!(cache, CacheString, "CacheString");

pub fn run(c: &mut Ctx) {
    let Ok(mut conn) = SqliteConnection::establish(":memory:") else {
        c.note("no SQLite", 1);
        return;
    };
    let _ = diesel::sql_query("CREATE TABLE names (id INTEGER, name TEXT NOT NULL, alias TEXT)").execute(&mut conn);
    let _: Option<(Nullable<Text>,)> = None;
    for k in 0..c.cfg.count {
        if !c.unit(k) {
            continue;
        }
        let mut r = Rng::new(mix(c.cfg.seed ^ 0xdb) ^ mix(k));
        let r = &mut r;
        match r.below(9) {
            0 => n1::go(c, r, &mut conn),
            1 => n3::go(c, r, &mut conn),
            2 => n4::go(c, r, &mut conn),
            3 => n8::go(c, r, &mut conn),
            4 => n24::go(c, r, &mut conn),
            5 => n63::go(c, r, &mut conn),
            6 => n200::go(c, r, &mut conn),
            7 => n255::go(c, r, &mut conn),
            _ => cache::go(c, r, &mut conn),
        }
    }
    let _ = <CacheString as Txt>::cap();
}
