// Replays Flags.tla: accessors of flag words, packed words, colors, line weights.
use crate::util::*;
use dxf::*;
use serde_json::{json, Value};

/// A word with named flags: takes a value of the word and a list of calls, gives the record before and after and what the getters tell.
pub struct Word {
    pub kind: &'static str,
    pub field: &'static str,
    pub names: Vec<&'static str>,
    #[allow(clippy::type_complexity)]
    pub run: Box<dyn Fn(u32, &[(usize, bool)]) -> (Value, Value, Vec<bool>)>,
}
#[macro_export]
macro_rules! flags {
    ($o:ident, $k:literal, $f:literal, $ty:ty, $t:ty, [$($g:ident $s:ident),*]) => {
        $o.push(Word { kind: $k, field: $f, names: vec![$(stringify!($g)),*], run: Box::new(|w, calls| {
            let mut j = serde_json::to_value(<$t>::default()).unwrap();
            if !j[$f].is_number() { panic!("no field {}", $f) }
            j[$f] = (w as $ty).into();
            let mut x: $t = serde_json::from_value(j.clone()).unwrap();
            for (n, v) in calls {
                let mut _i = 0;
                $( if *n == _i { x.$s(*v); } _i += 1; )*
            }
            let tells = vec![$(x.$g()),*];
            (j, serde_json::to_value(&x).unwrap(), tells)
        }) });
    };
}
fn word(v: &Value) -> u32 { v.as_array().unwrap().iter().fold(0, |w, b| w | 1 << b.as_u64().unwrap()) }

pub fn run(cases: &str, _modes: &[&str], r: &mut Report) {
    let mut tab = vec![];
    crate::flags_table::table(&mut tab);
    for c in lines(cases) {
        r.cases += 1;
        r.begin(&c.to_string());
        r.count(c["what"].as_str().unwrap());
        let ops = c["ops"].as_array().unwrap();
        let res = guard(|| -> Option<(String, Value)> {
            match c["what"].as_str().unwrap() {
                "word" => {
                    let w = tab.iter().find(|w| w.kind == c["k"] && w.field == c["f"]).unwrap();
                    let calls: Vec<_> = ops.iter().map(|o| (w.names.iter().position(|n| o[0] == *n).unwrap(), o[1].as_bool().unwrap())).collect();
                    let (before, after, tells) = (w.run)(word(&c["start"]), &calls);
                    let mut want = before;
                    let raw = want[w.field].as_i64().unwrap();
                    let n = word(&c["after"]);
                    want[w.field] = if raw < 0 || after[w.field].as_i64() == Some(n as i32 as i64) { (n as i32).into() } else { n.into() };
                    let last = ops.last().map_or("get", |o| o[0].as_str().unwrap());
                    if after != want {
                        let diff: Vec<String> = want.as_object().unwrap().iter().filter(|(k, v)| after[*k] != **v).map(|(k, v)| format!("{}: expected {} got {}", k, v, after[k])).collect();
                        return Some((format!("{}.{}|set|{}", w.kind, w.field, last), json!({"case": c, "differs": diff})));
                    }
                    for (k, t) in tells.iter().enumerate() {
                        if c["tells"][k] != *t { return Some((format!("{}.{}|get|{}", w.kind, w.field, w.names[k]), json!({"case": c, "got": t}))); }
                    }
                }
                "proxy" => {
                    let mut p: entities::ProxyEntity = entities::ProxyEntity::default();
                    let n = |i: usize| c["start"][i].as_u64().unwrap();
                    let mut j = serde_json::to_value(&p).unwrap();
                    j["__object_drawing_format"] = (n(0) | n(1) << 16).into();
                    p = serde_json::from_value(j.clone()).unwrap();
                    for o in ops {
                        let v = o[1].as_i64().unwrap() as i32;
                        if o[0] == 1 { p.set_object_drawing_format_version(v) } else { p.set_object_mainenance_release_version(v) }
                    }
                    let got = (p.object_drawing_format_version(), p.object_maintenance_release_version());
                    let w = |i: usize| c["after"][i].as_u64().unwrap();
                    let after = serde_json::to_value(&p).unwrap();
                    if got != (w(0) as i32, w(1) as i32) { return Some(("ProxyEntity|halves".into(), json!({"case": c, "got": got}))) }
                    if after["__object_drawing_format"] != (w(0) | w(1) << 16) { return Some(("ProxyEntity|word".into(), json!({"case": c, "got": after["__object_drawing_format"]}))) }
                }
                "color" => {
                    let mut x: Color = serde_json::from_value(json!({"raw_value": c["start"]})).unwrap();
                    for o in ops { match o[0].as_str().unwrap() { "set_by_layer" => x.set_by_layer(), "set_by_block" => x.set_by_block(), "set_by_entity" => x.set_by_entity(), _ => x.turn_off() } }
                    let got = json!({"is_by_layer": x.is_by_layer(), "is_by_entity": x.is_by_entity(), "is_by_block": x.is_by_block(), "is_turned_off": x.is_turned_off(), "is_index": x.is_index(), "index": x.index().map_or(-1, i32::from)});
                    if got != c["tells"] { return Some(("Color|tells".into(), json!({"case": c, "got": got}))) }
                    let made = match ops.last() { None => x.index().map(Color::from_index), Some(o) => match o[0].as_str().unwrap() { "set_by_layer" => Some(Color::by_layer()), "set_by_block" => Some(Color::by_block()), "set_by_entity" => Some(Color::by_entity()), _ => None } };
                    if made.is_some_and(|m| m != x) { return Some(("Color|made".into(), json!({"case": c}))) }
                }
                _ => {
                    let x: LineWeight = serde_json::from_value(json!({"raw_value": c["start"]})).unwrap();
                    let got = json!({"is_by_layer": x.is_by_layer(), "is_by_block": x.is_by_block(), "raw_value": x.raw_value()});
                    if got != c["tells"] { return Some(("LineWeight|tells".into(), json!({"case": c, "got": got}))) }
                    if !LineWeight::by_layer().is_by_layer() || !LineWeight::by_block().is_by_block() { return Some(("LineWeight|made".into(), json!({"case": c}))) }
                }
            }
            None
        });
        r.steps += 1;
        match res { Err(e) => r.fail("panic", json!({"case": c, "got": e})), Ok(Some((s, d))) => r.fail(&s, d), Ok(None) => () }
    }
}
