// Replays the values of Numbers.tla: under every group code of their kind, in x data, extension groups and typed fields.
use crate::util::*;
use chrono::prelude::*;
use dxf::entities::*;
use dxf::enums::*;
use dxf::objects::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn round_trip(d: &Drawing, form: &str) -> Result<(Vec<u8>, Drawing), String> {
    let r = guard(|| -> Result<_, String> {
        let mut buf = vec![];
        if form == "text" { d.save(&mut buf) } else { d.save_binary(&mut buf) }.map_err(|e| format!("save: {}", e))?;
        let n = Drawing::load(&mut buf.as_slice()).map_err(|e| format!("load: {}", e))?;
        Ok((buf, n))
    });
    match r { Ok(x) => x, Err(e) => Err(e) }
}
fn pair(code: i32, kind: &str, c: &Value) -> CodePair {
    let lit = || c["lit"].as_str().unwrap().to_string();
    match kind {
        "double" => CodePair::new_f64(code, lit().parse().unwrap()),
        "short" => CodePair::new_i16(code, lit().parse().unwrap()),
        "int" => CodePair::new_i32(code, lit().parse().unwrap()),
        "long" => CodePair::new_i64(code, lit().parse().unwrap()),
        "bool" => CodePair::new_bool(code, lit() == "1"),
        "bytes" => CodePair::new_binary(code, bytes(c["lit"].as_u64().unwrap() as usize, code as usize)),
        _ => CodePair::new_str(code, &lit()),
    }
}
fn bytes(n: usize, k: usize) -> Vec<u8> { (0..n).map(|i| ((i * 7 + k * 13 + i / 256) % 256) as u8).collect() }
fn near(want: f64, got: f64, form: &str, exact: bool) -> bool {
    if form == "binary" || exact { want.to_bits() == got.to_bits() } else { (want - got).abs() <= 5.0000001e-13 && want.is_sign_negative() == got.is_sign_negative() }
}
fn same(want: &CodePair, got: &CodePair, form: &str, exact: bool) -> bool {
    if want.code != got.code { return false }
    match (&want.value, &got.value) {
        (CodePairValue::Double(a), CodePairValue::Double(b)) => near(*a, *b, form, exact),
        _ => want.value == got.value,
    }
}
fn show(p: Option<&CodePair>) -> String { p.map_or("<missing>".into(), |p| format!("{:?}", p)) }

/// pairs in an xrecord and an extension group
fn pairs_case(all: &[(CodePair, &Value)], ver_i: usize, form: &str, r: &mut Report) {
    r.steps += 2;
    let mut d = Drawing::new();
    d.header.version = ver(ver_i);
    let data: Vec<&(CodePair, &Value)> = all.iter().filter(|x| x.0.code != 1001).collect(); // 1001 starts the x data
    let mut o = Object::new(ObjectType::XRecordObject(XRecordObject { data_pairs: data.iter().map(|x| x.0.clone()).collect(), ..XRecordObject::default() }));
    let inner: Vec<&(CodePair, &Value)> = all.iter().filter(|x| x.0.code != 102).collect();
    o.common.extension_data_groups.push(ExtensionGroup { application_name: "APP".into(), items: inner.iter().map(|x| ExtensionGroupItem::CodePair(x.0.clone())).collect() });
    d.add_object(o);
    let (buf, n) = match round_trip(&d, form) { Ok(x) => x, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": ver_i, "pair": show(all.first().map(|x| &x.0)), "of": all.len(), "got": e})); return } };
    let o = n.objects().find_map(|o| if let ObjectType::XRecordObject(ref x) = o.specific { Some((o, x)) } else { None });
    let (o, x) = match o { Some(x) => x, None => { r.fail(&format!("{}|xrecord missing", form), json!({"version": ver_i})); return } };
    let group: Vec<CodePair> = o.common.extension_data_groups.first().map_or(vec![], |g| g.items.iter().filter_map(|i| if let ExtensionGroupItem::CodePair(p) = i { Some(p.clone()) } else { None }).collect());
    let mut check = |what: &str, want: Vec<&(CodePair, &Value)>, got: &[CodePair]| {
        // long byte strings come in several pieces in a binary file
        let mut k = 0;
        for (w, c) in want.iter().map(|x| (&x.0, x.1)) {
            let g: Option<CodePair> = match (&w.value, form) {
                (CodePairValue::Binary(b), "binary") if b.len() > 255 => {
                    let mut all = vec![]; let mut small = true;
                    while all.len() < b.len() && k < got.len() && got[k].code == w.code { let q = got[k].assert_binary().unwrap_or_default(); if q.is_empty() { break } small &= q.len() <= 255; all.extend(q); k += 1; }
                    if small { Some(CodePair::new_binary(w.code, all)) } else { None }
                }
                _ => { k += 1; got.get(k - 1).cloned() }
            };
            let exact = c["exact"].as_bool().unwrap_or(true);
            if !g.as_ref().is_some_and(|g| same(w, g, form, exact)) { r.fail(&format!("{}|{}|{}", form, what, c["k"].as_str().unwrap()), json!({"version": ver_i, "wrote": show(Some(w)).chars().take(200).collect::<String>(), "got": show(g.as_ref()).chars().take(200).collect::<String>()})); return }
        }
        if k != got.len() { r.fail(&format!("{}|{}|extra", form, what), json!({"version": ver_i, "wrote": want.len(), "got": got.len()})); }
    };
    check("xrecord", data.clone(), &x.data_pairs);
    check("extension group", inner, &group);
    // what the text file says
    if form == "text" {
        let raw = raw_pairs(&buf);
        let start = raw.iter().position(|p| p.0 == 100 && p.1 == "AcDbXrecord");
        if let Some(s) = start { for (i, (w, c)) in data.iter().enumerate() {
            let got = raw.get(s + 2 + i);
            let want = match c["k"].as_str().unwrap() {
                "double" if c["sure"] == true => c["text"].as_str().unwrap().to_string(),
                "short" | "int" | "long" | "bool" => c["lit"].as_str().unwrap().to_string(),
                "bytes" => match &w.value { CodePairValue::Binary(b) => b.iter().map(|x| format!("{:02X}", x)).collect(), _ => unreachable!() },
                _ => continue,
            };
            if !got.is_some_and(|g| g.0 == w.code && g.1.trim() == want) { r.fail(&format!("text|in the file|{}", c["k"].as_str().unwrap()), json!({"version": ver_i, "wrote": show(Some(w)), "expected": want, "got": got})); return }
        } }
    }
}

pub fn run(cases: &str, r: &mut Report) {
    let mut codes: BTreeMap<String, Vec<i32>> = BTreeMap::new();
    let mut vals: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for c in lines(cases) {
        let k = c["k"].as_str().unwrap().to_string();
        if k == "code" { codes.entry(c["kind"].as_str().unwrap().into()).or_default().push(c["code"].as_i64().unwrap() as i32); } else { vals.entry(k).or_default().push(c); }
    }
    let strs: Vec<Value> = vec![json!({"k": "str", "lit": "x"}), json!({"k": "str", "lit": "5A"})];
    for v in [15usize, 16, 18, 21] { for form in ["text", "binary"] {
        for (kind, cs) in &codes {
            let vs = vals.get(kind).unwrap_or(&strs);
            // every value under every code, one record per value
            for c in vs {
                r.begin(&format!("version {} {} {} {}", v, form, kind, c)); r.cases += 1; r.count(kind);
                let all: Vec<(CodePair, &Value)> = cs.iter().map(|k| (pair(*k, kind, c), c)).collect();
                pairs_case(&all, v, form, r);
            }
            // one record per code, so that nothing depends on neighbours
            for k in cs { for c in vs.iter().step_by((vs.len() / 2).max(1)) {
                r.begin(&format!("version {} {} {} alone {} {}", v, form, kind, k, c)); r.cases += 1;
                pairs_case(&[(pair(*k, kind, c), c)], v, form, r);
            } }
        }
    } }
    typed(&vals, r);
    dates(&vals, r);
}

/// the same values in fields of their own
fn typed(vals: &BTreeMap<String, Vec<Value>>, r: &mut Report) {
    let lits = |k: &str| -> Vec<&Value> { vals.get(k).map_or(vec![], |q| q.iter().collect()) };
    for v in [1usize, 11, 13, 14, 15, 16, 18, 21] { for form in ["text", "binary"] {
        for c in lits("double") {
            r.begin(&format!("version {} {} {}", v, form, c)); r.cases += 1; r.steps += 2; r.count("typed double");
            let x: f64 = c["lit"].as_str().unwrap().parse().unwrap();
            let exact = c["exact"].as_bool().unwrap();
            let mut d = Drawing::new(); d.header.version = ver(v);
            d.header.line_type_scale = x; d.header.insertion_base = Point::new(x, -x, x / 2.0);
            let mut l = tables::LineType::default(); l.name = "L".into(); l.dash_dot_space_lengths = vec![x, -x]; l.element_count = 2; d.add_line_type(l);
            let mut e = Entity::new(EntityType::Line(Line { p1: Point::new(x, -x, 0.0), p2: Point::new(-x, x, 0.0), ..Line::default() }));
            e.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::Real(x), XDataItem::Distance(-x), XDataItem::ScaleFactor(x), XDataItem::ThreeReals(x, -x, x), XDataItem::WorldSpacePosition(Point::new(x, -x, x)), XDataItem::WorldSpaceDisplacement(Point::new(-x, x, -x)), XDataItem::WorldDirection(Vector::new(x, x, -x))] });
            d.add_entity(e);
            let n = match round_trip(&d, form) { Ok(x) => x.1, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
            let mut got: Vec<(&str, f64, f64)> = vec![("header", x, n.header.line_type_scale), ("header point", x, n.header.insertion_base.x), ("header point", -x, n.header.insertion_base.y)];
            match n.line_types().find(|l| l.name == "L") { Some(l) if l.dash_dot_space_lengths.len() == 2 => { got.push(("line type", x, l.dash_dot_space_lengths[0])); got.push(("line type", -x, l.dash_dot_space_lengths[1])); } _ => r.fail(&format!("{}|line type missing", form), json!({"version": v, "value": c})) }
            match n.entities().next() {
                Some(Entity { specific: EntityType::Line(l), common }) => {
                    got.extend([("line", x, l.p1.x), ("line", -x, l.p1.y), ("line", -x, l.p2.x), ("line", x, l.p2.y)]);
                    if v >= 16 {
                        let w = &d.entities().next().unwrap().common.x_data[0].items;
                        let flat = |q: &[XDataItem]| -> Vec<f64> { q.iter().flat_map(|i| match i { XDataItem::Real(a) | XDataItem::Distance(a) | XDataItem::ScaleFactor(a) => vec![*a], XDataItem::ThreeReals(a, b, c) => vec![*a, *b, *c], XDataItem::WorldSpacePosition(p) | XDataItem::WorldSpaceDisplacement(p) => vec![p.x, p.y, p.z], XDataItem::WorldDirection(p) => vec![p.x, p.y, p.z], _ => vec![] }).collect() };
                        let g = common.x_data.first().map_or(vec![], |x| flat(&x.items));
                        let w = flat(w);
                        if g.len() != w.len() { r.fail(&format!("{}|x data", form), json!({"version": v, "value": c, "got": g})); }
                        for (a, b) in w.iter().zip(&g) { got.push(("x data", *a, *b)); }
                    }
                }
                e => r.fail(&format!("{}|line missing", form), json!({"version": v, "value": c, "got": format!("{:?}", e)})),
            }
            for (what, a, b) in got { if !near(a, b, form, exact) { r.fail(&format!("{}|{}", form, what), json!({"version": v, "wrote": a, "got": b})); } }
        }
        if v >= 16 {
            for c in lits("handle") {
                r.begin(&format!("version {} {} {}", v, form, c)); r.cases += 1; r.steps += 2; r.count("typed handle");
                let s = c["lit"].as_str().unwrap();
                let h = Handle(u64::from_str_radix(s, 16).unwrap());
                let mut d = Drawing::new(); d.header.version = ver(v);
                let mut di = Dictionary::default(); di.value_handles.insert("K".into(), h); d.add_object(Object::new(ObjectType::Dictionary(di)));
                let mut e = Entity::new(EntityType::Line(Line::default()));
                e.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::Handle(h)] });
                d.add_entity(e);
                let (buf, n) = match round_trip(&d, form) { Ok(x) => x, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
                let a = n.objects().find_map(|o| if let ObjectType::Dictionary(ref q) = o.specific { q.value_handles.get("K").cloned() } else { None });
                let b = n.entities().next().and_then(|e| e.common.x_data.first().and_then(|x| x.items.first().cloned()));
                if a != Some(h) { r.fail(&format!("{}|dictionary handle", form), json!({"version": v, "wrote": s, "got": a.map(|x| x.as_string())})); }
                if b != Some(XDataItem::Handle(h)) { r.fail(&format!("{}|x data handle", form), json!({"version": v, "wrote": s, "got": format!("{:?}", b)})); }
                if h.as_string() != s { r.fail("handle as text", json!({"wrote": s, "got": h.as_string()})); }
                if form == "text" && !raw_pairs(&buf).iter().any(|p| p.0 == 1005 && p.1.trim() == s) { r.fail("text|in the file|handle", json!({"version": v, "wrote": s})); }
            }
            for c in lits("bytes") {
                r.begin(&format!("version {} {} {}", v, form, c)); r.cases += 1; r.steps += 2; r.count("typed bytes");
                let n = c["lit"].as_u64().unwrap() as usize;
                let data = bytes(n, 3);
                let mut d = Drawing::new(); d.header.version = ver(v);
                let mut e = Entity::new(EntityType::Line(Line::default()));
                e.common.x_data.push(XData { application_name: "A".into(), items: vec![XDataItem::BinaryData(data.clone())] });
                if n > 0 { e.common.preview_image_data.push(data.clone()); }
                d.add_entity(e);
                let l = match round_trip(&d, form) { Ok(x) => x.1, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "bytes": n, "got": e})); continue } };
                let b = l.entities().next().and_then(|e| e.common.x_data.first().and_then(|x| x.items.first().cloned()));
                if b != Some(XDataItem::BinaryData(data.clone())) { r.fail(&format!("{}|x data bytes", form), json!({"version": v, "bytes": n})); }
                let p: Vec<u8> = l.entities().next().map_or(vec![], |e| e.common.preview_image_data.concat());
                if p != data { r.fail(&format!("{}|preview bytes", form), json!({"version": v, "bytes": n, "got": p.len()})); }
            }
            for (kind, c) in lits("short").iter().map(|c| ("short", c)).chain(lits("int").iter().map(|c| ("int", c))) {
                r.begin(&format!("version {} {} {} {}", v, form, kind, c)); r.cases += 1; r.steps += 2; r.count("typed int");
                let s = c["lit"].as_str().unwrap();
                let item = if kind == "short" { XDataItem::Integer(s.parse().unwrap()) } else { XDataItem::Long(s.parse().unwrap()) };
                let mut d = Drawing::new(); d.header.version = ver(v);
                let mut e = Entity::new(EntityType::Line(Line::default()));
                e.common.x_data.push(XData { application_name: "A".into(), items: vec![item.clone()] });
                d.add_entity(e);
                let l = match round_trip(&d, form) { Ok(x) => x.1, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
                let b = l.entities().next().and_then(|e| e.common.x_data.first().and_then(|x| x.items.first().cloned()));
                if b != Some(item) { r.fail(&format!("{}|x data integer", form), json!({"version": v, "wrote": s, "got": format!("{:?}", b)})); }
            }
        }
        for c in lits("short") { // colors and weights carry any 16 bit number
            r.begin(&format!("version {} {} color {}", v, form, c)); r.cases += 1; r.steps += 2;
            let s: i16 = c["lit"].as_str().unwrap().parse().unwrap();
            let mut d = Drawing::new(); d.header.version = ver(v);
            let mut e = Entity::new(EntityType::Line(Line::default()));
            e.common.color = serde_json::from_value(json!({"raw_value": s})).expect("color");
            e.common.lineweight_enum_value = s;
            d.add_entity(e);
            let l = match round_trip(&d, form) { Ok(x) => x.1, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
            let e = match l.entities().next() { Some(e) => e, None => { r.fail(&format!("{}|line missing", form), json!({"version": v, "value": c})); continue } };
            let got = serde_json::to_value(&e.common.color).unwrap()["raw_value"].as_i64(); if got != Some(s as i64) { r.fail(&format!("{}|color", form), json!({"version": v, "wrote": s, "got": got})); }
            if v >= 16 && e.common.lineweight_enum_value != s { r.fail(&format!("{}|line weight", form), json!({"version": v, "wrote": s, "got": e.common.lineweight_enum_value})); }
        }
    } }
    let _ = AcadVersion::R12;
}

fn dates(vals: &BTreeMap<String, Vec<Value>>, r: &mut Report) {
    let epoch = NaiveDate::from_ymd_opt(1900, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap();
    for v in [15usize, 16, 17, 21] { for form in ["text", "binary"] {
        for c in vals.get("date").unwrap_or(&vec![]) {
            r.begin(&format!("version {} {} {}", v, form, c)); r.cases += 1; r.steps += 2; r.count("date");
            let t = epoch + chrono::Duration::days(c["day"].as_i64().unwrap()) + chrono::Duration::seconds(c["sec"].as_i64().unwrap());
            let (lo, ut) = match Local.from_local_datetime(&t) { chrono::LocalResult::Single(l) => (l, Utc.from_utc_datetime(&t)), _ => continue };
            let mut d = Drawing::new(); d.header.version = ver(v);
            d.header.creation_date = lo; d.header.update_date = lo; d.header.creation_date_universal = ut; d.header.update_date_universal = ut;
            d.add_object(Object::new(ObjectType::SunStudy(SunStudy { dates: vec![lo, lo], ..SunStudy::default() })));
            let (buf, n) = match round_trip(&d, form) { Ok(x) => x, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
            if n.header.creation_date != lo || (v >= 14 && n.header.update_date != lo) { r.fail(&format!("{}|date", form), json!({"version": v, "wrote": lo.to_string(), "got": n.header.creation_date.to_string(), "updated": n.header.update_date.to_string()})); }
            if v >= 16 && (n.header.creation_date_universal != ut || n.header.update_date_universal != ut) { r.fail(&format!("{}|universal date", form), json!({"version": v, "wrote": ut.to_string(), "got": n.header.creation_date_universal.to_string()})); }
            if form == "text" {
                let raw = raw_pairs(&buf);
                let want = c["julian"].as_f64().unwrap() + c["sec"].as_f64().unwrap() / 86400.0;
                for name in ["$TDCREATE", "$TDUCREATE"] { if let Some(i) = raw.iter().position(|p| p.0 == 9 && p.1 == name) {
                    let got: f64 = raw[i + 1].1.trim().parse().unwrap_or(f64::NAN);
                    let off = if name == "$TDCREATE" { 0.0 } else { 0.0 };
                    if !((got - want - off).abs() < 1e-6) { r.fail(&format!("text|{} in the file", name), json!({"version": v, "wrote": t.to_string(), "expected": want, "got": raw[i + 1].1})); }
                } }
            }
        }
        for c in vals.get("span").unwrap_or(&vec![]) {
            r.begin(&format!("version {} {} {}", v, form, c)); r.cases += 1; r.steps += 2; r.count("span");
            let s = std::time::Duration::from_secs(c["lit"].as_u64().unwrap());
            let mut d = Drawing::new(); d.header.version = ver(v);
            d.header.time_in_drawing = s; d.header.user_elapsed_timer = s;
            let n = match round_trip(&d, form) { Ok(x) => x.1, Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "value": c, "got": e})); continue } };
            if n.header.time_in_drawing != s || n.header.user_elapsed_timer != s { r.fail(&format!("{}|time span", form), json!({"version": v, "wrote": format!("{:?}", s), "got": format!("{:?} {:?}", n.header.time_in_drawing, n.header.user_elapsed_timer)})); }
        }
    } }
}
