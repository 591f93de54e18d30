// Replays the objects of Containers.tla: built through the API, saved, compared with the predicted pairs, loaded
// again; and read from a file made of the predicted pairs.
use crate::factory;
use crate::reader::kind;
use crate::util::*;
use dxf::objects::*;
use dxf::*;
use serde_json::{json, Map, Value};

fn n(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap() }
/// the pair value of a leaf, as text
fn text(v: &Value) -> String {
    let t = v["t"].as_str().unwrap();
    match t {
        "const" => return v["s"].as_str().unwrap().into(),
        "n" => return n(v, "k").to_string(),
        "comp" => return format!("{:?}", point(&v["of"])[n(v, "c") as usize - 1]),
        "piece" => return (n(v, "from")..n(v, "to")).map(|i| format!("{:02X}", byte(i))).collect(),
        _ => (),
    }
    match (t, json_of(v)) {
        ("handle", j) => format!("{:X}", j.as_u64().unwrap()),
        ("str" | "open" | "close", j) => j.as_str().unwrap().into(),
        ("bool", j) => (if j == true { "1" } else { "0" }).into(),
        ("color", j) => j["raw_value"].to_string(),
        ("f64", j) => format!("{:?}", j.as_f64().unwrap()),
        ("bytes", j) => j.as_array().unwrap().iter().map(|b| format!("{:02X}", b.as_u64().unwrap())).collect(),
        (_, j) => j.to_string(),
    }
}
fn byte(i: i64) -> u8 { ((i * 7 + 3) % 256) as u8 }
fn point(v: &Value) -> [f64; 3] {
    let (e, j) = (n(v, "e") as f64, n(v, "j") as f64);
    if e == 0.0 { [0.0; 3] } else { [e + 0.25, -j, e * 10.0 + j] }
}
/// the value of a leaf as the library serialises it
fn json_of(v: &Value) -> Value {
    let (t, e, j) = (v["t"].as_str().unwrap(), n(v, "e"), n(v, "j"));
    let k = e * 100 + j;
    let zero = e == 0;
    match t {
        "i16" => json!(if zero { 0 } else { k }),
        "i32" => json!(if zero { 0 } else { 70000 + k }),
        "i64" => json!(if zero { 0 } else { (1i64 << 40) + k }),
        "f64" => json!(if zero { 0.0 } else { k as f64 + 0.5 }),
        "str" => json!(if zero { String::new() } else { format!("s{}.{}", e, j) }),
        "bool" => json!(!zero && (e + j) % 2 == 1),
        "color" => json!({"raw_value": if zero { 0 } else { 1 + (e * 31 + j * 7) % 255 }}),
        "handle" => json!(if zero { 0 } else { 0x1000 + k }),
        "bytes" => json!(if zero { vec![] } else { vec![e as u8, j as u8, 0, 255] }),
        "open" => json!("{GRP"),
        "close" => json!("}"),
        "p2" | "p3" => { let p = point(v); json!({"x": p[0], "y": p[1], "z": p[2]}) }
        _ => panic!("leaf {}", t),
    }
}
/// a structure of leaves as the library serialises it
fn deep(v: &Value) -> Value {
    match v {
        Value::Array(q) => Value::Array(q.iter().map(deep).collect()),
        Value::Object(m) if m.contains_key("t") && m.contains_key("e") => json_of(v),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), deep(v))).collect::<Map<_, _>>()),
        _ => v.clone(),
    }
}
fn pair(c: i32, s: &str) -> CodePair {
    match kind(c) {
        'd' => CodePair::new_f64(c, s.parse().unwrap()),
        'i' => CodePair::new_i16(c, s.parse().unwrap()),
        'l' => CodePair::new_i32(c, s.parse().unwrap()),
        'q' => CodePair::new_i64(c, s.parse().unwrap()),
        'b' => CodePair::new_bool(c, s == "1"),
        'x' => CodePair::new_binary(c, (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()),
        _ => CodePair::new_str(c, s),
    }
}
fn leaf(t: &str, e: i64, j: i64) -> Value { json_of(&json!({"t": t, "e": e, "j": j})) }
const DUP: [&str; 6] = ["NotApplicable", "KeepExisting", "UseClone", "UpdateXrefAndName", "UpdateName", "UnmangleName"];
fn kind_of(what: &str) -> &'static str {
    match what { "datatable" => "DataTable", "dict" => "Dictionary", "dictdef" => "DictionaryWithDefault", "sections" => "SectionSettings", "tablestyle" => "TableStyle", "xrecord" => "XRecordObject",
        "lights" => "LightList", "proxy" => "AcadProxyObject", "sortents" => "SortentsTable", _ => "VbaProject" }
}
fn build(what: &str, o: &Value) -> Result<ObjectType, String> {
    let name = kind_of(what);
    let def = factory::object(name).ok_or("kind")?;
    if what == "xrecord" {
        let ObjectType::XRecordObject(mut x) = def else { return Err("kind".into()) };
        x.duplicate_record_handling = dxf::enums::DictionaryDuplicateRecordHandling::KeepExisting;
        x.data_pairs = o["q"].as_array().unwrap().iter().map(|p| pair(n(p, "c") as i32, &text(&p["v"]))).collect();
        return Ok(ObjectType::XRecordObject(x));
    }
    let mut v = serde_json::to_value(&def).map_err(|e| e.to_string())?;
    let m = v.as_object_mut().unwrap().values_mut().next().unwrap();
    match what {
        "datatable" => {
            let (kinds, rows) = (o["kinds"].as_array().unwrap(), o["rows"].as_array().unwrap());
            m["field"] = leaf("i16", 8, 1);
            m["name"] = leaf("str", 8, 2);
            m["column_count"] = json!(kinds.len());
            m["row_count"] = json!(rows.len());
            m["column_names"] = (0..kinds.len()).map(|k| leaf("str", 7, k as i64 + 1)).collect();
            m["values"] = rows.iter().map(|r| r.as_array().unwrap().iter().map(|x| json!({(match x["t"].as_str().unwrap() { "bool" => "Boolean", "i32" => "Integer", "f64" => "Double", "str" => "Str", "p2" => "Point2D", "p3" => "Point3D", _ => "Handle" }): json_of(x)})).collect::<Value>()).collect();
        }
        "dict" | "dictdef" => {
            m["duplicate_record_handling"] = json!(DUP[n(o, "dup") as usize]);
            if what == "dict" { m["is_hard_owner"] = o["hard"].clone(); } else { m["default_handle"] = json_of(&o["dflt"]); }
            m["value_handles"] = Value::Object(o["m"].as_array().unwrap().iter().map(|x| (x["k"].as_str().unwrap().to_string(), json_of(&x["v"]))).collect());
        }
        "sections" => { m["section_type"] = json_of(&o["ty"]); m["geometry_settings"] = deep(&o["q"]); }
        "tablestyle" => {
            m["description"] = leaf("str", 8, 2);
            m["horizontal_cell_margin"] = leaf("f64", 8, 3);
            m["vertical_cell_margin"] = leaf("f64", 8, 4);
            m["is_title_suppressed"] = json!(true);
            m["cell_styles"] = deep(&o["q"]);
        }
        "proxy" => { m["object_ids"] = deep(&o["ids"]); m["binary_object_data"] = json!([leaf("bytes", 1, 1)]); m["size_in_bits"] = json!(8); }
        "lights" => { m["version"] = leaf("i32", 8, 1); m["__lights_handle"] = deep(&o["q"]); }
        "sortents" => {
            let f = |k: &str| o["q"].as_array().unwrap().iter().map(|x| json_of(&x[k])).collect::<Value>();
            m["__entities_handle"] = f("a");
            m["__sort_items_handle"] = f("b");
        }
        _ => m["data"] = (0..n(o, "len")).map(|i| json!(byte(i))).collect(),
    }
    serde_json::from_value(v.clone()).map_err(|e| format!("{}: {}", e, v))
}
fn strip(v: &mut Value) {
    match v {
        Value::Array(q) => q.iter_mut().for_each(strip),
        Value::Object(m) => { m.remove("offset"); m.values_mut().for_each(strip) }
        _ => (),
    }
}
/// what a user sees of the object
fn view(o: &ObjectType) -> Value { let mut v = serde_json::to_value(o).unwrap(); strip(&mut v); v }
/// up to what the version carries
fn carried(what: &str, o: &Value, ver: usize, v: &mut Value) {
    let m = v.as_object_mut().unwrap().values_mut().next().unwrap();
    match what {
        "datatable" if o["rows"].as_array().unwrap().is_empty() => { let k = m["column_count"].as_u64().unwrap() as usize; m["column_names"] = json!(vec![""; k]); }
        "dict" | "dictdef" if ver < 16 => { m["duplicate_record_handling"] = Value::Null; if what == "dict" { m["is_hard_owner"] = Value::Null; } }
        "tablestyle" if ver < 19 => m["version"] = Value::Null,
        "vba" => m["__hex_data"] = Value::Null,
        _ => (),
    }
}
fn drawing(objs: &[ObjectType], v: usize) -> Drawing {
    let mut d = Drawing::new();
    d.clear();
    d.header.version = ver(v);
    for o in objs { d.add_object(Object::new(o.clone())); }
    d
}
fn save(d: &Drawing, text: bool) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    if text { d.save(&mut b) } else { d.save_binary(&mut b) }.map_err(|e| format!("save: {}", e))?;
    Ok(b)
}
fn load(b: &[u8]) -> Result<Drawing, String> { Drawing::load(&mut &b[..]).map_err(|e| format!("load: {}", e)) }
/// the records of the objects section of a text file
fn records(b: &[u8]) -> Vec<Vec<(i32, String)>> {
    let mut out: Vec<Vec<(i32, String)>> = vec![];
    let (mut inside, mut last) = (false, String::new());
    for (c, v) in raw_pairs(b) {
        if c == 2 && last == "SECTION" && v == "OBJECTS" { inside = true; last.clear(); continue }
        if c == 0 { last = v.clone(); if v == "ENDSEC" { inside = false; } else if inside { out.push(vec![]); } }
        if inside { if let Some(q) = out.last_mut() { q.push((c, v)); } }
    }
    out
}
fn same(c: i32, t: &str, a: &str, b: &str) -> bool {
    match kind(c) {
        'd' => a.trim().parse::<f64>().ok() == b.trim().parse::<f64>().ok(),
        'i' | 'l' | 'q' | 'b' => a.trim().parse::<i64>().ok() == b.trim().parse::<i64>().ok(),
        'x' => a.eq_ignore_ascii_case(b),
        _ if t == "handle" => u64::from_str_radix(a.trim(), 16).ok() == u64::from_str_radix(b.trim(), 16).ok(),
        _ => a == b,
    }
}
fn compare_wire(rec: &[(i32, String)], wire: &[Value]) -> Option<String> {
    let at = rec.iter().position(|p| p.0 == 100)?;
    let got = &rec[at..];
    for (k, w) in wire.iter().enumerate() {
        let (c, t) = (n(w, "c") as i32, text(&w["v"]));
        match got.get(k) {
            Some((gc, gv)) if *gc == c && same(c, w["v"]["t"].as_str().unwrap(), &t, gv) => (),
            g => return Some(format!("pair {}: expected {} {:?}, got {:?}", k, c, t, g)),
        }
    }
    if got.len() != wire.len() { return Some(format!("extra pair {:?}", got[wire.len()])) }
    None
}

pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    let mut prev: Option<(String, ObjectType)> = None;
    for c in lines(cases) {
        let (what, v, o) = (c["what"].as_str().unwrap(), n(&c, "ver") as usize, &c["obj"]);
        let wire = c["wire"].as_array().unwrap();
        let short = { let s = o.to_string(); if s.len() > 1500 { format!("{}...", s.chars().take(1500).collect::<String>()) } else { s } };
        r.begin(&format!("{} v{} {}", what, v, short.chars().take(300).collect::<String>()));
        r.cases += 1; r.count(what);
        let obj = match guard(|| build(what, o)) { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { r.fail(&format!("{}|build", what), json!({"object": short, "got": e})); continue } };
        let mut want = view(&obj);
        carried(what, o, v, &mut want);
        let mut list = vec![];
        if let Some((w, p)) = &prev { if w == what { list.push(p.clone()); } }
        let at = list.len();
        list.extend([obj.clone(), ObjectType::Group(Group::default()), obj.clone()]);
        let detail = |got: String| json!({"object": short, "version": v, "got": got});
        let d = drawing(&list, v);
        for mode in modes {
            r.steps += 1;
            let check = |n: &Drawing| -> Option<String> {
                let got: Vec<&Object> = n.objects().collect();
                if got.len() != list.len() { return Some(format!("{} objects, expected {}", got.len(), list.len())) }
                for i in [at, at + 2] {
                    let mut g = view(&got[i].specific);
                    if g.as_object().map(|m| m.keys().next().cloned()) != want.as_object().map(|m| m.keys().next().cloned()) { return Some(format!("object {} is {}", i, g)) }
                    carried(what, o, v, &mut g);
                    if g != want { return Some(format!("object {}: expected {}, got {}", i, want, g)) }
                }
                if !matches!(got[at + 1].specific, ObjectType::Group(_)) { return Some("the object after it".into()) }
                None
            };
            let site = format!("{}|{}", what, mode);
            if what == "proxy" && !matches!(*mode, "text" | "binary") { continue } // written in one way, which Records.tla covers
            match *mode {
                "text" | "binary" => {
                    match guard(|| save(&d, *mode == "text").and_then(|b| load(&b))) {
                        Ok(Ok(n)) => if let Some(g) = check(&n) { r.fail(&site, detail(g)); },
                        Ok(Err(e)) | Err(e) => r.fail(&site, detail(e)),
                    }
                    // a file made of the predicted pairs
                    if let Ok(Ok(b)) = guard(|| save(&d, true)) {
                        let mut pairs: Vec<(i32, String)> = vec![];
                        let mut s = |c: i32, v: &str| pairs.push((c, v.to_string()));
                        let acad = ["AC1009", "AC1012", "AC1014", "AC1015", "AC1018", "AC1021", "AC1024", "AC1027", "AC1032"][v - 13];
                        for (c, v) in [(0, "SECTION"), (2, "HEADER"), (9, "$ACADVER"), (1, acad), (0, "ENDSEC"), (0, "SECTION"), (2, "OBJECTS")] { s(c, v); }
                        let name = records(&b).get(at).and_then(|q| q.first().map(|p| p.1.clone())).unwrap_or_default();
                        for i in 0..list.len() {
                            if i == at || i == at + 2 { s(0, &name); s(5, &format!("{:X}", 0x50 + i)); s(330, "0"); for w in wire { s(n(w, "c") as i32, &text(&w["v"])); } }
                            else { s(0, "GROUP"); s(5, &format!("{:X}", 0x50 + i)); }
                        }
                        s(0, "ENDSEC"); s(0, "EOF");
                        let bytes = if *mode == "text" { text_of(&pairs) } else { match crate::reader::binary(&pairs, true) { Some(b) => b, None => { r.fail(&format!("{}|pairs", what), detail("no binary form".into())); continue } } };
                        r.steps += 1;
                        match guard(|| load(&bytes)) {
                            Ok(Ok(n)) => if let Some(g) = check(&n) { r.fail(&format!("{}|given", site), detail(g)); },
                            Ok(Err(e)) | Err(e) => r.fail(&format!("{}|given", site), detail(e)),
                        }
                    }
                }
                "noise" | "cut" => {
                    let strange = c["strange"].as_array().unwrap();
                    let b = match guard(|| save(&d, true)) { Ok(Ok(b)) => b, Ok(Err(e)) | Err(e) => { r.fail(&site, detail(e)); continue } };
                    let ps = raw_pairs(&b);
                    // the last record of the objects section is the object
                    let end = match (0..ps.len()).rev().find(|&i| ps[i].0 == 0 && ps[i].1 == "ENDSEC" && i + 1 < ps.len() && (ps[i + 1].1 == "EOF" || ps[i + 1].1 == "SECTION") && ps[..i].iter().any(|p| p.1 == "OBJECTS")) { Some(i) => i, None => continue };
                    let start = (0..end).rev().find(|&i| ps[i].0 == 0).unwrap() + 1;
                    let all: Vec<usize> = if *mode == "noise" || o.to_string().len() < 600 { (start..=end).collect() } else { vec![start + (v * 7 + ps.len()) % (end - start + 1)] };
                    for at in all {
                        if *mode == "cut" {
                            if let Ok(Ok(_)) = guard(|| load(&text_of(&ps[..at]))) { r.fail(&site, detail(format!("input that ends after {:?} accepted", ps[at - 1]))); break }
                            continue;
                        }
                        if strange.is_empty() { break }
                        let mut q = ps[..at].to_vec();
                        let w = &strange[(at + v) % strange.len()];
                        q.push((n(w, "c") as i32, text(&w["v"])));
                        q.extend_from_slice(&ps[at..]);
                        let bad = match guard(|| load(&text_of(&q))) { Ok(Ok(n)) => check(&n), Ok(Err(e)) | Err(e) => Some(e) };
                        if let Some(g) = bad { r.fail(&site, detail(format!("with {:?} between {:?} and {:?}: {}", q[at], ps[at - 1], ps[at], g))); break }
                    }
                }
                "wire" => match guard(|| save(&d, true)) {
                    Ok(Ok(b)) => {
                        let rs = records(&b);
                        if rs.len() != list.len() { r.fail(&site, detail(format!("{} records, expected {}", rs.len(), list.len()))); continue }
                        for i in [at, at + 2] { if let Some(g) = compare_wire(&rs[i], wire) { r.fail(&site, detail(g)); break } }
                    }
                    Ok(Err(e)) | Err(e) => r.fail(&site, detail(e)),
                },
                _ => {
                    for text in [true, false] {
                        let res = guard(|| -> Result<Option<String>, String> {
                            let (a, b) = (save(&d, text)?, save(&d.clone(), text)?);
                            if a != b { return Ok(Some("saving twice gives different files".into())) }
                            // a dictionary made in another order is the same dictionary
                            let e = save(&drawing(&list.iter().map(|o| serde_json::from_value(serde_json::to_value(o).unwrap()).unwrap()).collect::<Vec<ObjectType>>(), v), text)?;
                            if body(&a) != body(&e) { return Ok(Some("an equal object gives a different file".into())) }
                            let once = save(&load(&a)?, text)?;
                            let twice = save(&load(&once)?, text)?;
                            if once != twice { return Ok(Some("load and save are not a fixed point".into())) }
                            Ok(None)
                        });
                        match res { Ok(Ok(None)) => (), Ok(Ok(Some(e))) | Ok(Err(e)) | Err(e) => { r.fail(&site, detail(e)); break } }
                    }
                }
            }
        }
        prev = Some((what.to_string(), obj));
    }
}
/// two drawings made separately differ in their time stamps and identifiers, which the header carries
fn body(b: &[u8]) -> &[u8] {
    let at = b.windows(6).position(|w| w == b"ENDSEC").unwrap_or(0);
    &b[at..]
}
