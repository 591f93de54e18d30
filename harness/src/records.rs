// Replays the behaviours of Records.tla (assign, save, load, save again) into the library.
use crate::factory;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub struct Field { n: String, ks: Vec<String>, multi: bool, st: bool, d: Value }
pub struct Kind { tstr: String, nowire: bool, noise: Vec<(i32, String)>, fields: Vec<Field> }

fn scalar(tok: &str) -> Value {
    let (p, r) = tok.split_at(2);
    match p {
        "f:" => json!(r.parse::<f64>().unwrap()),
        "i:" => json!(r.parse::<i64>().unwrap()),
        "b:" => json!(r == "true"),
        "h:" => json!(u64::from_str_radix(r, 16).unwrap()),
        "x:" => Value::Array((0..r.len() / 2).map(|i| json!(u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap())).collect()),
        "D:" => json!({"secs": r.parse::<u64>().unwrap(), "nanos": 0}),
        _ => json!(r),
    }
}
fn put(v: &mut Value, path: &str, x: Value) {
    let mut cur = v;
    for p in path.split('.') {
        if !cur.is_object() { *cur = Value::Object(Map::new()); }
        cur = cur.as_object_mut().unwrap().entry(p.to_string()).or_insert(Value::Null);
    }
    *cur = x;
}
pub fn get<'a>(v: &'a Value, path: &str) -> Option<&'a Value> {
    let mut cur = v;
    for p in path.split('.') { cur = cur.get(p)?; }
    Some(cur)
}
fn elem(f: &Field, e: &Value, dflt: &Value) -> Value {
    let toks: Vec<&str> = e.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    if f.ks.is_empty() { return scalar(toks[0]); }
    let mut o = Value::Object(Map::new());
    if !f.multi && dflt.is_object() { o = dflt.clone(); }
    else if f.ks.contains(&"x".to_string()) && !f.ks.contains(&"bulge".to_string()) { put(&mut o, "x", json!(0.0)); put(&mut o, "y", json!(0.0)); put(&mut o, "z", json!(0.0)); }
    if f.ks.contains(&"source.x".to_string()) {
        for p in ["source", "destination"] { for c in ["x", "y", "z"] { put(&mut o, &format!("{}.{}", p, c), json!(0.0)); } }
    }
    for (k, t) in f.ks.iter().zip(toks) { put(&mut o, k, scalar(t)); }
    o
}
fn to_json(f: &Field, val: &Value, dflt: &Value) -> Value {
    let a = val.as_array().unwrap();
    if f.ks.first().map_or(false, |k| k == "@k") { // a map
        return Value::Object(a.iter().map(|e| (e[0].as_str().unwrap()[2..].to_string(), scalar(e[1].as_str().unwrap()))).collect());
    }
    if f.multi { Value::Array(a.iter().map(|e| elem(f, e, dflt)).collect()) } else { elem(f, &a[0], dflt) }
}
/// drop internal bookkeeping that is not part of the observable value
pub fn strip(v: &mut Value) {
    if let Value::Object(m) = v {
        let ks: Vec<String> = m.keys().filter(|k| k.starts_with("__") && !k.ends_with("_handle")).cloned().collect();
        for k in ks { m.remove(&k); }
        for (_, x) in m.iter_mut() { strip(x); }
    } else if let Value::Array(a) = v { for x in a { strip(x); } }
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        // text files hold twelve decimals
        (Value::Number(x), Value::Number(y)) => if x.is_f64() || y.is_f64() { let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap()); p == q || (p - q).abs() <= 6e-13 } else { x == y },
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same(p, q))),
        _ => a == b,
    }
}
/// first-level differences, one per field
pub fn diff(exp: &Value, got: &Value, pre: &str, out: &mut Vec<(String, Value, Value)>) {
    if let (Value::Object(a), Value::Object(b)) = (exp, got) {
        for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
            let (x, y) = (a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null));
            let p = if pre.is_empty() { k.clone() } else { format!("{}.{}", pre, k) };
            if k == "common" || k == "dimension_base" { diff(x, y, &p, out); }
            else if !same(x, y) { out.push((p, x.clone(), y.clone())); }
        }
    } else if !same(exp, got) { out.push((pre.to_string(), exp.clone(), got.clone())); }
}

pub enum Item { E(Entity), O(Object), T(&'static str, Value), H(Header) }
const TABLES: [&str; 9] = ["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort"];

fn default_json(key: &str) -> Value {
    let (g, n) = if key == "H" { ("H", "") } else { (&key[..1], &key[2..]) };
    match g {
        "E" => serde_json::to_value(Entity::new(factory::entity(n).unwrap())).unwrap(),
        "O" => serde_json::to_value(Object::new(factory::object(n).unwrap())).unwrap(),
        "T" => table_default(n),
        _ => serde_json::to_value(Header::default()).unwrap(),
    }
}
macro_rules! tables { ($m:ident) => { $m!(AppId, add_app_id, app_ids); $m!(BlockRecord, add_block_record, block_records); $m!(DimStyle, add_dim_style, dim_styles); $m!(Layer, add_layer, layers); $m!(LineType, add_line_type, line_types); $m!(Style, add_style, styles); $m!(Ucs, add_ucs, ucss); $m!(View, add_view, views); $m!(ViewPort, add_view_port, view_ports); } }
fn table_default(n: &str) -> Value {
    macro_rules! d { ($t:ident, $a:ident, $i:ident) => { if n == stringify!($t) { return serde_json::to_value($t::default()).unwrap(); } } }
    tables!(d);
    panic!("table {}", n)
}
/// The part of the JSON that holds the record's own fields.
fn body<'a>(key: &str, v: &'a mut Value) -> &'a mut Value {
    if key.starts_with("E.") || key.starts_with("O.") { v.get_mut("specific").unwrap().get_mut(&key[2..]).unwrap() } else { v }
}
fn patch(key: &str, v: &mut Value, f: &Field, x: Value) {
    if f.n.starts_with("common.") { put(v, &f.n, x) } else { put(body(key, v), &f.n, x) }
}
fn field_of(key: &str, v: &mut Value, f: &Field) -> Value {
    (if f.n.starts_with("common.") { get(v, &f.n) } else { get(body(key, v), &f.n) }).cloned().unwrap_or(Value::Null)
}
fn make(key: &str, v: Value) -> Result<Item, String> {
    Ok(match &key[..1] {
        "E" => Item::E(serde_json::from_value(v).map_err(|e| e.to_string())?),
        "O" => Item::O(serde_json::from_value(v).map_err(|e| e.to_string())?),
        "T" => { let n = TABLES.iter().find(|t| **t == &key[2..]).unwrap(); Item::T(n, v) }
        _ => Item::H(serde_json::from_value(v).map_err(|e| e.to_string())?),
    })
}
fn empty(v: usize) -> Drawing { let mut d = Drawing::new(); d.clear(); d.header = Header::default(); d.header.version = ver(v); d }
fn build(v: usize, item: &Item) -> Drawing {
    let mut d = empty(v);
    match item {
        Item::E(e) => { d.add_entity(e.clone()); }
        Item::O(o) => { d.add_object(o.clone()); }
        Item::T(n, j) => {
            macro_rules! a { ($t:ident, $a:ident, $i:ident) => { if *n == stringify!($t) { d.$a(serde_json::from_value::<$t>(j.clone()).unwrap()); } } }
            tables!(a);
        }
        Item::H(h) => { d.header = h.clone(); d.header.version = ver(v); d.header.next_available_handle = Handle(1); }
    }
    d
}
/// the items of the kind in the drawing, as JSON
fn fetch(key: &str, d: &Drawing, name: &Value) -> Vec<Value> {
    match &key[..1] {
        "E" => d.entities().map(|e| serde_json::to_value(e).unwrap()).filter(|v| v["specific"].get(&key[2..]).is_some()).collect(),
        "O" => d.objects().map(|e| serde_json::to_value(e).unwrap()).filter(|v| v["specific"].get(&key[2..]).is_some()).collect(),
        "T" => {
            let n = &key[2..];
            macro_rules! f { ($t:ident, $a:ident, $i:ident) => { if n == stringify!($t) { return d.$i().map(|x| serde_json::to_value(x).unwrap()).filter(|x| x["name"] == *name).collect(); } } }
            tables!(f);
            unreachable!()
        }
        _ => vec![serde_json::to_value(&d.header).unwrap()],
    }
}
pub fn view(key: &str, v: &Value) -> Value {
    let mut o = if key.starts_with("E.") || key.starts_with("O.") {
        let mut m = v["specific"][&key[2..]].clone();
        if !m.is_object() { m = json!({}); }
        m["common"] = v["common"].clone();
        m
    } else { v.clone() };
    strip(&mut o);
    for p in ["handle", "version", "next_available_handle"] { if let Some(m) = o.as_object_mut() { m.remove(p); } }
    if let Some(m) = o.get_mut("common").and_then(|c| c.as_object_mut()) { m.remove("handle"); }
    if o.get("__seqend_handle").is_some() { o["__seqend_handle"] = json!(0); } // a handle of its own, like "handle"
    o
}
fn wire_of(bytes: &[u8], tstr: &str, key: &str, name: &str) -> Vec<Vec<(i32, String)>> {
    // records of the type (their pairs after the 0 pair)
    let ps = raw_pairs(bytes);
    let sects: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].0 == 0 && ps[*i].1 == "SECTION" && ps.get(i + 1).map_or(false, |p| p.0 == 2 && p.1.chars().all(|c| c.is_ascii_uppercase()))).collect();
    if key == "H" {
        let mut out = vec![]; let mut on = false;
        for (c, v) in ps { if c == 2 && v == "HEADER" { on = true; continue; } if c == 0 && on { break; } if on { out.push((c, v)); } }
        return vec![out];
    }
    let sect = match &key[..1] { "E" => "ENTITIES", "O" => "OBJECTS", _ => "TABLES" };
    let mut out: Vec<Vec<(i32, String)>> = vec![];
    let mut cur: Option<Vec<(i32, String)>> = None; let mut insect = ""; let mut at = usize::MAX;
    for (i, (c, v)) in ps.into_iter().enumerate() {
        if c == 0 {
            if let Some(x) = cur.take() { out.push(x); }
            if sects.contains(&i) { insect = ""; at = i; }
            else if insect == sect && v == tstr { cur = Some(vec![]); }
        } else if i == at.wrapping_add(1) { insect = if v == sect { sect } else { "x" }; }
        else if let Some(x) = cur.as_mut() { x.push((c, v)); }
    }
    if key.starts_with("T.") { out.retain(|r| r.iter().any(|(c, v)| *c == 2 && v == name)); }
    out
}
/// Where the record stands in the file: the index of its first pair after the 0 pair, and of the 0 pair that ends it.
fn span_of(ps: &[(i32, String)], tstr: &str, key: &str, name: &str) -> Option<(usize, usize)> {
    let want = match &key[..1] { "E" => "ENTITIES", "O" => "OBJECTS", "T" => "TABLES", _ => "HEADER" };
    let start = (0..ps.len().saturating_sub(1)).find(|&i| ps[i].0 == 0 && ps[i].1 == "SECTION" && ps[i + 1].0 == 2 && ps[i + 1].1 == want)? + 2;
    let next = |i: usize| (i..ps.len()).find(|&j| ps[j].0 == 0);
    if key == "H" { return Some((start, next(start)?)); }
    let mut i = next(start)?;
    while ps[i].1 != "ENDSEC" {
        let e = next(i + 1)?;
        if ps[i].1 == tstr && (!key.starts_with("T.") || ps[i + 1..e].iter().any(|(c, v)| *c == 2 && v == name)) { return Some((i + 1, e)); }
        i = e;
    }
    None
}
fn tok_matches(w: &str, code: i32, v: &str) -> bool {
    if w == "*" { return true; }
    if w.len() < 2 { return false; }
    let (p, r) = w.split_at(2);
    match p {
        "f:" => v.trim().parse::<f64>().map_or(false, |x| (x - r.parse::<f64>().unwrap()).abs() <= 6e-13) && v.contains(|c| c == '.' || c == 'e' || c == 'E'),
        "i:" => v.trim().parse::<i64>().ok() == r.parse::<i64>().ok(),
        "x:" => v == r,
        "s:" => v == r,
        "*" => true,
        _ => { let _ = code; v == r }
    }
}
/// Group the pairs by subclass section, and in each by code: the order between different codes of
/// one section is not part of the contract, the order of equal codes is.
fn grouped<T: Clone>(ps: &[(i32, T)], is_mark: impl Fn(i32) -> bool) -> Vec<std::collections::BTreeMap<i32, Vec<T>>> {
    let mut out = vec![std::collections::BTreeMap::new()];
    for (c, v) in ps {
        if is_mark(*c) { out.push(std::collections::BTreeMap::new()); }
        out.last_mut().unwrap().entry(*c).or_insert_with(Vec::new).push(v.clone());
    }
    out
}

pub fn load_meta(v: &Value) -> HashMap<String, Kind> {
    v["meta"].as_array().unwrap().iter().map(|k| (k["key"].as_str().unwrap().to_string(), Kind {
        tstr: k["tstr"].as_str().unwrap().into(), nowire: k["nowire"].as_bool().unwrap(),
        noise: k["noise"].as_array().unwrap().iter().map(|q| (q[0].as_i64().unwrap() as i32, q[1].as_str().unwrap()[2..].to_string())).collect(),
        fields: k["fields"].as_array().unwrap().iter().map(|f| Field {
            n: f["n"].as_str().unwrap().into(), ks: f["ks"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
            multi: f["multi"].as_bool().unwrap(), st: f["st"].as_bool().unwrap(), d: f["d"].clone() }).collect() })).collect()
}

pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    let mut meta = HashMap::new();
    let mut defaults: HashMap<String, Value> = HashMap::new();
    for c in lines(cases) {
        if c.get("meta").is_some() { meta.extend(load_meta(&c)); continue; }
        let key = c["k"].as_str().unwrap();
        let k = match meta.get(key) { Some(k) => k, None => continue };
        let v = c["v"].as_u64().unwrap() as usize;
        let dj = defaults.entry(key.to_string()).or_insert_with(|| default_json(key));
        let mut input = dj.clone();
        let mut want = dj.clone();
        { // clock- and random-valued defaults: pin them
            for f in &k.fields { if f.st && (key == "H" || f.d.to_string().contains("\"d:")) { let x = to_json(f, &f.d, &Value::Null); patch(key, &mut input, f, x.clone()); patch(key, &mut want, f, x); } }
        }
        let set: HashMap<u64, &Value> = c["set"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), &p[1])).collect();
        let lost: HashMap<u64, &Value> = c["lost"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap(), &p[1])).collect();
        let fresh: Vec<&str> = c["fresh"].as_array().unwrap().iter().map(|i| k.fields[i.as_u64().unwrap() as usize - 1].n.as_str()).collect();
        for (i, f) in k.fields.iter().enumerate() {
            if !f.st { continue; }
            let id = i as u64 + 1;
            if let Some(x) = set.get(&id) { let dv = field_of(key, dj, f); patch(key, &mut input, f, to_json(f, x, &dv)); }
            let e = lost.get(&id).or(set.get(&id)).copied().unwrap_or(&f.d);
            let dv = field_of(key, dj, f); patch(key, &mut want, f, to_json(f, e, &dv));
        }
        let name = input["name"].clone();
        let item = match make(key, input.clone()) { Ok(i) => i, Err(e) => { r.fail(&format!("{}|build", key), json!({"case": c["id"], "error": e})); continue; } };
        r.cases += 1;
        let ok = c["ok"].as_bool().unwrap();
        let vname = format!("{:?}", ver(v));
        for mode in modes {
            r.steps += 1;
            let id = c["id"].as_str().unwrap();
            r.begin(&format!("{} {}", id, mode));
            let res = guard(|| -> Result<(), (String, Value)> {
                let d = build(v, &item);
                let mut bytes = vec![];
                let e = |s: &str, e: DxfError| (s.to_string(), json!(e.to_string()));
                if *mode == "binary" { d.save_binary(&mut bytes).map_err(|x| e("save", x))?; } else { d.save(&mut bytes).map_err(|x| e("save", x))?; }
                if *mode == "wire" {
                    let recs = wire_of(&bytes, &k.tstr, key, name.as_str().unwrap_or(""));
                    if !ok { if !recs.is_empty() { return Err(("kind written".into(), json!(recs))); } return Ok(()); }
                    if k.nowire { return Ok(()); }
                    if recs.len() != 1 { return Err(("records".into(), json!(recs))); }
                    return wire_cmp(key, v, &c["wire"], &recs[0]);
                }
                if *mode == "noise" || *mode == "cut" {
                    if !ok { return Ok(()); }
                    let ps = raw_pairs(&bytes);
                    let (from, to) = match span_of(&ps, &k.tstr, key, name.as_str().unwrap_or("")) { Some(x) => x, None => return Err(("records".into(), json!(0))) };
                    let every = id.contains("/full/1/") && (v == 21 || v == 13 || v == 15) && key != "H";
                    let h = id.bytes().fold(v, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
                    let some: Vec<usize> = if every { (from..=to).collect() } else { vec![from + h % (to - from + 1)] };
                    if *mode == "cut" {
                        // a number that is none
                        for &at in &some {
                            let at = match (at..to).chain(from..at).find(|&i| "dilqb".contains(crate::reader::kind(ps[i].0))) { Some(i) => i, None => break };
                            let mut q = ps.clone();
                            q[at].1 = ["x", "1x", "--1", "1 2", "0x1", "1,5", "t"][(h + at) % 7].to_string();
                            match Drawing::load(&mut text_of(&q).as_slice()) {
                                Ok(_) => return Err(("wrong value accepted".into(), json!({"pair": q[at]}))),
                                Err(x) => if crate::reader::place(&x).is_some_and(|l| l != 2 * at + 1 && l != 2 * at + 2) { return Err(("wrong line".into(), json!({"pair": q[at], "expected": 2 * at + 2, "got": x.to_string()}))) },
                            }
                        }
                        for at in some {
                            if let Ok(_) = Drawing::load(&mut text_of(&ps[..at]).as_slice()) { return Err(("cut short accepted".into(), json!({"at": at - from, "of": to - from, "last": ps[at - 1]}))); }
                        }
                        return Ok(());
                    }
                    let plain = Drawing::load(&mut text_of(&ps).as_slice()).map_err(|x| e("load", x))?;
                    let plain = fetch(key, &plain, &name);
                    if plain.len() != 1 { return Err(("items".into(), json!(plain.len()))); }
                    for (n, at) in some.into_iter().enumerate() {
                        let mut q = ps[..at].to_vec();
                        if key == "H" {
                            // a variable nobody knows, between two variables
                            let at = (at..=to).find(|&i| ps[i].0 == 9 || ps[i].0 == 0).unwrap();
                            q = ps[..at].to_vec();
                            q.push((9, "$FOREIGN".into()));
                            for j in 0..(h / 7) % 4 { q.push(k.noise[(h + j) % k.noise.len()].clone()); }
                            q.extend_from_slice(&ps[at..]);
                        } else {
                            if k.noise.is_empty() { return Ok(()); }
                            for j in 0..1 + (h / 5 + n) % 3 { q.push(k.noise[(h + n + 5 * j) % k.noise.len()].clone()); }
                            q.extend_from_slice(&ps[at..]);
                        }
                        let added = json!(q[at.min(q.len())..q.len() - (ps.len() - at)]);
                        let d2 = Drawing::load(&mut text_of(&q).as_slice()).map_err(|x| (format!("foreign pair: {}", x), json!({"before": ps.get(at), "added": added})))?;
                        let got = fetch(key, &d2, &name);
                        if got.len() != 1 { return Err(("items with a foreign pair".into(), json!({"items": got.len(), "before": ps.get(at), "added": added}))); }
                        let mut ds = vec![];
                        diff(&view(key, &plain[0]), &view(key, &got[0]), "", &mut ds);
                        ds.retain(|(f, _, _)| !fresh.contains(&f.as_str()));
                        if !ds.is_empty() { return Err(("fields".into(), Value::Array(ds.into_iter().map(|(f, a, b)| json!([f, a, json!({"got": b, "before": ps.get(at), "after": ps[at - 1], "added": added})])).collect()))); }
                    }
                    return Ok(());
                }
                let d2 = Drawing::load(&mut bytes.as_slice()).map_err(|x| e("load", x))?;
                if *mode == "fix" {
                    let mut b2 = vec![]; d2.save(&mut b2).map_err(|x| e("save again", x))?;
                    let d3 = Drawing::load(&mut b2.as_slice()).map_err(|x| e("load again", x))?;
                    let mut b3 = vec![]; d3.save(&mut b3).map_err(|x| e("save thrice", x))?;
                    let mut b1 = vec![]; d.save(&mut b1).map_err(|x| e("save", x))?;
                    if b1 != bytes { return Err(("two saves differ".into(), first_diff(&b1, &bytes))); }
                    // what this version has no place for may come out differently; versions 11 and 12 name themselves alike
                    if lost.is_empty() && v != 12 {
                        let p = |b: &[u8]| { let mut q = raw_pairs(b); if let Some(i) = q.iter().position(|p| p.1 == "$HANDSEED") { q.remove(i + 1); } q };
                        let (x, y) = (p(&b1), p(&b2));
                        if let Some(i) = (0..x.len().max(y.len())).find(|&i| x.get(i) != y.get(i)) { return Err(("changed by reloading".into(), json!({"first": x.get(i), "second": y.get(i)}))); }
                    }
                    if b2 != b3 { return Err(("not a fixed point".into(), first_diff(&b2, &b3))); }
                    return Ok(());
                }
                let got = fetch(key, &d2, &name);
                if !ok { if !got.is_empty() { return Err(("kind carried".into(), json!(got))); } return Ok(()); }
                if got.len() != 1 { return Err(("items".into(), json!(got.len()))); }
                let mut ds = vec![];
                diff(&view(key, &want), &view(key, &got[0]), "", &mut ds);
                ds.retain(|(f, _, _)| !fresh.contains(&f.as_str()));
                if ds.is_empty() { Ok(()) } else { Err(("fields".into(), Value::Array(ds.into_iter().map(|(f, a, b)| json!([f, a, b])).collect()))) }
            });
            match res {
                Ok(Ok(())) => r.count(&format!("{} {}", mode, &key[..1])),
                Ok(Err((what, val))) if what == "fields" || what == "wire" => for x in val.as_array().unwrap() {
                    r.fail(&format!("{}|{}", key, x[0].as_str().unwrap()), json!({"case": id, "mode": mode, "version": vname, "expected": x[1], "got": x[2], "item": input}));
                },
                Ok(Err((what, val))) => r.fail(&format!("{}|{}", key, what), json!({"case": id, "mode": mode, "version": vname, "got": val, "item": input})),
                Err(p) => r.fail(&format!("{}|panic", key), json!({"case": id, "mode": mode, "version": vname, "got": p, "item": input})),
            }
        }
    }
}
pub fn first_diff(a: &[u8], b: &[u8]) -> Value {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let w = |s: &[u8]| String::from_utf8_lossy(&s[i.saturating_sub(60)..(i + 60).min(s.len())]).to_string();
    json!({"at": i, "first": w(a), "second": w(b)})
}
fn wire_cmp(key: &str, v: usize, want: &Value, got: &[(i32, String)]) -> Result<(), (String, Value)> {
    let handles = true; // handles are enabled by default
    let mut exp: Vec<(i32, String)> = want.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap() as i32, p[1].as_str().unwrap().to_string())).collect();
    let mut bad = vec![];
    if key == "H" {
        // variable by variable
        let split = |ps: &[(i32, String)]| { let mut m: Vec<(String, Vec<(i32, String)>)> = vec![]; for (c, x) in ps { if *c == 9 { m.push((x.trim_start_matches("s:").to_string(), vec![])); } else if let Some(l) = m.last_mut() { l.1.push((*c, x.clone())); } } m };
        let (e, g) = (split(&exp), split(got));
        let skip = ["$ACADVER", "$HANDSEED"];
        for (n, ps) in &g {
            if skip.contains(&n.as_str()) { continue; }
            if g.iter().filter(|(m, _)| m == n).count() != 1 { bad.push(json!([n, "once", ps])); continue; }
            match e.iter().find(|(m, _)| m == n) {
                None => bad.push(json!([n, "not in this version", ps])),
                Some((_, q)) => if q.len() != ps.len() || !q.iter().zip(ps).all(|(a, b)| a.0 == b.0 && tok_matches(&a.1, a.0, &b.1)) { bad.push(json!([n, q, ps])); }
            }
        }
        for (n, ps) in &e { if !g.iter().any(|(m, _)| m == n) { bad.push(json!([n, ps, "missing"])); } }
        return if bad.is_empty() { Ok(()) } else { Err(("wire".into(), Value::Array(bad))) };
    }
    let mut got = got.to_vec();
    if handles {
        let n = exp.iter().filter(|p| p.1 == "#handle").count();
        let g = got.iter().position(|p| p.0 == 5 || (key == "T.DimStyle" && p.0 == 105));
        match g { Some(i) if i == 0 => { got.remove(0); } _ => if n > 0 { bad.push(json!(["handle", n, "missing"])); } }
        exp.retain(|p| p.1 != "#handle");
    }
    let (e, g) = (grouped(&exp, |c| c == 100), grouped(&got, |c| c == 100));
    for i in 0..e.len().max(g.len()) {
        let z = Default::default();
        let (a, b) = (e.get(i).unwrap_or(&z), g.get(i).unwrap_or(&z));
        let codes: std::collections::BTreeSet<i32> = a.keys().chain(b.keys()).copied().collect();
        for c in codes {
            let y = vec![];
            let (p, q) = (a.get(&c).unwrap_or(&y), b.get(&c).unwrap_or(&y));
            if p.len() != q.len() || !p.iter().zip(q).all(|(w, x)| tok_matches(w, c, x)) { bad.push(json!([format!("section {} code {}", i, c), p, q])); }
        }
    }
    let _ = v;
    if bad.is_empty() { Ok(()) } else { Err(("wire".into(), Value::Array(bad))) }
}
