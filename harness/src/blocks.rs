// Replays Blocks.tla: blocks and classes with all their fields, saved, altered as another program would write them, and loaded.
use crate::util::*;
use dxf::entities::*;
use dxf::*;
use serde_json::{json, Value};

fn s(v: &Value, k: &str) -> String { v[k].as_str().unwrap().to_string() }
fn n<T: std::str::FromStr>(v: &Value, k: &str) -> T { v[k].as_str().unwrap().parse().ok().unwrap() }
fn build(c: &Value) -> Drawing {
    let mut d = Drawing::new();
    for x in c["items"].as_array().unwrap() {
        if c["what"] == "class" {
            d.classes.push(Class { record_name: s(x, "name"), class_name: s(x, "cpp"), application_name: s(x, "app"), version_number: n(x, "vn"), proxy_capability_flags: n(x, "proxy"), instance_count: n(x, "count"), was_class_loaded_with_file: x["loaded"] == true, is_entity: x["ent"] == true });
        } else {
            let line = |i: u64| Entity::new(EntityType::Line(Line { p1: Point::new(i as f64, 0.0, 0.0), ..Line::default() }));
            d.add_block(Block {
                name: s(x, "name"), layer: s(x, "layer"), flags: n(x, "flags"), base_point: Point::new(n(x, "x"), n(x, "y"), n(x, "z")), xref_path_name: s(x, "xref"), description: s(x, "desc"), is_in_paperspace: x["paper"] == true,
                __owner_handle: Handle(u64::from_str_radix(&s(x, "owner"), 16).unwrap()), entities: (1..=x["ents"].as_u64().unwrap()).map(line).collect(), ..Default::default()
            });
        }
    }
    d.header.version = ver(c["ver"].as_u64().unwrap() as usize);
    d.header.handles_enabled = true;
    d
}
fn float(x: f64) -> String { format!("{:?}", x) }
/// the records as the specification has them; numbers as numbers
fn seen(d: &Drawing, what: &Value) -> Result<Vec<Value>, String> {
    if what == "class" { return Ok(d.classes.iter().map(|c| json!({"name": c.record_name, "cpp": c.class_name, "app": c.application_name, "vn": c.version_number.to_string(), "proxy": c.proxy_capability_flags.to_string(), "count": c.instance_count.to_string(), "loaded": c.was_class_loaded_with_file, "ent": c.is_entity})).collect()); }
    let mut o = vec![];
    for b in d.blocks() {
        for (i, e) in b.entities.iter().enumerate() { match &e.specific { EntityType::Line(l) if l.p1 == Point::new(i as f64 + 1.0, 0.0, 0.0) && l.p2 == Point::origin() => (), x => return Err(format!("entity {} of block {:?} is {:?}", i + 1, b.name, x)) } }
        if !b.extension_data_groups.is_empty() || !b.x_data.is_empty() { return Err("data from nowhere".into()); }
        o.push(json!({"name": b.name, "layer": b.layer, "flags": b.flags.to_string(), "x": float(b.base_point.x), "y": float(b.base_point.y), "z": float(b.base_point.z), "xref": b.xref_path_name, "desc": b.description, "paper": b.is_in_paperspace, "owner": format!("{:X}", b.__owner_handle.0), "ents": b.entities.len()}));
    }
    Ok(o)
}
fn same(a: &Value, b: &Value) -> bool {
    if a == b { return true; }
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| v == w || (matches!(k.as_str(), "x" | "y" | "z") && v.as_str().unwrap().parse::<f64>().ok() == w.as_str().unwrap().parse::<f64>().ok()))),
        _ => false,
    }
}
fn contents(d: &Drawing, c: &Value, site: &str) -> Option<(String, Value)> {
    let got = match seen(d, &c["what"]) { Ok(g) => g, Err(e) => return Some((format!("{}|inside", site), json!(e))) };
    let want = c["back"].as_array().unwrap();
    if got.len() != want.len() { return Some((format!("{}|count", site), json!({"want": want.len(), "got": got.len()}))); }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if same(w, g) { continue; }
        let f = w.as_object().unwrap().keys().find(|k| !same(&json!({"x": w[*k].clone()}), &json!({"x": g[*k].clone()}))).cloned().unwrap_or_default();
        return Some((format!("{}|{}", site, f), json!({"item": i + 1, "want": w, "got": g})));
    }
    None
}
fn section(q: &[(i32, String)], name: &str) -> Vec<(i32, String)> {
    let Some(a) = (1..q.len()).find(|&i| q[i] == (2, name.to_string()) && q[i - 1] == (0, "SECTION".to_string())) else { return vec![] };
    let z = (a..q.len()).find(|&i| q[i] == (0, "ENDSEC".to_string())).unwrap_or(q.len());
    q[a + 1..z].to_vec()
}
fn wire(want: &[Value], got: &[(i32, String)], site: &str) -> Option<(String, Value)> {
    let (mut i, mut rec) = (0, String::new());
    for (k, w) in want.iter().enumerate() {
        let (c, v) = (w[0].as_i64().unwrap() as i32, w[1].as_str().unwrap());
        if c == -1 {
            let from = i;
            while i < got.len() && got[i].0 != 0 { i += 1; }
            if !got[from..i].iter().any(|p| p.0 == 10 && p.1.trim().parse::<f64>().ok() == v.parse::<f64>().ok()) { return Some((format!("{}|wire|inside", site), json!({"want": w, "got": got[from..i].to_vec()}))); }
            continue;
        }
        if c == 0 { rec = if site == "class" { "class".into() } else { v.into() }; }
        let at = format!("{}|wire|{}|{}", site, rec, c);
        let Some(g) = got.get(i) else { return Some((at, json!({"want": w, "got": "the end"}))) };
        let ok = g.0 == c && (if v == "h" { u64::from_str_radix(g.1.trim(), 16).map_or(false, |x| x > 0) } else { g.1 == v || (matches!(c, 10..=99 | 280..=289) && g.1.trim().parse::<f64>().is_ok() && g.1.trim().parse::<f64>().ok() == v.parse::<f64>().ok()) });
        if !ok { return Some((at, json!({"place": k, "want": w, "got": g}))); }
        i += 1;
    }
    got.get(i).map(|g| (format!("{}|wire|end", site), json!({"left over": g})))
}
fn text(d: &Drawing) -> Result<Vec<u8>, String> { let mut o = vec![]; d.save(&mut o).map(|_| o).map_err(|e| format!("save: {}", e)) }
fn load(b: &[u8]) -> Result<Drawing, String> { Drawing::load(&mut &b[..]).map_err(|e| format!("load: {}", e)) }
fn file(c: &Value, name: &str) -> Result<Vec<(i32, String)>, String> {
    let mut d = Drawing::new();
    d.header.version = ver(c["ver"].as_u64().unwrap() as usize);
    let q = raw_pairs(&text(&d)?);
    let i = q.iter().position(|p| p.1 == "$ACADVER").ok_or("no version")?;
    let p = |c: i32, v: &str| (c, v.to_string());
    let mut o = vec![p(0, "SECTION"), p(2, "HEADER"), p(9, "$ACADVER"), q[i + 1].clone(), p(0, "ENDSEC"), p(0, "SECTION"), p(2, name)];
    for w in c["wire"].as_array().unwrap() {
        let (k, v) = (w[0].as_i64().unwrap() as i32, w[1].as_str().unwrap());
        if k == -1 { for (k, v) in [(8, "0"), (10, v), (20, "0.0"), (30, "0.0")] { o.push(p(k, v)); } } else { o.push(p(k, if v == "h" { "5A" } else { v })); }
    }
    o.extend([p(0, "ENDSEC"), p(0, "EOF")]);
    Ok(o)
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    for c in lines(cases) {
        r.cases += 1;
        r.begin(&c.to_string());
        let what = c["what"].as_str().unwrap();
        let name = if what == "class" { "CLASSES" } else { "BLOCKS" };
        let own = c["how"] == "own";
        let v = c["ver"].as_u64().unwrap();
        r.count(&format!("{} {}", what, c["how"].as_str().unwrap()));
        let note = json!({"items": c["items"], "version": format!("{:?}", ver(v as usize)), "how": c["how"]});
        for mode in modes {
            r.steps += 1;
            let res = guard(|| -> Result<Option<(String, Value)>, String> {
                if !own {
                    if !matches!(*mode, "text" | "binary" | "given") { return Ok(None); }
                    let q = file(&c, name)?;
                    let bytes = if *mode != "binary" { text_of(&q) } else { let q: Vec<_> = q.into_iter().filter(|p| p.0 != 999).collect(); match crate::reader::binary(&q, v >= 14) { Some(b) => b, None => return Ok(None) } };
                    return Ok(contents(&load(&bytes)?, &c, &format!("{}|{}", what, c["how"].as_str().unwrap())));
                }
                if *mode == "given" { return Ok(None); }
                let d = build(&c);
                match *mode {
                    "text" => {
                        let e = load(&text(&d)?)?;
                        if v >= 14 { for (a, b) in d.blocks().zip(e.blocks()) { if a.handle != b.handle { return Ok(Some((format!("{}|handle", what), json!({"want": a.handle.0, "got": b.handle.0})))); } } }
                        Ok(contents(&e, &c, what))
                    }
                    "binary" => { let mut o = vec![]; d.save_binary(&mut o).map_err(|e| format!("save: {}", e))?; Ok(contents(&load(&o)?, &c, &format!("{}|binary", what))) }
                    "wire" => Ok(wire(c["own"].as_array().unwrap(), &section(&raw_pairs(&text(&d)?), name), what)),
                    _ => {
                        let a = text(&d)?;
                        if a != text(&d)? { return Ok(Some((format!("{}|again", what), json!("two saves differ")))); }
                        let cut = |b: &[u8]| { let q = raw_pairs(b); section(&q, name).into_iter().filter(|p| v >= 14 || p.0 != 5).collect::<Vec<_>>() };
                        let b = text(&load(&a)?)?;
                        if v != 12 && cut(&a) != cut(&b) { let (x, y) = (cut(&a), cut(&b)); let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len())); return Ok(Some((format!("{}|second save", what), json!({"place": i, "one": x.get(i), "other": y.get(i)})))); }
                        Ok(None)
                    }
                }
            });
            match res {
                Ok(Ok(None)) => (),
                Ok(Ok(Some((site, why)))) => r.fail(&site, json!({"case": note, "why": why})),
                Ok(Err(e)) | Err(e) => r.fail(&format!("{}|{}|error", what, mode), json!({"case": note, "got": e})),
            }
        }
    }
}
