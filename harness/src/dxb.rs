// Replays DxbRead.tla and DxbWrite.tla.
use crate::util::*;
use dxf::entities::*;
use dxf::*;
use serde_json::{json, Value};

const ITEMS: [(&str, u8); 22] = [("line", 1), ("point", 2), ("circle", 3), ("arc", 8), ("trace", 9), ("solid", 11), ("seqend", 17), ("polyline", 19), ("vertex", 20), ("line3", 21), ("face", 22),
    ("scale", 128), ("layer", 129), ("linext", 130), ("tracext", 131), ("base", 132), ("bulge", 133), ("width", 134), ("mode", 135), ("color", 136), ("linext3", 137), ("unknown", 0)];
const UNKNOWN: [u8; 8] = [4, 7, 10, 18, 23, 127, 138, 255];

pub fn encode(recs: &[Value], int: &[Value], k: usize) -> Vec<u8> {
    let mut o = b"AutoCAD DXB 1.0\r\n\x1a\x00".to_vec();
    for (r, i) in recs.iter().zip(int) {
        let name = r["r"].as_str().unwrap();
        o.push(if name == "unknown" { UNKNOWN[k % UNKNOWN.len()] } else { ITEMS.iter().find(|x| x.0 == name).unwrap().1 });
        let i = i.as_bool().unwrap();
        for (j, v) in r["v"].as_array().unwrap().iter().enumerate() {
            let v = v.as_i64().unwrap();
            match name {
                "scale" => o.extend((v as f64 / 2.0).to_le_bytes()),
                "color" | "mode" | "polyline" => o.extend((v as i16).to_le_bytes()),
                _ if !i => o.extend((v as f32 / 2.0).to_le_bytes()),
                "bulge" => o.extend((v as i32 * 32768).to_le_bytes()),
                "arc" if j >= 3 => o.extend((v as i32 * 500_000).to_le_bytes()),
                _ => o.extend((v as i16).to_le_bytes()),
            }
        }
        if name == "layer" { o.extend(r["s"].as_str().unwrap().chars().map(|c| c as u8)); o.push(0); }
    }
    o.push(0);
    o
}
fn half(x: f64) -> Value { let y = x * 2.0; if y == y.round() && y.abs() < 1e9 { json!(y as i64) } else { json!(y) } }
fn halves(v: &[f64]) -> Value { Value::Array(v.iter().map(|x| half(*x)).collect()) }
fn ent(e: &Entity) -> Value {
    let two = |p: &[&Point]| halves(&p.iter().flat_map(|p| [p.x, p.y]).collect::<Vec<_>>());
    let three = |p: &[&Point]| halves(&p.iter().flat_map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>());
    let flat = |p: &[&Point]| p.iter().all(|p| p.z == 0.0);
    let mut sub = json!([]);
    let (mut bulge, mut width) = (json!(0), json!([0, 0]));
    let mut z0 = true;
    let (t, v) = match &e.specific {
        EntityType::Line(l) => ("LINE", three(&[&l.p1, &l.p2])),
        EntityType::ModelPoint(p) => { z0 = flat(&[&p.location]); ("POINT", two(&[&p.location])) }
        EntityType::Circle(c) => { z0 = flat(&[&c.center]); ("CIRCLE", halves(&[c.center.x, c.center.y, c.radius])) }
        EntityType::Arc(c) => { z0 = flat(&[&c.center]); ("ARC", halves(&[c.center.x, c.center.y, c.radius, c.start_angle, c.end_angle])) }
        EntityType::Solid(s) => ("SOLID", two(&[&s.first_corner, &s.second_corner, &s.third_corner, &s.fourth_corner])),
        EntityType::Trace(s) => ("TRACE", two(&[&s.first_corner, &s.second_corner, &s.third_corner, &s.fourth_corner])),
        EntityType::Face3D(s) => ("3DFACE", three(&[&s.first_corner, &s.second_corner, &s.third_corner, &s.fourth_corner])),
        EntityType::Polyline(p) => {
            sub = p.vertices().map(|v| json!({"v": two(&[&v.location]), "bulge": half(v.bulge), "width": halves(&[v.starting_width, v.ending_width])})).collect();
            ("POLYLINE", json!([p.is_closed() as i32]))
        }
        EntityType::Vertex(v) => { bulge = half(v.bulge); width = halves(&[v.starting_width, v.ending_width]); ("VERTEX", two(&[&v.location])) }
        EntityType::Seqend(_) => ("SEQEND", json!([])),
        _ => ("OTHER", json!([])),
    };
    let raw = serde_json::to_value(&e.common.color).unwrap()["raw_value"].clone();
    json!({"t": if z0 { t } else { "not flat" }, "lay": e.common.layer, "col": raw, "v": v, "bulge": bulge, "width": width, "sub": sub})
}
fn result(d: &Drawing) -> Value {
    let blocks: Vec<_> = d.blocks().collect();
    let es: Vec<Value> = d.entities().map(ent).collect();
    match blocks.len() {
        0 => json!({"err": "", "base": [], "ents": es}),
        1 if es.is_empty() => json!({"err": "", "base": halves(&[blocks[0].base_point.x, blocks[0].base_point.y]), "ents": blocks[0].entities.iter().map(ent).collect::<Vec<_>>()}),
        _ => json!({"blocks": blocks.len(), "ents": es}),
    }
}
fn load(b: &[u8]) -> Result<Result<Value, String>, String> { measured(b.len(), || Drawing::load(&mut &b[..]).map(|d| result(&d)).map_err(|e| e.to_string())) }

fn make(e: &Value, k: usize) -> Entity {
    let v: Vec<f64> = e["v"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64 / 2.0).collect();
    let z = if k % 3 == 0 { 4.5 } else { 0.0 }; // heights that DXB does not hold
    let p2 = |i: usize| Point::new(v[i], v[i + 1], z);
    let p3 = |i: usize| Point::new(v[i], v[i + 1], v[i + 2]);
    let vertex = |s: &Value| {
        let n = |x: &Value| x.as_i64().unwrap() as f64 / 2.0;
        let mut x = Vertex::new(Point::new(n(&s["v"][0]), n(&s["v"][1]), z));
        x.bulge = n(&s["bulge"]);
        x.starting_width = n(&s["width"][0]);
        x.ending_width = n(&s["width"][1]);
        x
    };
    let s = match e["t"].as_str().unwrap() {
        "LINE" => EntityType::Line(Line::new(p3(0), p3(3))),
        "POINT" => EntityType::ModelPoint(ModelPoint::new(p2(0))),
        "CIRCLE" => EntityType::Circle(Circle::new(p2(0), v[2])),
        "ARC" => EntityType::Arc(Arc::new(p2(0), v[2], v[3], v[4])),
        "SOLID" => EntityType::Solid(Solid::new(p2(0), p2(2), p2(4), p2(6))),
        "TRACE" => EntityType::Trace(Trace::new(p2(0), p2(2), p2(4), p2(6))),
        "3DFACE" => EntityType::Face3D(Face3D::new(p3(0), p3(3), p3(6), p3(9))),
        "POLYLINE" => {
            let mut p = Polyline::default();
            p.set_is_closed(v[0] != 0.0);
            let mut other = Drawing::new();
            for s in e["sub"].as_array().unwrap() { p.add_vertex(&mut other, vertex(s)); }
            EntityType::Polyline(p)
        }
        "VERTEX" => EntityType::Vertex(vertex(e)),
        "SEQEND" => EntityType::Seqend(Seqend::default()),
        "TEXT" => EntityType::Text(Text { value: "x\0\u{1}".into(), ..Default::default() }),
        _ => EntityType::Insert(Insert { name: "b".into(), ..Default::default() }),
    };
    let mut x = Entity::new(s);
    x.common.layer = e["lay"].as_str().unwrap().into();
    x.common.color = serde_json::from_value(json!({"raw_value": e["col"]})).unwrap();
    x
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    let panics = modes.contains(&"panic");
    for (k, c) in lines(cases).enumerate() {
        r.cases += 1;
        r.begin(&c.to_string());
        let want = &c["want"];
        if let Some(recs) = c["recs"].as_array() {
            r.steps += 1;
            let b = encode(recs, c["int"].as_array().unwrap(), k);
            let show = || recs.iter().map(|x| x["r"].as_str().unwrap()).collect::<Vec<_>>().join(" ");
            let last = recs.last().map_or("", |x| x["r"].as_str().unwrap());
            r.count(if want["err"] == "" { "accepted" } else { "rejected" });
            match load(&b) {
                Err(e) => r.fail(&format!("read|panic|{}", last), json!({"records": show(), "got": e})),
                _ if panics => (),
                Ok(Err(_)) if want["err"] != "" => (),
                Ok(Err(e)) => r.fail(&format!("read|refused|{}", last), json!({"records": show(), "got": e})),
                Ok(Ok(_)) if want["err"] != "" => r.fail(&format!("read|accepted|{}", last), json!({"records": show()})),
                Ok(Ok(g)) => {
                    if g != *want { r.fail(&format!("read|content|{}", last), json!({"records": recs, "expected": want, "got": g})); }
                    // what was read can be written as DXB and read again
                    else if modes.contains(&"again") {
                        let again = guard(|| { let d = Drawing::load(&mut &b[..]).map_err(|e| e.to_string())?; let mut o = vec![]; d.save_dxb(&mut o).map_err(|e| e.to_string())?; Ok::<_, String>(o) });
                        match again.and_then(|o| o).map(|o| load(&o)) {
                            Ok(Ok(Ok(g))) if g == *want => (),
                            e => r.fail(&format!("again|{}", last), json!({"records": show(), "expected": want, "got": format!("{:?}", e)})),
                        }
                    }
                }
            }
            if panics { for j in 0..4 {
                let m = mutate(&b[17..], (k * 4 + j) as u64);
                r.steps += 1;
                if let Err(e) = load(&[&b[..17], &m[..]].concat()) { r.fail("mutated|panic", json!({"bytes": m, "got": e})); }
            } }
            // a file that stops before its end
            for n in (if k % 4 == 0 || panics { 17 } else { b.len() - 1 })..b.len() {
                r.steps += 1;
                match load(&b[..n]) {
                    Err(e) => r.fail("cut|panic", json!({"records": show(), "bytes": n, "got": e})),
                    Ok(Ok(_)) if !panics && (want["err"] == "" || n == b.len() - 1) => r.fail("cut|accepted", json!({"records": show(), "bytes": n})),
                    _ => (),
                }
            }
            continue;
        }
        let mut d = Drawing::new();
        if k % 2 == 0 { d.clear(); }
        for e in c["ents"].as_array().unwrap() { d.add_entity(make(e, k)); }
        if let Some([base, es]) = c["blk"].as_array().map(|a| &a[..]) {
            let mut bl = Block { name: "b".into(), base_point: Point::new(base[0].as_i64().unwrap() as f64 / 2.0, base[1].as_i64().unwrap() as f64 / 2.0, 0.0), ..Default::default() };
            bl.entities = es.as_array().unwrap().iter().map(|e| make(e, k)).collect();
            d.add_block(bl);
        }
        r.steps += 1;
        let show = || json!({"entities": c["ents"].as_array().unwrap().iter().map(|e| e["t"].clone()).collect::<Vec<_>>(), "block": c["blk"]});
        let b = match guard(|| { let mut o = vec![]; d.save_dxb(&mut o).map(|_| o).map_err(|e| e.to_string()) }).and_then(|x| x) { Ok(b) => b, Err(e) => { r.fail("write|save", json!({"drawing": show(), "got": e})); continue } };
        let site = |s: &str| format!("write|{}|{}", s, if want["base"] == json!([]) { if c["blk"].as_array().unwrap().is_empty() { "entities" } else { "entities and block" } } else { "block" });
        match load(&b) {
            Ok(Ok(g)) if g == *want => (),
            Ok(Ok(g)) => r.fail(&site("content"), json!({"drawing": show(), "expected": want, "got": g})),
            e => r.fail(&site("refused"), json!({"drawing": show(), "got": format!("{:?}", e)})),
        }
    }
}
