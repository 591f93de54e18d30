// Replays the record sequences of Compound.tla: read, written again, read again; also built through the API.
use crate::util::*;
use dxf::entities::*;
use dxf::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Default)]
pub struct G { t: String, id: u64, h: u64, parts: Vec<(u64, u64, u64)>, txt: u64, end: u64 }

fn opt(v: &Value) -> u64 { v.as_array().and_then(|a| a.first()).and_then(|x| x.as_u64()).unwrap_or(0) }
fn groups(v: &Value) -> Vec<G> {
    v.as_array().unwrap().iter().map(|g| G {
        t: g["t"].as_str().unwrap().into(), id: g["id"].as_u64().unwrap(), h: g["h"].as_u64().unwrap(), txt: opt(&g["txt"]), end: opt(&g["end"]),
        parts: g["parts"].as_array().unwrap().iter().map(|p| (p["id"].as_u64().unwrap(), p["h"].as_u64().unwrap(), opt(&p["txt"]))).collect(),
    }).collect()
}
fn num(s: &str, p: char) -> u64 { s.strip_prefix(p).and_then(|x| x.parse().ok()).unwrap_or(if s.is_empty() { 0 } else { 9999 }) }
fn view(e: &Entity) -> G {
    let mut g = G { id: num(&e.common.layer, 'L'), h: e.common.handle.0, ..G::default() };
    g.t = match &e.specific {
        EntityType::Line(l) => { if l.p1.x as u64 != g.id { g.id = 8888 } "LINE" }
        EntityType::Polyline(p) => { g.parts = p.__vertices_and_handles.iter().map(|(v, h)| (v.location.x as u64, h.0, 0)).collect(); g.end = p.__seqend_handle.0; "POLYLINE" }
        EntityType::Vertex(v) => { if v.location.x as u64 != g.id { g.id = 8888 } "VERTEX" }
        EntityType::Seqend(_) => "SEQEND",
        EntityType::Insert(i) => { g.parts = i.__attributes_and_handles.iter().map(|(a, h)| (num(&a.value, 'V'), h.0, num(&a.m_text.text, 'M'))).collect(); g.end = i.__seqend_handle.0; "INSERT" }
        EntityType::Attribute(a) => { if num(&a.value, 'V') != g.id { g.id = 8888 } g.txt = num(&a.m_text.text, 'M'); "ATTRIB" }
        EntityType::AttributeDefinition(a) => { if num(&a.value, 'V') != g.id { g.id = 8888 } g.txt = num(&a.m_text.text, 'M'); "ATTDEF" }
        EntityType::MText(m) => { if num(&m.text, 'M') != g.id { g.id = 8888 } "MTEXT" }
        _ => "OTHER",
    }.into();
    g
}
/// what else the records say makes no difference to what belongs together
fn tag(id: u64, k: usize) -> String { match (id as usize + k) % 4 { 0 => String::new(), 1 => "T".into(), 2 => format!("T{}", id), _ => "V1".into() } }
fn rec_pairs(r: &Value, k: usize, out: &mut Vec<(i32, String)>) {
    let (t, id) = (r["t"].as_str().unwrap(), r["id"].as_u64().unwrap());
    let z = id as usize + k;
    let mut p = |c: i32, s: String| out.push((c, s));
    p(0, t.into());
    p(5, format!("{:X}", r["h"].as_u64().unwrap()));
    if t == "MTEXT" && (r["own"] != 7 || z % 2 == 0) { p(330, format!("{:X}", r["own"].as_u64().unwrap())); }
    p(8, format!("L{}", id));
    match t {
        "LINE" | "FOO" => p(10, format!("{}.0", id)),
        "VERTEX" => { p(10, format!("{}.0", id)); if z % 3 > 0 { p(70, [1, 16, 32, 64, 128, 192][z % 6].to_string()); } }
        "POLYLINE" => { if z % 4 > 0 { p(66, (z % 2).to_string()); } if z % 3 > 0 { p(70, [1, 8, 16, 64, 4, 128][z % 6].to_string()); } if z % 5 == 0 { p(71, "2".into()); p(72, "2".into()); } }
        "INSERT" => { if r["has"] == true { p(66, "1".into()); } else if z % 2 == 0 { p(66, "0".into()); } p(2, if z % 5 == 1 { "" } else { "X" }.into()); if z % 3 > 0 { p(70, (z % 4).to_string()); p(71, "2".into()); p(44, "1.5".into()); } if z % 4 == 1 { p(41, "-1.0".into()); } }
        "ATTRIB" | "ATTDEF" => { p(10, "1.0".into()); p(1, format!("V{}", id)); p(2, tag(id, k)); if z % 3 > 0 { p(70, [1, 2, 4, 8][z % 4].to_string()); } }
        "MTEXT" => { p(1, format!("M{}", id)); }
        _ => (),
    }
    // pairs of another program
    match z % 7 { 1 => p(309, "FOREIGN".into()), 2 => p(999, "SEQEND".into()), 3 => { p(459, "7".into()); p(149, "1.5".into()); } 4 => p(439, "VERTEX".into()), _ => () }
}
fn file(recs: &[Value], k: usize, block: bool, vname: &str) -> Vec<u8> {
    let mut o: Vec<(i32, String)> = vec![];
    fn s(o: &mut Vec<(i32, String)>, q: &[(i32, &str)]) { for (c, v) in q { o.push((*c, v.to_string())); } }
    s(&mut o, &[(0, "SECTION"), (2, "HEADER"), (9, "$ACADVER"), (1, vname), (9, "$HANDSEED"), (5, "FFFF"), (0, "ENDSEC")]);
    if block {
        s(&mut o, &[(0, "SECTION"), (2, "BLOCKS"), (0, "BLOCK"), (5, "900"), (8, "0"), (2, "B1"), (70, "0"), (10, "0.0"), (20, "0.0"), (30, "0.0")]);
        for r in recs { rec_pairs(r, k, &mut o); }
        s(&mut o, &[(0, "ENDBLK"), (5, "901"), (8, "0"), (0, "BLOCK"), (5, "902"), (8, "0"), (2, "B2"), (70, "0"), (0, "LINE"), (5, "903"), (8, "L77"), (10, "77.0"), (0, "ENDBLK"), (5, "904"), (8, "0"), (0, "ENDSEC")]);
        s(&mut o, &[(0, "SECTION"), (2, "ENTITIES"), (0, "LINE"), (5, "905"), (8, "L78"), (10, "78.0"), (0, "ENDSEC")]);
    } else {
        s(&mut o, &[(0, "SECTION"), (2, "ENTITIES")]);
        for r in recs { rec_pairs(r, k, &mut o); }
        s(&mut o, &[(0, "ENDSEC")]);
    }
    s(&mut o, &[(0, "EOF")]);
    text_of(&o)
}
fn look(d: &Drawing, block: bool) -> Result<Vec<G>, String> {
    if !block { return Ok(d.entities().map(view).collect()); }
    let b: Vec<&Block> = d.blocks().filter(|b| b.name == "B1" || b.name == "B2").collect();
    if b.len() != 2 { return Err(format!("{} blocks", b.len())); }
    let other: Vec<G> = b[1].entities.iter().map(view).collect();
    let top: Vec<G> = d.entities().map(view).collect();
    if other.len() != 1 || other[0].id != 77 || top.len() != 1 || top[0].id != 78 { return Err(format!("the second block and the entities: {:?} {:?}", other, top)); }
    Ok(b[0].entities.iter().map(view).collect())
}
/// up to what a version carries
fn plain(gs: &[G], texts: bool, handles: bool, ends: bool) -> Vec<G> {
    gs.iter().filter(|g| texts || g.t != "MTEXT").map(|g| {
        let mut g = g.clone();
        if !texts { g.txt = 0; }
        if !handles { g.h = 0; }
        if !ends { g.end = 0; }
        for p in &mut g.parts { if !texts { p.2 = 0; } if !handles { p.1 = 0; } }
        g
    }).collect()
}
fn build(gs: &[G], k: usize, block: bool, v: usize) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = ver(v);
    let mut es = vec![];
    let text = |n: u64| MText { text: if n == 0 { String::new() } else { format!("M{}", n) }, ..MText::default() };
    for g in gs {
        let spec = match g.t.as_str() {
            "LINE" => EntityType::Line(Line { p1: Point::new(g.id as f64, 0.0, 0.0), ..Line::default() }),
            "POLYLINE" => { let mut p = Polyline::default(); for q in &g.parts { p.add_vertex(&mut d, Vertex::new(Point::new(q.0 as f64, 0.0, 0.0))); } EntityType::Polyline(p) }
            "VERTEX" => EntityType::Vertex(Vertex::new(Point::new(g.id as f64, 0.0, 0.0))),
            "SEQEND" => EntityType::Seqend(Seqend::default()),
            "INSERT" => { let mut p = Insert { name: "X".into(), column_count: [1, 3, 0][(g.id as usize + k) % 3], row_count: [1, 2][(g.id as usize + k) % 2], ..Insert::default() }; for q in &g.parts { p.add_attribute(&mut d, Attribute { attribute_tag: tag(q.0, k), value: format!("V{}", q.0), m_text: text(q.2), ..Attribute::default() }); } EntityType::Insert(p) }
            "ATTRIB" => EntityType::Attribute(Attribute { attribute_tag: tag(g.id, k), value: format!("V{}", g.id), m_text: text(g.txt), ..Attribute::default() }),
            "ATTDEF" => EntityType::AttributeDefinition(AttributeDefinition { text_tag: tag(g.id, k), value: format!("V{}", g.id), m_text: text(g.txt), ..AttributeDefinition::default() }),
            _ => EntityType::MText(text(g.id)),
        };
        let mut e = Entity::new(spec);
        e.common.layer = format!("L{}", g.id);
        es.push(e);
    }
    let line = |n: u64| { let mut e = Entity::new(EntityType::Line(Line { p1: Point::new(n as f64, 0.0, 0.0), ..Line::default() })); e.common.layer = format!("L{}", n); e };
    if block {
        d.add_block(Block { name: "B1".into(), entities: es, ..Block::default() });
        d.add_block(Block { name: "B2".into(), entities: vec![line(77)], ..Block::default() });
        d.add_entity(line(78));
    } else { for e in es { d.add_entity(e); } }
    d
}
fn save(d: &Drawing, form: &str) -> Result<Vec<u8>, String> {
    let mut buf = vec![];
    if form == "text" { d.save(&mut buf) } else { d.save_binary(&mut buf) }.map_err(|e| format!("save: {}", e))?;
    Ok(buf)
}
fn load(b: &[u8]) -> Result<Drawing, String> { Drawing::load(&mut &b[..]).map_err(|e| format!("load: {}", e)) }

pub fn run(cases: &str, r: &mut Report) {
    let combos: Vec<(usize, &str)> = [1usize, 11, 12, 13, 14, 15, 16, 18, 21].iter().flat_map(|v| [(*v, "text"), (*v, "binary")]).collect();
    let mut k = 0usize;
    for c in lines(cases) {
        let want = groups(&c["dwg"]);
        let recs = c["recs"].as_array().unwrap();
        let names: Vec<String> = recs.iter().map(|x| format!("{}{}", x["t"].as_str().unwrap(), if x["own"].as_u64() != Some(7) { "'" } else if x["has"] == true { "+" } else { "" })).collect();
        for block in [false, true] {
            let place = if block { "block" } else { "top" };
            r.begin(&format!("{} {:?}", place, names));
            r.cases += 1; r.count(place);
            let bytes = file(recs, k, block, if k % 2 == 0 { "AC1015" } else { "AC1009" });
            let first = guard(|| load(&bytes).and_then(|d| look(&d, block).map(|v| (d, v))));
            r.steps += 1;
            let (d, got) = match first { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { r.fail(&format!("{}|cannot read", place), json!({"records": names, "got": e})); continue } };
            // end markers that were not there may or may not have a handle
            let norm = |q: &[G]| -> Vec<G> { q.iter().zip(want.iter().map(Some).chain(std::iter::repeat(None))).map(|(g, w)| { let mut g = g.clone(); if w.is_none_or(|w| w.end == 0) { g.end = 0; } g }).collect() };
            if norm(&got) != want { r.fail(&format!("{}|read", place), json!({"records": names, "expected": format!("{:?}", want), "got": format!("{:?}", got)})); continue }
            for j in 0..3 {
                let (v, form) = combos[(k * 5 + j * 7) % combos.len()];
                r.steps += 2;
                let texts = v >= 14;
                let mut d = if j == 2 { build(&want, k, block, v) } else { d.clone() };
                let what = if j == 2 { "built" } else { "saved again" };
                d.header.version = ver(v);
                let res = guard(|| save(&d, form).and_then(|b| load(&b)).and_then(|n| look(&n, block)));
                let got = match res { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { r.fail(&format!("{}|{}|{}", place, what, form), json!({"version": v, "records": names, "got": e})); continue } };
                let handles = v >= 14 && j < 2;
                let (a, b) = (plain(&want, texts, handles, false), plain(&got, texts, handles, false));
                if a != b { r.fail(&format!("{}|{}|{}", place, what, form), json!({"version": v, "records": names, "expected": format!("{:?}", a), "got": format!("{:?}", b)})); }
                if handles { for (x, y) in want.iter().filter(|g| texts || g.t != "MTEXT").zip(&got) { if x.end != 0 && (!x.parts.is_empty() || x.t == "POLYLINE") && x.end != y.end { r.fail(&format!("{}|{}|end marker", place, what), json!({"version": v, "form": form, "records": names, "expected": x.end, "got": y.end})); } } }
            }
            k += 1;
        }
    }
}
