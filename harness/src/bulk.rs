// Large files of Bulk.tla: a piece repeated many times. What comes out, and the processor time it takes.
use crate::util::*;
use dxf::entities::{Entity, EntityType};
use dxf::*;
use serde_json::{json, Value};

fn parts(e: &Entity) -> usize {
    match &e.specific { EntityType::Polyline(p) => p.vertices().count(), EntityType::Insert(i) => i.attributes().count(), EntityType::LwPolyline(p) => p.vertices.len(), _ => 0 }
}
fn count(d: &Drawing, what: &str) -> usize {
    let first = d.entities().next();
    match what {
        "entities" => d.entities().count(),
        "parts" => d.entities().map(parts).sum(),
        "xdata" => d.entities().flat_map(|e| e.common.x_data.iter().map(|x| x.items.len())).sum(),
        "groups" => d.entities().flat_map(|e| e.common.extension_data_groups.iter().map(|g| g.items.len())).sum(),
        "text" => match first.map(|e| &e.specific) { Some(EntityType::Text(t)) => t.value.chars().count(), _ => 0 },
        // not counting the layer 0 that comes with loading
        "layers" => d.layers().filter(|l| l.name != "0").count(),
        "line_types" => d.line_types().filter(|l| !["BYLAYER", "CONTINUOUS", "BYBLOCK"].contains(&l.name.to_uppercase().as_str())).count(),
        "dim_styles" => d.dim_styles().count(),
        "app_ids" => d.app_ids().count(),
        "blocks" => d.blocks().count(),
        "inside" => d.blocks().map(|b| b.entities.len()).sum(),
        "classes" => d.classes.len(),
        "objects" => d.objects().count(),
        _ => panic!("count {}", what),
    }
}
fn pairs(c: &Value) -> Vec<(i32, String)> {
    let n = c["n"].as_u64().unwrap();
    let mut q: Vec<(i32, String)> = vec![];
    let read = |v: &Value| -> Vec<(i32, String)> { v.as_array().unwrap().iter().map(|p| (p[0].as_i64().unwrap() as i32, p[1].as_str().unwrap().to_string())).collect() };
    for (c, v) in read(&c["head"]) { q.push((c, if c == 91 && v == "N" { n.to_string() } else { v })); }
    let piece = read(&c["piece"]);
    if c["long"] == true { q.push((piece[0].0, piece[0].1[1..].repeat(n as usize))); }
    else { for i in 0..n { for (c, v) in &piece { q.push((*c, if v.contains('#') { v.replace('#', &i.to_string()) } else { v.clone() })); } } }
    q.extend(read(&c["tail"]));
    q.push((0, "EOF".into()));
    q
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    for c in lines(cases) {
        let (name, n) = (c["name"].as_str().unwrap(), c["n"].as_u64().unwrap());
        let q = pairs(&c);
        let limit = if c["slow"] == true { 1.5 } else { 12.0 * (n as f64 / 200000.0).max(1.0) };
        for mode in modes {
            r.begin(&format!("{} x {} {}", name, n, mode));
            r.cases += 1; r.count(mode);
            let bytes = if *mode == "text" { text_of(&q) } else { let q: Vec<_> = q.iter().filter(|p| p.0 != 999).cloned().collect(); match crate::reader::binary(&q, false) { Some(b) => b, None => continue } };
            let note = |got: Value| json!({"what": name, "n": n, "form": mode, "bytes": bytes.len(), "got": got});
            let t = cpu();
            r.steps += 1;
            let d = match measured(bytes.len(), || Drawing::load(&mut &bytes[..])) {
                Ok(Ok(d)) => d,
                Ok(Err(e)) => { r.fail(&format!("bulk|{}|refused", name), note(json!(e.to_string()))); continue }
                Err(e) => { r.fail(&format!("bulk|{}|panic", name), note(json!(e))); continue }
            };
            let t = cpu() - t;
            if t > limit { r.fail(&format!("bulk|{}|time", name), note(json!(format!("{:.1} s", t)))); }
            for o in c["out"].as_array().unwrap() {
                let got = count(&d, o[0].as_str().unwrap());
                if got as u64 != o[1].as_u64().unwrap() { r.fail(&format!("bulk|{}|{}", name, o[0].as_str().unwrap()), note(json!({"expected": o[1], "got": got}))); }
            }
            // and out again
            let t = cpu();
            r.steps += 1;
            match guard(|| { let mut o = vec![]; d.save(&mut o).map(|_| o.len()).map_err(|e| e.to_string()) }) {
                Ok(Ok(_)) => (),
                Ok(Err(e)) | Err(e) => r.fail(&format!("bulk|{}|save", name), note(json!(e))),
            }
            let t = cpu() - t;
            if t > limit.max(12.0) { r.fail(&format!("bulk|{}|saving time", name), note(json!(format!("{:.1} s", t)))); }
        }
    }
}
