// Replays Hostile.tla: loading ends with a drawing or an error, and what was loaded can be saved and loaded again.
use crate::reader::kind;
use crate::util::*;
use dxf::*;
use serde_json::{json, Value};

fn frame(sec: &str, t: &str, body: &[(i32, String)], v: &str) -> Vec<(i32, String)> {
    let p = |c: i32, s: &str| (c, s.to_string());
    let mut o = vec![p(0, "SECTION"), p(2, "HEADER"), p(9, "$ACADVER"), p(1, v)];
    if sec == "HEADER" { o.push(p(9, t)); } else { o.extend([p(0, "ENDSEC"), p(0, "SECTION"), p(2, sec)]); }
    if sec == "TABLES" { o.extend([p(0, "TABLE"), p(2, t)]); }
    if !t.is_empty() && sec != "HEADER" { o.push(p(0, t)); }
    o.extend(body.iter().cloned());
    if sec == "TABLES" { o.push(p(0, "ENDTAB")); }
    if sec == "BLOCKS" { o.push(p(0, "ENDBLK")); }
    o.extend([p(0, "ENDSEC"), p(0, "EOF")]);
    o
}
fn try_one(sec: &str, t: &str, body: &[(i32, String)], k: usize, saves: usize, r: &mut Report) {
    let v = ["AC1009", "AC1015", "AC1021", "AC1032", "AC1012", "AC1006"][k % 6];
    let bytes = text_of(&frame(sec, t, body, v));
    r.steps += 1;
    let what = || json!({"section": sec, "record": t, "version": v, "pairs": body.iter().map(|(c, v)| format!("{}/{}", c, v)).collect::<Vec<_>>()});
    let site = |s: &str| format!("{}|{}|{}|{}", s, sec, t, body.iter().map(|p| p.0.to_string()).collect::<Vec<_>>().join("+"));
    let d = match measured(bytes.len(), || Drawing::load(&mut &bytes[..])) {
        Err(e) => { r.fail(&site("load"), json!({"input": what(), "got": e})); return }
        Ok(Err(_)) => { r.count("error"); return }
        Ok(Ok(d)) => { r.count("drawing"); d }
    };
    for j in 0..saves {
        let mut d = d.clone();
        let n = [13usize, 21, 16, 18, 14, 11, 1][(k / 6 + j * 3) % 7];
        d.header.version = ver(n);
        let bin = (k + j) % 2 == 0;
        r.steps += 1;
        let res = guard(|| { if k % 5 == 0 { d.normalize(); } let mut b = vec![]; if bin { d.save_binary(&mut b) } else { d.save(&mut b) }.map(|_| b).map_err(|e| e.to_string()) });
        let b = match res { Err(e) => { r.fail(&site("save"), json!({"input": what(), "save as": n, "binary": bin, "got": e})); continue } Ok(Err(_)) => continue, Ok(Ok(b)) => b };
        match guard(|| Drawing::load(&mut &b[..]).map(|_| ()).map_err(|e| e.to_string())) {
            Err(e) => r.fail(&site("reload"), json!({"input": what(), "save as": n, "binary": bin, "got": e})),
            Ok(Err(e)) => r.fail(&site("unreadable"), json!({"input": what(), "save as": n, "binary": bin, "got": e})),
            Ok(Ok(())) => (),
        }
    }
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    let full = modes.contains(&"full");
    let every = if full { 2 } else { 1 };
    let mut vals = Value::Null;
    let name = |c: i32| match kind(c) { 's' => "str", 'd' => "double", 'i' => "short", 'l' => "int", 'q' => "long", 'b' => "bool", _ => "bytes" };
    let mut k = 0usize;
    for c in lines(cases) {
        if c.get("meta").is_some() { vals = c["meta"].clone(); continue }
        let (sec, t, code) = (c["sec"].as_str().unwrap(), c["t"].as_str().unwrap(), c["c"].as_i64().unwrap() as i32);
        r.begin(&c.to_string());
        r.cases += 1;
        let v1: Vec<&str> = vals[name(code)].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let own = full || c["second"].as_array().is_some_and(|s| !s.is_empty());
        for (i, a) in v1.iter().enumerate() {
            k += 1;
            if !own && i % 4 != (k / 4) % 4 { continue } // a code the record is not known to use: some of the values
            try_one(sec, t, &[(code, a.to_string())], k, if full { 2 } else if own { 1 } else { (k % 3 == 0) as usize }, r);
            if k % 3 == 0 { try_one(sec, t, &[(code, a.to_string()), (code, v1[k % v1.len()].to_string()), (code, a.to_string())], k, every, r); }
        }
        for c2 in c["second"].as_array().unwrap() {
            let c2 = c2.as_i64().unwrap() as i32;
            let v2 = vals[name(c2)].as_array().unwrap();
            for _ in 0..every {
                k += 1;
                try_one(sec, t, &[(code, v1[k % v1.len()].to_string()), (c2, v2[k / 3 % v2.len()].as_str().unwrap().to_string())], k, if full { 2 } else { (k % 3 == 0) as usize }, r);
            }
        }
    }
}
