// Replays the pair sequences of Reader.tla in several spellings (line ends, blanks, comments, both binary layouts).
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
use serde_json::{json, Value};

/// type of a value by group code
pub fn kind(c: i32) -> char {
    match c {
        0..=9 | 100..=102 | 105 | 300..=309 | 320..=369 | 390..=399 | 410..=419 | 430..=439 | 470..=481 | 999 | 1000..=1009 => 's',
        10..=59 | 110..=149 | 210..=239 | 460..=469 | 1010..=1059 => 'd',
        60..=79 | 170..=179 | 270..=289 | 370..=389 | 400..=409 | 1060..=1070 => 'i',
        90..=99 | 420..=429 | 440..=459 | 1071 => 'l',
        160..=169 => 'q',
        290..=299 => 'b',
        310..=319 => 'x',
        _ => '?',
    }
}
/// the pairs as a binary file; None if a value cannot be expressed
pub fn binary(pairs: &[(i32, String)], wide: bool) -> Option<Vec<u8>> {
    let mut o = b"AutoCAD Binary DXF\r\n\x1a\0".to_vec();
    for (c, v) in pairs {
        if *c == -2 { return None }
        if wide { o.extend((*c as i16).to_le_bytes()); } else if *c >= 0 && *c < 255 { o.push(*c as u8); } else { o.push(255); o.extend((*c as i16).to_le_bytes()); }
        match kind(*c) {
            's' => { o.extend(v.as_bytes()); o.push(0); }
            'd' => o.extend(v.parse::<f64>().ok()?.to_le_bytes()),
            'i' => o.extend(v.parse::<i16>().ok()?.to_le_bytes()),
            'l' => o.extend(v.parse::<i32>().ok()?.to_le_bytes()),
            'q' => o.extend(v.parse::<i64>().ok()?.to_le_bytes()),
            'b' => if wide { o.push(v.parse::<u8>().ok()?) } else { o.extend(v.parse::<i16>().ok()?.to_le_bytes()) },
            'x' => { let b: Option<Vec<u8>> = (0..v.len() / 2).map(|i| u8::from_str_radix(v.get(2 * i..2 * i + 2)?, 16).ok()).collect(); let b = b?; o.push(b.len() as u8); o.extend(b); }
            _ => o.extend([0u8; 8]),
        }
    }
    Some(o)
}
/// a 1x1 image of 24 bits: header, one row
pub const IMG: &str = "28000000010000000100000001001800000000000400000000000000000000000000000000000000112233FF";

fn ext_count(g: &ExtensionGroup) -> u64 { g.items.iter().map(|i| match i { ExtensionGroupItem::CodePair(_) => 1, ExtensionGroupItem::Group(g) => ext_count(g) }).sum() }
fn x_count(q: &[XDataItem]) -> u64 { q.iter().map(|i| match i { XDataItem::ControlGroup(q) => 1 + x_count(q), _ => 1 }).sum() }
fn exts(q: &[ExtensionGroup]) -> Value { json!(q.iter().map(ext_count).collect::<Vec<_>>()) }
fn xds(q: &[XData]) -> Value { json!(q.iter().map(|x| x_count(&x.items)).collect::<Vec<_>>()) }
fn ent(e: &Entity) -> Value {
    json!({"t": match e.specific { EntityType::Line(_) => "LINE", EntityType::Circle(_) => "CIRCLE", EntityType::Section(_) => "SECTION", _ => "?" }, "lay": e.common.layer, "col": e.common.color.index().map_or(if e.common.color.is_by_layer() { 256 } else { 0 }, |i| i as i32),
        "ext": exts(&e.common.extension_data_groups), "xd": xds(&e.common.x_data)})
}
pub fn content(d: &Drawing) -> Value {
    let h = &d.header;
    json!({
        "hdr": {"menu": h.file_name, "prec": h.unit_precision, "base": [h.insertion_base.x as i64, h.insertion_base.y as i64, h.insertion_base.z as i64], "ver": VERSIONS.iter().position(|v| *v == h.version).unwrap() + 1},
        "cls": d.classes.iter().map(|c| json!({"name": c.record_name, "cpp": c.class_name})).collect::<Vec<_>>(),
        "lay": d.layers().filter(|l| l.name.is_empty() || l.name.starts_with('l') || l.name.starts_with('r')).map(|l| json!({"name": l.name, "col": l.color.index(), "ext": exts(&l.extension_data_groups), "xd": xds(&l.x_data)})).collect::<Vec<_>>(),
        "app": d.app_ids().map(|l| json!({"name": l.name, "ext": exts(&l.extension_data_groups), "xd": xds(&l.x_data)})).collect::<Vec<_>>(),
        "blk": d.blocks().map(|b| json!({"name": b.name, "desc": b.description, "ents": b.entities.iter().map(ent).collect::<Vec<_>>(), "ext": exts(&b.extension_data_groups), "xd": xds(&b.x_data)})).collect::<Vec<_>>(),
        "ent": d.entities().map(ent).collect::<Vec<_>>(),
        "obj": d.objects().map(|o| { let (t, v) = match &o.specific { ObjectType::PlaceHolder(_) => ("ACDBPLACEHOLDER", String::new()), ObjectType::DictionaryVariable(v) => ("DICTIONARYVAR", v.value.clone()), _ => ("?", String::new()) };
            json!({"t": t, "val": v, "ext": exts(&o.common.extension_data_groups), "xd": xds(&o.common.x_data)}) }).collect::<Vec<_>>(),
        "img": d.thumbnail.is_some() as i32,
    })
}
/// line numbers an error names
pub fn place(e: &DxfError) -> Option<usize> {
    match e {
        DxfError::ParseFloatError(_, o) | DxfError::ParseIntError(_, o) | DxfError::ParseError(o) | DxfError::UnexpectedCode(_, o) | DxfError::UnexpectedEnumValue(o) | DxfError::ExpectedTableType(o) | DxfError::WrongValueType(o) => Some(*o),
        DxfError::UnexpectedCodePair(p, _) => Some(p.offset),
        _ => None,
    }
}
const UNTYPED: [i32; 10] = [85, 104, 155, 205, 260, 500, 998, 1072, 2000, -7];
const SPELL: [&str; 7] = ["text", "lf", "blanks", "comments", "binary", "old binary", "mark"];

/// bytes, and the line each pair starts on
fn spell(q: &[(i32, String)], how: &str) -> Option<(Vec<u8>, Vec<usize>)> {
    let mut o = vec![];
    let mut at = vec![];
    let mut line = 1;
    if how == "binary" && q.first().is_some_and(|p| p.0 != 0) { return None } // the first pair tells the size of group codes
    if how.ends_with("binary") { return binary(q, how == "binary").map(|b| (b, vec![])); }
    if how == "mark" { o.extend([0xef, 0xbb, 0xbf]); }
    for (i, (c, v)) in q.iter().enumerate() {
        if how == "comments" && !(*c == -2 && i > 0 && q[i - 1].0 == -2) { for _ in 0..=i % 2 { o.extend(b"999\r\n0\r\n999\r\nENDSEC\r\n"); line += 4; } }
        at.push(line);
        if *c == -2 { line += 1; o.extend(if how == "lf" { &b"\n"[..] } else if how == "blanks" { &b"  \t\n"[..] } else { &b"\r\n"[..] }); continue }
        line += 2;
        let k = kind(*c);
        match how {
            "lf" => o.extend(format!("{}\n{}\n", c, v).bytes()),
            "blanks" => o.extend(if "dilqb".contains(k) { format!("  {}\t \n \t{}  \r\n", c, v) } else { format!("    {} \n{}\n", c, v) }.bytes()),
            "mark" if i + 1 == q.len() => o.extend(format!("{:>3}\r\n{}", c, v).bytes()),
            _ => o.extend(format!("{:>3}\r\n{}\r\n", c, v).bytes()),
        }
    }
    Some((o, at))
}
fn check(q: &[(i32, String)], want: &Value, how: &str, m: char, r: &mut Report) {
    if (want["ok"] == true && m == 'e') || (want["ok"] != true && m == 'c') { return }
    let Some((bytes, at)) = spell(q, how) else { return };
    r.steps += 1;
    let ok = want["ok"] == true;
    let got = guard(|| Drawing::load(&mut &bytes[..]).map(|d| content(&d)));
    let show = || q.iter().map(|(c, v)| format!("{}/{}", c, if v.len() > 20 { "..." } else { v })).collect::<Vec<_>>().join(" ");
    match got {
        Err(e) => r.fail(&format!("{}|panic", how), json!({"pairs": show(), "got": e})),
        _ if m == 'p' => (),
        Ok(Ok(_)) if !ok => r.fail(&format!("{}|accepted|{}", how, want["why"].as_str().unwrap()), json!({"pairs": show(), "expected": "an error", "at pair": want["at"]})),
        Ok(Err(e)) if ok => r.fail(&format!("{}|refused", how), json!({"pairs": show(), "got": e.to_string()})),
        Ok(Ok(c)) => { if c != want["c"] { r.fail(&format!("{}|content", how), json!({"pairs": show(), "expected": want["c"], "got": c})); } }
        Ok(Err(e)) => {
            let _ = e.to_string();
            let kind = want["why"].as_str().unwrap();
            if kind == "end" { if !matches!(e, DxfError::UnexpectedEndOfInput) { r.fail(&format!("{}|report|end", how), json!({"pairs": show(), "expected": "UnexpectedEndOfInput", "got": format!("{:?}", e)})); } }
            else if let (Some(p), false) = (place(&e), at.is_empty()) {
                let l = at[want["at"].as_u64().unwrap() as usize - 1];
                if p != l && p != l + 1 { r.fail(&format!("{}|report|place", how), json!({"pairs": show(), "expected": l, "got": format!("{:?}", e)})); }
            }
        }
    }
}
fn pairs(v: &Value, k: usize) -> Vec<(i32, String)> {
    v.as_array().unwrap().iter().map(|p| {
        let c = p[0].as_i64().unwrap() as i32;
        let v = p[1].as_str().unwrap();
        let c = if c == -1  { UNTYPED[k % UNTYPED.len()] } else { c };
        (c, match v { "@img" => IMG.to_string(), "@bad" => ["1x2", "abc", "", "--1", "1,5", "0x10"][k % 6].to_string(), v => v.to_string() })
    }).collect()
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    // which of the property's sides: content of accepted files, errors of rejected ones, panics of either
    let m = if modes.contains(&"content") { 'c' } else if modes.contains(&"errors") { 'e' } else { 'p' };
    let cuts = m != 'c';
    for (k, c) in lines(cases).enumerate() {
        r.cases += 1;
        let mut q = pairs(&c["pairs"], k);
        r.begin(&format!("{:?}", q));
        r.count(if c["closed"]["ok"] == true { "accepted" } else { c["closed"]["why"].as_str().unwrap() });
        check(&q, &c["atend"], SPELL[k % SPELL.len()], m, r);
        q.extend(pairs(&c["tail"], k));
        check(&q, &c["closed"], "text", m, r);
        check(&q, &c["closed"], SPELL[1 + k % (SPELL.len() - 1)], m, r);
        check(&q, &c["closed"], SPELL[1 + (k / 3 + 1) % (SPELL.len() - 1)], m, r);
        if m == 'p' { for (j, how) in ["text", "lf", "binary", "old binary"].iter().enumerate() {
            let Some((b, _)) = spell(&q, how) else { continue };
            let x = mutate(&b, (k * 4 + j) as u64);
            r.steps += 1;
            if let Err(e) = measured(x.len(), || Drawing::load(&mut &x[..]).is_ok()) { r.fail(&format!("{}|mutated|panic", how), json!({"bytes": String::from_utf8_lossy(&x), "got": e})); }
        } }
        // the input stops in the middle of a pair
        if cuts && k % 8 == 0 && c["closed"]["ok"] == true {
            for how in ["lf", "binary", "old binary"] {
                let Some((whole, _)) = spell(&q, how) else { continue };
                let mut ends = vec![if how == "lf" { 0 } else { 22 }];
                for i in 1..=q.len() { ends.push(spell(&q[..i], how).unwrap().0.len()); }
                for n in 1..whole.len() {
                    // after which pair, if after one (its line end does not matter)
                    let j = ends.partition_point(|e| *e <= n) ; // pairs complete: j - 1
                    if n < ends[0] { continue }
                    let (done, next) = (j - 1, ends.get(j));
                    if n == ends[j - 1] || (how == "lf" && next.is_some_and(|e| n + 1 >= *e)) { continue } // a file that ends between two pairs: other cases
                    if done < q.len() && q[done].0 == 999 { continue }
                    r.steps += 1;
                    match guard(|| Drawing::load(&mut &whole[..n]).is_ok()) {
                        Err(e) => r.fail("cut|panic", json!({"form": how, "bytes": String::from_utf8_lossy(&whole[..n]), "got": e})),
                        Ok(true) if m == 'e' => r.fail("cut|accepted", json!({"form": how, "bytes": String::from_utf8_lossy(&whole[..n])})),
                        Ok(_) => (),
                    }
                }
            }
        }
    }
}
