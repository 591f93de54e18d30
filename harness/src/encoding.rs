// Replays Encoding.tla: files whose strings are bytes in some encoding.
use crate::reader::kind;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::*;
use encoding_rs::*;
use serde_json::{json, Value};

fn members(class: &str) -> Vec<&'static Encoding> {
    match class {
        "latin1" => vec![WINDOWS_1252],
        "utf8" => vec![UTF_8],
        "multi" => vec![GBK, GB18030, BIG5, SHIFT_JIS, EUC_JP, EUC_KR],
        _ => vec![WINDOWS_1250, WINDOWS_1251, WINDOWS_1253, WINDOWS_1254, WINDOWS_1255, WINDOWS_1256, WINDOWS_1257, WINDOWS_1258, WINDOWS_874, IBM866, ISO_8859_2, ISO_8859_3, ISO_8859_4, ISO_8859_5, ISO_8859_6, ISO_8859_7, ISO_8859_8, ISO_8859_10, ISO_8859_13,
            ISO_8859_14, ISO_8859_15, ISO_8859_16, KOI8_R, KOI8_U, MACINTOSH, X_MAC_CYRILLIC, X_USER_DEFINED],
    }
}
const POOL: &str = "éÉÄßłőŞĞЖяёΩλשعไ€—不丂亂表能十ソア한글龜ﾊ\u{f785}";
/// the bytes of a string as its author wrote it
fn bytes_of(txt: &str, enc: &'static Encoding, k: usize) -> Vec<u8> {
    let pool: Vec<char> = POOL.chars().collect();
    let pick = |i: usize, ok: &dyn Fn(char) -> bool| { let n = pool.len(); (0..n).map(|j| pool[(i + j) % n]).find(|c| ok(*c)) };
    let enc_of = |c: char| { let s = c.to_string(); let (b, e, bad) = enc.encode(&s); if bad || e != enc { None } else { Some(b.into_owned()) } };
    let native = |i: usize| pick(i, &|c| enc_of(c).is_some()).and_then(enc_of).unwrap_or_else(|| b"?".to_vec());
    let mut o = vec![];
    match txt {
        "ascii" => o.extend(["a~B", "A{b}", "x y\\P", "0"][k % 4].as_bytes()),
        "native" => { o.extend(native(k)); if k % 2 == 0 { o.extend(b"z"); } o.extend(native(k / 2 + 5)); }
        "utf8" => o.extend(format!("u{}{}", pool[k % pool.len()], pool[(k / 3) % pool.len()]).as_bytes()),
        "esc" => { let c = pool[k % pool.len()] as u32; o.extend(match k % 6 { 0 => format!("e\\U+{:04X}f", c), 1 => format!("e\\U+{:04x}f", c), 2 => "e\\U+D83D\\U+DE00f".into(), 3 => format!("\\U+{:04x}\\U+{:04X}", c, c), 4 => format!("\\U+00g9 \\u+00E9 \\U+{:04X} \\U+00E", c), _ => "\\U+d83d\\U+de00\\U++123".into() }.as_bytes()) }
        // single bytes, alone and at the end or before ASCII: often malformed
        "byte" => { let b = 0x80 + (k * 7 % 128) as u8; match k % 4 { 0 => o.push(b), 1 => o.extend([b'a', b]), 2 => o.extend([b, b' ', b'a']), _ => o.extend([b, b'0', b]) } }
        "caret" => { o.extend(native(k + 3)); o.extend(b"^I^ x^J"); }
        _ => { o.extend(b"m"); o.extend(native(k + 1)); o.extend(format!("\\U+{:04X}", pool[k % pool.len()] as u32).as_bytes()); o.extend(native(k + 2)); o.push(b'q'); }
    }
    o
}
/// what the reader should make of them; None: malformed
fn want(b: &[u8], dec: &'static Encoding, esc: bool) -> Option<String> {
    let (s, bad) = dec.decode_without_bom_handling(b);
    if bad { return None }
    let mut s = s.into_owned();
    if esc {
        let unit = |r: &str| -> Option<u32> { let h = r.strip_prefix("\\U+")?.get(..4)?; if h.bytes().all(|b| b.is_ascii_hexdigit()) { u32::from_str_radix(h, 16).ok() } else { None } };
        let mut o = String::new(); let mut rest = &s[..];
        while let Some(i) = rest.find("\\U+") {
            o.push_str(&rest[..i]); rest = &rest[i..];
            match (unit(rest), rest.get(7..).and_then(unit)) {
                (Some(h), Some(l)) if (0xD800..0xDC00).contains(&h) && (0xDC00..0xE000).contains(&l) => { o.push(char::from_u32(0x10000 + ((h - 0xD800) << 10) + l - 0xDC00).unwrap()); rest = &rest[14..]; }
                (Some(c), _) if char::from_u32(c).is_some() => { o.push(char::from_u32(c).unwrap()); rest = &rest[7..]; }
                _ => { o.push_str("\\U+"); rest = &rest[3..]; }
            }
        }
        o.push_str(rest); s = o;
    }
    Some(s.replace("^I", "\t").replace("^J", "\n").replace("^ ", "^"))
}
type Pairs = Vec<(i32, Vec<u8>)>;
fn text(p: &Pairs, bom: bool, nl: &str) -> Vec<u8> {
    let mut o = if bom { vec![0xEF, 0xBB, 0xBF] } else { vec![] };
    for (c, v) in p { o.extend(format!("{:>3}{}", c, nl).as_bytes()); o.extend(v); o.extend(nl.as_bytes()); }
    o
}
fn binary(p: &Pairs, wide: bool) -> Vec<u8> {
    let mut o = b"AutoCAD Binary DXF\r\n\x1a\0".to_vec();
    for (c, v) in p {
        if wide { o.extend((*c as i16).to_le_bytes()); } else if *c < 255 { o.push(*c as u8); } else { o.push(255); o.extend((*c as i16).to_le_bytes()); }
        let s = String::from_utf8_lossy(v);
        match kind(*c) { 's' => { o.extend(v); o.push(0); } 'd' => o.extend(s.parse::<f64>().unwrap().to_le_bytes()), 'i' => o.extend(s.parse::<i16>().unwrap().to_le_bytes()), 'l' => o.extend(s.parse::<i32>().unwrap().to_le_bytes()), _ => unreachable!() }
    }
    o
}
const LOCS: [&str; 8] = ["hdr", "cls", "lay", "sty", "blk", "txt", "xd", "obj"];
const VARS: [&str; 4] = ["$PROJECTNAME", "$MENU", "$LASTSAVEDBY", "$STYLESHEET"];
/// a file with the given strings by location; numbers beside each
fn build(items: &[(String, Vec<u8>)], ver: Option<(usize, &str)>) -> Pairs {
    let mut p: Pairs = vec![];
    let mut add = |c: i32, v: &[u8]| p.push((c, v.to_vec()));
    let sec = |add: &mut dyn FnMut(i32, &[u8]), n: &str| { add(0, b"SECTION"); add(2, n.as_bytes()); };
    sec(&mut add, "HEADER");
    let version = |add: &mut dyn FnMut(i32, &[u8]), k: usize| if let Some((at, v)) = ver { if at == k { add(9, b"$ACADVER"); add(1, v.as_bytes()); } };
    for (k, (l, b)) in items.iter().enumerate() {
        version(&mut add, k);
        if l == "hdr" { add(9, VARS[k].as_bytes()); add(1, b); add(9, b"$LUPREC"); add(70, format!("{}", 2 + k).as_bytes()); }
    }
    version(&mut add, items.len());
    add(0, b"ENDSEC");
    let has = |l: &str| items.iter().any(|x| x.0 == l);
    let each = |l: &'static str| items.iter().enumerate().filter(move |x| x.1 .0 == l);
    if has("cls") { sec(&mut add, "CLASSES"); for (k, (_, b)) in each("cls") { add(0, b"CLASS"); add(1, b"REC"); add(2, b); add(3, b"app"); add(90, format!("{}", k).as_bytes()); } add(0, b"ENDSEC"); }
    if has("lay") || has("sty") {
        sec(&mut add, "TABLES");
        if has("lay") { add(0, b"TABLE"); add(2, b"LAYER"); for (k, (_, b)) in each("lay") { add(0, b"LAYER"); add(2, b); add(62, format!("{}", k + 1).as_bytes()); } add(0, b"ENDTAB"); }
        if has("sty") { add(0, b"TABLE"); add(2, b"STYLE"); for (k, (_, b)) in each("sty") { add(0, b"STYLE"); add(2, b"S"); add(3, b); add(40, format!("{}.5", k + 1).as_bytes()); } add(0, b"ENDTAB"); }
        add(0, b"ENDSEC");
    }
    if has("blk") { sec(&mut add, "BLOCKS"); for (k, (_, b)) in each("blk") { add(0, b"BLOCK"); add(2, b); add(10, format!("{}.5", k + 1).as_bytes()); add(0, b"ENDBLK"); } add(0, b"ENDSEC"); }
    if has("txt") || has("xd") {
        sec(&mut add, "ENTITIES");
        for (k, (l, b)) in items.iter().enumerate() { match l.as_str() {
            "txt" => { add(0, b"TEXT"); add(1, b); add(40, format!("{}.5", k + 1).as_bytes()); }
            "xd" => { add(0, b"POINT"); add(10, format!("{}.5", k + 1).as_bytes()); add(1001, b"APP"); add(1000, b); add(1071, format!("{}", k + 1).as_bytes()); }
            _ => (),
        } }
        add(0, b"ENDSEC");
    }
    if has("obj") { sec(&mut add, "OBJECTS"); for (_, (_, b)) in each("obj") { add(0, b"DICTIONARYVAR"); add(1, b); } add(0, b"ENDSEC"); }
    add(0, b"EOF");
    p
}
fn found(d: &Drawing, items: &[(String, Vec<u8>)]) -> Vec<Value> {
    let mut next = [0usize; 8];
    let h = &d.header;
    let prec = h.unit_precision;
    let last = items.iter().enumerate().filter(|x| x.1 .0 == "hdr").last().map(|x| x.0 as i16 + 2);
    items.iter().enumerate().map(|(k, (l, _))| {
        let i = LOCS.iter().position(|x| x == l).unwrap();
        let n = next[i]; next[i] += 1;
        let h5 = |x: f64| x == k as f64 + 1.5;
        match l.as_str() {
            "hdr" => { let v: [&String; 4] = [&h.project_name, &h.file_name, &h.last_saved_by, &h.stylesheet]; json!([v[k], Some(prec) == last]) },
            "cls" => d.classes.get(n).map_or(json!(null), |c| json!([if c.class_name == "REC" { &c.application_name } else { &c.class_name }, true])),
            "lay" => d.layers().filter(|l| l.color.index().is_some()).nth(n).map_or(json!(null), |x| json!([x.name, x.color.index() == Some(k as u8 + 1)])),
            "sty" => d.styles().filter(|s| s.name == "S").nth(n).map_or(json!(null), |x| json!([x.primary_font_file_name, h5(x.text_height)])),
            "blk" => d.blocks().nth(n).map_or(json!(null), |x| json!([x.name, h5(x.base_point.x)])),
            "txt" => d.entities().filter_map(|e| match &e.specific { EntityType::Text(t) => Some(json!([t.value, h5(t.text_height)])), _ => None }).nth(n).unwrap_or(json!(null)),
            "xd" => d.entities().filter_map(|e| match &e.specific { EntityType::ModelPoint(p) => Some((p, &e.common.x_data)), _ => None }).nth(n).map_or(json!(null), |(p, x)| match x.first().map(|x| &x.items[..]) {
                Some([XDataItem::Str(s), XDataItem::Long(m)]) => json!([s, h5(p.location.x) && *m as usize == k + 1]), _ => json!(null) }),
            _ => d.objects().filter_map(|o| match &o.specific { ObjectType::DictionaryVariable(v) => Some(json!([v.value, true])), _ => None }).nth(n).unwrap_or(json!(null)),
        }
    }).collect()
}
pub fn run(cases: &str, r: &mut Report) {
    for (k, c) in lines(cases).enumerate() {
        r.begin(&c.to_string());
        r.cases += 1;
        let class = c["named"].as_str().unwrap();
        let m = members(class);
        let toks = c["file"].as_array().unwrap();
        for q in 0..m.len().min(3) {
            let k = k * 3 + q;
            let enc = m[k % m.len()];
            let mut items = vec![]; let mut exp: Vec<Option<Vec<String>>> = vec![]; let mut ver = None;
            for (j, t) in toks.iter().enumerate() {
                if t["k"] == "ver" { ver = Some((items.len(), t["v"].as_str().unwrap())); continue }
                let b = bytes_of(t["txt"].as_str().unwrap(), if t["dec"] == "utf8" { if k % 4 == 0 { enc } else { UTF_8 } } else { enc }, k + j * 11);
                let dec = if t["dec"] == "utf8" { UTF_8 } else { enc };
                let w: Vec<Option<String>> = match t["esc"].as_str().unwrap() { "yes" => vec![want(&b, dec, true)], "no" => vec![want(&b, dec, false)], _ => vec![want(&b, dec, true), want(&b, dec, false)] };
                exp.push(if w.iter().any(|x| x.is_none()) { None } else { Some(w.into_iter().flatten().collect()) });
                items.push((t["loc"].as_str().unwrap().to_string(), b));
            }
            let p = build(&items, ver);
            let form = k % 5;
            let file = match form { 0 => text(&p, false, "\r\n"), 1 => text(&p, true, "\n"), 2 => binary(&p, true), 3 => binary(&p, false), _ => text(&p, k % 2 == 0, "\r\n") };
            r.steps += 1;
            r.count(&format!("{} {}", if form == 2 || form == 3 { "binary" } else { "text" }, if exp.iter().any(|x| x.is_none()) { "malformed" } else { "well formed" }));
            let label = format!("{}|{}", class, if form == 2 || form == 3 { "binary" } else { "text" });
            let got = guard(|| if class == "latin1" && k % 2 == 0 { Drawing::load(&mut file.as_slice()) } else { Drawing::load_with_encoding(&mut file.as_slice(), enc) });
            let info = |g: Value| json!({"encoding": enc.name(), "file": String::from_utf8_lossy(&file), "expected": exp, "got": g});
            match got {
                Err(e) => r.fail(&format!("{}|panic", label), info(json!(e))),
                Ok(Err(e)) => if exp.iter().all(|x| x.is_some()) { r.fail(&format!("{}|refused", label), info(json!(e.to_string()))) },
                Ok(Ok(d)) => {
                    let f = found(&d, &items);
                    for (j, x) in exp.iter().enumerate() {
                        let loc = &items[j].0;
                        match x {
                            None => r.fail(&format!("{}|malformed accepted|{}", label, loc), info(f[j].clone())),
                            Some(w) => {
                                if !w.iter().any(|w| f[j][0] == json!(w)) { r.fail(&format!("{}|{}", label, loc), info(f[j].clone())); }
                                else if f[j][1] != json!(true) { r.fail(&format!("{}|{}|number", label, loc), info(f[j].clone())); }
                            }
                        }
                    }
                }
            }
        }
    }
    // every single byte, and pairs of bytes, in every encoding, before and after the version
    for class in ["latin1", "utf8", "single", "multi"] { for enc in members(class) {
        for (v, dec) in [(None, enc), (Some((0, "AC1018")), enc), (Some((0, "AC1027")), UTF_8)] {
            let mut texts: Vec<Vec<u8>> = (0x80..=0xFFu8).map(|b| vec![b'a', b, b'b']).collect();
            for a in (0x81..=0xFEu8).step_by(3) { for b in (0x40..=0xFEu8).step_by(5) { texts.push(vec![a, b, b'c']); } }
            texts.retain(|t| want(t, dec, false).map_or(false, |w| !w.contains('^') && !w.contains("c\r")));
            if texts.is_empty() { continue }
            let mut p: Pairs = vec![(0, b"SECTION".to_vec()), (2, b"HEADER".to_vec())];
            if let Some((_, v)) = v { p.push((9, b"$ACADVER".to_vec())); p.push((1, v.as_bytes().to_vec())); }
            for (c, v) in [(0, "ENDSEC"), (0, "SECTION"), (2, "ENTITIES")] { p.push((c, v.as_bytes().to_vec())); }
            for t in &texts { p.push((0, b"TEXT".to_vec())); p.push((1, t.clone())); }
            p.push((0, b"ENDSEC".to_vec())); p.push((0, b"EOF".to_vec()));
            for (form, file) in [("text", text(&p, false, "\r\n")), ("binary", binary(&p, true))] {
                r.begin(&format!("bytes {} {}", enc.name(), form));
                r.steps += 1;
                match guard(|| Drawing::load_with_encoding(&mut file.as_slice(), enc)) {
                    Ok(Ok(d)) => for (t, e) in texts.iter().zip(d.entities()) {
                        if let EntityType::Text(x) = &e.specific { let w = want(t, dec, false).unwrap(); if x.value != w { r.fail(&format!("bytes|{}|{}", class, form), json!({"encoding": enc.name(), "bytes": t, "expected": w, "got": x.value})); } }
                    },
                    x => r.fail(&format!("bytes|{}|{}|refused", class, form), json!({"encoding": enc.name(), "version": v, "got": format!("{:?}", x.map(|y| y.map(|_| ())))})),
                }
            }
        }
    } }
}
