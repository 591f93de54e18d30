// Replays Layout.tla: drawings built item by item and saved; the whole file is compared with the predicted layout.
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};

fn ext(d: &str) -> Vec<ExtensionGroup> {
    let g = |n: &str, items| ExtensionGroup { application_name: n.into(), items };
    let one = g("APP", vec![ExtensionGroupItem::CodePair(CodePair::new_str(1, "one"))]);
    match d {
        "ext" => vec![one],
        "emptyext" => vec![g("APP", vec![])],
        "ext2x2" => vec![one, g("APP2", vec![ExtensionGroupItem::Group(g("IN", vec![ExtensionGroupItem::CodePair(CodePair::new_i16(70, 7))])), ExtensionGroupItem::CodePair(CodePair::new_f64(40, 0.5))])],
        _ => vec![],
    }
}
fn xd(d: &str) -> Vec<XData> {
    let x = |n: &str, items| XData { application_name: n.into(), items };
    match d {
        "x" => vec![x("APP", vec![XDataItem::Str("text".into())])],
        "ext2x2" => vec![x("APP", vec![XDataItem::ControlGroup(vec![XDataItem::Integer(5)])]), x("APP2", vec![])],
        _ => vec![],
    }
}
fn own(d: &str) -> Handle { if d == "own" { Handle(0xABC) } else { Handle(0) } }
fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap() }
fn entity(e: &Value) -> Entity {
    let n = e["parts"].as_u64().unwrap();
    let mut x = Entity::new(match s(e, "k") {
        "line" => EntityType::Line(Line::default()),
        "mtext" => EntityType::MText(MText::default()),
        "lwpoly" => EntityType::LwPolyline(LwPolyline::default()),
        "light" => EntityType::Light(Light::default()),
        "attdef" => EntityType::AttributeDefinition(AttributeDefinition::default()),
        "poly" => { let mut p = Polyline::default(); for _ in 0..n { p.__vertices_and_handles.push((Vertex::default(), Handle(0))); } EntityType::Polyline(p) }
        _ => { let mut p = Insert::default(); for _ in 0..n { p.__attributes_and_handles.push((Attribute::default(), Handle(0))); } EntityType::Insert(p) }
    });
    let d = s(e, "d");
    x.common.extension_data_groups = ext(d);
    x.common.x_data = xd(d);
    x.common.__owner_handle = own(d);
    x
}
fn build(c: &Value) -> Drawing {
    let mut d = Drawing::new();
    d.clear();
    for a in c["acts"].as_array().unwrap() {
        match s(a, "a") {
            "entry" => {
                let (nm, de) = (s(a, "nm"), s(a, "d"));
                macro_rules! add { ($t:ident, $f:ident) => { { d.$f($t { name: nm.into(), extension_data_groups: ext(de), x_data: xd(de), ..Default::default() }); } } }
                match s(a, "k") {
                    "APPID" => add!(AppId, add_app_id), "BLOCK_RECORD" => add!(BlockRecord, add_block_record), "DIMSTYLE" => add!(DimStyle, add_dim_style), "LTYPE" => add!(LineType, add_line_type),
                    "LAYER" => add!(Layer, add_layer), "STYLE" => add!(Style, add_style), "UCS" => add!(Ucs, add_ucs), "VIEW" => add!(View, add_view), _ => add!(ViewPort, add_view_port),
                }
            }
            "class" => d.classes.push(Class { record_name: s(a, "nm").into(), class_name: "Cpp".into(), application_name: "App".into(), version_number: 4, proxy_capability_flags: 3, instance_count: 2, was_class_loaded_with_file: true, is_entity: true }),
            "block" => {
                let b = &a["b"];
                let de = s(b, "d");
                d.add_block(Block {
                    name: s(b, "nm").into(), is_in_paperspace: b["paper"] == true, description: if b["desc"] == true { "about".into() } else { String::new() }, base_point: Point::new(1.5, 2.5, 3.5),
                    extension_data_groups: ext(de), x_data: xd(de), __owner_handle: own(de), entities: b["ents"].as_array().unwrap().iter().map(entity).collect(), ..Default::default()
                });
            }
            "inside" => { let e = entity(&a["e"]); d.blocks_mut().last().unwrap().entities.push(e); }
            "entity" => { d.add_entity(entity(&a["e"])); }
            "object" => {
                let mut o = Object::new(match s(a, "k") { "dict" => ObjectType::Dictionary(Dictionary::default()), "place" => ObjectType::PlaceHolder(PlaceHolder::default()), "lights" => ObjectType::LightList(LightList::default()), _ => ObjectType::DictionaryVariable(DictionaryVariable::default()) });
                let de = s(a, "d");
                o.common.extension_data_groups = ext(de);
                o.common.x_data = xd(de);
                o.common.__owner_handle = own(de);
                d.add_object(o);
            }
            _ => d.thumbnail = Some(image::DynamicImage::ImageRgb8(image::RgbImage::new(a["w"].as_u64().unwrap() as u32, 3))),
        }
    }
    d.header.version = ver(c["ver"].as_u64().unwrap() as usize);
    d.header.handles_enabled = c["he"] == true;
    d
}
fn num(x: &str) -> Option<f64> { x.trim().parse().ok() }
fn compare(want: &[Value], got: &[(i32, String)]) -> Option<(String, Value)> {
    let (mut i, mut rec, mut sec, mut block) = (0, String::from("start"), String::new(), String::new());
    let at = |i: usize| json!(got[i.saturating_sub(3).min(got.len())..(i + 3).min(got.len())]);
    for (k, w) in want.iter().enumerate() {
        let (c, v) = (w[0].as_i64().unwrap() as i32, w[1].as_str().unwrap());
        if c == -1 {
            while i < got.len() && !matches!(got[i].0, 0 | 100 | 102 | 1000..=1071) { i += 1; }
            continue;
        }
        if c == 0 { rec = v.into(); }
        if k > 0 && want[k - 1][1] == "SECTION" && want[k - 1][0] == 0 { sec = v.into(); }
        let site = format!("layout|{}|{}|{}", sec, rec, c);
        let Some((gc, gv)) = got.get(i) else { return Some((site, json!({"want": w, "got": "end of file"}))) };
        let ok = *gc == c && match v {
            "*" => true,
            "h" | "b" => u64::from_str_radix(gv.trim(), 16).map_or(false, |x| x > 0),
            _ => gv == v || (matches!(c, 10..=59 | 60..=99 | 280..=289 | 1070) && num(gv).is_some() && num(gv) == num(v)),
        };
        if !ok { return Some((site, json!({"want": w, "place": k, "got": at(i)}))); }
        if rec == "BLOCK" && c == 5 { block = gv.clone(); }
        if v == "b" && !block.is_empty() && *gv != block { return Some((site, json!({"want": format!("handle of the block, {}", block), "got": gv}))); }
        i += 1;
    }
    if i < got.len() { return Some((format!("layout|end|{}", got[i].0), json!({"left over": at(i)}))); }
    None
}
fn text(d: &Drawing) -> Result<Vec<u8>, String> { let mut o = vec![]; d.save(&mut o).map(|_| o).map_err(|e| e.to_string()) }
fn load(b: &[u8]) -> Result<Drawing, String> { Drawing::load(&mut &b[..]).map_err(|e| e.to_string()) }
/// loose: before version 13 the record of a block has no place for its handle, so it gets a new one with every load
fn differ(a: &[u8], b: &[u8], loose: bool) -> Option<Value> {
    if a == b { return None; }
    let (mut x, mut y) = (raw_pairs(a), raw_pairs(b));
    if loose { for q in [&mut x, &mut y] { if let Some(i) = q.iter().position(|p| p.1 == "$HANDSEED") { q.remove(i + 1); } let ends: Vec<usize> = (1..q.len()).rev().filter(|&i| q[i].0 == 5 && q[i - 1] == (0, "ENDBLK".to_string())).collect(); for i in ends { q.remove(i); } } }
    if x == y { return None; }
    let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
    Some(json!({"place": i, "one": x.get(i), "other": y.get(i)}))
}
pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    for c in lines(cases) {
        r.cases += 1;
        r.begin(&json!({"acts": c["acts"], "ver": c["ver"], "he": c["he"]}).to_string());
        let note = json!({"acts": c["acts"], "version": format!("{:?}", ver(c["ver"].as_u64().unwrap() as usize)), "handles": c["he"]});
        for a in c["acts"].as_array().unwrap() { r.count(s(a, "a")); }
        let loose = c["ver"].as_u64().unwrap() < 14;
        for mode in modes {
            r.steps += 1;
            let res = guard(|| -> Result<Option<(String, Value)>, String> {
                let d = build(&c);
                let first = text(&d)?;
                match *mode {
                    "noise" => {
                        // a comment after every pair; lines of the other style; blanks around group codes and numbers
                        let ps = raw_pairs(&first);
                        let plain = text(&load(&first)?)?;
                        let (mut a, mut b, mut w) = (vec![], String::new(), String::new());
                        for (i, (c, v)) in ps.iter().enumerate() {
                            a.push((*c, v.clone()));
                            a.push((999, ["remark", "0", "ENDSEC", "", "{", "}"][i % 6].to_string()));
                            b.push_str(&format!("{}\n{}\n", c, v));
                            let num = "dilqb".contains(crate::reader::kind(*c));
                            let v = if crate::reader::kind(*c) == 'i' && i % 4 == 0 { format!("{}.0", v.trim()) } else { v.clone() }; // some programs write shorts so
                            w.push_str(&format!("{}{}{}\r\n{}\r\n", ["", "  ", "\t"][i % 3], c, ["", " "][i % 2], if num { format!("{}{}{}", [" ", "", "   "][i % 3], v.trim(), ["", "  "][i / 2 % 2]) } else { v.clone() }));
                        }
                        for (what, bytes) in [("comments", text_of(&a)), ("line ends", b.into_bytes()), ("blanks", w.into_bytes())] {
                            let got = text(&load(&bytes).map_err(|e| format!("{}: {}", what, e))?)?;
                            if let Some(x) = differ(&plain, &got, false) { return Ok(Some((format!("layout|{}", what), x))); }
                        }
                        Ok(None)
                    }
                    "cut" => {
                        let ps = raw_pairs(&first);
                        let h = first.len();
                        for j in 0..12 {
                            let at = 1 + (h * 7919 + j * 104729) % (ps.len() - 1);
                            let whole = ps[at - 1] == (0, "ENDSEC".to_string());
                            match (load(&text_of(&ps[..at])), whole) {
                                (Ok(_), false) => return Ok(Some(("layout|cut short accepted".into(), json!({"after": ps[at - 1], "before": ps[at]})))),
                                (Err(e), true) => return Ok(Some(("layout|end between sections refused".into(), json!({"before": ps[at], "got": e})))),
                                _ => (),
                            }
                        }
                        Ok(None)
                    }
                    "wire" => Ok(compare(c["file"].as_array().unwrap(), &raw_pairs(&first))),
                    "fix" => {
                        // the same drawing gives the same file; what was loaded comes out the same time and again
                        if let Some(x) = differ(&first, &text(&d)?, false) { return Ok(Some(("layout|again".into(), x))); }
                        let second = text(&load(&first)?)?;
                        // an entity pushed into a block gets its handle with the load
                        let inside = c["acts"].as_array().unwrap().iter().any(|a| a["a"] == "inside");
                        if c["ver"] != 12 && !inside { if let Some(x) = differ(&first, &second, loose) { return Ok(Some(("layout|first".into(), x))); } }
                        let third = text(&load(&second)?)?;
                        Ok(differ(&second, &third, loose).map(|x| ("layout|fixed point".into(), x)))
                    }
                    _ => {
                        let mut b = vec![];
                        d.save_binary(&mut b).map_err(|e| e.to_string())?;
                        Ok(differ(&text(&load(&first)?)?, &text(&load(&b)?)?, loose).map(|x| ("layout|binary".into(), x)))
                    }
                }
            });
            match res {
                Ok(Ok(None)) => (),
                Ok(Ok(Some((site, why)))) => r.fail(&site, json!({"case": note, "why": why})),
                Ok(Err(e)) | Err(e) => r.fail(&format!("layout|{}|error", mode), json!({"case": note, "got": e})),
            }
        }
    }
}
