// Replays the data trees of Trees.tla on every kind of item that can carry them.
use crate::factory::*;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
enum T { E(String), O(String), Tab(&'static str), Block }
const TABS: [&str; 9] = ["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort"];
fn targets() -> Vec<T> {
    let mut v: Vec<T> = ENTITY_KINDS.iter().map(|k| T::E(k.to_string())).collect();
    v.extend(OBJECT_KINDS.iter().map(|k| T::O(k.to_string())));
    v.extend(TABS.iter().map(|k| T::Tab(k)));
    v.push(T::Block);
    v
}
type Data = (Vec<XData>, Vec<ExtensionGroup>);
fn x_leaf(k: &str, i: u64) -> XDataItem {
    let f = [i as f64 + 0.5, -1e-12, 1e15, 0.0][i as usize % 4];
    match k {
        "str" => XDataItem::Str(if i % 5 == 4 { String::new() } else { format!("s{}", i) }), "brace" => XDataItem::Str(if i % 2 == 0 { "}".into() } else { "{".into() }), "layer" => XDataItem::LayerName(format!("l{}", i)),
        "bytes" => XDataItem::BinaryData((0..[5usize, 0, 1, 127, 250][i as usize % 5]).map(|k| [i as u8, 0, 255, 10, 13][k % 5]).collect()), "handle" => XDataItem::Handle(Handle([0x100 + i, 0, u64::MAX, 1 << 33][i as usize % 4])), "reals" => XDataItem::ThreeReals(f, -f, 0.0),
        "pos" => XDataItem::WorldSpacePosition(Point::new(f, 1.0, 2.0)), "disp" => XDataItem::WorldSpaceDisplacement(Point::new(1.0, f, 2.0)), "dir" => XDataItem::WorldDirection(Vector::new(1.0, 2.0, f)),
        "real" => XDataItem::Real(f), "dist" => XDataItem::Distance(f), "scale" => XDataItem::ScaleFactor(f), "int" => XDataItem::Integer([i as i16 - 3, i16::MIN, i16::MAX, -1][i as usize % 4]), "long" => XDataItem::Long([70000 + i as i32, i32::MIN, i32::MAX, -1][i as usize % 4]),
        _ => panic!("{}", k),
    }
}
fn x_item(v: &Value) -> XDataItem {
    if let Some(k) = v["leaf"].as_str() { return x_leaf(k, v["i"].as_u64().unwrap()); }
    XDataItem::ControlGroup(v["q"].as_array().unwrap().iter().map(x_item).collect())
}
fn e_item(v: &Value) -> ExtensionGroupItem {
    if let Some(k) = v["leaf"].as_str() {
        let i = v["i"].as_u64().unwrap();
        return ExtensionGroupItem::CodePair(match k {
            "str" => CodePair::new_str(300, &format!("s{}", i)), "name" => CodePair::new_str(2, &format!("n{}", i)), "own" => CodePair::new_str(330, &format!("{:X}", 0x100 + i)), "self" => CodePair::new_str(5, &format!("{:X}", 0x200 + i)), "layer" => CodePair::new_str(8, &format!("l{}", i)),
            "mark" => CodePair::new_str(100, "AcDbEntity"), "real" => CodePair::new_f64(40, i as f64 + 0.5), "point" => CodePair::new_f64(10, i as f64), "short" => CodePair::new_i16(70, [i as i16 - 3, i16::MIN, i16::MAX][i as usize % 3]), "int" => CodePair::new_i32(90, [70000 + i as i32, i32::MIN, i32::MAX][i as usize % 3]),
            "long" => CodePair::new_i64(160, [1i64 << 40, i64::MIN, i64::MAX, -1][i as usize % 4]), "bool" => CodePair::new_bool(290, i % 2 == 0), "bytes" => CodePair::new_binary(310, vec![i as u8, 1, 2]), "xapp" => CodePair::new_str(1001, "APP"), "xstr" => CodePair::new_str(1000, "x"),
            _ => panic!("{}", k),
        });
    }
    ExtensionGroupItem::Group(group(v))
}
/// the name of a list or group may be anything
fn named(v: &Value) -> String { let z = v.to_string().bytes().fold(0usize, |a, b| (a * 31 + b as usize) % 10007); let n = v["name"].as_str().unwrap(); match z % 6 { 1 => format!("{{{}", n), 2 => format!("{}}}", n), 3 => format!("{} a_", n), 4 => String::new(), _ => n.into() } }
fn group(v: &Value) -> ExtensionGroup { ExtensionGroup { application_name: named(v), items: v["q"].as_array().unwrap().iter().map(e_item).collect() } }
fn data(c: &Value) -> Data {
    let t = c["trees"].as_array().unwrap();
    if c["what"] == "x" { (t.iter().map(|v| XData { application_name: named(v), items: v["q"].as_array().unwrap().iter().map(x_item).collect() }).collect(), vec![]) } else { (vec![], t.iter().map(group).collect()) }
}
fn prune(g: &[ExtensionGroup]) -> Vec<ExtensionGroup> {
    g.iter().map(|g| ExtensionGroup { application_name: g.application_name.clone(), items: g.items.iter().filter_map(|i| match i { ExtensionGroupItem::Group(q) => prune(std::slice::from_ref(q)).pop().map(ExtensionGroupItem::Group), p => Some(p.clone()) }).collect() }).filter(|g| !g.items.is_empty()).collect()
}
fn eq_x(a: &[XData], b: &[XData]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.application_name == b.application_name && a.items == b.items) }

fn put(d: &mut Drawing, t: &T, name: &str, x: &Data) {
    match t {
        T::E(k) => { let mut e = Entity::new(entity(k).unwrap()); e.common.layer = name.into(); e.common.x_data = x.0.clone(); e.common.extension_data_groups = x.1.clone(); d.add_entity(e); }
        T::O(k) => { let mut o = Object::new(object(k).unwrap()); o.common.x_data = x.0.clone(); o.common.extension_data_groups = x.1.clone(); d.add_object(o); }
        T::Tab(k) => { macro_rules! go { ($t:ident, $add:ident) => {{ let mut i = $t::default(); i.name = name.into(); i.x_data = x.0.clone(); i.extension_data_groups = x.1.clone(); d.$add(i); }} }
            match *k { "AppId" => go!(AppId, add_app_id), "BlockRecord" => go!(BlockRecord, add_block_record), "DimStyle" => go!(DimStyle, add_dim_style), "Layer" => go!(Layer, add_layer), "LineType" => go!(LineType, add_line_type), "Style" => go!(Style, add_style), "Ucs" => go!(Ucs, add_ucs), "View" => go!(View, add_view), _ => go!(ViewPort, add_view_port) } }
        T::Block => {
            let e = |n: f64| Entity::new(EntityType::Line(Line { p1: Point::new(n, 0.0, 0.0), ..Line::default() }));
            d.add_block(Block { name: name.into(), x_data: x.0.clone(), extension_data_groups: x.1.clone(), entities: vec![e(1.0), e(2.0)], ..Block::default() });
        }
    }
}
/// the items put there: (data, everything else)
fn get(d: &Drawing, t: &T) -> Vec<(Data, Value)> {
    macro_rules! take { ($i:expr, $x:expr, $g:expr, $name:expr) => {{ let mut i = $i.clone(); let _ = &mut i; (($x.clone(), $g.clone()), serde_json::to_value(&i).unwrap()) }} }
    fn strip(mut q: (Data, Value)) -> (Data, Value) {
        fn walk(v: &mut Value) { match v { Value::Object(m) => { m.remove("x_data"); m.remove("extension_data_groups"); m.remove("handle"); m.remove("__owner_handle"); m.remove("timestamp"); m.remove("time_stamp"); for x in m.values_mut() { walk(x); } } Value::Array(a) => for x in a { walk(x); }, _ => () } }
        walk(&mut q.1); q
    }
    let out: Vec<(Data, Value)> = match t {
        T::E(_) => d.entities().map(|e| take!(e, e.common.x_data, e.common.extension_data_groups, e)).collect(),
        T::O(_) => d.objects().map(|e| take!(e, e.common.x_data, e.common.extension_data_groups, e)).collect(),
        T::Tab(k) => { macro_rules! go { ($it:ident) => { d.$it().filter(|i| i.name.starts_with("N_")).map(|i| take!(i, i.x_data, i.extension_data_groups, i)).collect() } }
            match *k { "AppId" => go!(app_ids), "BlockRecord" => go!(block_records), "DimStyle" => go!(dim_styles), "Layer" => go!(layers), "LineType" => go!(line_types), "Style" => go!(styles), "Ucs" => go!(ucss), "View" => go!(views), _ => go!(view_ports) } }
        T::Block => d.blocks().filter(|i| i.name.starts_with("N_")).map(|i| take!(i, i.x_data, i.extension_data_groups, i)).collect(),
    };
    out.into_iter().map(strip).collect()
}
fn trip(d: &Drawing, form: &str) -> Result<Drawing, String> {
    let r = guard(|| -> Result<_, String> {
        let mut buf = vec![];
        if form == "text" { d.save(&mut buf) } else { d.save_binary(&mut buf) }.map_err(|e| format!("save: {}", e))?;
        Drawing::load(&mut buf.as_slice()).map_err(|e| format!("load: {}", e))
    });
    match r { Ok(x) => x, Err(e) => Err(e) }
}
fn three(t: &T, a: &Data, b: &Data, v: usize) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = ver(v);
    let none: Data = (vec![], vec![]);
    put(&mut d, t, "N_1", a); put(&mut d, t, "N_2", &none); put(&mut d, t, "N_3", b);
    d
}
fn one(t: &T, a: &Data, b: &Data, v: usize, form: &str, from: usize, shown: &Value, r: &mut Report) {
    r.begin(&format!("{:?} version {} {} {}", t, v, form, shown));
    r.cases += 1; r.steps += 2;
    let none: Data = (vec![], vec![]);
    let ctl = match trip(&three(t, &none, &none, v), form) { Ok(d) => get(&d, t), Err(_) => return };
    if ctl.len() != 3 { return } // not in this version
    let name = match t { T::E(k) => k.clone(), T::O(k) => k.clone(), T::Tab(k) => k.to_string(), T::Block => "Block".into() };
    let what = if from == 16 { "x data" } else { "extension groups" };
    let site = format!("{}|{}", name, what);
    r.count(&name);
    let got = match trip(&three(t, a, b, v), form) { Ok(d) => get(&d, t), Err(e) => { r.fail(&site, json!({"version": v, "form": form, "data": shown, "got": e})); return } };
    if got.len() != 3 { r.fail(&site, json!({"version": v, "form": form, "data": shown, "got": format!("{} items", got.len())})); return }
    for (i, w) in [a, &none, b].iter().enumerate() {
        let w = if v >= from { (*w).clone() } else { none.clone() };
        let g = &got[i].0;
        if !eq_x(&w.0, &g.0) || prune(&w.1) != prune(&g.1) { r.fail(&site, json!({"version": v, "form": form, "item": i + 1, "data": shown, "got": format!("{:?} {:?}", g.0, g.1)})); return }
        if got[i].1 != ctl[i].1 { r.fail(&format!("{}|own fields", site), json!({"version": v, "form": form, "item": i + 1, "data": shown, "expected": ctl[i].1, "got": got[i].1})); return }
    }
}
/// a tree of the given depth
fn deep(n: usize) -> (Data, Data) {
    let mut x = XDataItem::Str("in".into());
    let mut g = ExtensionGroupItem::CodePair(CodePair::new_i16(70, 5));
    for i in 0..n { x = XDataItem::ControlGroup(vec![x, XDataItem::Integer(i as i16)]); g = ExtensionGroupItem::Group(ExtensionGroup { application_name: format!("G{}", i), items: vec![g, ExtensionGroupItem::CodePair(CodePair::new_i16(70, i as i16))] }); }
    ((vec![XData { application_name: "A".into(), items: vec![x] }], vec![]), (vec![], vec![ExtensionGroup { application_name: "A".into(), items: vec![g] }]))
}

pub fn run(cases: &str, modes: &[&str], r: &mut Report) {
    let ts = targets();
    let vers = [13usize, 14, 15, 16, 17, 18, 21];
    let per: usize = modes.iter().find_map(|m| m.parse().ok()).unwrap_or(3);
    let mut prev: Option<Data> = None;
    for (n, c) in lines(cases).enumerate() {
        let x = data(&c);
        let from = c["from"].as_u64().unwrap() as usize;
        let b = prev.replace(x.clone()).unwrap_or_else(|| x.clone());
        for j in 0..per {
            let k = n * per + j;
            let t = &ts[k % ts.len()];
            let v = vers[(k / ts.len() + k) % vers.len()];
            one(t, &x, &b, v, if (k / 3) % 2 == 0 { "text" } else { "binary" }, from, &c["trees"], r);
        }
        if n < 4 { for t in &ts { for v in vers { for form in ["text", "binary"] { one(t, &x, &b, v, form, from, &c["trees"], r); } } } }
    }
    if modes.contains(&"deep") {
        for n in [1usize, 2, 10, 60, 200] { let (x, g) = deep(n); for t in &ts { for v in [15usize, 16, 21] {
            let shown = json!({"depth": n});
            one(t, &x, &x, v, "text", 16, &shown, r); one(t, &g, &g, v, "binary", 15, &shown, r);
        } } }
        // up to 256 levels are read, more are refused
        for (k, n) in [254usize, 255, 256, 257, 300].into_iter().enumerate() { for (j, t) in ts.iter().enumerate() { if (j + k) % 7 > 0 && *t != T::Block { continue; }
            let (x, g) = deep(n);
            for (data, levels, form) in [(&x, n, "text"), (&x, n, "binary"), (&g, n + 1, "text"), (&g, n + 1, "binary")] {
                let shown = json!({"depth": n});
                let none: Data = (vec![], vec![]);
                if trip(&three(t, &none, &none, 21), form).map_or(0, |d| get(&d, t).len()) != 3 { continue; }
                let from = if data.0.is_empty() { 15 } else { 16 };
                if levels <= 256 { one(t, data, data, 21, form, from, &shown, r); continue; }
                r.begin(&format!("{:?} {} {} levels", t, form, levels));
                r.cases += 1; r.steps += 1;
                if trip(&three(t, data, &none, 21), form).is_ok() { r.fail("levels|accepted", json!({"item": format!("{:?}", t), "form": form, "levels": levels, "what": from})); }
            }
        } }
    }
}
