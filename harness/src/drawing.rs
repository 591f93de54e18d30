// Replays the behaviours of Drawing.tla: histories of edits, normalization, saves and loads.
// After each step the drawing is compared with the state the specification predicts.
use crate::util::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};

pub const COLLS: [&str; 12] = ["app_ids", "block_records", "dim_styles", "layers", "line_types", "styles", "ucss", "views", "view_ports", "blocks", "entities", "objects"];

#[derive(Clone)]
pub enum Any { AppId(AppId), BlockRecord(BlockRecord), DimStyle(DimStyle), Layer(Layer), LineType(LineType), Style(Style), Ucs(Ucs), View(View), ViewPort(ViewPort), Block(Block), Entity(Entity), Object(Object) }

macro_rules! per_coll {
    ($m:ident, $c:expr, $($a:tt)*) => { match $c {
        "app_ids" => $m!(AppId, app_ids, app_ids_mut, add_app_id, remove_app_id, $($a)*),
        "block_records" => $m!(BlockRecord, block_records, block_records_mut, add_block_record, remove_block_record, $($a)*),
        "dim_styles" => $m!(DimStyle, dim_styles, dim_styles_mut, add_dim_style, remove_dim_style, $($a)*),
        "layers" => $m!(Layer, layers, layers_mut, add_layer, remove_layer, $($a)*),
        "line_types" => $m!(LineType, line_types, line_types_mut, add_line_type, remove_line_type, $($a)*),
        "styles" => $m!(Style, styles, styles_mut, add_style, remove_style, $($a)*),
        "ucss" => $m!(Ucs, ucss, ucss_mut, add_ucs, remove_ucs, $($a)*),
        "views" => $m!(View, views, views_mut, add_view, remove_view, $($a)*),
        "view_ports" => $m!(ViewPort, view_ports, view_ports_mut, add_view_port, remove_view_port, $($a)*),
        "blocks" => $m!(Block, blocks, blocks_mut, add_block, remove_block, $($a)*),
        "entities" => $m!(Entity, entities, entities_mut, add_entity, remove_entity, $($a)*),
        "objects" => $m!(Object, objects, objects_mut, add_object, remove_object, $($a)*),
        x => panic!("collection {}", x),
    } };
}

// ------------------------------------------------------------------ projections
fn ent_kind(e: &Entity) -> &'static str {
    use EntityType::*;
    match e.specific { Text(_) => "Text", MText(_) => "MText", Attribute(_) => "Attribute", AttributeDefinition(_) => "AttributeDefinition", ArcAlignedText(_) => "ArcAlignedText",
        RotatedDimension(_) => "RotatedDimension", RadialDimension(_) => "RadialDimension", DiameterDimension(_) => "DiameterDimension", AngularThreePointDimension(_) => "AngularThreePointDimension",
        OrdinateDimension(_) => "OrdinateDimension", Leader(_) => "Leader", Tolerance(_) => "Tolerance", Insert(_) => "Insert", Polyline(_) => "Polyline", Line(_) => "Line", MLine(_) => "MLine", _ => "?" }
}
fn ent_style(e: &Entity) -> String {
    use EntityType::*;
    match e.specific { Text(ref x) => x.text_style_name.clone(), MText(ref x) => x.text_style_name.clone(), Attribute(ref x) => x.text_style_name.clone(),
        AttributeDefinition(ref x) => x.text_style_name.clone(), ArcAlignedText(ref x) => x.text_style_name.clone(),
        RotatedDimension(ref x) => x.dimension_base.dimension_style_name.clone(), RadialDimension(ref x) => x.dimension_base.dimension_style_name.clone(),
        DiameterDimension(ref x) => x.dimension_base.dimension_style_name.clone(), AngularThreePointDimension(ref x) => x.dimension_base.dimension_style_name.clone(),
        OrdinateDimension(ref x) => x.dimension_base.dimension_style_name.clone(), Leader(ref x) => x.dimension_style_name.clone(), Tolerance(ref x) => x.dimension_style_name.clone(),
        Insert(ref x) => x.attributes().next().map_or(String::new(), |a| a.text_style_name.clone()), MLine(ref x) => x.style_name.clone(), _ => String::new() }
}
fn ent_set_style(e: &mut Entity, s: &str) {
    use EntityType::*;
    let s = s.to_string();
    match e.specific { Text(ref mut x) => x.text_style_name = s, MText(ref mut x) => x.text_style_name = s, Attribute(ref mut x) => x.text_style_name = s,
        AttributeDefinition(ref mut x) => x.text_style_name = s, ArcAlignedText(ref mut x) => x.text_style_name = s,
        RotatedDimension(ref mut x) => x.dimension_base.dimension_style_name = s, RadialDimension(ref mut x) => x.dimension_base.dimension_style_name = s,
        DiameterDimension(ref mut x) => x.dimension_base.dimension_style_name = s, AngularThreePointDimension(ref mut x) => x.dimension_base.dimension_style_name = s,
        OrdinateDimension(ref mut x) => x.dimension_base.dimension_style_name = s, Leader(ref mut x) => x.dimension_style_name = s, Tolerance(ref mut x) => x.dimension_style_name = s,
        MLine(ref mut x) => x.style_name = s, _ => () }
}
/// an item as the specification sees it
#[derive(Clone, Debug, Default)]
pub struct P { pub k: String, pub n: String, pub h: u64, pub lay: String, pub lt: String, pub sty: String, pub ns: Vec<String>, pub parts: Vec<(String, u64)>, pub se: u64, pub sub: Vec<P>, pub js: String }
fn zero_handles(e: &mut Entity) {
    e.common.handle = Handle::empty();
    match e.specific {
        EntityType::Insert(ref mut i) => { i.__seqend_handle = Handle::empty(); for a in &mut i.__attributes_and_handles { a.1 = Handle::empty(); } }
        EntityType::Polyline(ref mut i) => { i.__seqend_handle = Handle::empty(); for a in &mut i.__vertices_and_handles { a.1 = Handle::empty(); } }
        _ => (),
    }
}
fn proj_ent(e: &Entity) -> P {
    let mut p = P { k: ent_kind(e).into(), n: e.common.color.index().map_or(String::from("?"), |x| x.to_string()), h: e.common.handle.0, lay: e.common.layer.clone(), lt: e.common.line_type_name.clone(), sty: ent_style(e), ..P::default() };
    match e.specific {
        EntityType::Insert(ref i) => { p.parts = i.__attributes_and_handles.iter().map(|(a, h)| (a.attribute_tag.clone(), h.0)).collect(); if !p.parts.is_empty() { p.se = i.__seqend_handle.0; } }
        EntityType::Polyline(ref i) => { p.parts = i.__vertices_and_handles.iter().map(|(a, h)| (format!("{}", a.location.x), h.0)).collect(); p.se = i.__seqend_handle.0; }
        _ => (),
    }
    let mut c = e.clone(); zero_handles(&mut c);
    p.js = serde_json::to_string(&c).unwrap();
    p
}
fn proj_any(a: &Any) -> P {
    macro_rules! tab { ($k:expr, $x:expr) => {{ let mut c = $x.clone(); c.handle = Handle::empty(); P { k: $k.into(), n: $x.name.clone(), h: $x.handle.0, js: serde_json::to_string(&c).unwrap(), ..P::default() } }}; }
    match a {
        Any::AppId(x) => tab!("AppId", x), Any::BlockRecord(x) => tab!("BlockRecord", x), Any::DimStyle(x) => tab!("DimStyle", x),
        Any::Layer(x) => { let mut p = tab!("Layer", x); p.lt = x.line_type_name.clone(); p }
        Any::LineType(x) => tab!("LineType", x), Any::Style(x) => tab!("Style", x), Any::Ucs(x) => tab!("Ucs", x), Any::View(x) => tab!("View", x), Any::ViewPort(x) => tab!("ViewPort", x),
        Any::Block(x) => {
            let mut c = x.clone(); c.handle = Handle::empty(); c.entities.iter_mut().for_each(zero_handles);
            P { k: "Block".into(), n: x.name.clone(), h: x.handle.0, lay: x.layer.clone(), sub: x.entities.iter().map(proj_ent).collect(), js: serde_json::to_string(&c).unwrap(), ..P::default() }
        }
        Any::Entity(x) => proj_ent(x),
        Any::Object(x) => {
            use ObjectType::*;
            let (k, n, ns) = match x.specific { LayerFilter(ref o) => ("LayerFilter", "", o.layer_names.clone()), LayerIndex(ref o) => ("LayerIndex", "", o.layer_names.clone()),
                MLineStyle(ref o) => ("MLineStyle", o.style_name.as_str(), vec![]), PlotSettings(ref o) => ("PlotSettings", o.plot_view_name.as_str(), vec![]), PlaceHolder(_) => ("PlaceHolder", "", vec![]), _ => ("?", "", vec![]) };
            let mut c = x.clone(); c.common.handle = Handle::empty();
            P { k: k.into(), n: n.into(), h: x.common.handle.0, ns, js: serde_json::to_string(&c).unwrap(), ..P::default() }
        }
    }
}
fn items(d: &Drawing, c: &str) -> Vec<P> {
    macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { d.$it().map(|x| proj_any(&Any::$t(x.clone()))).collect() } }
    per_coll!(go, c,)
}
fn project(d: &Drawing) -> Vec<Vec<P>> { COLLS.iter().map(|c| items(d, c)).collect() }
/// the same, told from the specification's tuple
fn expect(t: &Value) -> P {
    let s = |i: usize| t[i].as_str().unwrap().to_string();
    P { k: s(0), n: s(1), h: t[2].as_u64().unwrap(), lay: s(3), lt: s(4), sty: s(5), ns: t[6].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect(),
        parts: t[7].as_array().unwrap().iter().map(|p| (p["n"].as_str().unwrap().to_string(), p["id"].as_u64().unwrap())).collect(),
        se: t[8].as_u64().unwrap(), sub: t[9].as_array().unwrap().iter().map(expect).collect(), js: t[10].to_string() }
}
fn shape(p: &P) -> Value {
    let sty = if p.k == "Insert" && p.parts.is_empty() { "" } else { &p.sty };
    json!([p.k, p.n, p.lay, p.lt, sty, p.ns, p.parts.iter().map(|x| &x.0).collect::<Vec<_>>(), p.sub.iter().map(shape).collect::<Vec<_>>()])
}

// ------------------------------------------------------------------ realising templates
fn set_path(v: &mut Value, path: &str, x: Value) { let mut cur = v; for p in path.split('.') { cur = cur.get_mut(p).unwrap_or_else(|| panic!("path {}", p)); } *cur = x; }
fn path<'a>(v: &'a Value, path: &str) -> &'a Value { let mut cur = v; for p in path.split('.') { cur = &cur[p]; } cur }
fn make_entity(p: &P, home: &mut Drawing) -> Entity {
    let spec = match p.k.as_str() {
        "Polyline" => { let mut x = Polyline::default(); for (n, _) in &p.parts { x.add_vertex(home, Vertex::new(Point::new(n.parse().unwrap(), 0.0, 0.0))); } EntityType::Polyline(x) }
        "Insert" => { let mut x = Insert { name: "b".into(), ..Insert::default() };
            for (i, (n, _)) in p.parts.iter().enumerate() { x.add_attribute(home, Attribute { attribute_tag: n.clone(), text_style_name: if i == 1 { "B".into() } else { p.sty.clone() }, ..Attribute::default() }); } EntityType::Insert(x) }
        k => crate::factory::entity(k).unwrap(),
    };
    let mut e = Entity::new(spec);
    e.common.layer = p.lay.clone(); e.common.line_type_name = p.lt.clone(); e.common.color = Color::from_index(p.n.parse().unwrap());
    ent_set_style(&mut e, &p.sty);
    e
}
fn make(c: &str, p: &P, dev: &Value, home: &mut Drawing) -> Any {
    macro_rules! tab { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => {{
        let mut v = serde_json::to_value(&$t::default()).unwrap();
        set_path(&mut v, "name", json!(p.n));
        if !p.lt.is_empty() || c == "layers" { set_path(&mut v, "line_type_name", json!(p.lt)); }
        if c == "view_ports" { set_path(&mut v, "snap_spacing.z", json!(1.0)); set_path(&mut v, "grid_spacing.z", json!(1.0)); } // zero is out of range
        if let Some(path) = dev.get(0) { set_path(&mut v, path.as_str().unwrap(), serde_json::from_str(dev[1].as_str().unwrap()).unwrap()); }
        Any::$t(serde_json::from_value(v).unwrap())
    }} }
    match c {
        "entities" => Any::Entity(make_entity(p, home)),
        "blocks" => { let mut b = Block::default(); b.name = p.n.clone(); b.layer = p.lay.clone(); for s in &p.sub { b.entities.push(make_entity(s, home)); } Any::Block(b) }
        "objects" => {
            let mut o = crate::factory::object(&p.k).unwrap();
            match o { ObjectType::LayerFilter(ref mut x) => x.layer_names = p.ns.clone(), ObjectType::LayerIndex(ref mut x) => x.layer_names = p.ns.clone(),
                ObjectType::MLineStyle(ref mut x) => x.style_name = p.n.clone(), ObjectType::PlotSettings(ref mut x) => x.plot_view_name = p.n.clone(), _ => () }
            Any::Object(Object::new(o))
        }
        _ => { macro_rules! only { ($($x:tt)*) => { tab_only!($($x)*) } }
            macro_rules! tab_only { (Block, $($x:tt)*) => { unreachable!() }; (Entity, $($x:tt)*) => { unreachable!() }; (Object, $($x:tt)*) => { unreachable!() }; ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { tab!($t, $it, $m, $add, $rm, ) } }
            per_coll!(only, c,) }
    }
}
/// add; whether what is returned is the last item of the collection
fn add(d: &mut Drawing, c: &str, a: Any) -> bool {
    macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { match a { Any::$t(x) => { let p = d.$add(x) as *const $t; d.$it().last().map_or(false, |l| std::ptr::eq(l, p)) } _ => panic!() } } }
    per_coll!(go, c,)
}
fn remove(d: &mut Drawing, c: &str, i: usize) -> Option<Any> {
    macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { d.$rm(i).map(Any::$t) } }
    per_coll!(go, c,)
}
fn nth(d: &Drawing, c: &str, i: usize) -> Any {
    macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { Any::$t(d.$it().nth(i).unwrap().clone()) } }
    per_coll!(go, c,)
}
fn header_get(h: &Header, f: &str) -> String {
    match f { "current_layer" => &h.current_layer, "ucs_definition_name" => &h.ucs_definition_name, "ucs_name" => &h.ucs_name, "ortho_ucs_reference" => &h.ortho_ucs_reference,
        "paperspace_ucs_definition_name" => &h.paperspace_ucs_definition_name, "paperspace_ucs_name" => &h.paperspace_ucs_name, "paperspace_ortho_ucs_reference" => &h.paperspace_ortho_ucs_reference, _ => panic!("{}", f) }.clone()
}
fn header_set(h: &mut Header, f: &str, v: &str) {
    *match f { "current_layer" => &mut h.current_layer, "ucs_definition_name" => &mut h.ucs_definition_name, "ucs_name" => &mut h.ucs_name, "ortho_ucs_reference" => &mut h.ortho_ucs_reference,
        "paperspace_ucs_definition_name" => &mut h.paperspace_ucs_definition_name, "paperspace_ucs_name" => &mut h.paperspace_ucs_name, "paperspace_ortho_ucs_reference" => &mut h.paperspace_ortho_ucs_reference, _ => panic!("{}", f) } = v.to_string();
}
fn header_text(h: &Header) -> String { let mut h = h.clone(); h.next_available_handle = Handle::empty(); serde_json::to_string(&h).unwrap() }

// ------------------------------------------------------------------ checks on one state
fn lookup(d: &mut Drawing, all: &[Vec<P>]) -> Result<(), String> {
    if d.item_by_handle(Handle(0)).is_some() || d.item_by_handle_mut(Handle(0)).is_some() { return Err("handle 0 resolves".into()); }
    let mut top = HashSet::new();
    for (ci, c) in COLLS.iter().enumerate() {
        for (i, p) in all[ci].iter().enumerate() {
            top.insert(p.h);
            macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => {{
                let want = d.$it().nth(i).unwrap() as *const $t;
                match d.item_by_handle(Handle(p.h)) { Some(DrawingItem::$t(x)) if std::ptr::eq(x, want) => (), Some(_) => return Err(format!("{}[{}]: handle {:X} resolves to something else", c, i, p.h)), None => return Err(format!("{}[{}]: handle {:X} does not resolve", c, i, p.h)) }
                match d.item_by_handle_mut(Handle(p.h)) { Some(DrawingItemMut::$t(x)) if std::ptr::eq(x as *const $t, want) => (), Some(_) => return Err(format!("{}[{}]: handle {:X} resolves mutably to something else", c, i, p.h)), None => return Err(format!("{}[{}]: handle {:X} does not resolve mutably", c, i, p.h)) }
            }} }
            per_coll!(go, *c,);
        }
    }
    let mx = top.iter().max().copied().unwrap_or(0);
    for h in (1..=mx + 2).filter(|h| !top.contains(h)).take(6).chain([mx + 1, u64::MAX]) {
        if top.contains(&h) { continue; }
        // parts of entities may be found too, but never as one of the items
        if let Some(it) = d.item_by_handle(Handle(h)) { if it.handle().0 != h { return Err(format!("unused handle {:X} resolves", h)); } }
    }
    Ok(())
}
type Bind = HashMap<u64, u64>;
fn bind(e: &P, g: &P, place: &str, b: &mut Bind, seen: &mut HashMap<u64, String>, prev: &Bind, out: &mut Vec<String>) {
    let mut one = |tok: u64, h: u64, place: String| {
        if h == 0 { out.push(format!("{}: no handle", place)); return; }
        if let Some(o) = seen.get(&h) { out.push(format!("{} and {} share handle {:X}", o, place, h)); }
        seen.insert(h, place.clone());
        if let Some(o) = prev.get(&tok) { if *o != h { out.push(format!("{}: handle changed from {:X} to {:X}", place, o, h)); } }
        b.insert(tok, h);
    };
    one(e.h, g.h, place.to_string());
    for (i, (x, y)) in e.parts.iter().zip(&g.parts).enumerate() { one(x.1, y.1, format!("{}.part{}", place, i)); }
    if e.se != 0 { one(e.se, g.se, format!("{}.end", place)); }
    for (i, (x, y)) in e.sub.iter().zip(&g.sub).enumerate() { bind(x, y, &format!("{}.{}", place, i), b, seen, prev, out); }
}
fn default_json(k: &str) -> String {
    macro_rules! t { ($($t:ident),*) => { match k { $( stringify!($t) => serde_json::to_string(&$t::default()).unwrap(), )* _ => String::new() } } }
    t!(AppId, BlockRecord, DimStyle, Layer, LineType, Style, Ucs, View, ViewPort)
}

/// a view port without the third component of its spacings, which files do not hold
fn flat(js: &str) -> String {
    let mut v: Value = serde_json::from_str(js).unwrap();
    set_path(&mut v, "snap_spacing.z", json!(1.0)); set_path(&mut v, "grid_spacing.z", json!(1.0));
    v.to_string()
}
/// the file as other programs might have written it
fn foreign(buf: &[u8], how: &str) -> Vec<u8> {
    let mut out = vec![];
    let (mut section, mut start) = (String::new(), 0);
    let mut last9 = String::new();
    for (c, v) in raw_pairs(buf) {
        if c == 0 && v == "SECTION" { start = out.len(); section.clear(); }
        if c == 2 && section.is_empty() { section = v.clone(); }
        if c == 9 { last9 = v.clone(); }
        let seed = section == "HEADER" && last9 == "$HANDSEED";
        let drop = match how { "seedless" => seed, "bare" => section == "ENTITIES" && (c == 5 || c == 330), _ => false };
        let v2 = if how == "lowseed" && seed && c == 5 { "1".to_string() } else { v.clone() };
        if !drop { out.push((c, v2)); }
        if c == 0 && v == "ENDSEC" && ((how == "notables" && section == "TABLES") || (how == "noobjects" && section == "OBJECTS")) { out.truncate(start); }
    }
    text_of(&out).into()
}
fn preview(x: &str) -> Option<image::DynamicImage> {
    match x { "gray" => Some(image::DynamicImage::ImageLuma8(image::GrayImage::from_pixel(3, 2, image::Luma([7])))), "rgb" => Some(image::DynamicImage::ImageRgb8(image::RgbImage::from_pixel(2, 2, image::Rgb([9, 8, 7])))), _ => None }
}
fn preview_of(d: &Drawing) -> &'static str {
    match &d.thumbnail { None => "", Some(i) if i.width() == 3 => "gray", Some(_) => "rgb" }
}
struct Prev { exp: Vec<Vec<P>>, got: Vec<Vec<P>>, bind: Bind, header: String }

fn run_case(t: &[Value], aspects: &[&str], defaults: &HashMap<&'static str, String>, r: &mut Report) -> Option<()> {
    let on = |a: &str| aspects.contains(&a);
    let brief = || -> Value { Value::Array(t.iter().map(|s| json!([s["a"], s["c"], s["i"], s["x"], if s["it"][0] == "" { Value::Null } else { s["it"].clone() }])).collect()) };
    let mut d = Drawing::new();
    let mut other = Drawing::new();
    let mut held: Option<(String, Any)> = None;
    let mut prev: Option<Prev> = None;
    for (si, s) in t.iter().enumerate() {
        r.steps += 1;
        let (a, c, x) = (s["a"].as_str().unwrap(), s["c"].as_str().unwrap(), s["x"].as_str().unwrap());
        let i = s["i"].as_u64().unwrap() as usize;
        let site = |what: &str| format!("{}|{}|{}", what, a, c);
        let mut fail = |what: &str, got: Value| { r.fail(&site(what), json!({"history": brief(), "step": si, "got": got})); };
        // what was put in, for comparing with what is there afterwards
        let mut given: Option<P> = None;
        let res = guard(|| -> Result<(), (String, Value)> {
            match a {
                "new" => {}
                "cleared" | "clear" => d.clear(),
                "add" => {
                    let p = expect(&s["it"]);
                    let it = if x == "here" { make(c, &p, &s["it"][10], &mut d) } else { make(c, &p, &s["it"][10], &mut other) };
                    given = Some(proj_any(&it));
                    if !add(&mut d, c, it) { return Err(("list".into(), json!("what was returned is not the last item"))); }
                }
                "copy" => { let it = nth(&d, c, i - 1); given = Some(proj_any(&it)); if !add(&mut d, c, it) { return Err(("list".into(), json!("what was returned is not the last item"))); } }
                "readd" => { let (hc, it) = held.clone().unwrap(); assert_eq!(hc, c); given = Some(proj_any(&it)); if !add(&mut d, c, it) { return Err(("list".into(), json!("what was returned is not the last item"))); } }
                "remove" => {
                    let n = items(&d, c);
                    let got = remove(&mut d, c, i - 1);
                    match (n.get(i - 1), &got) {
                        (None, None) => (),
                        (Some(w), Some(g)) => { let g = proj_any(g); if g.js != w.js || g.h != w.h { return Err(("list".into(), json!({"removed": g.js, "instead of": w.js}))); } }
                        (w, g) => return Err(("list".into(), json!({"removed": g.is_some(), "there": w.is_some()}))),
                    }
                    if let Some(g) = got { held = Some((c.to_string(), g)); }
                }
                "rename" => { macro_rules! go { ($t:ident, $it:ident, $m:ident, $add:ident, $rm:ident, ) => { rename!($t, $m) } }
                    macro_rules! rename { (Entity, $m:ident) => { panic!() }; (Object, $m:ident) => { panic!() }; ($t:ident, $m:ident) => { d.$m().nth(i - 1).unwrap().name = x.to_string() } }
                    per_coll!(go, c,) }
                "relayer" => d.entities_mut().nth(i - 1).unwrap().common.layer = x.to_string(),
                "header" => header_set(&mut d.header, c, x),
                "headerdev" => { let mut v = serde_json::to_value(&d.header).unwrap(); set_path(&mut v, c, serde_json::from_str(x).unwrap()); d.header = serde_json::from_value(v).unwrap(); }
                "normalize" => {
                    d.normalize();
                    let one = serde_json::to_string(&d).unwrap();
                    d.normalize();
                    let two = serde_json::to_string(&d).unwrap();
                    if one != two { return Err(("normal".into(), json!("normalizing again changes the drawing"))); }
                }
                "save" => {
                    d.header.version = ver(i);
                    d.header.handles_enabled = !x.ends_with("-nohandles");
                    let mut buf = vec![];
                    let res = if x.starts_with("text") { d.save(&mut buf) } else { d.save_binary(&mut buf) };
                    if let Err(e) = res { return Err(("load".into(), json!(format!("save: {}", e)))); }
                    if x.starts_with("text-") { buf = foreign(&buf, &x[5..]); }
                    match Drawing::load(&mut buf.as_slice()) { Ok(n) => d = n, Err(e) => return Err(("load".into(), json!(format!("load: {}", e)))) }
                    if d.header.version != ver(i) && ver(i) != AcadVersion::R11 { return Err(("load".into(), json!("version"))); }
                }
                "preview" => d.thumbnail = preview(x),
                "class" => d.classes.push(Class { class_name: x.to_string(), ..Class::default() }),
                _ => panic!("action {}", a),
            }
            Ok(())
        });
        match res {
            Err(p) => { fail("panic", json!(p)); return None; }
            Ok(Err((what, got))) => { if on(&what) || (what == "load" && on("refs")) { fail(&what, got); } return None; }
            Ok(Ok(())) => (),
        }
        let Some(oc) = s["o"]["c"].as_array() else { continue };
        let exp: Vec<Vec<P>> = oc.iter().map(|q| q.as_array().unwrap().iter().map(expect).collect()).collect();
        let devs: Vec<Vec<&Value>> = oc.iter().map(|q| q.as_array().unwrap().iter().map(|x| &x[10]).collect()).collect();
        let got = project(&d);
        // the collections hold what is expected, in order
        let mut bad = false;
        for ci in 0..12 {
            let (e, g): (Vec<Value>, Vec<Value>) = (exp[ci].iter().map(shape).collect(), got[ci].iter().map(shape).collect());
            if e != g {
                bad = true;
                let what = match a { "normalize" | "new" => "normal", "save" => "load", "add" | "copy" | "readd" if c != COLLS[ci] => "refs", _ => "list" };
                if on(what) || (what == "load" && (on("refs") || on("list"))) {
                    let k = e.iter().zip(&g).take_while(|(x, y)| x == y).count();
                    r.fail(&format!("{}|{}|{}", what, a, COLLS[ci]), json!({"history": brief(), "step": si, "collection": COLLS[ci], "expected": e.len(), "held": g.len(), "first difference": [e.get(k), g.get(k)]}));
                }
            }
        }
        for (f, v) in s["o"]["hdr"].as_object().unwrap() {
            if header_get(&d.header, f) != v.as_str().unwrap() {
                bad = true;
                let what = match a { "normalize" | "new" => "normal", "save" => "load", _ => "list" };
                if on(what) { r.fail(&format!("{}|{}|header.{}", what, a, f), json!({"history": brief(), "step": si, "expected": v, "got": header_get(&d.header, f)})); }
            }
        }
        let classes: Vec<Value> = d.classes.iter().map(|c| json!(c.class_name)).collect();
        if s["o"]["th"] != json!(preview_of(&d)) || s["o"]["cls"] != json!(classes) {
            bad = true;
            if on("list") { r.fail(&format!("list|{}|preview or classes", a), json!({"history": brief(), "step": si, "expected": [s["o"]["th"], s["o"]["cls"]], "got": [preview_of(&d), classes]})); }
        }
        if let Some(p) = s["o"]["hd"].get(0) {
            let v = serde_json::to_value(&d.header).unwrap();
            let want: Value = serde_json::from_str(s["o"]["hd"][1].as_str().unwrap()).unwrap();
            if path(&v, p.as_str().unwrap()) != &want && on("normal") { r.fail(&format!("normal|{}|header.{}", a, p), json!({"history": brief(), "step": si, "expected": want, "got": path(&v, p.as_str().unwrap())})); }
        }
        if bad { return None; }
        // identities
        let (mut b, mut seen, mut out) = (Bind::new(), HashMap::new(), vec![]);
        let none = Bind::new();
        for ci in 0..12 { for (i, (e, g)) in exp[ci].iter().zip(&got[ci]).enumerate() {
            bind(e, g, &format!("{}[{}]", COLLS[ci], i), &mut b, &mut seen, prev.as_ref().map_or(&none, |p| &p.bind), &mut out);
        } }
        if on("handles") { for o in &out { r.fail(&format!("handles|{}|{}", a, c), json!({"history": brief(), "step": si, "got": o})); } }
        if out.is_empty() && on("lookup") { if let Err(e) = lookup(&mut d, &got) { r.fail(&format!("lookup|{}|{}", a, c), json!({"history": brief(), "step": si, "got": e})); } }
        // values
        let what = match a { "normalize" | "new" => "normal", "add" | "copy" | "readd" => "refs", _ => "list" };
        let header = header_text(&d.header);
        if let Some(pv) = &prev {
            let mut before: HashMap<u64, (&P, &P)> = HashMap::new();
            for ci in 0..12 { for (e, g) in pv.exp[ci].iter().zip(&pv.got[ci]) { before.insert(e.h, (e, g)); } }
            if a != "save" {
                for ci in 0..12 { for (i, (e, g)) in exp[ci].iter().zip(&got[ci]).enumerate() {
                    match before.get(&e.h) {
                        Some((pe, pg)) => if shape(pe) == shape(e) && pe.js == e.js && pg.js != g.js && !(a == "normalize" && ci == 8 && flat(&pg.js) == flat(&g.js)) && (on(what) || on("list")) { r.fail(&format!("{}|{}|{} changed", what, a, COLLS[ci]), json!({"history": brief(), "step": si, "before": pg.js, "after": g.js})); },
                        None => if let Some(gv) = given.as_ref().filter(|_| COLLS[ci] == c && i + 1 == exp[ci].len()) {
                            if gv.js != g.js && (on("refs") || on("list")) { r.fail(&format!("{}|{}|{} stored differently", what, a, COLLS[ci]), json!({"history": brief(), "step": si, "given": gv.js, "stored": g.js})); }
                        } else if ci < 9 && (on(what)) {
                            // an entry that was brought in: default values under that name
                            let mut v: Value = serde_json::from_str(&g.js).unwrap(); v["name"] = json!("");
                            if v.to_string() != *defaults.get(COLLS[ci]).unwrap() { r.fail(&format!("{}|{}|{} brought in", what, a, COLLS[ci]), json!({"history": brief(), "step": si, "got": g.js})); }
                        },
                    }
                } }
                if !matches!(a, "header" | "headerdev" | "normalize") && header != pv.header && on(what) { r.fail(&format!("{}|{}|header changed", what, a), json!({"history": brief(), "step": si})); }
            }
        }
        // deviating fields
        if on("normal") { for ci in 0..9 { for (j, dv) in devs[ci].iter().enumerate() { if let Some(p) = dv.get(0) {
            let v: Value = serde_json::from_str(&got[ci][j].js).unwrap();
            let want: Value = serde_json::from_str(dv[1].as_str().unwrap()).unwrap();
            if path(&v, p.as_str().unwrap()) != &want { r.fail(&format!("normal|{}|{}.{}", a, COLLS[ci], p.as_str().unwrap()), json!({"history": brief(), "step": si, "expected": want, "got": path(&v, p.as_str().unwrap())})); }
        } } } }
        prev = Some(Prev { exp, got, bind: b, header });
    }
    Some(())
}

pub fn run(cases: &str, aspects: &[&str], r: &mut Report) {
    let mut defaults = HashMap::new();
    for (c, k) in COLLS.iter().zip(["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort"]) {
        let mut v = serde_json::from_str::<Value>(&default_json(k)).unwrap();
        if k == "ViewPort" { set_path(&mut v, "snap_spacing.z", json!(1.0)); set_path(&mut v, "grid_spacing.z", json!(1.0)); }
        defaults.insert(*c, v.to_string());
    }
    for l in lines(cases) {
        let t = l["t"].as_array().unwrap();
        r.cases += 1;
        for s in t { r.count(s["a"].as_str().unwrap()); }
        r.begin(&format!("{}", json!(t.iter().map(|s| json!([s["a"], s["c"], s["i"], s["x"], s["it"]])).collect::<Vec<_>>())));
        run_case(t, aspects, &defaults, r);
    }
}
