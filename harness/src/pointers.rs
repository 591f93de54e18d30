// Replays the histories of Pointers.tla: references are set, found in the data, lose their target, are saved and loaded.
use crate::drawing::Any;
use crate::factory;
use crate::util::*;
use dxf::entities::*;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::json;

type Seen = (u64, String);
trait Desc { fn desc(self) -> Seen; }
fn kind(v: Result<serde_json::Value, serde_json::Error>) -> String { v.ok().and_then(|v| match v { serde_json::Value::String(s) => Some(s), v => v.as_object().and_then(|m| m.keys().next().cloned()) }).unwrap_or_default() }
impl Desc for &Entity { fn desc(self) -> Seen { (self.common.handle.0, kind(serde_json::to_value(&self.specific))) } }
impl Desc for &Object { fn desc(self) -> Seen { (self.common.handle.0, kind(serde_json::to_value(&self.specific))) } }
impl Desc for &Style { fn desc(self) -> Seen { (self.handle.0, "Style".into()) } }
impl Desc for &View { fn desc(self) -> Seen { (self.handle.0, "View".into()) } }
impl Desc for &ViewPort { fn desc(self) -> Seen { (self.handle.0, "ViewPort".into()) } }
impl Desc for DrawingItem<'_> {
    fn desc(self) -> Seen {
        match self {
            DrawingItem::Entity(e) => e.desc(), DrawingItem::Object(o) => o.desc(),
            DrawingItem::AppId(x) => (x.handle.0, "AppId".into()), DrawingItem::Block(x) => (x.handle.0, "Block".into()), DrawingItem::BlockRecord(x) => (x.handle.0, "BlockRecord".into()),
            DrawingItem::DimStyle(x) => (x.handle.0, "DimStyle".into()), DrawingItem::Layer(x) => (x.handle.0, "Layer".into()), DrawingItem::LineType(x) => (x.handle.0, "LineType".into()),
            DrawingItem::Style(x) => x.desc(), DrawingItem::Ucs(x) => (x.handle.0, "Ucs".into()), DrawingItem::View(x) => x.desc(), DrawingItem::ViewPort(x) => x.desc(),
        }
    }
}
trait Done { fn done(self) -> bool; }
impl Done for () { fn done(self) -> bool { true } }
impl Done for DxfResult<()> { fn done(self) -> bool { self.is_ok() } }

struct Slot { make: fn() -> Any, set: fn(&mut Any, &mut Drawing, Handle) -> bool, raw: fn(&mut Any, Handle), get: fn(&Any, &Drawing) -> Vec<Seen> }
fn ent(k: &str) -> Any { Any::Entity(Entity::new(factory::entity(k).unwrap())) }
fn obj(k: &str) -> Any { Any::Object(Object::new(factory::object(k).unwrap())) }
macro_rules! put { (one, $f:expr, $h:expr) => { $f = $h }; (many, $f:expr, $h:expr) => { $f.push($h) } }
macro_rules! take {
    (any, $d:ident, $h:ident, $x:expr, $set:ident) => { match $d.item_by_handle_mut($h) { Some(i) => $x.$set(&i).done(), None => panic!("target") } };
    (Entity, $d:ident, $h:ident, $x:expr, $set:ident) => { $x.$set($d.entities().find(|e| e.common.handle == $h).unwrap()).done() };
    (Object, $d:ident, $h:ident, $x:expr, $set:ident) => { $x.$set($d.objects().find(|e| e.common.handle == $h).unwrap()).done() };
    (Style, $d:ident, $h:ident, $x:expr, $set:ident) => { $x.$set($d.styles().find(|e| e.handle == $h).unwrap()).done() };
    (View, $d:ident, $h:ident, $x:expr, $set:ident) => { $x.$set($d.views().find(|e| e.handle == $h).unwrap()).done() };
    (ViewPort, $d:ident, $h:ident, $x:expr, $set:ident) => { $x.$set($d.view_ports().find(|e| e.handle == $h).unwrap()).done() };
}
macro_rules! ecom { ($w:ident, $get:ident, $set:ident, $f:ident) => { Slot { make: || ent("Circle"),
    set: |a, d, h| match a { Any::Entity(e) => take!($w, d, h, e.common, $set), _ => panic!() },
    raw: |a, h| if let Any::Entity(e) = a { e.common.$f = h },
    get: |a, d| match a { Any::Entity(e) => e.common.$get(d).into_iter().map(Desc::desc).collect(), _ => panic!() } } } }
macro_rules! of_ent { ($k:ident, $m:ident, $w:ident, $get:ident, $set:ident, $f:ident) => { Slot { make: || ent(stringify!($k)),
    set: |a, d, h| match a { Any::Entity(Entity { specific: EntityType::$k(x), .. }) => take!($w, d, h, x, $set), _ => panic!() },
    raw: |a, h| if let Any::Entity(Entity { specific: EntityType::$k(x), .. }) = a { put!($m, x.$f, h) },
    get: |a, d| match a { Any::Entity(Entity { specific: EntityType::$k(x), .. }) => x.$get(d).into_iter().map(Desc::desc).collect(), _ => panic!() } } } }
macro_rules! of_obj { ($k:ident, $m:ident, $w:ident, $get:ident, $set:ident, $f:ident) => { Slot { make: || obj(stringify!($k)),
    set: |a, d, h| match a { Any::Object(Object { specific: ObjectType::$k(x), .. }) => take!($w, d, h, x, $set), _ => panic!() },
    raw: |a, h| if let Any::Object(Object { specific: ObjectType::$k(x), .. }) = a { put!($m, x.$f, h) },
    get: |a, d| match a { Any::Object(Object { specific: ObjectType::$k(x), .. }) => x.$get(d).into_iter().map(Desc::desc).collect(), _ => panic!() } } } }
macro_rules! own { ($x:expr, $d:ident, $h:ident, $($k:ident),*) => {{
    enum T { $($k(Box<$k>)),* }
    let t = match $d.item_by_handle($h) { $( Some(DrawingItem::$k(y)) => T::$k(Box::new(y.clone())), )* None => panic!("target") };
    match t { $( T::$k(mut y) => $x.set_owner(&mut DrawingItemMut::$k(&mut y), $d) ),* }
    true
}} }
macro_rules! table { ($k:ident) => { Slot { make: || Any::$k($k { name: "holder".into(), ..$k::default() }),
    set: |a, d, h| match a { Any::$k(x) => own!(x, d, h, AppId, Block, BlockRecord, DimStyle, Entity, Layer, LineType, Object, Style, Ucs, View, ViewPort), _ => panic!() },
    raw: |a, h| if let Any::$k(x) = a { x.__owner_handle = h },
    get: |a, d| match a { Any::$k(x) => x.owner(d).into_iter().map(Desc::desc).collect(), _ => panic!() } } } }
fn slot(n: &str) -> Option<Slot> {
    Some(match n {
        "EntityCommon.owner" => ecom!(any, owner, set_owner, __owner_handle),
        "EntityCommon.material" => ecom!(Object, material, set_material, __material_handle),
        "EntityCommon.plot_style" => ecom!(any, plot_style, set_plot_style, __plot_style_handle),
        "Solid3D.history_object" => of_ent!(Solid3D, one, any, history_object, set_history_object, __history_object_handle),
        "AttributeDefinition.secondary_attributes" => of_ent!(AttributeDefinition, many, any, secondary_attributes, add_secondary_attributes, __secondary_attributes_handle),
        "Attribute.secondary_attributes" => of_ent!(Attribute, many, any, secondary_attributes, add_secondary_attributes, __secondary_attributes_handle),
        "MLine.style" => of_ent!(MLine, one, Style, style, set_style, __style_handle),
        "Section.geometry_settings" => of_ent!(Section, one, any, geometry_settings, set_geometry_settings, __geometry_settings_handle),
        "DgnUnderlay.object" => of_ent!(DgnUnderlay, one, Object, object, set_object, __object_handle),
        "DwfUnderlay.object" => of_ent!(DwfUnderlay, one, Object, object, set_object, __object_handle),
        "PdfUnderlay.object" => of_ent!(PdfUnderlay, one, Object, object, set_object, __object_handle),
        "ObjectCommon.owner" => Slot { make: || obj("PlaceHolder"),
            set: |a, d, h| match a { Any::Object(o) => take!(any, d, h, o.common, set_owner), _ => panic!() },
            raw: |a, h| if let Any::Object(o) = a { o.common.__owner_handle = h },
            get: |a, d| match a { Any::Object(o) => o.common.owner(d).into_iter().map(Desc::desc).collect(), _ => panic!() } },
        "DimensionAssoc.dimension" => of_obj!(DimensionAssoc, one, Entity, dimension, set_dimension, __dimension_handle),
        "DimensionAssoc.main_object" => of_obj!(DimensionAssoc, one, any, main_object, set_main_object, __main_object_handle),
        "DimensionAssoc.main_object_xref" => of_obj!(DimensionAssoc, one, any, main_object_xref, set_main_object_xref, __main_object_xref_handle),
        "DimensionAssoc.intersection_object" => of_obj!(DimensionAssoc, one, any, intersection_object, set_intersection_object, __intersection_object_handle),
        "DimensionAssoc.insertion_object_xref" => of_obj!(DimensionAssoc, one, any, insertion_object_xref, set_insertion_object_xref, __insertion_object_xref_handle),
        "Field.child_fields" => of_obj!(Field, many, Object, child_fields, add_child_fields, __child_fields_handle),
        "Field.objects" => of_obj!(Field, many, Object, objects, add_objects, __objects_handle),
        "Group.entities" => of_obj!(Group, many, Entity, entities, add_entities, __entities_handle),
        "IdBuffer.entities" => of_obj!(IdBuffer, many, Entity, entities, add_entities, __entities_handle),
        "LayerIndex.id_buffers" => of_obj!(LayerIndex, many, any, id_buffers, add_id_buffers, __id_buffers_handle),
        "Layout.viewport" => of_obj!(Layout, one, ViewPort, viewport, set_viewport, __viewport_handle),
        "Layout.table_record" => of_obj!(Layout, one, any, table_record, set_table_record, __table_record_handle),
        "Layout.table_record_base" => of_obj!(Layout, one, any, table_record_base, set_table_record_base, __table_record_base_handle),
        "LightList.lights" => of_obj!(LightList, many, Entity, lights, add_lights, __lights_handle),
        "MLeaderStyle.line_leader_type" => of_obj!(MLeaderStyle, one, any, line_leader_type, set_line_leader_type, __line_leader_type_handle),
        "MLeaderStyle.arrowhead" => of_obj!(MLeaderStyle, one, any, arrowhead, set_arrowhead, __arrowhead_handle),
        "MLeaderStyle.m_text_style" => of_obj!(MLeaderStyle, one, any, m_text_style, set_m_text_style, __m_text_style_handle),
        "MLeaderStyle.block_content" => of_obj!(MLeaderStyle, one, any, block_content, set_block_content, __block_content_handle),
        "PlotSettings.shade_plot_object" => of_obj!(PlotSettings, one, any, shade_plot_object, set_shade_plot_object, __shade_plot_object_handle),
        "RapidRTRenderEnvironment.custom_background" => of_obj!(RapidRTRenderEnvironment, one, any, custom_background, set_custom_background, __custom_background_handle),
        "SectionManager.section_entities" => of_obj!(SectionManager, many, Entity, section_entities, add_section_entities, __section_entities_handle),
        "SectionSettings.source_objects" => of_obj!(SectionSettings, many, Object, source_objects, add_source_objects, __source_objects_handle),
        "SectionSettings.destination_object" => of_obj!(SectionSettings, one, Object, destination_object, set_destination_object, __destination_object_handle),
        "SortentsTable.entities" => of_obj!(SortentsTable, many, Entity, entities, add_entities, __entities_handle),
        "SortentsTable.sort_items" => of_obj!(SortentsTable, many, any, sort_items, add_sort_items, __sort_items_handle),
        "SunStudy.page_setup_wizard" => of_obj!(SunStudy, one, any, page_setup_wizard, set_page_setup_wizard, __page_setup_wizard_handle),
        "SunStudy.view" => of_obj!(SunStudy, one, View, view, set_view, __view_handle),
        "SunStudy.visual_style" => of_obj!(SunStudy, one, any, visual_style, set_visual_style, __visual_style_handle),
        "SunStudy.text_style" => of_obj!(SunStudy, one, any, text_style, set_text_style, __text_style_handle),
        "AppId.owner" => table!(AppId), "BlockRecord.owner" => table!(BlockRecord), "DimStyle.owner" => table!(DimStyle), "LineType.owner" => table!(LineType), "Layer.owner" => table!(Layer),
        "Style.owner" => table!(Style), "Ucs.owner" => table!(Ucs), "View.owner" => table!(View), "ViewPort.owner" => table!(ViewPort), "Block.owner" => table!(Block),
        _ => return None,
    })
}
const KINDS: [&str; 16] = ["AppId", "BlockRecord", "DimStyle", "Layer", "LineType", "Style", "Ucs", "View", "ViewPort", "Block", "Line", "Circle", "Light", "PlaceHolder", "Material", "Field"];
fn add(d: &mut Drawing, a: Any) -> Handle {
    match a {
        Any::AppId(x) => d.add_app_id(x).handle, Any::BlockRecord(x) => d.add_block_record(x).handle, Any::DimStyle(x) => d.add_dim_style(x).handle, Any::Layer(x) => d.add_layer(x).handle,
        Any::LineType(x) => d.add_line_type(x).handle, Any::Style(x) => d.add_style(x).handle, Any::Ucs(x) => d.add_ucs(x).handle, Any::View(x) => d.add_view(x).handle, Any::ViewPort(x) => d.add_view_port(x).handle,
        Any::Block(x) => d.add_block(x).handle, Any::Entity(x) => d.add_entity(x).common.handle, Any::Object(x) => d.add_object(x).common.handle,
    }
}
fn target(k: &str) -> Any {
    macro_rules! t { ($($t:ident),*) => { match k { $( stringify!($t) => Any::$t($t { name: "target".into(), ..$t::default() }), )* "Line" | "Circle" | "Light" => ent(k), _ => obj(k) } } }
    t!(AppId, BlockRecord, DimStyle, Layer, LineType, Style, Ucs, View, ViewPort, Block)
}
fn remove(d: &mut Drawing, k: &str, h: Handle) -> bool {
    macro_rules! r { ($it:ident, $rm:ident) => {{ let p = d.$it().position(|x| x.handle == h); match p { Some(i) => d.$rm(i).is_some_and(|x| x.handle == h), None => false } }} }
    match k {
        "AppId" => r!(app_ids, remove_app_id), "BlockRecord" => r!(block_records, remove_block_record), "DimStyle" => r!(dim_styles, remove_dim_style), "Layer" => r!(layers, remove_layer), "LineType" => r!(line_types, remove_line_type),
        "Style" => r!(styles, remove_style), "Ucs" => r!(ucss, remove_ucs), "View" => r!(views, remove_view), "ViewPort" => r!(view_ports, remove_view_port), "Block" => r!(blocks, remove_block),
        "Line" | "Circle" | "Light" => { let p = d.entities().position(|x| x.common.handle == h); match p { Some(i) => d.remove_entity(i).is_some_and(|x| x.common.handle == h), None => false } }
        _ => { let p = d.objects().position(|x| x.common.handle == h); match p { Some(i) => d.remove_object(i).is_some_and(|x| x.common.handle == h), None => false } }
    }
}
fn holder(d: &Drawing, h: Handle) -> Option<Any> {
    Some(match d.item_by_handle(h)? {
        DrawingItem::AppId(x) => Any::AppId(x.clone()), DrawingItem::BlockRecord(x) => Any::BlockRecord(x.clone()), DrawingItem::DimStyle(x) => Any::DimStyle(x.clone()), DrawingItem::Layer(x) => Any::Layer(x.clone()),
        DrawingItem::LineType(x) => Any::LineType(x.clone()), DrawingItem::Style(x) => Any::Style(x.clone()), DrawingItem::Ucs(x) => Any::Ucs(x.clone()), DrawingItem::View(x) => Any::View(x.clone()),
        DrawingItem::ViewPort(x) => Any::ViewPort(x.clone()), DrawingItem::Block(x) => Any::Block(x.clone()), DrawingItem::Entity(x) => Any::Entity(x.clone()), DrawingItem::Object(x) => Any::Object(x.clone()),
    })
}
fn store(d: &mut Drawing, h: Handle, a: Any) -> bool {
    match (d.item_by_handle_mut(h), a) {
        (Some(DrawingItemMut::AppId(x)), Any::AppId(y)) => *x = y, (Some(DrawingItemMut::BlockRecord(x)), Any::BlockRecord(y)) => *x = y, (Some(DrawingItemMut::DimStyle(x)), Any::DimStyle(y)) => *x = y,
        (Some(DrawingItemMut::Layer(x)), Any::Layer(y)) => *x = y, (Some(DrawingItemMut::LineType(x)), Any::LineType(y)) => *x = y, (Some(DrawingItemMut::Style(x)), Any::Style(y)) => *x = y,
        (Some(DrawingItemMut::Ucs(x)), Any::Ucs(y)) => *x = y, (Some(DrawingItemMut::View(x)), Any::View(y)) => *x = y, (Some(DrawingItemMut::ViewPort(x)), Any::ViewPort(y)) => *x = y,
        (Some(DrawingItemMut::Block(x)), Any::Block(y)) => *x = y, (Some(DrawingItemMut::Entity(x)), Any::Entity(y)) => *x = y, (Some(DrawingItemMut::Object(x)), Any::Object(y)) => *x = y,
        _ => return false,
    }
    true
}

pub fn run(cases: &str, r: &mut Report) {
    for c in lines(cases) {
        let name = c["slot"].as_str().unwrap();
        let steps = c["steps"].as_array().unwrap();
        let brief: Vec<String> = steps.iter().map(|s| format!("{} {}", s["op"].as_str().unwrap(), match s["t"].as_u64().unwrap() { 0 => "nothing", 99 => "unknown", t => KINDS[t as usize - 1] })).collect();
        r.begin(&format!("{} {:?}", name, brief));
        r.cases += 1; r.count(name.split('.').next().unwrap());
        let Some(s) = slot(name) else { r.fail("slot", json!({"slot": name})); continue };
        let res = guard(|| -> Result<(), (String, String)> {
            let e = |site: &str, d: String| (format!("{}|{}", name, site), d);
            let mut d = Drawing::new();
            d.header.version = dxf::enums::AcadVersion::R2018;
            let me = add(&mut d, (s.make)());
            let hs: Vec<Handle> = KINDS.iter().map(|k| add(&mut d, target(k))).collect();
            for (i, st) in steps.iter().enumerate() {
                let (op, t) = (st["op"].as_str().unwrap(), st["t"].as_u64().unwrap() as usize);
                let h = match t { 0 => Handle(0), 99 => Handle(0xFFFF0), t => hs[t - 1] };
                let mut a = holder(&d, me).ok_or_else(|| e(op, format!("step {}: the item that holds the reference is gone", i)))?;
                match op {
                    "set" => { let ok = (s.set)(&mut a, &mut d, h); if ok != st["ok"] { return Err(e("set", format!("step {}: setting it returned {}", i, ok))); } }
                    "raw" => (s.raw)(&mut a, h),
                    "drop" => if !remove(&mut d, KINDS[t - 1], h) { return Err(e("drop", format!("step {}: cannot remove the target", i))); },
                    _ => {
                        let mut b = vec![];
                        d.header.version = if op == "text" || name.starts_with("RapidRT") { dxf::enums::AcadVersion::R2018 } else { dxf::enums::AcadVersion::R2013 };
                        if op == "text" { d.save(&mut b) } else { d.save_binary(&mut b) }.map_err(|x| e(op, format!("save: {}", x)))?;
                        d = Drawing::load(&mut &b[..]).map_err(|x| e(op, format!("load: {}", x)))?;
                        a = holder(&d, me).ok_or_else(|| e(op, format!("step {}: the item that holds the reference is gone", i)))?;
                    }
                }
                if op == "set" || op == "raw" { if !store(&mut d, me, a.clone()) { return Err(e("store", format!("step {}", i))); } }
                let got = (s.get)(&a, &d);
                let want: Vec<Seen> = st["see"].as_array().unwrap().iter().map(|t| { let t = t.as_u64().unwrap() as usize; (hs[t - 1].0, KINDS[t - 1].to_string()) }).collect();
                if got != want { return Err(e(if got.is_empty() && (op == "text" || op == "binary") { "lost" } else { op }, format!("step {}: expected {:?}, got {:?}", i, want, got))); }
            }
            Ok(())
        });
        r.steps += steps.len() as u64;
        match res { Ok(Ok(())) => (), Ok(Err((site, d))) => r.fail(&site, json!({"steps": brief, "got": d})), Err(p) => r.fail(&format!("{}|panic", name), json!({"steps": brief, "got": p})) }
    }
}
