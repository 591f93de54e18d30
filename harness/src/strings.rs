// Replays the strings of Escape.tla: each is stored in many places, saved and loaded.
use crate::util::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::objects::*;
use dxf::tables::*;
use dxf::*;
use serde_json::{json, Value};

pub fn to_string(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect() }

fn build(strs: &[String], v: AcadVersion) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = v;
    d.header.project_name = strs[0].clone();
    d.header.last_saved_by = strs[0].clone();
    d.header.file_name = strs[0].clone();
    for s in strs {
        let mut a = AppId::default(); a.name = s.clone(); d.add_app_id(a);
        let mut l = LineType::default(); l.name = s.clone(); l.description = s.clone(); d.add_line_type(l);
        let mut l = Layer::default(); l.name = s.clone(); l.line_type_name = s.clone(); d.add_layer(l);
        let mut y = Style::default(); y.name = s.clone(); y.primary_font_file_name = s.clone(); d.add_style(y);
        let mut b = Block::default(); b.name = s.clone(); b.xref_path_name = s.clone(); b.description = s.clone(); d.add_block(b);
        let t = Text { value: s.clone(), text_style_name: s.clone(), ..Text::default() };
        let mut e = Entity::new(EntityType::Text(t));
        e.common.layer = s.clone(); e.common.line_type_name = s.clone();
        e.common.x_data.push(XData { application_name: s.clone(), items: vec![XDataItem::Str(s.clone()), XDataItem::LayerName(s.clone()), XDataItem::ControlGroup(vec![XDataItem::Str(s.clone())])] });
        e.common.extension_data_groups.push(ExtensionGroup { application_name: "APP".into(), items: vec![ExtensionGroupItem::CodePair(CodePair::new_str(300, s))] });
        d.add_entity(e);
        let m = MText { text: s.clone(), extended_text: vec![s.clone(), s.clone()], ..MText::default() };
        d.add_entity(Entity::new(EntityType::MText(m)));
        let mut i = Insert { name: s.clone(), ..Insert::default() };
        i.add_attribute(&mut d, Attribute { attribute_tag: s.clone(), value: s.clone(), text_style_name: s.clone(), ..Attribute::default() });
        d.add_entity(Entity::new(EntityType::Insert(i)));
        d.add_object(Object::new(ObjectType::DictionaryVariable(DictionaryVariable { value: s.clone(), ..DictionaryVariable::default() })));
        let mut di = Dictionary::default(); di.value_handles.insert(s.clone(), Handle(0x77)); d.add_object(Object::new(ObjectType::Dictionary(di)));
        d.add_object(Object::new(ObjectType::XRecordObject(XRecordObject { data_pairs: vec![CodePair::new_str(1, s), CodePair::new_str(300, s)], ..XRecordObject::default() })));
        d.classes.push(Class { record_name: s.clone(), class_name: s.clone(), application_name: s.clone(), ..Class::default() });
    }
    d
}
/// all places a string of the list is found, or what is there instead
fn places(d: &Drawing, v: AcadVersion, n: usize) -> Vec<(&'static str, Vec<Option<String>>)> {
    let mut o: Vec<(&'static str, Vec<Option<String>>)> = vec![];
    let col = |it: &mut dyn Iterator<Item = String>| -> Vec<Option<String>> { let mut q: Vec<Option<String>> = it.map(Some).collect(); while q.len() < n { q.push(None); } q };
    let tail = |q: Vec<String>| -> Vec<Option<String>> { let k = q.len().saturating_sub(n); let mut q: Vec<Option<String>> = q[k..].iter().cloned().map(Some).collect(); while q.len() < n { q.push(None); } q };
    use AcadVersion::*;
    o.push(("layer name", tail(d.layers().map(|x| x.name.clone()).collect())));
    o.push(("layer line type", tail(d.layers().map(|x| x.line_type_name.clone()).collect())));
    o.push(("line type description", tail(d.line_types().map(|x| x.description.clone()).collect())));
    o.push(("style font", tail(d.styles().map(|x| x.primary_font_file_name.clone()).collect())));
    o.push(("block name", col(&mut d.blocks().map(|x| x.name.clone()))));
    if v >= R12 { o.push(("block xref path", col(&mut d.blocks().map(|x| x.xref_path_name.clone())))); }
    let texts: Vec<(&Entity, &Text)> = d.entities().filter_map(|e| if let EntityType::Text(ref t) = e.specific { Some((e, t)) } else { None }).collect();
    o.push(("text value", col(&mut texts.iter().map(|x| x.1.value.clone()))));
    o.push(("text style", col(&mut texts.iter().map(|x| x.1.text_style_name.clone()))));
    o.push(("entity layer", col(&mut texts.iter().map(|x| x.0.common.layer.clone()))));
    o.push(("entity line type", col(&mut texts.iter().map(|x| x.0.common.line_type_name.clone()))));
    let ins: Vec<&Insert> = d.entities().filter_map(|e| if let EntityType::Insert(ref t) = e.specific { Some(t) } else { None }).collect();
    o.push(("insert name", col(&mut ins.iter().map(|x| x.name.clone()))));
    o.push(("attribute tag", col(&mut ins.iter().flat_map(|x| x.attributes().map(|a| a.attribute_tag.clone())))));
    o.push(("attribute value", col(&mut ins.iter().flat_map(|x| x.attributes().map(|a| a.value.clone())))));
    if v >= R13 {
        let mt: Vec<&MText> = d.entities().filter_map(|e| if let EntityType::MText(ref t) = e.specific { Some(t) } else { None }).collect();
        o.push(("mtext text", col(&mut mt.iter().map(|x| x.text.clone()))));
        for i in 0..2 { o.push(("mtext extended text", col(&mut mt.iter().map(|x| x.extended_text.get(i).cloned().unwrap_or_else(|| "<missing>".into()))))); }
    }
    if v >= R14 {
        o.push(("class name", col(&mut d.classes.iter().map(|x| x.class_name.clone()))));
        o.push(("class application", col(&mut d.classes.iter().map(|x| x.application_name.clone()))));
        o.push(("extension group", col(&mut texts.iter().map(|x| x.0.common.extension_data_groups.first().map_or("<missing>".into(), |g| match g.items.first() { Some(ExtensionGroupItem::CodePair(p)) => p.assert_string().unwrap_or_else(|_| "<other>".into()), _ => "<other>".into() })))));
    }
    if v >= R2000 {
        o.push(("block description", col(&mut d.blocks().map(|x| x.description.clone()))));
        o.push(("x data application", col(&mut texts.iter().map(|x| x.0.common.x_data.first().map_or("<missing>".into(), |g| g.application_name.clone())))));
        for i in 0..3 { o.push(("x data", col(&mut texts.iter().map(|x| x.0.common.x_data.first().map_or("<missing>".into(), |g| match g.items.get(i) {
            Some(XDataItem::Str(s)) | Some(XDataItem::LayerName(s)) => s.clone(), Some(XDataItem::ControlGroup(q)) => match q.first() { Some(XDataItem::Str(s)) => s.clone(), _ => "<other>".into() }, _ => "<other>".into() }))))); }
        o.push(("dictionary variable", col(&mut d.objects().filter_map(|x| if let ObjectType::DictionaryVariable(ref y) = x.specific { Some(y.value.clone()) } else { None }))));
        o.push(("dictionary key", col(&mut d.objects().filter_map(|x| if let ObjectType::Dictionary(ref y) = x.specific { Some(y.value_handles.keys().next().cloned().unwrap_or_else(|| "<missing>".into())) } else { None }))));
        for i in 0..2 { o.push(("xrecord", col(&mut d.objects().filter_map(|x| if let ObjectType::XRecordObject(ref y) = x.specific { Some(y.data_pairs.get(i).map_or("<missing>".into(), |p| p.assert_string().unwrap_or_else(|_| "<other>".into()))) } else { None })))); }
    }
    o
}

pub fn run(cases: &str, r: &mut Report) {
    let all: Vec<String> = lines(cases).map(|l| to_string(&l["s"])).collect();
    let vers = [1usize, 11, 13, 14, 15, 16, 17, 18, 21];
    for chunk in all.chunks(16) {
        for v in vers { for form in ["text", "binary"] {
            let ver = ver(v);
            r.begin(&format!("version {} {} {:?}", v, form, chunk));
            r.cases += chunk.len() as u64; r.steps += 2;
            r.count(form);
            let res = guard(|| -> Result<(Vec<u8>, Drawing), String> {
                let d = build(chunk, ver);
                let mut buf = vec![];
                if form == "text" { d.save(&mut buf) } else { d.save_binary(&mut buf) }.map_err(|e| format!("save: {}", e))?;
                let n = Drawing::load(&mut buf.as_slice()).map_err(|e| format!("load: {}", e))?;
                Ok((buf, n))
            });
            let (buf, n) = match res { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => { r.fail(&format!("{}|no round trip", form), json!({"version": v, "strings": chunk, "got": e})); continue } };
            if form == "text" && v < 18 && buf.iter().any(|b| *b >= 128) { r.fail("text|not ASCII", json!({"version": v, "strings": chunk})); }
            let fields = [("header project name", &n.header.project_name, 17), ("header last saved by", &n.header.last_saved_by, 17), ("header menu", &n.header.file_name, 1)];
            for (what, s, min) in fields { if v >= min && *s != chunk[0] { r.fail(&format!("{}|{}", form, what), json!({"version": v, "string": chunk[0], "got": s})); } }
            for (what, got) in places(&n, ver, chunk.len()) {
                if got.len() != chunk.len() { r.fail(&format!("{}|{}", form, what), json!({"version": v, "strings": chunk, "got": got})); continue }
                for (s, g) in chunk.iter().zip(&got) { if g.as_ref() != Some(s) { r.fail(&format!("{}|{}", form, what), json!({"version": v, "string": s, "got": g})); } }
            }
        } }
    }
}
