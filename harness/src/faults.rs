// Replays IoFaults.tla: streams that deliver in pieces, are interrupted and fail.
use crate::util::*;
use dxf::entities::*;
use dxf::enums::AcadVersion;
use dxf::*;
use serde_json::{json, Value};
use std::io::{Error, ErrorKind, Read, Write};

fn kind(s: &str) -> ErrorKind {
    match s { "UnexpectedEof" => ErrorKind::UnexpectedEof, "WouldBlock" => ErrorKind::WouldBlock, "BrokenPipe" => ErrorKind::BrokenPipe, "zero" => ErrorKind::WriteZero, "interrupted" => ErrorKind::Interrupted, _ => ErrorKind::Other }
}
/// What happens when `at` bytes have been transferred.
#[derive(Clone)]
struct Event { at: usize, what: String, always: bool, done: bool }
struct Stream<'a> { data: &'a [u8], pos: usize, chunk: usize, events: Vec<Event>, out: Vec<u8>, told: bool }
impl Stream<'_> {
    /// how many bytes may go now, or what goes wrong
    fn next(&mut self, want: usize) -> Result<usize, Error> {
        let mut n = want.min(self.chunk);
        for e in self.events.iter_mut() {
            if e.done && !e.always { continue }
            if e.at <= self.pos { e.done = true; if e.what != "interrupted" { self.told = true } if e.what == "zero" { return Ok(0) } return Err(Error::new(kind(&e.what), "injected")) }
            n = n.min(e.at - self.pos);
        }
        Ok(n)
    }
}
impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        let n = self.next(buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Stream<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        let n = self.next(buf.len())?;
        self.out.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}
/// Files written by this process may not grow beyond `n` bytes.
fn limit(n: u64) { unsafe { setrlimit(1, &[n, u64::MAX]); } }

struct Form { name: &'static str, d: Drawing, bytes: Vec<u8>, content: Value, need: usize }
fn drawing(name: &str) -> Drawing {
    let mut d = Drawing::new();
    d.header.version = match name { "text12" | "bin12" => AcadVersion::R12, "text2007" => AcadVersion::R2007, "text2018" => AcadVersion::R2018, "bin2010" => AcadVersion::R2010, _ => AcadVersion::R2000 };
    let line = |k: f64| { let mut e = Entity::new(EntityType::Line(Line::new(Point::new(k, 2.0, 3.0), Point::new(4.0, 5.0, 6.0)))); e.common.layer = format!("L\u{e9}{}", k); e };
    if name != "dxbblock" {
        for k in 0..4 { d.add_entity(line(k as f64)); }
        d.add_entity(Entity::new(EntityType::Circle(Circle::new(Point::new(1.0, 2.0, 0.0), 3.0))));
        let mut t = Text::default(); t.value = "text \u{3b1}".into(); d.add_entity(Entity::new(EntityType::Text(t)));
        let mut p = Polyline::default(); for k in 0..3 { p.add_vertex(&mut d, Vertex::new(Point::new(k as f64, 1.0, 0.0))); }
        d.add_entity(Entity::new(EntityType::Polyline(p)));
    }
    if name == "dxb" {
        let p = |x: f64, y: f64| Point::new(x, y, 0.0);
        d.add_entity(Entity::new(EntityType::ModelPoint(ModelPoint::new(p(1.0, 2.0)))));
        let mut a = Entity::new(EntityType::Arc(Arc::new(p(1.0, 2.0), 3.0, 30.0, 60.0))); a.common.color = Color::from_index(3); d.add_entity(a);
        d.add_entity(Entity::new(EntityType::Solid(Solid::new(p(1.0, 2.0), p(3.0, 2.0), p(1.0, 7.0), p(9.0, 2.0)))));
        d.add_entity(Entity::new(EntityType::Trace(Trace::new(p(1.0, 2.0), p(3.0, 2.0), p(1.0, 7.0), p(9.0, 2.0)))));
        d.add_entity(Entity::new(EntityType::Face3D(Face3D::new(p(1.0, 2.0), p(3.0, 2.0), p(1.0, 7.0), p(9.0, 2.0)))));
        let mut q = Polyline::default();
        for k in 0..3 { let mut v = Vertex::new(p(k as f64, 1.0)); v.bulge = 0.5; v.starting_width = 1.0; v.ending_width = 2.0; q.add_vertex(&mut d, v); }
        q.set_is_closed(true);
        d.add_entity(Entity::new(EntityType::Polyline(q)));
        d.add_entity(Entity::new(EntityType::Vertex(Vertex::new(p(4.0, 1.0)))));
        d.add_entity(Entity::new(EntityType::Seqend(Seqend::default())));
    }
    if !name.starts_with("dxb") || name == "dxbblock" {
        let mut b = Block::default(); b.name = "B".into(); b.entities.push(line(9.0)); d.add_block(b);
        if d.header.version >= AcadVersion::R2000 { d.thumbnail = Some(image::DynamicImage::new_rgb8(5, 3)); }
    }
    d
}
fn dxb_records() -> Vec<u8> {
    let rec = |r: &str, v: &[i32], s: &str| json!({"r": r, "v": v, "s": s});
    let n: Vec<i32> = (1..13).collect();
    let shapes = [rec("line", &n[..6], ""), rec("linext", &n[..2], ""), rec("linext3", &n[..3], ""), rec("line3", &n[..6], ""), rec("point", &n[..2], ""), rec("circle", &n[..3], ""), rec("arc", &n[..5], ""), rec("trace", &n[..8], ""), rec("tracext", &n[..4], ""),
        rec("solid", &n[..8], ""), rec("face", &n[..12], ""), rec("polyline", &[1], ""), rec("vertex", &n[..2], ""), rec("bulge", &[1], ""), rec("width", &[3, 4], ""), rec("vertex", &n[..2], ""), rec("seqend", &[], ""), rec("color", &[5], "")];
    let (mut recs, mut int) = (vec![rec("base", &n[..2], ""), rec("layer", &[], "abc"), rec("scale", &[3], "")], vec![json!(true); 3]);
    for m in [true, false] {
        recs.push(rec("mode", &[1 - m as i32], "")); int.push(json!(m));
        for s in &shapes { recs.push(s.clone()); int.push(json!(m)); }
    }
    crate::dxb::encode(&recs, &int, 0)
}
fn save<W: Write + ?Sized>(d: &Drawing, name: &str, w: &mut W) -> DxfResult<()> {
    if name.starts_with("dxb") { d.save_dxb(w) } else if name.starts_with("bin") { d.save_binary(w) } else { d.save(w) }
}
fn save_file(d: &Drawing, name: &str, p: &str) -> DxfResult<()> {
    if name.starts_with("dxb") { d.save_file_dxb(p) } else if name.starts_with("bin") { d.save_file_binary(p) } else { d.save_file(p) }
}
// everything in a drawing that a save may not change, as one value
thread_local!(static PLAIN: Header = Header::default());
fn content(d: &Drawing) -> Value {
    let h = PLAIN.with(|h| h.clone());
    let mut o = vec![];
    let mut e = d.clone();
    // a DXB file gives no header: a new one takes values from the clock and at random
    e.header.creation_date = h.creation_date; e.header.creation_date_universal = h.creation_date_universal;
    e.header.update_date = h.update_date; e.header.update_date_universal = h.update_date_universal;
    e.header.fingerprint_guid = h.fingerprint_guid; e.header.version_guid = h.version_guid;
    let _ = e.save(&mut o);
    json!({"file": String::from_utf8_lossy(&o), "entities": d.entities().collect::<Vec<_>>(), "blocks": d.blocks().collect::<Vec<_>>(), "thumb": d.thumbnail.is_some()})
}
fn err(e: &DxfError) -> String { match e { DxfError::IoError(e) => format!("io {:?}", e.kind()), e => format!("{:?}", e).chars().take(60).collect() } }

fn fits(what: &str, e: &DxfError) -> bool {
    match e {
        DxfError::IoError(i) => i.kind() == kind(what),
        _ => what == "UnexpectedEof", // may be told apart from an end of input, or not
    }
}
fn one_read(f: &Form, chunk: usize, events: &[Event], r: &mut Report, case: &Value) {
    let mut s = Stream { data: &f.bytes, pos: 0, chunk, events: events.to_vec(), out: vec![], told: false };
    r.steps += 1;
    let res = guard(|| Drawing::load(&mut s));
    let fail = events.iter().find(|e| e.what != "interrupted");
    let at = events.iter().map(|e| format!("{}:{}", e.at, e.what)).collect::<Vec<_>>().join(" ");
    match (fail, res) {
        (_, Err(p)) => r.fail(&format!("read|{}|panic", f.name), json!({"case": case, "events": at, "got": p})),
        (Some(x), Ok(Err(e))) => if !fits(&x.what, &e) { r.fail(&format!("read|{}|error", f.name), json!({"case": case, "events": at, "want": x.what, "got": err(&e)})) },
        (Some(x), Ok(Ok(d))) => {
            // the library may stop reading once it has seen the end of the drawing
            if x.at < f.need { r.fail(&format!("read|{}|failure lost", f.name), json!({"case": case, "events": at, "of": f.bytes.len(), "told": s.told})) }
            else if content(&d) != f.content { r.fail(&format!("read|{}|content", f.name), json!({"case": case, "events": at})) }
        }
        (None, Ok(Err(e))) => r.fail(&format!("read|{}|pieces", f.name), json!({"case": case, "chunk": chunk, "events": at, "got": err(&e)})),
        (None, Ok(Ok(d))) => if content(&d) != f.content { r.fail(&format!("read|{}|pieces content", f.name), json!({"case": case, "chunk": chunk, "events": at})) },
    }
}
fn one_write(f: &Form, chunk: usize, events: &[Event], r: &mut Report, case: &Value) {
    let mut s = Stream { data: &[], pos: 0, chunk, events: events.to_vec(), out: vec![], told: false };
    r.steps += 1;
    let res = guard(|| save(&f.d, f.name, &mut s));
    let fail = events.iter().find(|e| e.what != "interrupted");
    let at = events.iter().map(|e| format!("{}:{}", e.at, e.what)).collect::<Vec<_>>().join(" ");
    let same = |a: &[u8], b: &[u8]| a == b || stamps(a) == stamps(b);
    match (fail, res) {
        (_, Err(p)) => r.fail(&format!("write|{}|panic", f.name), json!({"case": case, "events": at, "got": p})),
        (Some(x), Ok(Err(e))) => {
            if !fits(&x.what, &e) { r.fail(&format!("write|{}|error", f.name), json!({"case": case, "events": at, "want": x.what, "got": err(&e)})) }
            let n = s.out.len();
            // what was taken before is the beginning of the file
            if n > f.bytes.len() || !same(&s.out, &f.bytes[..n]) { r.fail(&format!("write|{}|not a prefix", f.name), json!({"case": case, "events": at, "len": n})) }
        }
        (Some(_), Ok(Ok(()))) => r.fail(&format!("write|{}|failure lost", f.name), json!({"case": case, "events": at, "of": f.bytes.len(), "told": s.told})),
        (None, Ok(Err(e))) => r.fail(&format!("write|{}|pieces", f.name), json!({"case": case, "chunk": chunk, "events": at, "got": err(&e)})),
        (None, Ok(Ok(()))) => if !same(&s.out, &f.bytes) { r.fail(&format!("write|{}|pieces content", f.name), json!({"case": case, "chunk": chunk, "events": at})) },
    }
}
/// a save renews the time of the last update: blank it
fn stamps(b: &[u8]) -> Vec<u8> {
    let mut o = b.to_vec();
    for tag in [&b"$TDUPDATE"[..], b"$TDUUPDATE"] {
        if let Some(p) = b.windows(tag.len()).position(|w| w == tag) { let e = (p + tag.len() + 30).min(o.len()); for x in &mut o[p + tag.len()..e] { *x = 0 } }
    }
    o
}
fn one_file(f: &Form, at: usize, dir: &str, r: &mut Report, case: &Value) {
    let p = format!("{}/limited", dir);
    let _ = std::fs::remove_file(&p);
    r.steps += 1;
    limit(at as u64);
    let res = guard(|| save_file(&f.d, f.name, &p));
    limit(u64::MAX);
    match res {
        Err(m) => r.fail(&format!("file|{}|panic", f.name), json!({"case": case, "at": at, "got": m})),
        Ok(Ok(())) if at < f.bytes.len() => r.fail(&format!("file|{}|failure lost", f.name), json!({"case": case, "room": at, "size": f.bytes.len()})),
        Ok(Ok(())) => if stamps(&std::fs::read(&p).unwrap_or_default()) != stamps(&f.bytes) { r.fail(&format!("file|{}|content", f.name), json!({"case": case, "at": at})) },
        Ok(Err(e)) => if at >= f.bytes.len() || !matches!(e, DxfError::IoError(_)) { r.fail(&format!("file|{}|error", f.name), json!({"case": case, "at": at, "got": err(&e)})) },
    }
    let _ = std::fs::remove_file(&p);
}
fn path(f: &Form, what: &str, dir: &str, r: &mut Report, case: &Value) {
    let p = match what { "nodir" => format!("{}/none/x", dir), "isdir" | "readdir" => dir.to_string(), "full" => "/dev/full".into(), "empty" => String::new(), _ => format!("{}/{}", dir, what) };
    let mut fail = |s: &str, g: Value| r.fail(&format!("path|{}|{}|{}", f.name, what, s), json!({"case": case, "got": g}));
    match what {
        "fresh" | "over" | "again" => {
            if what == "over" { std::fs::write(&p, vec![b'x'; f.bytes.len() * 2 + 999]).unwrap(); }
            for _ in 0..1 + (what == "again") as usize {
                match guard(|| save_file(&f.d, f.name, &p)) {
                    Ok(Ok(())) => (),
                    x => { fail("save", json!(format!("{:?}", x))); return }
                }
            }
            if stamps(&std::fs::read(&p).unwrap_or_default()) != stamps(&f.bytes) { fail("content", json!("differs from saving to a stream")); }
            match guard(|| Drawing::load_file(&p)) {
                Ok(Ok(d)) => if content(&d) != f.content { fail("loaded", json!("differs from loading from a stream")) },
                x => fail("load", json!(format!("{:?}", x.map(|y| y.map(|_| ()))))),
            }
            match guard(|| Drawing::load_file_with_encoding(&p, encoding_rs::WINDOWS_1252)) {
                Ok(Ok(d)) => if content(&d) != f.content { fail("loaded with encoding", json!("differs from loading from a stream")) },
                x => fail("load with encoding", json!(format!("{:?}", x.map(|y| y.map(|_| ()))))),
            }
            let _ = std::fs::remove_file(&p);
        }
        "missing" | "readdir" | "empty" => match guard(|| Drawing::load_file(&p)) {
            Ok(Err(DxfError::IoError(_))) => (),
            x => fail("load", json!(format!("{:?}", x.map(|y| y.map(|_| ()))))),
        },
        _ => match guard(|| save_file(&f.d, f.name, &p)) {
            Ok(Err(DxfError::IoError(_))) => (),
            x => fail("save", json!(format!("{:?}", x))),
        },
    }
}
pub fn run(cases: &str, r: &mut Report) {
    unsafe { signal(25, 1); } // SIGXFSZ: ignored, the write fails instead
    let dir = format!("{}.files", cases);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut forms: Vec<Form> = vec![];
    for name in ["text12", "text2007", "text2018", "bin12", "bin2010", "dxb", "dxbblock"] {
        let d = drawing(name);
        let mut b = vec![];
        let made = guard(|| save(&d, name, &mut b));
        let l = guard(|| Drawing::load(&mut b.as_slice()));
        match (made, l) {
            (Ok(Ok(())), Ok(Ok(l))) => { let need = if name.starts_with("dxb") { b.len() } else if name.starts_with("bin") { b.len() } else { b.len() - 2 }; forms.push(Form { name, d, content: content(&l), need, bytes: b }) }
            (a, b) => r.fail(&format!("plain|{}", name), json!({"save": format!("{:?}", a), "load": format!("{:?}", b.map(|x| x.map(|_| ())))})),
        }
    }
    // a DXB file as other programs write it, with records the library does not write
    let b = dxb_records();
    match guard(|| Drawing::load(&mut b.as_slice())) {
        Ok(Ok(l)) => forms.push(Form { name: "dxbrec", content: content(&l), d: l, need: b.len(), bytes: b }),
        x => r.fail("plain|dxbrec", json!(format!("{:?}", x.map(|x| x.map(|_| ()))))),
    }
    for (k, c) in lines(cases).enumerate() {
        r.begin(&c.to_string());
        r.cases += 1;
        let f = match forms.iter().find(|f| f.name == c["form"].as_str().unwrap()) { Some(f) => f, None => continue };
        let op = c["op"].as_str().unwrap();
        let (n, chunk) = (c["n"].as_u64().unwrap() as usize, (c["chunk"].as_u64().unwrap() as usize).max(1));
        let len = f.bytes.len();
        let script = c["script"].as_array().unwrap();
        r.count(&format!("{} {}", op, f.name));
        match op {
            "read" | "write" | "file" => {
                // part boundaries fall on different bytes in different cases
                let at = |p: usize| if p == 0 { 0 } else if p == n { len } else { (p * len / n + k * 7) % len };
                let shift: Vec<usize> = { let mut v: Vec<usize> = (0..=n).map(at).collect(); v.sort(); v };
                let ev: Vec<Event> = script.iter().map(|e| Event { at: shift[e[0].as_u64().unwrap() as usize], what: e[1].as_str().unwrap().into(), always: e[2] == "always", done: false }).collect();
                match op { "read" => one_read(f, chunk, &ev, r, &c), "write" => one_write(f, chunk, &ev, r, &c), _ => one_file(f, ev.first().map(|e| e.at).unwrap_or(len), &dir, r, &c) }
            }
            "path" => path(f, script[0][1].as_str().unwrap(), &dir, r, &c),
            _ => {
                let (slices, s) = (c["slices"].as_u64().unwrap() as usize, script[0][0].as_u64().unwrap() as usize);
                for at in (s..len).step_by(slices) {
                    let what = ["Other", "UnexpectedEof", "WouldBlock", "BrokenPipe"][at % 4];
                    let ev = [Event { at, what: what.into(), always: at / 4 % 2 == 0, done: false }];
                    match op {
                        "sweepread" => one_read(f, 100000, &ev, r, &c),
                        "sweepwrite" => { let ev = [Event { what: if at % 5 == 0 { "zero".into() } else { what.into() }, ..ev[0].clone() }]; one_write(f, 100000, &ev, r, &c) }
                        _ => if at % 3 == 0 || at + 200 > len { one_file(f, at, &dir, r, &c) },
                    }
                    // an interruption alone, at the same place
                    let ev = [Event { at, what: "interrupted".into(), always: false, done: false }];
                    if f.name.starts_with("dxb") || at % 16 == 0 { match op { "sweepread" => one_read(f, 100000, &ev, r, &c), "sweepwrite" => one_write(f, 100000, &ev, r, &c), _ => () } }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
