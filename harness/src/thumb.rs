// Replays Thumb.tla: preview images written and read, bitmaps of other programs read.
use crate::reader::binary;
use crate::util::*;
use dxf::*;
use image::{DynamicImage, GenericImageView};
use serde_json::{json, Value};

fn rnd(x: u32, y: u32, c: u32) -> u8 { (x.wrapping_mul(2654435761) ^ y.wrapping_mul(40503) ^ c.wrapping_mul(97)).wrapping_mul(2246822519).rotate_left(13) as u8 }
fn image(t: &str, w: u32, h: u32, fill: &str) -> DynamicImage {
    let rnd = |x: u32, y: u32, c: u32| match fill { "dark" => 0, "light" => 255, "half" if y < (h + 1) / 2 => 0, _ => rnd(x, y, c) };
    match t {
        "L8" => DynamicImage::ImageLuma8(image::GrayImage::from_fn(w, h, |x, y| image::Luma([rnd(x, y, 0)]))),
        "Rgb8" => DynamicImage::ImageRgb8(image::RgbImage::from_fn(w, h, |x, y| image::Rgb([rnd(x, y, 1), rnd(x, y, 2), rnd(x, y, 3)]))),
        _ => DynamicImage::ImageRgba8(image::RgbaImage::from_fn(w, h, |x, y| image::Rgba([rnd(x, y, 1), rnd(x, y, 2), rnd(x, y, 3), rnd(x, y, 4)]))),
    }
}
fn pal(i: u32) -> [u8; 3] { [rnd(i, 9, 1), rnd(i, 9, 2), rnd(i, 9, 3)] }
/// the bitmap, and the colors it describes, top row first
fn bitmap(d: &Value, down: bool) -> (Vec<u8>, Vec<[u8; 3]>) {
    let n = |k: &str| d[k].as_u64().unwrap() as u32;
    let (hdr, bpp, clr, np, w, h) = (n("hdr"), n("bpp"), n("clr"), n("pal"), n("w"), n("h"));
    let mut o = vec![];
    let mut p4 = |o: &mut Vec<u8>, v: u32| o.extend(v.to_le_bytes());
    p4(&mut o, hdr); p4(&mut o, w); p4(&mut o, if down { (-(h as i32)) as u32 } else { h });
    o.extend([1, 0, bpp as u8, 0]);
    for v in [0, 0, 2835, 2835, clr, 0] { p4(&mut o, v); }
    o.resize(hdr as usize, 0);
    for i in 0..np { let c = pal(i); o.extend([c[2], c[1], c[0], 0]); }
    let mut px = vec![[0u8; 3]; (w * h) as usize];
    for i in 0..h {
        let y = if down { i } else { h - 1 - i };
        let mut row = vec![0u8; (((w * bpp + 31) / 32) * 4) as usize];
        for x in 0..w {
            let at = (y * w + x) as usize;
            if bpp <= 8 {
                let i = rnd(x, y, 5) as u32 % np;
                px[at] = pal(i);
                let bit = x * bpp;
                row[(bit / 8) as usize] |= (i << (8 - bpp - bit % 8)) as u8;
            } else if bpp == 16 {
                let c = [rnd(x, y, 1) & 1, rnd(x, y, 2) & 1, rnd(x, y, 3) & 1];
                px[at] = [c[0] * 255, c[1] * 255, c[2] * 255];
                let v = c[0] as u16 * 0x7C00 | c[1] as u16 * 0x3E0 | c[2] as u16 * 0x1F;
                row[2 * x as usize..2 * x as usize + 2].copy_from_slice(&v.to_le_bytes());
            } else {
                let c = [rnd(x, y, 1), rnd(x, y, 2), rnd(x, y, 3)];
                px[at] = c;
                let b = (x * bpp / 8) as usize;
                row[b] = c[2]; row[b + 1] = c[1]; row[b + 2] = c[0];
            }
        }
        o.extend(row);
    }
    assert_eq!(o.len() as u64, d["len"].as_u64().unwrap());
    (o, px)
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02X}", x)).collect() }

pub fn run(cases: &str, _modes: &[&str], r: &mut Report) {
    for c in lines(cases) {
        r.cases += 1;
        let s = &c["src"];
        r.begin(&s.to_string());
        let kind = s["k"].as_str().unwrap();
        r.count(kind);
        let bin = s["bin"] == true;
        let note = || json!({"source": s, "bitmap": c["dib"]});
        let pieces: Vec<usize> = c["pieces"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        if kind == "wild" {
            let n = |k: &str| (c["dib"][k].as_i64().unwrap() as i32).to_le_bytes();
            let mut o: Vec<u8> = [n("hdr"), n("w"), n("h"), [1, 0, n("bpp")[0], 0], [0; 4], [0; 4], [0; 4], [0; 4], n("clr"), [0; 4]].concat();
            o.resize(c["dib"]["len"].as_u64().unwrap() as usize, 7);
            let mut q = vec![(0, "SECTION".to_string()), (2, "THUMBNAILIMAGE".into()), (90, o.len().to_string())];
            q.extend(o.chunks(100).map(|x| (310, hex(x))));
            q.extend([(0, "ENDSEC".to_string()), (0, "EOF".into())]);
            r.steps += 1;
            match measured(100, || Drawing::load(&mut &text_of(&q)[..]).is_ok()) { Err(e) => r.fail("wild|panic", json!({"case": note(), "got": e})), Ok(k) => r.count(if k { "wild drawing" } else { "wild error" }) }
            continue;
        }
        if kind == "bitmap" {
            let (b, want) = bitmap(&c["dib"], s["down"] == true);
            let mut q = vec![(0, "SECTION".to_string()), (2, "THUMBNAILIMAGE".into()), (90, b.len().to_string())];
            let mut at = 0;
            for n in &pieces { q.push((310, hex(&b[at..at + n]))); at += n; }
            q.extend([(0, "ENDSEC".to_string()), (0, "EOF".into())]);
            let bytes = if bin { binary(&q, true).unwrap() } else { text_of(&q) };
            r.steps += 1;
            let what = format!("{} bits, {}", c["dib"]["bpp"], if c["dib"]["clr"] == 0 { "no color count" } else { "color count" });
            match guard(|| Drawing::load(&mut &bytes[..]).map_err(|e| e.to_string())) {
                Ok(Ok(d)) => match d.thumbnail {
                    None => r.fail(&format!("bitmap|missing|{}", what), note()),
                    Some(i) => {
                        let got: Vec<[u8; 3]> = i.to_rgb8().pixels().map(|p| p.0).collect();
                        if (i.width() as u64, i.height() as u64) != (c["back"]["w"].as_u64().unwrap(), c["back"]["h"].as_u64().unwrap()) { r.fail(&format!("bitmap|size|{}", what), note()); }
                        else if got != want { r.fail(&format!("bitmap|pixels|{}", what), note()); }
                    }
                },
                Ok(Err(e)) => r.fail(&format!("bitmap|refused|{}", what), json!({"case": note(), "got": e})),
                Err(e) => r.fail("bitmap|panic", json!({"case": note(), "got": e})),
            }
            continue;
        }
        let mut d = Drawing::new();
        d.header.version = ver(s["ver"].as_u64().unwrap() as usize);
        if kind == "image" { d.thumbnail = Some(image(s["t"].as_str().unwrap(), s["w"].as_u64().unwrap() as u32, s["h"].as_u64().unwrap() as u32, s["fill"].as_str().unwrap())); }
        r.steps += 1;
        let saved = guard(|| { let mut b = vec![]; if bin { d.save_binary(&mut b) } else { d.save(&mut b) }.map(|_| b).map_err(|e| e.to_string()) });
        let b = match saved { Ok(Ok(b)) => b, Ok(Err(e)) => { r.fail("image|save", json!({"case": note(), "got": e})); continue } Err(e) => { r.fail("image|panic", json!({"case": note(), "got": e})); continue } };
        if !bin {
            let q = raw_pairs(&b);
            let at = q.windows(2).position(|w| w[0] == (0, "SECTION".into()) && w[1] == (2, "THUMBNAILIMAGE".into()));
            let got: Vec<usize> = at.map_or(vec![], |i| q[i + 2..].iter().skip_while(|p| p.0 == 90).take_while(|p| p.0 == 310).map(|p| p.1.len() / 2).collect());
            if at.is_some() != !pieces.is_empty() { r.fail("image|section", json!({"case": note()})); }
            if got != pieces { r.fail("image|pieces", json!({"case": note(), "expected": pieces, "got": got})); }
            if let Some(i) = at { if q[i + 2].0 != 90 || q[i + 2].1.trim() != pieces.iter().sum::<usize>().to_string() { r.fail("image|length", json!({"case": note(), "got": q[i + 2]})); } }
        }
        match guard(|| Drawing::load(&mut &b[..]).map_err(|e| e.to_string())) {
            Ok(Ok(l)) => {
                if l.thumbnail.is_some() != (c["back"]["k"] == "image") { r.fail("image|presence", note()); }
                if let (Some(x), Some(y)) = (&l.thumbnail, &d.thumbnail) {
                    if x.dimensions() != y.dimensions() { r.fail("image|size", note()); }
                    else if x.to_rgba8() != y.to_rgba8() { r.fail("image|pixels", note()); }
                    // and once more
                    let mut b2 = vec![];
                    let mut l2 = l.clone();
                    l2.header.version = d.header.version;
                    match guard(|| l2.save_binary(&mut b2).map_err(|e| e.to_string()).and_then(|_| Drawing::load(&mut &b2[..]).map_err(|e| e.to_string()))) {
                        Ok(Ok(m)) if m.thumbnail.as_ref().is_some_and(|z| z.to_rgba8() == x.to_rgba8()) => (),
                        e => r.fail("image|again", json!({"case": note(), "got": e.err()})),
                    }
                }
            }
            Ok(Err(e)) => r.fail("image|refused", json!({"case": note(), "got": e})),
            Err(e) => r.fail("image|panic", json!({"case": note(), "got": e})),
        }
    }
}
