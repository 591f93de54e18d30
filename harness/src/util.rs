// Shared helpers: raw pair parsing (independent of the library), panics as data, reporting.
use dxf::enums::AcadVersion;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const VERSIONS: [AcadVersion; 21] = [
    AcadVersion::Version_1_0, AcadVersion::Version_1_2, AcadVersion::Version_1_40, AcadVersion::Version_2_05,
    AcadVersion::Version_2_10, AcadVersion::Version_2_21, AcadVersion::Version_2_22, AcadVersion::Version_2_5,
    AcadVersion::Version_2_6, AcadVersion::R9, AcadVersion::R10, AcadVersion::R11, AcadVersion::R12, AcadVersion::R13,
    AcadVersion::R14, AcadVersion::R2000, AcadVersion::R2004, AcadVersion::R2007, AcadVersion::R2010, AcadVersion::R2013,
    AcadVersion::R2018,
];
pub fn ver(i: usize) -> AcadVersion { VERSIONS[i - 1] }

/// The pairs of a text DXF file: alternating code and value lines.
pub fn raw_pairs(bytes: &[u8]) -> Vec<(i32, String)> {
    let s = String::from_utf8_lossy(bytes);
    let mut it = s.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l));
    let mut out = vec![];
    while let (Some(c), Some(v)) = (it.next(), it.next()) {
        match c.trim().parse::<i32>() { Ok(c) => out.push((c, v.to_string())), Err(_) => out.push((-9999, format!("{}|{}", c, v))) }
    }
    out
}
pub fn text_of(pairs: &[(i32, String)]) -> Vec<u8> {
    let mut s = String::new();
    for (c, v) in pairs { s.push_str(&format!("{:>3}\r\n{}\r\n", c, v)); }
    s.into_bytes()
}

/// Run code under test; a panic becomes Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() };
        format!("panic: {}", m)
    })
}

/// The largest piece of memory asked for since the mark was reset.
pub struct Meter;
static LARGEST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LARGEST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { LARGEST.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { LARGEST.fetch_max(n, std::sync::atomic::Ordering::Relaxed); std::alloc::System.realloc(p, l, n) }
}
/// Like guard, for code that is given len bytes of input: memory out of all proportion becomes Err too.
pub fn measured<T>(len: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    LARGEST.store(0, std::sync::atomic::Ordering::Relaxed);
    let out = guard(f)?;
    let most = LARGEST.load(std::sync::atomic::Ordering::Relaxed);
    if most > (32 << 20) + 256 * len { return Err(format!("asked for {} bytes at once, for an input of {} bytes", most, len)); }
    Ok(out)
}
/// processor time this thread has used, in seconds
pub fn cpu() -> f64 {
    std::fs::read_to_string("/proc/thread-self/schedstat").ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse::<f64>().ok())).map_or(0.0, |n| n / 1e9)
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub steps: u64,
    pub fails: Vec<Value>,
    pub counts: BTreeMap<String, u64>,
    per: BTreeMap<String, u64>,
}
/// What is being run right now: shared with the watchdog, and kept in a file in case the process dies.
pub static NOW: std::sync::Mutex<(u64, String)> = std::sync::Mutex::new((0, String::new()));
pub static CURRENT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
pub static PARTIAL: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub fn watchdog(report: String) {
    let f = std::fs::File::create(format!("{}.current", report)).expect("current");
    let _ = CURRENT.set(f);
    std::thread::spawn(move || {
        let mut last = 0; let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = NOW.lock().unwrap().0;
            if n != last { last = n; since = std::time::Instant::now(); continue; }
            if n > 0 && since.elapsed().as_secs() >= 40 {
                let cur = NOW.lock().unwrap().1.clone();
                let mut out = PARTIAL.lock().unwrap().join("\n");
                out.push_str(&format!("\n{}\n", json!({"site": "hang", "detail": {"case": cur, "got": "no answer within 40 s"}})));
                let _ = std::fs::write(&report, out);
                std::process::exit(4);
            }
        }
    });
}
impl Report {
    /// Announce the case about to be run.
    pub fn begin(&mut self, what: &str) {
        { let mut g = NOW.lock().unwrap(); g.0 += 1; g.1.clear(); g.1.push_str(what); }
        if let Some(f) = CURRENT.get() {
            use std::os::unix::fs::FileExt;
            let mut s = what.as_bytes().to_vec(); s.truncate(60000); s.push(b'\n');
            let _ = f.write_at(&s, 0);
        }
    }
    /// site: what identifies the failing place (kind|field|..); detail: the concrete input and outcome.
    pub fn fail(&mut self, site: &str, detail: Value) {
        let n = self.per.entry(site.to_string()).or_insert(0);
        *n += 1;
        if *n <= 40 && self.fails.len() < 20000 { let x = json!({"site": site, "detail": detail}); PARTIAL.lock().unwrap().push(x.to_string()); self.fails.push(x); }
    }
    pub fn count(&mut self, k: &str) { *self.counts.entry(k.to_string()).or_insert(0) += 1; }
    pub fn write(&self, path: &str) {
        let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("report"));
        for x in &self.fails { writeln!(f, "{}", x).unwrap(); }
        writeln!(f, "{}", json!({"summary": {"cases": self.cases, "steps": self.steps, "fails": self.fails.len(), "counts": self.counts}})).unwrap();
        f.flush().unwrap();
    }
}
/// Modules name characters outside ASCII by number (&#xE9;): TLC does not keep them.
fn characters(l: String) -> String {
    if !l.contains("&#x") { return l; }
    let mut parts = l.split("&#x");
    let mut o = parts.next().unwrap().to_string();
    for p in parts {
        let (n, rest) = p.split_once(';').expect("character number");
        o.push(char::from_u32(u32::from_str_radix(n, 16).expect("character number")).expect("character"));
        o.push_str(rest);
    }
    o
}
pub fn lines(path: &str) -> impl Iterator<Item = Value> {
    use std::io::BufRead;
    std::io::BufReader::new(std::fs::File::open(path).expect("cases")).lines().filter_map(|l| {
        let l = characters(l.unwrap());
        if l.trim().is_empty() { None } else { Some(serde_json::from_str(&l).unwrap_or_else(|e| panic!("bad case line {}: {}", e, l))) }
    })
}

/// Some bytes changed, inserted, removed or repeated; the same for the same seed.
pub fn mutate(b: &[u8], seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = |n: usize| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 11) as usize % n.max(1) };
    let mut o = b.to_vec();
    for _ in 0..1 + next(3) {
        if o.is_empty() { break }
        let at = next(o.len());
        match next(6) {
            0 => o[at] = next(256) as u8,
            1 => o[at] = [0, 255, 127, 128, b'-', b'{', b'}', b'\n', b'0', b'9', b' '][next(11)],
            2 => { o.remove(at); }
            3 => o.insert(at, next(256) as u8),
            4 => { let n = next(12).min(o.len() - at); let q = o[at..at + n].to_vec(); let to = next(o.len()); o.splice(to..to, q); }
            _ => { let n = next(9).min(o.len() - at); o.drain(at..at + n); }
        }
    }
    o
}
