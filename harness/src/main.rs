mod blocks;
mod bulk;
mod compound;
mod containers;
mod drawing;
mod dxb;
mod encoding;
mod factory;
mod faults;
#[macro_use]
mod flags;
mod flags_table;
mod hostile;
mod layout;
mod numbers;
mod pointers;
mod reader;
mod records;
mod strings;
mod thumb;
mod trees;
mod util;
use dxf::*;

#[global_allocator]
static METER: util::Meter = util::Meter;

fn dump_defaults() {
    for k in factory::ENTITY_KINDS { println!("E {} {}", k, serde_json::to_string(&entities::Entity::new(factory::entity(k).unwrap())).unwrap()); }
    for k in factory::OBJECT_KINDS { println!("O {} {}", k, serde_json::to_string(&objects::Object::new(factory::object(k).unwrap())).unwrap()); }
    use tables::*;
    macro_rules! t { ($($t:ident),*) => { $( println!("T {} {}", stringify!($t), serde_json::to_string(&$t::default()).unwrap()); )* } }
    t!(AppId, BlockRecord, DimStyle, Layer, LineType, Style, Ucs, View, ViewPort);
    println!("B {}", serde_json::to_string(&Block::default()).unwrap());
    println!("C {}", serde_json::to_string(&Class::default()).unwrap());
    println!("H {}", serde_json::to_string(&Header::default()).unwrap());
}

// usage: dxfh <engine> <modes,comma> <cases> <report>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 || a[1] == "defaults" { dump_defaults(); return; }
    std::panic::set_hook(Box::new(|_| {})); // panics of the code under test are data
    let mut r = util::Report::default();
    util::watchdog(a[4].clone());
    let modes: Vec<&str> = a[2].split(',').collect();
    match a[1].as_str() {
        "drawing" => drawing::run(&a[3], &modes, &mut r),
        "strings" => strings::run(&a[3], &mut r),
        "trees" => trees::run(&a[3], &modes, &mut r),
        "containers" => containers::run(&a[3], &modes, &mut r),
        "compound" => compound::run(&a[3], &mut r),
        "blocks" => blocks::run(&a[3], &modes, &mut r),
        "layout" => layout::run(&a[3], &modes, &mut r),
        "pointers" => pointers::run(&a[3], &mut r),
        "numbers" => numbers::run(&a[3], &mut r),
        "reader" => reader::run(&a[3], &modes, &mut r),
        "bulk" => bulk::run(&a[3], &modes, &mut r),
        "flags" => flags::run(&a[3], &modes, &mut r),
        "thumb" => thumb::run(&a[3], &modes, &mut r),
        "faults" => faults::run(&a[3], &mut r),
        "encoding" => encoding::run(&a[3], &mut r),
        "dxb" => dxb::run(&a[3], &modes, &mut r),
        "hostile" => hostile::run(&a[3], &modes, &mut r),
        "records" => records::run(&a[3], &modes, &mut r),
        _ => { eprintln!("engine {}", a[1]); std::process::exit(2); }
    }
    r.write(&a[4]);
}
