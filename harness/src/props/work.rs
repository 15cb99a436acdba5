//! C38: executed instructions in proportion to the size of the document, counted by callgrind.

use super::*;
use crate::core::event;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::process::{Command, Stdio};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C38", cases: (140, 2_240), run: work_case,
    required: &["grown:module", "grown:board", "grown:sch", "grown:lib", "grown:table", "counted", "growth:in proportion",
        "list:board.elements", "list:board.layers", "list:board.setup", "list:module.elements", "list:net_class.nets", "list:zone.polygons", "list:fp_poly.pts",
        "list:sch.elements", "list:comp.fields", "list:sheet.labels", "list:sch.libraries", "list:lib.symbols", "list:symbol.draw", "list:symbol.aliases", "list:table.libs"],
    rule: "distinct (document, list that grows, operation) whose executed instructions were counted at two sizes",
    assumptions: &["a growth by 8 times may cost up to 16 times the instructions: room for sorting, none for quadratic growth"],
}];

const SMALL: usize = 512;
const FACTOR: usize = 8;
// a vector that is moved once when it grows
const SLACK: u64 = 2_000_000;

const LISTS: &[(&str, &str)] = &[
    ("board", "board.elements"), ("board", "board.layers"), ("board", "board.setup"), ("board", "board.plot"), ("board", "net_class.nets"), ("board", "zone.polygons"),
    ("board", "zone.filled_polygons"), ("board", "zone.fill_segments"), ("board", "zone.other"), ("board", "dimension.feature1"), ("board", "dimension.crossbar"),
    ("board", "via.layers"), ("board", "module.elements"), ("module", "module.elements"), ("module", "pad.layers"), ("module", "fp_poly.pts"), ("sch", "sch.elements"),
    ("sch", "sch.libraries"), ("sch", "sch.sheets"), ("sch", "sheet.labels"), ("sch", "comp.fields"), ("sch", "comp.ar"), ("lib", "lib.symbols"), ("lib", "symbol.draw"),
    ("lib", "symbol.aliases"), ("lib", "symbol.fp"), ("lib", "symbol.fields"), ("table", "table.libs"),
];

fn work_case(c: &mut Ctx) -> Res {
    let (kind, at) = LISTS[c.index as usize % LISTS.len()];
    let mut tries = 0;
    let (v, p) = loop {
        tries += 1;
        if tries > 5_000 {
            return broken(format!("no document with {}", at));
        }
        let v = gen_doc(&mut c.rng, kind);
        let mut lists = growable(&v);
        lists.retain(|p| gen::name_of(&v, p) == at && gen::get(&v, p).leaves() < 400);
        if v.leaves() < 3_000 && !lists.is_empty() {
            let p = c.rng.pick(&lists).clone();
            break (v, p);
        }
    };
    let a = render::document(&grown(&v, &p, SMALL), &mut c.rng.clone(), false);
    let b = render::document(&grown(&v, &p, SMALL * FACTOR), &mut c.rng.clone(), false);
    event(&format!("grown:{}", kind));
    event(&format!("list:{}", at));
    let counts = counted(c, kind, &a, &b)?;
    let h = core::hash_str(&a);
    for (op, small) in counts.iter().filter(|x| x.0.starts_with("small ")) {
        let op = &op[6..];
        let big = match counts.get(&format!("big {}", op)) {
            Some(b) => *b,
            None => return broken(format!("no count of {}", op)),
        };
        c.eval();
        event("counted");
        c.seen(h ^ core::hash_str(op));
        if big > SLACK {
            event(match big * 10 / (small * FACTOR as u64) {
                0..=8 => "growth:less than in proportion",
                9..=11 => "growth:in proportion",
                12..=15 => "growth:up to 1.6 times",
                _ => "growth:more",
            })
        }
        if big > small * (FACTOR as u64) * 2 + SLACK {
            return bad(format!(
                "{}: {} items in {} take {} instructions, {} items take {}: more than in proportion",
                op, SMALL, at, small, SMALL * FACTOR, big
            ));
        }
    }
    if c.index < 40 {
        c.sample(format!("{}: {:?}", at, counts))
    }
    Ok(())
}

/// paths of the lists of a document that have items and can grow
pub fn growable(v: &V) -> Vec<Vec<usize>> {
    fn walk(v: &V, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        match *v {
            V::L(ref l) => {
                if !l.is_empty() {
                    out.push(p.clone())
                }
                for (i, x) in l.iter().enumerate() {
                    p.push(i);
                    walk(x, p, out);
                    p.pop();
                }
            }
            V::R(_, ref f) => for (i, x) in f.iter().enumerate() {
                if x.0 == "rot" {
                    continue;
                }
                p.push(i);
                walk(&x.1, p, out);
                p.pop();
            },
            _ => (),
        }
    }
    let mut o = vec![];
    walk(v, &mut vec![], &mut o);
    o
}

/// the document with the list at `p` grown to `n` items
pub fn grown(v: &V, p: &[usize], n: usize) -> V {
    let at = gen::name_of(v, p);
    let mut w = v.clone();
    let l = gen::get_mut(&mut w, p).lm();
    let base = l.clone();
    l.clear();
    for i in 0..n {
        let mut x = base[i % base.len()].clone();
        distinct(&mut x, &at, i);
        l.push(x)
    }
    w
}

/// make the names and places of an item its own
fn distinct(v: &mut V, at: &str, i: usize) {
    match *v {
        V::S(ref mut s) => if let "net_class.nets" | "sch.libraries" | "symbol.aliases" | "symbol.fp" = at {
            *s = format!("{}{}", s, i)
        },
        V::L(ref mut l) => for x in l {
            distinct(x, "", i)
        },
        V::R(k, ref mut f) => for (n, x) in f {
            match (k, *n) {
                ("fp_text", "value") | ("net", "name") | ("pad", "name") | ("model", "name") | ("net_class", "name") | ("gr_text", "value") | ("dimension", "name")
                | ("zone", "net_name") | ("se", "name") | ("comp", "name") | ("comp", "reference") | ("field", "value") | ("field", "name") | ("label", "name")
                | ("sheet", "name") | ("pin", "name") | ("pin", "number") | ("sfield", "value") | ("sfield", "name") | ("symbol", "name") | ("entry", "name") | ("text", "text") => {
                    if let V::S(ref mut s) = *x {
                        *s = format!("{}{}", s, i)
                    }
                }
                ("xy", "x") | ("at", "x") | ("pin", "x") | ("rect", "x1") | ("wire", "x1") | ("conn", "x") | ("noconn", "x") | ("text", "x") => match *x {
                    V::N(ref mut y) => *y = i as f64,
                    V::I(ref mut y) => *y = i as i64,
                    _ => (),
                },
                ("field", "i") | ("sfield", "i") => if at.ends_with(".fields") {
                    *x = V::I(i as i64)
                },
                _ => distinct(x, "", i),
            }
        },
        _ => (),
    }
}

/// instructions executed by each operation, in a process of its own under callgrind
fn counted(c: &Ctx, kind: &str, a: &str, b: &str) -> Result<BTreeMap<String, u64>, Fail> {
    let io = |e: std::io::Error| Fail::Harness(format!("callgrind: {}", e));
    let d = c.dir("work")?;
    fs::write(d.join("kind"), kind).map_err(io)?;
    fs::write(d.join("small"), a).map_err(io)?;
    fs::write(d.join("big"), b).map_err(io)?;
    let exe = std::env::current_exe().map_err(io)?;
    let mut child = Command::new("valgrind")
        .args(&["-q", "--tool=callgrind", "--instr-atstart=no"])
        .arg(format!("--callgrind-out-file={}", d.join("o").display()))
        .arg(exe).arg("work").arg(&d)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
        .spawn().map_err(io)?;
    let t0 = std::time::Instant::now();
    let s = loop {
        if let Some(s) = child.try_wait().map_err(io)? {
            break s;
        }
        if t0.elapsed().as_secs() > 120 {
            let _ = child.kill();
            let _ = child.wait();
            return skip("too slow");
        }
        std::thread::sleep(std::time::Duration::from_millis(2))
    };
    match s.code() {
        Some(0) => (),
        Some(4) => return skip("not parsed or not written"),
        x => return broken(format!("callgrind ended with {:?}", x)),
    }
    let mut o = BTreeMap::new();
    for e in fs::read_dir(&d).map_err(io)? {
        let e = e.map_err(io)?;
        if !e.file_name().to_string_lossy().starts_with("o.") {
            continue;
        }
        let t = fs::read_to_string(e.path()).map_err(io)?;
        let line = |k: &str| t.lines().find(|l| l.starts_with(k)).map(|l| l[k.len()..].trim().to_string());
        if let (Some(name), Some(n)) = (line("desc: Trigger: Client Request:"), line("summary:")) {
            let n = n.split_whitespace().next().unwrap_or("").parse().map_err(|_| Fail::Harness("callgrind: no number".to_string()))?;
            o.insert(name, n);
        }
    }
    let _ = fs::remove_dir_all(&d);
    if o.is_empty() {
        return broken("callgrind counted nothing");
    }
    Ok(o)
}

/// the process under callgrind
pub fn perform(d: &Path) -> i32 {
    let read = |n: &str| fs::read_to_string(d.join(n)).expect(n);
    let kind = read("kind");
    for size in &["small", "big"] {
        let r = super::more::each_op(&kind, &read(size), &mut |name, f| {
            let text = format!("{} {}\0", size, name);
            request(4, 0); // start
            request(1, 0); // zero
            f();
            request(3, text.as_ptr() as usize); // dump
            request(5, 0); // stop
        });
        if r.is_err() {
            return 4;
        }
    }
    0
}

/// a request to callgrind, without effect outside of it
#[inline(never)]
fn request(what: usize, arg: usize) {
    let a: [usize; 6] = [0x4354_0000 + what, arg, 0, 0, 0, 0];
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") a.as_ptr(), inout("rdx") 0usize => _
        );
    }
}
