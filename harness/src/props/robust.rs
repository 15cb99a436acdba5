//! C10 and C27: hostile and damaged texts.

use super::*;
use crate::core::event;
use crate::mutate;
use crate::sx::{self, Sx};
use k::checkfix::{CheckFix, Config};
use k::BoundingBox;
use std::fs;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C10", cases: (600_000, 12_000_000), run: crash_case,
        required: &["accepted:module", "accepted:board", "accepted:sch", "accepted:lib", "accepted:table", "rejected:module", "rejected:board",
            "rejected:sch", "rejected:lib", "rejected:table", "text:extreme", "text:soup", "text:changed", "file:not utf-8", "file:text"],
        rule: "distinct texts (hash of the text) given to all parsers; every accepted model was also written, displayed, measured, checked and fixed",
        assumptions: &["texts up to about 1 MB, stack of 8 MB, 4 GB of memory, 120 s of processor time per case"],
    },
    &Prop {
        id: "C27", cases: (1_200_000, 24_000_000), run: damage_case,
        required: &["number replaced:module", "number replaced:board", "number replaced:sch", "number replaced:lib", "number removed:module",
            "number removed:board", "number removed:sch", "number removed:lib", "cut:module", "cut:board", "cut:sch", "cut:lib", "cut:table", "kept as uninterpreted"],
        rule: "distinct damaged texts (hash of the text), each made from a valid file by one damage, whose parse result was judged",
        assumptions: &["numbers that the format allows to be left out are not removed; the redundant position line of a component is not damaged (DESIGN.md, domain limits)"],
    },
];

// ------------------------------------------------------------ C10

fn exercise(kind: &str, d: &mut Doc) {
    match *d {
        Doc::Module(ref mut m) => {
            let _ = lib("debug text", || format!("{:?}", m));
            let _ = lib("measure module", || m.bounding_box());
            let _ = lib("check module", || m.check(&Config::klc()));
            let _ = lib("fix module", || m.fix(&Config::klc()));
            let _ = lib("check module", || m.check(&Config::klc()));
        }
        Doc::Board(ref mut b) => {
            let _ = lib("debug text", || format!("{:?}", b));
            let _ = lib("measure board", || b.bounding_box());
            for e in b.elements.iter_mut() {
                let _ = lib("measure element", || e.bounding_box());
                if let lo::Element::Module(ref mut m) = *e {
                    let _ = lib("check module", || m.check(&Config::klc()));
                    let _ = lib("fix module", || m.fix(&Config::klc()));
                }
            }
        }
        Doc::Sch(ref s) => {
            let _ = lib("debug text", || format!("{:?}", s));
            let _ = lib("measure schematic", || s.bounding_box());
            for e in &s.elements {
                let _ = lib("measure element", || e.bounding_box());
                let _ = lib("element text", || format!("{}", e));
            }
            for e in &s.sheets {
                let _ = lib("measure sheet", || e.bounding_box());
                let _ = lib("sheet text", || format!("{}", e));
            }
        }
        Doc::Lib(ref mut l) => {
            let _ = lib("debug text", || format!("{:?}", l));
            for s in l.symbols.iter_mut() {
                let _ = lib("symbol text", || format!("{}", s));
                let _ = lib("check symbol", || s.check(&Config::klc()));
                let _ = lib("symbol kind", || (s.is_power(), s.is_graphics(), s.is_basic(), s.pins().len()));
                let _ = lib("fix symbol", || s.fix(&Config::klc()));
            }
        }
        Doc::Table(ref t) => {
            let _ = lib("debug text", || format!("{:?}", t));
            for l in &t.libs {
                let _ = lib("expand", || l.get_expanded_uri().is_ok());
            }
        }
    }
    let _ = d.obs();
    let _ = d.write();
    let _ = d.write_at(3);
    event(&format!("accepted:{}", kind))
}

fn start_text(c: &mut Ctx, kind: &str) -> String {
    if c.rng.pct(25) {
        let f = corpus(kind);
        let t = c.rng.pick(&f).1;
        // a window of the sample, so that most damages hit different places
        if t.len() > 6000 && c.rng.pct(85) {
            let lines: Vec<&str> = t.lines().collect();
            let head = 3 + c.rng.below(30);
            let a = c.rng.below(lines.len());
            let mut o = lines[..head.min(lines.len())].join("\n");
            o.push('\n');
            o.push_str(&lines[a..(a + 80).min(lines.len())].join("\n"));
            if kind == "board" {
                o.push(')')
            }
            return o;
        }
        return t.to_string();
    }
    let v = gen_doc(&mut c.rng, kind);
    render::document(&v, &mut c.rng, true)
}

fn crash_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(KINDS);
    let text = match c.rng.below(40) {
        0 | 1 => {
            event("text:soup");
            mutate::soup(&mut c.rng)
        }
        2 => {
            event("text:extreme");
            mutate::extreme(&mut c.rng)
        }
        3 => {
            event("text:extreme");
            let e = mutate::extreme(&mut c.rng);
            let s = start_text(c, kind);
            mutate::change(&mut c.rng, &e, &s)
        }
        _ => {
            event("text:changed");
            let mut s = start_text(c, kind);
            let o = start_text(c, *KINDS.get(c.index as usize % KINDS.len()).unwrap_or(&"sch"));
            let n = if c.rng.pct(50) { 1 } else { 1 + c.rng.below(6) };
            for _ in 0..n {
                s = mutate::change(&mut c.rng, &s, &o)
            }
            s
        }
    };
    c.attach("text", text.clone());
    if text.len() < 200_000 {
        // the supervisor cannot see the attachment of a process that dies
        c.note(&text)
    }
    for kind in KINDS {
        match Doc::parse(kind, &text) {
            Ok(mut d) => exercise(kind, &mut d),
            Err(_) => event(&format!("rejected:{}", kind)),
        }
    }
    match lib("parse project", || k::project::parse_str(&text)) {
        Ok(p) => {
            let _ = lib("debug text", || format!("{:?}", p));
        }
        Err(e) => {
            let _ = lib("error text", || format!("{} {:?}", e, e));
        }
    }
    c.eval();
    c.seen(core::hash_str(&text));
    if c.rng.pct(12) {
        let d = c.dir("files")?;
        let name = d.join(*c.rng.pick(&["a.kicad_mod", "b", "ü.sch", "c.lib", "d.kicad_pcb", "fp-lib-table", "e.pro"]));
        let mut bytes = text.into_bytes();
        if c.rng.pct(40) {
            let at = c.rng.below(bytes.len() + 1);
            let b = *c.rng.pick(&[0x80u8, 0xff, 0xc3, 0xf0, 0x00]);
            bytes.insert(at, b);
            event("file:not utf-8")
        } else {
            event("file:text")
        }
        fs::write(&name, &bytes).map_err(|e| Fail::Harness(format!("scratch file: {}", e)))?;
        read_all(&name);
        c.eval()
    }
    Ok(())
}

fn read_all(p: &std::path::Path) {
    fn show<T>(x: Result<T, k::KicadError>) {
        if let Err(e) = x {
            let _ = lib("error text", || format!("{} {:?}", e, e));
        }
    }
    show(lib("read any", || k::read_kicad_file(p, k::Expected::Any)));
    show(lib("read module", || k::read_module(p)));
    show(lib("read schematic", || k::read_schematic(p)));
    show(lib("read layout", || k::read_layout(p)));
    show(lib("read symbol lib", || k::read_symbol_lib(p)));
    show(lib("read project", || k::read_project(p)));
    show(lib("read table", || k::read_fp_lib_table(p)));
    let _ = lib("read file", || k::read_file(p));
    if let Ok(s) = lib("read schematic", || k::read_schematic(p)) {
        show(lib("all components", || s.all_components()));
        show(lib("component by reference", || s.component_by_reference("R1")));
    }
}

// ------------------------------------------------------------ C27

/// the number leaves of a tree, as paths
pub fn numbers(v: &V, at: &mut Vec<usize>, o: &mut Vec<Vec<usize>>) {
    match *v {
        V::N(_) | V::I(_) => o.push(at.clone()),
        V::L(ref l) => for (i, x) in l.iter().enumerate() {
            at.push(i);
            numbers(x, at, o);
            at.pop();
        },
        V::R(_, ref f) => for (i, x) in f.iter().enumerate() {
            at.push(i);
            numbers(&x.1, at, o);
            at.pop();
        },
        _ => (),
    }
}

pub fn child(v: &mut V, i: usize) -> &mut V {
    match *v {
        V::L(ref mut l) => &mut l[i],
        V::R(_, ref mut f) => &mut f[i].1,
        _ => panic!("path into a leaf"),
    }
}

/// the names along a path, like "board.elements[].pad.at.x"
pub fn path_names(v: &V, path: &[usize]) -> String {
    let mut s = String::new();
    let mut x = v;
    for &i in path {
        match *x {
            V::L(ref l) => x = &l[i],
            V::R(n, ref f) => {
                s.push_str(&format!("{}.{}/", n, f[i].0));
                x = &f[i].1
            }
            _ => (),
        }
    }
    s
}

fn numeric(s: &str, hex: bool) -> bool {
    s.parse::<f64>().is_ok() || s.parse::<i64>().is_ok() || (hex && i64::from_str_radix(s, 16).is_ok())
}

const JUNK: &[&str] = &["xyz", "12xyz", "x12", "1,5", "1.2.3", "--5", "5-", "-", "~", "0x12", "１２", "1_000", "1.5mm", "z", "\"\"", "\"1 2\"", "1:2", "*", "%", "$5", "1/2", "µ", "\"x 5\"", "(1)", "(x 5)", "()"];

fn damage_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["module", "board", "sch", "lib", "module", "board", "sch", "lib", "table"]);
    let mut v = if kind == "board" && c.rng.pct(50) {
        let n = 1 + c.rng.below(2);
        let e: Vec<V> = (0..n).map(|_| gen::board_element(&mut c.rng)).collect();
        gen::board_with(&mut c.rng, e)
    } else {
        gen_doc(&mut c.rng, kind)
    };
    if c.rng.pct(35) || kind == "table" {
        return cut_case(c, kind, &v);
    }
    let mut all = vec![];
    numbers(&v, &mut vec![], &mut all);
    if all.is_empty() {
        return Ok(());
    }
    let mut path = c.rng.pick(&all).clone();
    if c.rng.pct(60) {
        // kinds of numbers with the same chance, however often they occur
        let mut kinds: Vec<String> = all.iter().map(|p| path_names(&v, p)).collect();
        let all2: Vec<(String, Vec<usize>)> = kinds.iter().cloned().zip(all.iter().cloned()).collect();
        kinds.sort();
        kinds.dedup();
        let k = c.rng.pick(&kinds).clone();
        let same: Vec<Vec<usize>> = all2.into_iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        path = c.rng.pick(&same).clone()
    }
    let names = path_names(&v, &path);
    let mut leaf = &mut v;
    for &i in &path {
        leaf = child(leaf, i)
    }
    let hex = names.ends_with("tedit.v/") || names.ends_with("tstamp.v/");
    let mark = match *leaf {
        V::N(ref mut x) => {
            *x = 73190.625;
            "73190.625"
        }
        V::I(ref mut x) => {
            *x = if hex { 0x73190FED } else { 7319064 };
            if hex { "73190FED" } else { "7319064" }
        }
        _ => return broken("not a number"),
    };
    let text = render::document(&v, &mut c.rng, false);
    let spots: Vec<usize> = text.match_indices(mark).map(|x| x.0).collect();
    // the valid file must be accepted, otherwise nothing can be learnt from damaging it
    let base = match Doc::parse(kind, &text) {
        Ok(d) => d.obs(),
        Err(_) => return skip("the undamaged file is rejected"),
    };
    let alone = |p: usize| {
        let before = text[..p].chars().last();
        let after = text[p + mark.len()..].chars().next();
        let before = if before == Some('F') && names.ends_with("sfield.i/") { None } else { before };
        !before.map_or(false, |c| c.is_alphanumeric() || c == '.' || c == '-') && !after.map_or(false, |c| c.is_alphanumeric() || c == '.')
    };
    // the first place is the one that is read (a component repeats its position)
    let p = match spots.first() {
        Some(&p) if alone(p) => p,
        _ => return Ok(()),
    };
    let remove = c.rng.pct(35) && removable(&names, &text, p, mark);
    let damaged = if remove {
        let mut a = p;
        if text[..p].ends_with(' ') {
            a -= 1
        }
        format!("{}{}", &text[..a], &text[p + mark.len()..])
    } else {
        let mut j = *c.rng.pick(JUNK);
        if j.contains(|c| c == ' ' || c == '(') && (kind == "sch" || kind == "lib") {
            j = "xyz"
        }
        let j = match c.rng.below(10) {
            0 => format!("{}x", mark),
            1 => format!("{}{}", mark, c.rng.pick(&["mil", "mm", "mils", "in", "\u{b0}", "%", ";", ",", "-", "+", "_", ".", "d", "L", "f64"])),
            2 => {
                // glued to a text that the source mentions
                let w = crate::dict::word(&mut c.rng);
                let s = match c.rng.below(3) {
                    0 => format!("{}{}", w, mark),
                    1 => w.to_string(),
                    _ => format!("{}{}", mark, w),
                };
                if numeric(&s, hex) || s.is_empty() || s.chars().any(|c| c.is_whitespace() || c == '(' || c == ')' || c == '"' || c == '\\') {
                    j.to_string()
                } else {
                    s
                }
            }
            _ => j.to_string(),
        };
        if numeric(&j, hex) {
            return Ok(());
        }
        format!("{}{}{}", &text[..p], j, &text[p + mark.len()..])
    };
    event(&format!("{}:{}", if remove { "number removed" } else { "number replaced" }, kind));
    event(&format!("{} {}", if remove { "removed" } else { "replaced" }, names.rsplit('/').nth(1).unwrap_or("")));
    c.attach("what", format!("{} at {}", if remove { "number removed" } else { "number replaced" }, names));
    c.attach("valid text", text.clone());
    c.attach("damaged text", damaged.clone());
    c.seen(core::hash_str(&damaged));
    c.eval();
    if c.index < 40 {
        c.sample(format!("{}: {}", names, damaged))
    }
    match Doc::parse(kind, &damaged) {
        Err(_) => Ok(()),
        Ok(d) => {
            let outline = ["zone.polygons/", "zone.filled_polygons/", "zone.fill_segments/"].iter().any(|z| names.contains(z));
            if outline && kept_verbatim(&base, &d.obs(), &damaged) {
                event("kept as uninterpreted");
                return Ok(());
            }
            bad(format!("a damaged number at {} is accepted", names))
        }
    }
}

/// may this number be left out of a valid file?
fn removable(names: &str, text: &str, p: usize, mark: &str) -> bool {
    let last = names.rsplit('/').nth(1).unwrap_or("");
    // an (at x y rot) with one number less is valid
    if last.starts_with("at.") {
        let a = text[..p].rfind('(').unwrap_or(0);
        let b = p + text[p..].find(')').unwrap_or(0);
        return text[a..b].split_whitespace().count() <= 3;
    }
    let _ = mark;
    match last {
        "drill.width" | "drill.height" => false,
        _ => true,
    }
}

/// the damaged outline is kept as an uninterpreted part of its zone and nothing else changed
fn kept_verbatim(base: &V, got: &V, damaged: &str) -> bool {
    let tree = match sx::read(damaged) {
        Ok(t) => t,
        Err(_) => return false,
    };
    let (a, b) = (base.g("elements").l(), got.g("elements").l());
    if a.len() != b.len() {
        return false;
    }
    let mut found = 0;
    for (x, y) in a.iter().zip(b.iter()) {
        if diff(x, y, 0.0).is_none() {
            continue;
        }
        if x.kind() != "zone" || y.kind() != "zone" {
            return false;
        }
        let (p, q) = (x.g("other").l(), y.g("other").l());
        if q.len() != p.len() + 1 {
            return false;
        }
        let extra: Vec<&V> = q.iter().filter(|o| !p.iter().any(|n| diff(n, o, 0.0).is_none())).collect();
        if extra.len() != 1 {
            return false;
        }
        match *extra[0] {
            V::X(ref s) => if !contains(&tree, s) || !["polygon", "filled_polygon", "fill_segments"].contains(&s.head()) {
                return false;
            },
            _ => return false,
        }
        let count = |z: &V| z.g("polygons").l().len() + z.g("filled_polygons").l().len() + if z.g("fill_segments").is_nil() { 0 } else { 1 };
        if count(x) != count(y) + 1 {
            return false;
        }
        found += 1
    }
    found == 1
}

fn contains(t: &Sx, s: &Sx) -> bool {
    t == s || t.list().map_or(false, |l| l.iter().any(|x| contains(x, s)))
}

/// the text breaks off
fn cut_case(c: &mut Ctx, kind: &str, v: &V) -> Res {
    let vary = c.rng.bool();
    let text = render::document(v, &mut c.rng, vary);
    if Doc::parse(kind, &text).is_err() {
        return skip("the undamaged file is rejected");
    }
    let places: Vec<usize> = match kind {
        "sch" | "lib" => line_cuts(kind, &text),
        _ => {
            let end = text.rfind(')').unwrap_or(0);
            text.char_indices().map(|x| x.0).filter(|&x| x <= end).collect()
        }
    };
    if places.is_empty() {
        return Ok(());
    }
    let n = if kind == "table" { 6 } else { 3 };
    for _ in 0..n {
        let p = *c.rng.pick(&places);
        let t = &text[..p];
        c.attach("cut text", t);
        event(&format!("cut:{}", kind));
        c.eval();
        c.seen(core::hash_str(t));
        if let Ok(d) = Doc::parse(kind, t) {
            c.attach("observed", format!("{:?}", d.obs()));
            return bad("a text that breaks off is accepted");
        }
        c.attach.pop();
    }
    Ok(())
}

/// places inside an item: after its first line and before its last one is complete
fn line_cuts(kind: &str, text: &str) -> Vec<usize> {
    let mut v = vec![];
    let mut inside = false;
    let mut p = 0;
    let mut free = false;
    for l in text.split_inclusive('\n') {
        let w = l.trim_end_matches(|c| c == '\r' || c == '\n');
        let first = w.split_whitespace().next().unwrap_or("");
        if free {
            // the second line of a text or wire
            free = false;
            p += l.len();
            continue;
        }
        let ends = if kind == "lib" { first == "ENDDEF" } else { ["$EndComp", "$EndSheet", "$EndDescr"].contains(&first) };
        if inside {
            let last = if ends { first.len() - 1 } else { l.len() };
            v.extend(l.char_indices().map(|x| x.0).filter(|&x| x <= last).map(|x| p + x))
        }
        p += l.len();
        if ends {
            inside = false
        } else if kind == "lib" {
            inside = inside || first == "DEF"
        } else {
            match first {
                "$Comp" | "$Sheet" | "$Descr" => inside = true,
                "Text" | "Wire" if !inside => {
                    free = true;
                    v.push(p)
                }
                _ => (),
            }
        }
    }
    v
}
