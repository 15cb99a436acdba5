//! C22 and C23: editing schematics and walking hierarchies.

use super::*;
use crate::core::event;
use std::cell::RefCell;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::{Path, PathBuf};

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C22", cases: (200_000, 4_000_000), run: edit_case,
        required: &["op:modify", "op:modify unknown", "op:modify all", "op:reference", "op:name", "op:field", "op:unknown field", "op:add new", "op:added", "op:updated", "op:same",
            "get:found", "get:missing", "list", "collect into a filled list", "several of that reference", "field number", "field map", "by reference:found", "by reference:missing", "sheet count", "several fields of that name"],
        rule: "distinct (schematic, operation) pairs after which the whole schematic was compared with the reference",
        assumptions: &["field numbers are at most 30"],
    },
    &Prop {
        id: "C23", cases: (50_000, 1_000_000), run: sheet_case,
        required: &["graph:no sheets", "graph:tree", "graph:repeated", "graph:nested directories", "graph:deep", "fault:missing", "fault:broken", "fault:empty", "fault:directory", "fault:not text", "fault:cycle",
            "fault:self", "fault:cycle by another name", "fault:link", "found:top", "found:below", "found:nowhere", "same reference twice", "no file name", "relative path", "absolute sheet", "read_kicad_file", "sheet by sheet"],
        rule: "distinct file graphs whose collected components were compared with the reference walk",
        assumptions: &["at most 5 files take part in a cycle"],
    },
];

// ---------------------------------------------------------------- edits

const REFS: &[&str] = &["R1", "R10", "R", "U1", "U12", "#PWR01", "r1"];
const FIELDS: &[&str] = &["MPN", "MPN2", "mpn", "Value", "Reference", "Footprint", "UserDocLink", "", "Supplier 1", "absent"];

fn pool(r: &mut Rng, v: &mut V) {
    for e in v.gm("elements").lm() {
        if e.kind() == "comp" {
            if r.pct(80) {
                e.set("reference", *r.pick(REFS))
            }
            for f in e.gm("fields").lm() {
                if f.fi("i") > 3 && r.pct(70) {
                    f.set("name", *r.pick(&["MPN", "MPN2", "mpn", "Supplier 1"]))
                }
                if r.pct(30) {
                    f.set("value", *r.pick(&["10k", "x", "", "REF"]))
                }
            }
        }
    }
}

fn set_shown(c: &mut V, i: i64, s: &str) {
    for f in c.gm("fields").lm() {
        if f.fi("i") == i {
            f.set("value", s)
        }
    }
}

fn update(c: &mut V, name: &str, value: &str) {
    let n = c.g("fields").l().iter().filter(|f| f.fs("name") == name).count();
    event(match n {
        0 => "op:unknown field",
        1 => "op:field",
        _ => "several fields of that name",
    });
    for f in c.gm("fields").lm() {
        if f.fs("name") == name {
            f.set("value", value);
            if f.fi("i") > 1 {
                f.set("visible", false)
            }
        }
    }
}

fn free_number(c: &V) -> i64 {
    c.g("fields").l().iter().map(|f| f.fi("i")).max().unwrap_or(0).max(0) + 1
}

fn add(c: &mut V, t: &V, name: &str, value: &str) {
    let i = free_number(c);
    c.gm("fields").lm().push(crate::r!("field"; i: i, value: value, orientation: "H", x: t.fnum("x"), y: t.fnum("y"), size: 60i64, visible: false,
        hjustify: "C", vjustify: "C", italic: false, bold: false, name: name))
}

/// one edit of one component
#[derive(Clone, Debug)]
enum Edit {
    Reference(String),
    Name(String),
    Field(String, String),
    AddOrUpdate(String, String),
    Add(String, String),
}

fn some_edit(r: &mut Rng) -> Edit {
    let field = |r: &mut Rng| if r.pct(85) { r.pick(FIELDS).to_string() } else { gen::lstr(r) };
    let value = |r: &mut Rng| if r.bool() { r.pick(&["10k", "x", "", "REF"]).to_string() } else { gen::lstr(r) };
    match r.below(7) {
        0 => Edit::Reference(if r.bool() { r.pick(REFS).to_string() } else { gen::lword(r) }),
        1 => Edit::Name(gen::lword(r)),
        2 | 3 => Edit::Field(field(r), value(r)),
        4 | 5 => Edit::AddOrUpdate(field(r), value(r)),
        _ => Edit::Add(field(r), value(r)),
    }
}

/// what an add-or-update reported
#[derive(Debug, PartialEq)]
enum Report {
    Nothing,
    New,
    Update(String),
    Same,
}

fn apply_lib(c: &mut sch::Component, e: &Edit, t: &sch::ComponentField) -> Report {
    match *e {
        Edit::Reference(ref s) => lib("update_reference", || c.update_reference(s.clone())),
        Edit::Name(ref s) => lib("update_name", || c.update_name(s.clone())),
        Edit::Field(ref n, ref s) => lib("update_field", || c.update_field(n, s)),
        Edit::Add(ref n, ref s) => lib("add_new_field", || c.add_new_field(t, n, s)),
        Edit::AddOrUpdate(ref n, ref s) => {
            return match lib("add_or_update_field", || c.add_or_update_field(t, n, s)) {
                sch::FieldUpdate::New => {
                    let b: bool = sch::FieldUpdate::New.into();
                    if b { Report::New } else { Report::Nothing }
                }
                sch::FieldUpdate::Update(o) => {
                    let b: bool = sch::FieldUpdate::Update(o.clone()).into();
                    if b { Report::Update(o) } else { Report::Nothing }
                }
                sch::FieldUpdate::Same => {
                    let b: bool = sch::FieldUpdate::Same.into();
                    if b { Report::Nothing } else { Report::Same }
                }
            }
        }
    }
    Report::Nothing
}

fn apply_ref(c: &mut V, e: &Edit, t: &V) -> Report {
    match *e {
        Edit::Reference(ref s) => {
            c.set("reference", s);
            set_shown(c, 0, s);
            event("op:reference")
        }
        Edit::Name(ref s) => {
            c.set("name", s);
            set_shown(c, 1, s);
            event("op:name")
        }
        Edit::Field(ref n, ref s) => update(c, n, s),
        Edit::Add(ref n, ref s) => {
            add(c, t, n, s);
            event("op:add new")
        }
        Edit::AddOrUpdate(ref n, ref s) => {
            let old = c.g("fields").l().iter().find(|f| f.fs("name") == n).map(|f| f.fs("value").to_string());
            return match old {
                None => {
                    add(c, t, n, s);
                    event("op:added");
                    Report::New
                }
                Some(ref o) if o == s => {
                    event("op:same");
                    Report::Same
                }
                Some(o) => {
                    update(c, n, s);
                    event("op:updated");
                    Report::Update(o)
                }
            };
        }
    }
    Report::Nothing
}

fn edit_case(c: &mut Ctx) -> Res {
    let mut v = any_doc(c, "sch")?;
    if c.rng.pct(60) {
        for _ in 0..1 + c.rng.below(4) {
            let x = gen::component(&mut c.rng);
            v.gm("elements").lm().push(x)
        }
    }
    v.gm("sheets").lm().clear();
    pool(&mut c.rng, &mut v);
    let mut d = made(c, &mut v)?;
    let mut m = d.obs();
    let s = d.sch();
    asked(c, s, &m)?;
    for _ in 0..1 + c.rng.below(6) {
        let r = &mut c.rng;
        let t = gen::field_i(r, 4);
        let lt = lib("ComponentField::new_from", || sch::ComponentField::new_from(9, "template".to_string(), "t".to_string(), t.fnum("x"), t.fnum("y")));
        let what;
        let reports = RefCell::new(vec![]);
        let mut want = vec![];
        match r.below(8) {
            0..=5 => {
                let refs: Vec<String> = m.g("elements").l().iter().filter(|e| e.kind() == "comp").map(|e| e.fs("reference").to_string()).collect();
                let name = if !refs.is_empty() && r.pct(85) { r.pick(&refs).clone() } else { r.pick(REFS).to_string() };
                let edits: Vec<Edit> = (0..1 + r.below(3)).map(|_| some_edit(r)).collect();
                what = format!("{:?} on {:?}", edits, name);
                lib("modify_component", || {
                    s.modify_component(&name, |c| {
                        for e in &edits {
                            let x = apply_lib(c, e, &lt);
                            reports.borrow_mut().push(x)
                        }
                    })
                });
                let hits = refs.iter().filter(|x| **x == name).count();
                event(match hits {
                    0 => "op:modify unknown",
                    1 => "op:modify",
                    _ => "several of that reference",
                });
                if let Some(e) = m.gm("elements").lm().iter_mut().find(|e| e.kind() == "comp" && e.fs("reference") == name) {
                    for x in &edits {
                        let rep = apply_ref(e, x, &t);
                        want.push(rep)
                    }
                }
            }
            6 => {
                let e = some_edit(r);
                what = format!("{:?} on all components", e);
                lib("modify_components", || {
                    s.modify_components(|c| {
                        let x = apply_lib(c, &e, &lt);
                        reports.borrow_mut().push(x)
                    })
                });
                for x in m.gm("elements").lm() {
                    if x.kind() == "comp" {
                        let rep = apply_ref(x, &e, &t);
                        want.push(rep)
                    }
                }
                event("op:modify all")
            }
            _ => {
                what = "sheet count".to_string();
                let n = m.g("descr").fi("sheet_count");
                if n < 1_000_000_000 {
                    lib("increment_sheet_count", || s.increment_sheet_count());
                    m.gm("descr").set("sheet_count", n + 1);
                    event("sheet count")
                }
            }
        }
        c.eval();
        c.seen(m.hash() ^ V::from(what.as_str()).hash());
        let got = reports.into_inner();
        if got != want {
            return bad(format!("{}: expected reports {:?}, observed {:?}", what, want, got));
        }
        same(&format!("after {}:", what), &m, &obs::schematic(s))?;
        asked(c, s, &m)?;
        c.sample(what)
    }
    Ok(())
}

/// everything that can be asked of a schematic without sheets
fn asked(c: &mut Ctx, s: &sch::Schematic, m: &V) -> Res {
    c.eval();
    let comps: Vec<V> = m.g("elements").l().iter().filter(|e| e.kind() == "comp").cloned().collect();
    let exp = V::L(comps.clone());
    let got = lib("components", || s.components());
    same("components", &exp, &V::L(got.iter().map(obs::component).collect()))?;
    let all = match lib("all_components", || s.all_components()) {
        Ok(x) => x,
        Err(e) => return bad(format!("all components of a schematic without sheets: {}", e)),
    };
    same("all components", &exp, &V::L(all.iter().map(obs::component).collect()))?;
    let mut into = got.clone();
    into.truncate(c.rng.below(3));
    let mut want: Vec<V> = into.iter().map(obs::component).collect();
    if !want.is_empty() {
        event("collect into a filled list")
    }
    want.extend(comps.iter().cloned());
    lib("collect_components", || s.collect_components(&mut into));
    same("collected components", &V::L(want), &V::L(into.iter().map(obs::component).collect()))?;
    event("list");
    let name = *c.rng.pick(REFS);
    let exp = comps.iter().find(|x| x.fs("reference") == name).cloned();
    match (lib("component_by_reference", || s.component_by_reference(name)), exp) {
        (Ok(x), Some(e)) => {
            event("by reference:found");
            same(&format!("component {:?}", name), &e, &obs::component(&x))?
        }
        (Err(_), None) => event("by reference:missing"),
        (Ok(x), None) => return bad(format!("component {:?} does not exist but {:?} was found", name, x.reference)),
        (Err(e), Some(_)) => return bad(format!("component {:?} not found: {}", name, e)),
    }
    if !got.is_empty() {
        let i = c.rng.below(got.len());
        let (x, xv) = (&got[i], &comps[i]);
        let f = xv.g("fields").l();
        let name = if f.is_empty() || c.rng.bool() { c.rng.pick(FIELDS).to_string() } else { c.rng.pick(f).fs("name").to_string() };
        let exp = f.iter().find(|q| q.fs("name") == name).cloned().unwrap_or(V::Nil);
        event(if exp.is_nil() { "get:missing" } else { "get:found" });
        same(&format!("field {:?}", name), &exp, &lib("get_field", || x.get_field(&name)).map(|q| obs::field(&q)).unwrap_or(V::Nil))?;
        let value = if exp.is_nil() { V::Nil } else { exp.g("value").clone() };
        same(&format!("value of field {:?}", name), &value, &V::from(lib("get_field_value", || x.get_field_value(&name))))?;
        let n = lib("get_available_field_num", || x.get_available_field_num());
        if f.iter().any(|q| q.fi("i") == n) || n < 0 {
            return bad(format!("field number {} offered as free is taken", n));
        }
        event("field number");
        let h = lib("fields_hash", || x.fields_hash());
        for (n, val) in &h {
            if !f.iter().any(|q| q.fs("name") == n && q.fs("value") == val) {
                return bad(format!("field map has {:?}: {:?}, which the component does not", n, val));
            }
        }
        for q in f {
            if !h.contains_key(q.fs("name")) {
                return bad(format!("field map lacks {:?}", q.fs("name")));
            }
        }
        event("field map")
    }
    same("schematic after asking", m, &obs::schematic(s))
}

// ---------------------------------------------------------------- hierarchies

struct File {
    /// path relative to the directory of the case
    path: String,
    comps: Vec<V>,
    /// indices of the files of the sheets, and how they are written
    sheets: Vec<(Option<usize>, String)>,
    fault: Option<&'static str>,
}

/// the way from the directory of one file to another
fn relative(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').collect();
    let b: Vec<&str> = to.split('/').collect();
    let da = &a[..a.len() - 1];
    let db = &b[..b.len() - 1];
    let n = da.iter().zip(db).take_while(|x| x.0 == x.1).count();
    let mut p: Vec<String> = vec![];
    for _ in n..da.len() {
        p.push("..".to_string())
    }
    for x in &b[n..] {
        p.push(x.to_string())
    }
    p.join("/")
}

/// the reference walk: Ok(components) or the reason why there is no answer
fn walk(files: &[File], i: usize, parents: &mut Vec<usize>, out: &mut Vec<V>) -> Result<(), String> {
    if let Some(f) = files[i].fault {
        return Err(f.to_string());
    }
    if parents.contains(&i) {
        return Err("cycle".to_string());
    }
    out.extend(files[i].comps.iter().cloned());
    parents.push(i);
    for s in &files[i].sheets {
        match s.0 {
            None => return Err("missing".to_string()),
            Some(j) => walk(files, j, parents, out)?,
        }
    }
    parents.pop();
    Ok(())
}

struct Back(PathBuf);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

fn sheet_case(c: &mut Ctx) -> Res {
    let dir = c.dir("tree")?;
    let io = |e: std::io::Error| Fail::Harness(format!("scratch: {}", e));
    let r = &mut c.rng;
    let n = if r.pct(10) { 1 } else { 2 + r.below(4) };
    let faults = r.pct(45);
    let deep = !faults && r.pct(10);
    let n = if deep { 10 + r.below(20) } else { n };
    let mut files: Vec<File> = vec![];
    for i in 0..n {
        let sub = if i == 0 || r.pct(50) { "" } else { *r.pick(&["sub/", "sub/deep/", "other/", "a b/"]) };
        if sub != "" {
            event("graph:nested directories")
        }
        let name = *r.pick(&["s", "sheet two", "ünï", "UP"]);
        let comps: Vec<V> = (0..r.below(4))
            .map(|_| {
                let mut x = gen::component(r);
                if r.pct(70) {
                    x.set("reference", format!("{}{}", r.pick(&["R", "U"]), r.below(8)))
                }
                x
            })
            .collect();
        files.push(File { path: format!("{}{}{}.sch", sub, name, i), comps: comps, sheets: vec![], fault: None })
    }
    // a tree, with some sheets used several times
    for i in 1..n {
        let p = if deep { i - 1 } else { r.below(i) };
        let way = relative(&files[p].path, &files[i].path);
        files[p].sheets.push((Some(i), way));
        if !deep && r.pct(25) {
            let q = r.below(i);
            let way = relative(&files[q].path, &files[i].path);
            files[q].sheets.push((Some(i), way));
            event("graph:repeated")
        }
    }
    if deep {
        event("graph:deep")
    }
    event(if n == 1 { "graph:no sheets" } else { "graph:tree" });
    // other ways to write the same file name
    for i in 0..n {
        for k in 0..files[i].sheets.len() {
            if let (Some(j), w) = files[i].sheets[k].clone() {
                let other = match r.below(12) {
                    0 => format!("./{}", w),
                    1 => {
                        event("absolute sheet");
                        dir.join(&files[j].path).to_string_lossy().into_owned()
                    }
                    _ => w,
                };
                files[i].sheets[k].1 = other
            }
        }
    }
    let mut link = None;
    if faults {
        let i = r.below(n);
        match r.below(9) {
            0 => {
                let mut w = r.pick(&["nothing.sch", "sub/nothing.sch", "../nothing.sch", "no such dir/x.sch"]).to_string();
                if r.bool() {
                    // a file of that name exists, but elsewhere or in another spelling
                    let j = r.below(n);
                    let way = relative(&files[i].path, &files[j].path);
                    let file = files[j].path.rsplit('/').next().unwrap().to_string();
                    w = match r.below(8) {
                        0 => format!("gone/{}", file),
                        1 => format!("gone/{}", way),
                        2 => format!("{}.bak", way),
                        3 => way.trim_end_matches(".sch").to_string(),
                        4 => way.to_uppercase(),
                        5 => format!(" {}", way),
                        6 => format!("{} ", way),
                        _ => format!("{}/{}", way, file),
                    };
                    event("fault:missing, similar name exists")
                }
                files[i].sheets.push((None, w));
                event("fault:missing")
            }
            1 => {
                files[i].fault = Some("broken");
                event("fault:broken")
            }
            2 => {
                files[i].fault = Some("empty");
                event("fault:empty")
            }
            3 => if i > 0 {
                files[i].fault = Some("directory");
                event("fault:directory")
            },
            4 => {
                files[i].fault = Some("not text");
                event("fault:not text")
            }
            5 => {
                let w = relative(&files[i].path, &files[i].path);
                files[i].sheets.push((Some(i), w));
                event("fault:self")
            }
            6 | 7 => {
                // back to an ancestor
                let mut p = i;
                let mut chain = vec![i];
                while p != 0 {
                    p = (0..n).find(|&q| files[q].sheets.iter().any(|s| s.0 == Some(p))).unwrap_or(0);
                    chain.push(p)
                }
                let j = *r.pick(&chain);
                let mut w = relative(&files[i].path, &files[j].path);
                if r.bool() {
                    let d = files[i].path.rsplit('/').nth(1).map(|x| x.to_string());
                    w = match d {
                        Some(d) => format!("../{}/{}", d, w),
                        None => format!("./././{}", w),
                    };
                    event("fault:cycle by another name")
                }
                files[i].sheets.push((Some(j), w));
                event("fault:cycle")
            }
            _ => {
                // back to the top through a symbolic link
                let base = files[i].path.rsplit_once('/').map(|x| format!("{}/", x.0)).unwrap_or_default();
                files[i].sheets.push((Some(0), "link.sch".to_string()));
                link = Some(format!("{}link.sch", base));
                event("fault:link")
            }
        }
    }
    // write the files
    let mut listing = String::new();
    for i in 0..n {
        let mut elements: Vec<V> = files[i].comps.clone();
        for _ in 0..c.rng.below(3) {
            let x = gen::sch_element(&mut c.rng);
            if x.kind() != "comp" {
                let at = c.rng.below(elements.len() + 1);
                elements.insert(at, x)
            }
        }
        let sheets: Vec<V> = files[i]
            .sheets
            .iter()
            .map(|s| {
                let mut v = gen::sheet(&mut c.rng);
                v.set("filename", &s.1);
                v
            })
            .collect();
        let mut v = gen::schematic(&mut c.rng);
        v.set("elements", V::L(elements));
        v.set("sheets", V::L(sheets));
        let mut text = text_of(c, &v, false)?;
        let path = dir.join(&files[i].path);
        fs::create_dir_all(path.parent().unwrap()).map_err(io)?;
        listing.push_str(&format!("{} ({:?}) -> {:?}\n", files[i].path, files[i].fault, files[i].sheets.iter().map(|s| &s.1).collect::<Vec<_>>()));
        match files[i].fault {
            Some("directory") => {
                fs::create_dir_all(&path).map_err(io)?;
                continue;
            }
            Some("empty") => text.clear(),
            Some("broken") => {
                if c.rng.bool() {
                    text = text.replacen("EESchema", "ESchema", 1)
                } else {
                    let n = text.find("EELAYER").unwrap_or(0);
                    text.truncate(n)
                }
            }
            Some("not text") => {
                let mut b = text.into_bytes();
                let at = c.rng.below(b.len());
                b.insert(at, 0xff);
                fs::write(&path, b).map_err(io)?;
                continue;
            }
            _ => (),
        }
        // what the library makes of each file on its own is a matter of the reading properties
        if files[i].fault.is_none() {
            match Doc::parse("sch", &text) {
                Ok(d) => {
                    let o = d.obs();
                    files[i].comps = o.g("elements").l().iter().filter(|e| e.kind() == "comp").cloned().collect();
                    if o.g("sheets").l().iter().map(|s| s.fs("filename").to_string()).ne(files[i].sheets.iter().map(|s| s.1.clone())) {
                        return skip("sheets misread");
                    }
                }
                Err(e) => return skip(format!("sheet rejected: {}", e)),
            }
        }
        fs::write(&path, text).map_err(io)?
    }
    if let Some(l) = link {
        symlink(dir.join(&files[0].path), dir.join(&l)).map_err(io)?
    }
    c.attach("files", listing.clone());
    c.note(&listing);
    c.seen(V::from(listing.as_str()).hash() ^ V::L(files.iter().flat_map(|f| f.comps.iter().cloned()).collect()).hash());
    let r = walk_check(c, &dir, &files);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn walk_check(c: &mut Ctx, dir: &Path, files: &[File]) -> Res {
    let top = dir.join(&files[0].path);
    let cwd = std::env::current_dir().map_err(|e| Fail::Harness(format!("cwd: {}", e)))?;
    let relative_path = c.rng.pct(20);
    let _back = Back(cwd);
    // the top file may be named through a link: sheets are looked up beside the name that was given
    let alias = if c.rng.pct(15) {
        let out = dir.join("alias dir");
        let io = |e: std::io::Error| Fail::Harness(format!("scratch: {}", e));
        if c.rng.bool() {
            // a linked directory
            symlink(dir, &out).map_err(io)?;
            event("linked directory");
            Some(out.join(&files[0].path))
        } else {
            // a linked file beside the real one
            let l = dir.join("the top.sch");
            let store = dir.join("store");
            fs::create_dir_all(&store).map_err(io)?;
            fs::rename(&top, store.join("x.sch")).map_err(io)?;
            symlink(store.join("x.sch"), &l).map_err(io)?;
            symlink("store/x.sch", &top).map_err(io)?;
            event("linked file");
            Some(l)
        }
    } else {
        None
    };
    let path = if let Some(a) = alias {
        a
    } else if relative_path {
        std::env::set_current_dir(dir).map_err(|e| Fail::Harness(format!("cwd: {}", e)))?;
        event("relative path");
        PathBuf::from(&files[0].path)
    } else {
        top.clone()
    };
    let s = if c.rng.pct(20) {
        event("read_kicad_file");
        match lib("read_kicad_file", || k::read_kicad_file(&path, k::Expected::Any)) {
            Ok(k::KicadFile::Schematic(s)) => Ok(s),
            Ok(_) => Err("not recognised".to_string()),
            Err(e) => Err(format!("{}", e)),
        }
    } else {
        lib("parse_file", || sch::parse_file(&path)).map_err(|e| format!("{}", e))
    };
    let s = match s {
        Ok(s) => s,
        Err(e) => {
            if files[0].fault.is_some() {
                c.eval();
                return Ok(());
            }
            return skip(format!("top file rejected: {}", e));
        }
    };
    if files[0].fault.is_some() {
        return skip("a broken top file was accepted");
    }
    c.eval();
    let mut exp = vec![];
    let want = walk(files, 0, &mut vec![], &mut exp);
    let got = lib("all_components", || s.all_components());
    match (&want, got) {
        (Ok(_), Ok(g)) => {
            let mut a: Vec<(u64, V)> = exp.iter().map(|x| (x.hash(), x.clone())).collect();
            let mut b: Vec<(u64, V)> = g.iter().map(obs::component).map(|x| (x.hash(), x)).collect();
            a.sort_by_key(|x| x.0);
            b.sort_by_key(|x| x.0);
            if a.iter().map(|x| x.0).ne(b.iter().map(|x| x.0)) {
                let name = |v: &Vec<(u64, V)>| v.iter().map(|x| format!("{} {}", x.1.fs("reference"), x.1.fs("name"))).collect::<Vec<_>>();
                return bad(format!("components of the hierarchy: expected {} {:?}, observed {} {:?}", a.len(), name(&a), b.len(), name(&b)));
            }
        }
        (Err(_), Err(_)) => (),
        (Ok(_), Err(e)) => return bad(format!("components of a sound hierarchy are refused: {}", e)),
        (Err(e), Ok(g)) => return bad(format!("hierarchy with a fault ({}) gives a list of {} components", e, g.len())),
    }
    // by reference
    for _ in 0..3 {
        let name = match c.rng.below(4) {
            0 => "nowhere".to_string(),
            1 if !exp.is_empty() => c.rng.pick(&exp).fs("reference").to_string(),
            _ => format!("{}{}", c.rng.pick(&["R", "U"]), c.rng.below(8)),
        };
        let mut all: Vec<V> = vec![];
        if want.is_ok() {
            all.extend(exp.iter().cloned())
        } else {
            for f in files {
                all.extend(f.comps.iter().cloned())
            }
        }
        let fits: Vec<&V> = all.iter().filter(|x| x.fs("reference") == name).collect();
        c.eval();
        match lib("component_by_reference", || s.component_by_reference(&name)) {
            Ok(x) => {
                let o = obs::component(&x);
                if !fits.iter().any(|y| diff(y, &o, 0.0).is_none()) {
                    return bad(format!("looking up {:?} finds {} {}, which no sheet has", name, x.reference, x.name));
                }
                if fits.len() > 1 {
                    event("same reference twice")
                }
                event(if files[0].comps.iter().any(|x| x.fs("reference") == name) { "found:top" } else { "found:below" })
            }
            Err(e) => {
                if want.is_ok() && !fits.is_empty() {
                    return bad(format!("{:?} is in the hierarchy but not found: {}", name, e));
                }
                event("found:nowhere")
            }
        }
    }
    // sheet by sheet
    if s.sheets.len() != files[0].sheets.len() {
        return skip("sheets misread");
    }
    for (i, q) in s.sheets.iter().enumerate() {
        c.eval();
        let f = match lib("filename_for_sheet", || sch::filename_for_sheet(&s, q)) {
            Ok(f) => f,
            Err(e) => return bad(format!("no file name for sheet {:?}: {}", q.filename, e)),
        };
        let p = lib("parse_file_for_sheet", || sch::parse_file_for_sheet(&s, q));
        event("sheet by sheet");
        match files[0].sheets[i].0 {
            Some(j) => {
                let a = fs::canonicalize(&f).ok();
                let b = fs::canonicalize(dir.join(&files[j].path)).ok();
                if a != b {
                    return bad(format!("sheet {:?} resolves to {:?}, which is not {:?}", q.filename, f, files[j].path));
                }
                match (p, files[j].fault) {
                    (Ok(d), None) => {
                        let o = obs::schematic(&d);
                        let comps: Vec<V> = o.g("elements").l().iter().filter(|e| e.kind() == "comp").cloned().collect();
                        same(&format!("components of sheet {:?}", q.filename), &V::L(files[j].comps.clone()), &V::L(comps))?
                    }
                    (Err(_), Some(_)) => (),
                    (Ok(_), Some(f)) => return bad(format!("sheet {:?} with a fault ({}) is read", q.filename, f)),
                    (Err(e), None) => return bad(format!("sheet {:?} is refused: {}", q.filename, e)),
                }
            }
            None => if p.is_ok() {
                return bad(format!("missing sheet {:?} is read", q.filename));
            },
        }
    }
    // without a file name sheets cannot be found
    if c.rng.pct(30) {
        let text = fs::read_to_string(&top).map_err(|e| Fail::Harness(format!("scratch: {}", e)))?;
        if let Ok(t) = lib("parse_str", || sch::parse_str(&text)) {
            event("no file name");
            c.eval();
            let g = lib("all_components", || t.all_components());
            if t.sheets.is_empty() != g.is_ok() {
                return bad(format!("components of a schematic without a file name and with {} sheets: {}", t.sheets.len(), if g.is_ok() { "a list" } else { "an error" }));
            }
        }
    }
    c.sample(format!("{} files, {} components, {:?}", files.len(), exp.len(), want));
    Ok(())
}
