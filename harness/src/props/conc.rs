//! C24: the same input gives the same result, whatever happened before or happens elsewhere.

use super::*;
use crate::core::{event, events, hash_str, last_panic, take_events};
use crate::mutate;
use k::checkfix::{CheckFix, Config, ModConfig};
use k::{Adjust, BoundingBox};
use std::collections::BTreeMap;
use std::fs;
use std::panic::{self, AssertUnwindSafe};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C24", cases: (16_000, 320_000), run: case,
    required: &["input:module", "input:board", "input:sch", "input:lib", "input:table", "input:project", "input:rejected", "input:close relative", "compared:repeat", "compared:other order", "compared:other thread",
        "compared:new process", "compared:changed file", "untouched:clone", "untouched:source", "untouched:twin", "in between:failed parse", "in between:pause"],
    rule: "distinct (input, operations) pairs whose results were compared between two histories, threads or processes",
    assumptions: &["interleavings are those the scheduler produces under load, with pauses between calls"],
}];

#[derive(Clone)]
pub struct Job {
    kind: String,
    op: u64,
    text: String,
}

/// what came out: step, hash of the result, short form
type Out = Vec<(String, u64, String)>;

fn put(out: &mut Out, what: &str, v: &V) {
    out.push((what.to_string(), v.hash(), crate::v::clip(&crate::v::brief(v), 160)))
}

fn text(out: &mut Out, what: &str, t: Result<String, String>) {
    match t {
        Ok(s) => out.push((what.to_string(), hash_str(&s), crate::v::clip(&s, 160))),
        Err(s) => out.push((what.to_string(), hash_str(&s) ^ 1, crate::v::clip(&format!("error {}", s), 160))),
    }
}

fn bounds(out: &mut Out, b: &k::Bound) {
    let n = |x: f64| V::N(if x.is_nan() { 0.125 } else { x });
    put(out, "box", &V::L(vec![V::B(b.is_bounded), n(b.x1), n(b.y1), n(b.x2), n(b.y2)]))
}

fn findings(out: &mut Out, f: &[k::checkfix::CheckFixData]) {
    text(out, "findings", Ok(format!("{:?}", f)))
}

/// everything that is done with one input; the result must be a function of the job alone
pub fn perform(j: &Job) -> Result<Out, Fail> {
    // that the library panics is a matter of other properties, as long as it always does
    match panic::catch_unwind(AssertUnwindSafe(|| steps(j))) {
        Ok(x) => x,
        Err(_) => {
            event("panicked");
            Ok(vec![("panic".to_string(), 0, last_panic())])
        }
    }
}

fn steps(j: &Job) -> Result<Out, Fail> {
    let mut r = Rng::new(j.op, "job", 0);
    let mut out: Out = vec![];
    if j.kind == "project" {
        match lib("parse project", || k::project::parse_str(&j.text)) {
            Ok(p) => text(&mut out, "project", Ok(p.data)),
            Err(e) => text(&mut out, "project", Err(format!("{}", e))),
        }
        return Ok(out);
    }
    let mut d = match Doc::parse(&j.kind, &j.text) {
        Ok(d) => d,
        Err(e) => {
            text(&mut out, "parse", Err(e));
            return Ok(out);
        }
    };
    let twin = match Doc::parse(&j.kind, &j.text) {
        Ok(d) => d,
        Err(e) => return bad(format!("a text is accepted once and then rejected: {}", e)),
    };
    let before = d.obs();
    put(&mut out, "parse", &before);
    for i in [0, r.below(4) as i64] {
        text(&mut out, "write", d.write_at(i))
    }
    let (x, y) = (r.range(-200, 200) as f64, r.range(-200, 200) as f64);
    let mut cfg = lib("Config::klc", || Config::klc());
    if r.bool() {
        cfg.m = ModConfig { font_size: 0.8, font_thickness: 0.12 }
    }
    match d {
        Doc::Module(ref mut m) => {
            findings(&mut out, &lib("Module::check", || m.check(&cfg)));
            bounds(&mut out, &lib("Module::bounding_box", || m.bounding_box()));
            let mut c = m.clone();
            match r.below(4) {
                0 => lib("Module::fix", || c.fix(&cfg)),
                1 => lib("Module::flip", || fp::Flip::flip(&mut c)),
                2 => lib("Module::rotate", || fp::Rotate::rotate(&mut c, 90.0)),
                _ => lib("Module::adjust", || c.adjust(x, y)),
            }
            put(&mut out, "changed copy", &obs::module(&c));
            event("untouched:source");
            same("a footprint after its copy was changed:", &before, &obs::module(m))?;
            // and the other way round
            let keep = m.clone();
            match r.below(3) {
                0 => lib("Module::fix", || m.fix(&cfg)),
                1 => lib("Module::set_reference", || m.set_reference("R1", "X9")),
                _ => lib("Module::adjust", || m.adjust(x, y)),
            };
            put(&mut out, "changed", &obs::module(m));
            event("untouched:clone");
            same("the copy of a footprint after the footprint was changed:", &before, &obs::module(&keep))?;
            event("untouched:clone");
            text(&mut out, "write changed", fp::module_to_string(&c, 0).map_err(|e| format!("{}", e)))
        }
        Doc::Board(ref mut b) => {
            bounds(&mut out, &lib("Layout::bounding_box", || b.bounding_box()));
            let mut copies = b.elements.clone();
            for e in copies.iter_mut() {
                lib("Element::adjust", || e.adjust(x, y))
            }
            event("untouched:source");
            same("a board after copies of its elements were moved:", &before, &obs::board(b))?;
            lib("Layout::adjust", || b.adjust(x, y));
            lib("change_net_name", || b.change_net_name("GND", "VCC"));
            let res = lib("modify_module", || b.modify_module("R1", |m| m.set_reference("R1", "R2")));
            out.push(("modify".to_string(), res.is_ok() as u64, String::new()));
            put(&mut out, "changed", &obs::board(b))
        }
        Doc::Sch(ref mut s) => {
            bounds(&mut out, &lib("Schematic::bounding_box", || s.bounding_box()));
            let mut all = lib("components", || s.components());
            put(&mut out, "components", &V::L(all.iter().map(obs::component).collect()));
            if let Some(c) = all.first() {
                let mut h: Vec<(String, String)> = lib("fields_hash", || c.fields_hash()).into_iter().collect();
                h.sort();
                text(&mut out, "field map", Ok(format!("{:?}", h)))
            }
            for c in all.iter_mut() {
                lib("update_name", || c.update_name("other".to_string()));
                lib("update_field", || c.update_field("Reference", "other"))
            }
            event("untouched:source");
            same("a schematic after copies of its components were changed:", &before, &obs::schematic(s))?;
            lib("modify_components", || s.modify_components(|c| c.update_reference("Z1".to_string())));
            put(&mut out, "changed", &obs::schematic(s))
        }
        Doc::Lib(ref mut l) => {
            for s in &l.symbols {
                findings(&mut out, &lib("Symbol::check", || s.check(&cfg)))
            }
            let mut copies = l.symbols.clone();
            for s in copies.iter_mut() {
                s.fields.clear();
                s.draw.truncate(1);
                s.name.push('x')
            }
            event("untouched:source");
            same("a symbol library after copies of its symbols were changed:", &before, &obs::symbol_lib(l))?;
            let found = lib("find", || l.find(|s| s.name.contains('1'))).map(obs::symbol).unwrap_or(V::Nil);
            put(&mut out, "found", &found)
        }
        Doc::Table(ref mut t) => {
            let mut c = t.clone();
            c.libs.pop();
            event("untouched:source");
            same("a table after its copy was changed:", &before, &obs::table(t))?;
            for l in t.libs.iter_mut() {
                l.name.push('x')
            }
            put(&mut out, "changed", &obs::table(t))
        }
    }
    event("untouched:twin");
    same("a model after another model of the same text was changed:", &before, &twin.obs())?;
    Ok(out)
}

fn agree(what: &str, a: &Out, b: &Out, j: &Job) -> Res {
    event(&format!("compared:{}", what));
    if a.len() == b.len() && a.iter().zip(b).all(|x| x.0 .0 == x.1 .0 && x.0 .1 == x.1 .1) {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|x| x.0 .0 != x.1 .0 || x.0 .1 != x.1 .1).unwrap_or(a.len().min(b.len()));
    bad(format!(
        "{} of a {}: result {} ({}) differs: first {:?}, then {:?}",
        what,
        j.kind,
        i,
        a.get(i).map(|x| x.0.as_str()).unwrap_or(""),
        a.get(i).map(|x| x.2.as_str()),
        b.get(i).map(|x| x.2.as_str())
    ))
}

/// entry point of the new process: performs the job in the file and prints the outcome
pub fn fresh(path: &Path) -> i32 {
    crate::core::quiet_panics();
    let done = path.with_extension("done");
    let s = match fs::read_to_string(path) {
        Ok(s) => s,
        Err(_) => return 2,
    };
    let mut it = s.splitn(3, '\n');
    let j = Job {
        kind: it.next().unwrap_or("").to_string(),
        op: it.next().and_then(|x| x.parse().ok()).unwrap_or(0),
        text: it.next().unwrap_or("").to_string(),
    };
    match panic::catch_unwind(AssertUnwindSafe(|| perform(&j))) {
        Ok(Ok(o)) => {
            let t: String = o.iter().map(|x| format!("{}\t{:x}\t{:?}\n", x.0, x.1, x.2)).collect();
            fs::write(&done, t).map(|_| 0).unwrap_or(2)
        }
        Ok(Err(Fail::Violation(m))) => fs::write(&done, m).map(|_| 1).unwrap_or(2),
        _ => 3,
    }
}

fn in_new_process(c: &Ctx, j: &Job) -> Result<Out, Fail> {
    let f = c.scratch.join("job");
    fs::write(&f, format!("{}\n{}\n{}", j.kind, j.op, j.text)).map_err(|e| Fail::Harness(format!("scratch: {}", e)))?;
    let exe = std::env::current_exe().map_err(|e| Fail::Harness(format!("own path: {}", e)))?;
    let mut child = Command::new(exe).arg("fresh").arg(&f).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| Fail::Harness(format!("new process: {}", e)))?;
    let t0 = std::time::Instant::now();
    let o = loop {
        if let Some(s) = child.try_wait().map_err(|e| Fail::Harness(format!("new process: {}", e)))? {
            break s;
        }
        if t0.elapsed().as_secs() > 60 {
            let _ = child.kill();
            let _ = child.wait();
            return skip("new process too slow");
        }
        std::thread::sleep(std::time::Duration::from_micros(300))
    };
    let t = fs::read_to_string(f.with_extension("done")).unwrap_or_default();
    let _ = fs::remove_file(f.with_extension("done"));
    match o.code() {
        Some(0) => (),
        Some(1) => return bad(format!("in a new process: {}", t)),
        Some(3) => return bad("in a new process the same input makes the library panic"),
        x => return broken(format!("new process ended with {:?}", x)),
    }
    Ok(t.lines()
        .map(|l| {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            (f[0].to_string(), u64::from_str_radix(f.get(1).unwrap_or(&""), 16).unwrap_or(0), f.get(2).unwrap_or(&"").to_string())
        })
        .collect())
}

/// the same text with one digit changed
fn relative(r: &mut Rng, s: &str) -> String {
    let at: Vec<usize> = s.bytes().enumerate().filter(|x| x.1 >= b'1' && x.1 <= b'8').map(|x| x.0).collect();
    if at.is_empty() {
        return s.to_string();
    }
    let mut b = s.as_bytes().to_vec();
    for _ in 0..1 + r.below(2) {
        let i = *r.pick(&at);
        b[i] = b'1' + r.below(8) as u8
    }
    String::from_utf8(b).unwrap_or_else(|_| s.to_string())
}

fn case(c: &mut Ctx) -> Res {
    // inputs: a few documents, close relatives of them, damaged ones
    let mut jobs: Vec<Job> = vec![];
    for _ in 0..2 + c.rng.below(2) {
        let kind = match c.rng.below(20) {
            0 => "project",
            n => KINDS[n % KINDS.len()],
        };
        let op = c.rng.next() % 1000;
        if kind == "project" {
            let t = super::files::project(&mut c.rng);
            jobs.push(Job { kind: kind.to_string(), op: op, text: t });
            event("input:project");
            continue;
        }
        let mut v = gen_doc(&mut c.rng, kind);
        if kind == "module" || kind == "board" {
            super::geom::tame(&mut c.rng, &mut v, 0.0)
        }
        let t = text_of(c, &v, false)?;
        event(&format!("input:{}", kind));
        let rel = relative(&mut c.rng, &t);
        let bad = mutate::change(&mut c.rng, &t, &rel);
        for x in [t, rel, bad] {
            jobs.push(Job { kind: kind.to_string(), op: op, text: x })
        }
        event("input:close relative")
    }
    for (i, j) in jobs.iter().enumerate() {
        c.attach(&format!("input {} ({}, {})", i, j.kind, j.op), j.text.clone())
    }
    // first time
    let mut first: Vec<Out> = vec![];
    for j in &jobs {
        c.seen(hash_str(&j.text) ^ j.op);
        let o = perform(j)?;
        if o.len() == 1 && j.kind != "project" {
            event("input:rejected")
        }
        first.push(o)
    }
    // once more, in another order and with failures in between
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    c.rng.shuffle(&mut order);
    for &i in &order {
        if c.rng.bool() {
            let s = mutate::soup(&mut c.rng);
            let k = *c.rng.pick(KINDS);
            let _ = Doc::parse(k, &s);
            event("in between:failed parse")
        }
        c.eval();
        let o = perform(&jobs[i])?;
        agree("other order", &first[i], &o, &jobs[i])?;
        if c.rng.pct(20) {
            c.eval();
            let o = perform(&jobs[i])?;
            agree("repeat", &first[i], &o, &jobs[i])?
        }
    }
    // the same file with changing content
    let path = c.scratch.join("changing");
    for _ in 0..2 {
        let j = c.rng.pick(&jobs).clone();
        fs::write(&path, &j.text).map_err(|e| Fail::Harness(format!("scratch: {}", e)))?;
        let got = panic::catch_unwind(AssertUnwindSafe(|| super::files::typed(&j.kind, &path)));
        let exp = panic::catch_unwind(AssertUnwindSafe(|| match &j.kind[..] {
            "project" => k::project::parse_str(&j.text).map(|p| V::from(p.data)).map_err(|_| ()),
            k => Doc::parse(k, &j.text).map(|d| d.obs()).map_err(|_| ()),
        }));
        if let (Ok(g), Ok(e)) = (got, exp) {
            event("compared:changed file");
            c.eval();
            match (e, g) {
                (Ok(e), Ok(g)) => same("reading a file whose content has changed:", &e, &g)?,
                (Err(_), Err(_)) => (),
                (e, _) => return bad(format!("reading a file whose content has changed: {}, but the text on its own is {}", if e.is_ok() { "rejected" } else { "accepted" }, if e.is_ok() { "accepted" } else { "rejected" })),
            }
        }
    }
    // in a new process
    let i = c.rng.below(jobs.len());
    let o = in_new_process(c, &jobs[i])?;
    c.eval();
    agree("new process", &first[i], &o, &jobs[i])?;
    // in several threads at the same time
    let n = 2 + c.rng.below(4);
    let shared_jobs = Arc::new(jobs.clone());
    let gate = Arc::new(Barrier::new(n));
    let mut threads = vec![];
    for t in 0..n {
        let (jobs, gate) = (shared_jobs.clone(), gate.clone());
        let mut r = Rng::new(c.rng.next(), "thread", t as u64);
        threads.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            gate.wait();
            let mut got: Vec<(usize, Out)> = vec![];
            let res = panic::catch_unwind(AssertUnwindSafe(|| -> Res {
                for _ in 0..4 + r.below(6) {
                    let i = r.below(jobs.len());
                    got.push((i, perform(&jobs[i])?));
                    if r.pct(30) {
                        event("in between:pause");
                        if r.bool() {
                            std::thread::yield_now()
                        } else {
                            std::thread::sleep(std::time::Duration::from_micros(r.below(200) as u64))
                        }
                    }
                }
                Ok(())
            }));
            let res = match res {
                Ok(x) => x,
                Err(_) => bad(format!("panic in a thread: {}", last_panic())),
            };
            (got, res, take_events())
        }));
    }
    let mut outcome: Res = Ok(());
    let mut ev: BTreeMap<String, u64> = BTreeMap::new();
    for t in threads {
        let t = t.map_err(|e| Fail::Harness(format!("thread: {}", e)))?;
        let (got, res, e) = match t.join() {
            Ok(x) => x,
            Err(_) => return broken("thread died"),
        };
        for (k, n) in e {
            *ev.entry(k).or_insert(0) += n
        }
        for (i, o) in got {
            c.eval();
            let x = agree("other thread", &first[i], &o, &jobs[i]);
            if outcome.is_ok() {
                outcome = x
            }
        }
        if outcome.is_ok() {
            outcome = res
        }
    }
    for (k, n) in ev {
        events(&k, n)
    }
    c.sample(format!("{} inputs in {} threads", jobs.len(), n));
    outcome
}
