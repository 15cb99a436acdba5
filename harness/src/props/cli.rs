//! C25: the command line tools, run as processes.

use super::files::{io, project, snapshot};
use super::*;
use crate::core::{event, hash_str};
use crate::mutate;
use k::checkfix::{CheckFix, CheckFixData, Config};
use k::Adjust;
use std::fs;
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C25", cases: (8_000, 160_000), run: case,
    required: &["dump_footprint:ok", "dump_footprint:refused", "dump_layout:ok", "dump_layout:refused", "adjust_layout:ok", "adjust_layout:refused", "identify:module", "identify:schematic", "identify:layout",
        "identify:symbollib", "identify:project", "identify:fp-lib-table", "identify:unknown", "identify:refused", "klc_kicad_mod:findings", "klc_kicad_mod:clean", "klc_kicad_mod:refused", "klc_symbol_lib:findings",
        "klc_symbol_lib:clean", "klc_symbol_lib:refused", "reported:warning", "reported:advice", "several symbols with findings", "file:missing", "file:directory", "file:not text", "file:empty", "file:damaged", "file:other kind",
        "file:none given", "file:relative", "file:absolute", "file:unusual name"],
    rule: "distinct (tool, input) pairs whose output, status and effect on the file system were judged",
    assumptions: &["file names are UTF-8"],
}];

const TOOLS: &[&str] = &["dump_footprint", "dump_layout", "adjust_layout", "identify", "klc_kicad_mod", "klc_symbol_lib"];

struct Ran {
    ok: bool,
    out: String,
    err: String,
}

fn run(tool: &str, dir: &Path, arg: Option<&Path>) -> Result<Ran, Fail> {
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string()));
    let bin = root.join("target-bins").join("debug").join(tool);
    let mut cmd = Command::new(&bin);
    if let Some(a) = arg {
        cmd.arg(a);
    }
    let mut child = io(cmd.current_dir(dir).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn())?;
    let (mut o, mut e) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = e.read_to_end(&mut v);
        v
    });
    let mut out = vec![];
    io(o.read_to_end(&mut out))?;
    let err = t.join().map_err(|_| Fail::Harness("reader thread".to_string()))?;
    let st = io(child.wait())?;
    event(&format!("run:{}", tool));
    Ok(Ran { ok: st.success(), out: String::from_utf8_lossy(&out).into_owned(), err: String::from_utf8_lossy(&err).into_owned() })
}

fn native(tool: &str) -> &'static [&'static str] {
    match tool {
        "dump_footprint" | "klc_kicad_mod" => &["module"],
        "dump_layout" | "adjust_layout" => &["board"],
        "klc_symbol_lib" => &["lib"],
        _ => &["module", "board", "sch", "lib", "table", "project"],
    }
}

fn content(c: &mut Ctx, tool: &str, kind: &str) -> Result<String, Fail> {
    if kind == "project" {
        return Ok(project(&mut c.rng));
    }
    if c.rng.pct(2) {
        return Ok(c.rng.pick(&corpus(kind)).1.to_string());
    }
    let v = match (tool, c.rng.pct(70)) {
        ("klc_kicad_mod", true) => {
            let cfg = lib("Config::klc", || Config::klc());
            super::klc::footprint(&mut c.rng, &cfg)
        }
        ("klc_symbol_lib", true) => {
            let n = c.rng.below(6);
            let l: Vec<V> = (0..n).map(|_| super::klc::klc_symbol(&mut c.rng)).collect();
            crate::r!("lib"; symbols: V::L(l))
        }
        _ => {
            let mut v = any_doc(c, kind)?;
            if kind == "board" {
                super::geom::tame(&mut c.rng, &mut v, 0.0)
            }
            v
        }
    };
    text_of(c, &v, false)
}

/// the findings in the order they are to be reported: advice or not, text
fn flat(v: &[CheckFixData], out: &mut Vec<(bool, String)>) {
    for x in v {
        match *x {
            CheckFixData::Item(ref i) => out.push((i.info, format!("{}.{} {}:{}", i.section, i.rule, i.item, i.message))),
            CheckFixData::More(ref m) => flat(m, out),
        }
    }
}

/// the lines of the log: level and text
fn log_lines(s: &str) -> Vec<(String, String)> {
    s.lines()
        .filter_map(|l| {
            let level = l.split(':').next().unwrap_or("").trim();
            match level {
                "INFO" | "WARN" | "ERROR" => l.find(": ").map(|i| (level.to_string(), l[i + 2..].to_string())),
                _ => None,
            }
        })
        .collect()
}

/// expected and reported findings of one tool run; each group has a heading
fn reported(c: &mut Ctx, r: &Ran, what: &str, exp: &[(String, Vec<(bool, String)>)]) -> Res {
    let mut want: Vec<(String, String)> = vec![];
    for g in exp.iter().filter(|g| !g.1.is_empty()) {
        want.push(("INFO".to_string(), format!("{} {}", what, g.0)));
        for f in &g.1 {
            event(if f.0 { "reported:advice" } else { "reported:warning" });
            want.push(((if f.0 { "INFO" } else { "WARN" }).to_string(), f.1.clone()))
        }
    }
    let got = log_lines(&r.err);
    c.eval();
    let trim = |v: &[(String, String)]| -> Vec<(String, String)> { v.iter().map(|x| (x.0.clone(), x.1.trim().to_string())).collect() };
    let (a, b) = (trim(&want), trim(&got));
    if a != b {
        let i = a.iter().zip(&b).position(|x| x.0 != x.1).unwrap_or(a.len().min(b.len()));
        return bad(format!("{} lines expected, {} reported; line {}: expected {:?}, observed {:?}", a.len(), b.len(), i, a.get(i), b.get(i)));
    }
    Ok(())
}

fn case(c: &mut Ctx) -> Res {
    let dir = c.dir("tool")?;
    let r = judge(c, &dir);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn judge(c: &mut Ctx, dir: &Path) -> Res {
    let tool = *c.rng.pick(TOOLS);
    let mut kind = *c.rng.pick(native(tool));
    let name = if c.rng.bool() {
        "input".to_string()
    } else {
        event("file:unusual name");
        c.rng.pick(&["in put.kicad_mod", "ünï.kicad_pcb", "-dash", "a'b\"c.sch", "x.lib", "fp-lib-table", "100%", "~", "$HOME", "input.kicad_mod", "input.kicad_pcb", "input.pro"]).to_string()
    };
    let file = dir.join(&name);
    let (mut given, mut valid) = (true, true);
    let fault = c.rng.below(20);
    match fault {
        0 => event("file:missing"),
        1 => {
            io(fs::create_dir(&file))?;
            event("file:directory")
        }
        2 => {
            given = false;
            event("file:none given")
        }
        _ => {
            if fault < 6 {
                kind = *c.rng.pick(&["module", "board", "sch", "lib", "table", "project"]);
                event("file:other kind")
            }
            let mut t = content(c, tool, kind)?;
            match fault {
                6 => {
                    t = String::new();
                    valid = false;
                    event("file:empty")
                }
                7 | 8 => {
                    t = if c.rng.pct(20) { mutate::soup(&mut c.rng) } else { mutate::change(&mut c.rng, &t, "(x)") };
                    valid = false;
                    event("file:damaged")
                }
                9 => {
                    let mut b = t.clone().into_bytes();
                    b.insert(c.rng.below(b.len() + 1), 0xfe);
                    io(fs::write(&file, &b))?;
                    valid = false;
                    event("file:not text")
                }
                _ => (),
            }
            c.seen(hash_str(tool) ^ hash_str(&t));
            c.attach("input", t.clone());
            if fault != 9 {
                io(fs::write(&file, &t))?
            }
        }
    }
    let before = snapshot(dir)?;
    let arg = if c.rng.bool() {
        event("file:absolute");
        file.clone()
    } else {
        event("file:relative");
        PathBuf::from(&name)
    };
    c.attach("tool", format!("{} {}", tool, arg.display()));
    let r = run(tool, dir, if given { Some(&arg) } else { None })?;
    c.attach("stdout", crate::v::clip(&r.out, 20000));
    c.attach("stderr", crate::v::clip(&r.err, 20000));
    c.sample(format!("{} on {} ({}): {}", tool, kind, fault, if r.ok { "ok" } else { "failed" }));
    c.eval();
    if snapshot(dir)? != before {
        return bad(format!("{} changed the directory of its input", tool));
    }
    if fault < 3 || fault == 9 {
        return refused(c, tool, &r, "an unusable argument");
    }
    match tool {
        "dump_footprint" => match lib("read module", || k::read_module(&file)) {
            Ok(m) => {
                let s = match lib("write module", || fp::module_to_string(&m, 0)) {
                    Ok(s) => s,
                    Err(_) => return skip("cannot be written"),
                };
                printed(c, tool, &r, &format!("{}\n{}\n", m.name, s))
            }
            Err(e) => rejected(c, tool, &r, valid && kind == "module", format!("{}", e)),
        },
        "dump_layout" => match lib("read layout", || k::read_layout(&file)) {
            Ok(m) => {
                let s = match lib("write board", || lo::layout_to_string(&m, 0)) {
                    Ok(s) => s,
                    Err(_) => return skip("cannot be written"),
                };
                printed(c, tool, &r, &format!("{}\n", s))
            }
            Err(e) => rejected(c, tool, &r, valid && kind == "board", format!("{}", e)),
        },
        "adjust_layout" => match lib("read layout", || k::read_layout(&file)) {
            Ok(mut m) => {
                let mut v = obs::board(&m);
                super::board::moved(&mut v, 100.0, 0.0);
                lib("Layout::adjust", || m.adjust(100.0, 0.0));
                let s = match lib("write board", || lo::layout_to_string(&m, 0)) {
                    Ok(s) => s,
                    Err(_) => return skip("cannot be written"),
                };
                printed(c, tool, &r, &format!("{}\n", s))?;
                // and it is the moved board
                match lib("parse board", || lo::parse(&r.out)) {
                    Ok(o) => {
                        c.eval();
                        near("the printed board:", &v, &obs::board(&o))
                    }
                    Err(_) => skip("printed board not readable"),
                }
            }
            Err(e) => rejected(c, tool, &r, valid && kind == "board", format!("{}", e)),
        },
        "identify" => {
            let found = match lib("read_kicad_file", || k::read_kicad_file(&file, k::Expected::Any)) {
                Ok(f) => f,
                Err(_) => return refused(c, tool, &r, "an unreadable file"),
            };
            let word = match found {
                k::KicadFile::Unknown(_) => "unknown".to_string(),
                k::KicadFile::Module(_) => "module".to_string(),
                k::KicadFile::Schematic(_) => "schematic".to_string(),
                k::KicadFile::Layout(_) => "layout".to_string(),
                k::KicadFile::SymbolLib(_) => "symbollib".to_string(),
                k::KicadFile::Project(_) => "project".to_string(),
                k::KicadFile::FpLibTable(_) => "fp-lib-table".to_string(),
            };
            event(&format!("identify:{}", word));
            let line = if word == "unknown" { format!("found: unknown: {}", arg.display()) } else { format!("found: {}", word) };
            // the schematic reader itself mentions lines it does not know
            let got: Vec<&str> = r.out.lines().filter(|l| !l.starts_with("skipping unknown ")).collect();
            c.eval();
            if !r.ok || got != [line.as_str()] {
                return bad(format!("identify: expected {:?}, observed {:?} (status ok: {})", line, got, r.ok));
            }
            Ok(())
        }
        "klc_kicad_mod" => match lib("read module", || k::read_module(&file)) {
            Ok(m) => {
                let cfg = lib("Config::klc", || Config::klc());
                let mut f = vec![];
                flat(&lib("Module::check", || m.check(&cfg)), &mut f);
                event(&format!("klc_kicad_mod:{}", if f.is_empty() { "clean" } else { "findings" }));
                quiet(tool, &r)?;
                reported(c, &r, "Module", &[(m.name.clone(), f)])
            }
            Err(e) => rejected(c, tool, &r, valid && kind == "module", format!("{}", e)),
        },
        _ => match lib("read symbol lib", || k::read_symbol_lib(&file)) {
            Ok(l) => {
                let cfg = lib("Config::klc", || Config::klc());
                let mut all = vec![];
                for s in &l.symbols {
                    let mut f = vec![];
                    flat(&lib("Symbol::check", || s.check(&cfg)), &mut f);
                    event(&format!("klc_symbol_lib:{}", if f.is_empty() { "clean" } else { "findings" }));
                    all.push((s.name.clone(), f))
                }
                if all.iter().filter(|x| !x.1.is_empty()).count() > 1 {
                    event("several symbols with findings")
                }
                quiet(tool, &r)?;
                reported(c, &r, "Symbol", &all)
            }
            Err(e) => rejected(c, tool, &r, valid && kind == "lib", format!("{}", e)),
        },
    }
}

fn quiet(tool: &str, r: &Ran) -> Res {
    if !r.ok {
        return bad(format!("{} fails on a good file", tool));
    }
    Ok(())
}

fn printed(c: &mut Ctx, tool: &str, r: &Ran, exp: &str) -> Res {
    event(&format!("{}:ok", tool));
    c.eval();
    if !r.ok {
        return bad(format!("{} fails on a good file", tool));
    }
    if r.out != exp {
        let i = r.out.lines().zip(exp.lines()).position(|x| x.0 != x.1).unwrap_or(0);
        return bad(format!("{} prints something else, line {}: expected {:?}, observed {:?}", tool, i, exp.lines().nth(i), r.out.lines().nth(i)));
    }
    Ok(())
}

fn refused(c: &mut Ctx, tool: &str, r: &Ran, what: &str) -> Res {
    event(&format!("{}:refused", tool));
    c.eval();
    let out: Vec<&str> = r.out.lines().filter(|l| !l.starts_with("skipping unknown ")).collect();
    if r.ok {
        return bad(format!("{} reports success for {}", tool, what));
    }
    if !out.is_empty() {
        return bad(format!("{} prints {:?} for {}", tool, out[0], what));
    }
    if log_lines(&r.err).iter().any(|l| l.1.starts_with("Module ") || l.1.starts_with("Symbol ")) {
        return bad(format!("{} reports findings for {}", tool, what));
    }
    Ok(())
}

fn rejected(c: &mut Ctx, tool: &str, r: &Ran, good: bool, e: String) -> Res {
    if good {
        return skip(format!("good file rejected: {}", e));
    }
    refused(c, tool, r, "a file the library rejects")
}
