//! C11 and C12: files.

use super::*;
use crate::core::event;
use crate::mutate;
use std::ffi::OsString;
use std::fs;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C11", cases: (100_000, 2_000_000), run: kind_case,
        required: &["any:module", "any:sch", "any:board", "any:lib", "any:project", "any:table", "any:unknown", "refused:missing", "refused:directory",
            "refused:not utf-8", "refused:dangling link", "typed:right kind", "typed:wrong kind", "name:not utf-8", "name:wrong extension",
            "way:relative", "way:relative with dots", "way:symbolic link", "way:linked directory", "way:detour", "way:hard link", "huge"],
        rule: "distinct (file content, file name) pairs read through the generic reader and through all typed readers",
        assumptions: &["the checks run as the owner of the files, so unreadable means missing, a directory, a broken link or not UTF-8"],
    },
    &Prop {
        id: "C12", cases: (100_000, 2_000_000), run: write_case,
        required: &["write:board", "write:module", "write:text", "stored", "fault:missing directory", "fault:is a directory", "fault:device full", "fault:size limit",
            "size limit high enough", "prior:longer", "prior:missing", "prior:shorter", "large"],
        rule: "distinct (text, prior state of the file, storage fault) combinations written and compared byte by byte with the directory before and after",
        assumptions: &["storage faults are: missing directory, path is a directory, full device, file size limit at a random byte, no permission"],
    },
];

pub fn io<T>(x: std::io::Result<T>) -> Result<T, Fail> {
    x.map_err(|e| Fail::Harness(format!("scratch file: {}", e)))
}

pub fn project(r: &mut Rng) -> String {
    let mut s = "update=".to_string();
    for _ in 0..r.below(6) {
        s.push_str(&gen::line(r));
        s.push_str(*r.pick(&["\n", "\r\n", "", "\n\n", "[eeschema]\nversion=1\n"]))
    }
    s
}

fn name(r: &mut Rng) -> OsString {
    match r.below(5) {
        0 => {
            event("name:not utf-8");
            let mut b = b"fi\xffle".to_vec();
            if r.bool() {
                b.extend_from_slice(b".kicad_mod")
            }
            b.insert(r.below(b.len()), 0xfe);
            OsString::from_vec(b)
        }
        1 => {
            event("name:wrong extension");
            OsString::from(*r.pick(&["a.kicad_mod", "a.sch", "a.kicad_pcb", "a.lib", "a.pro", "fp-lib-table", "x.txt", "noext"]))
        }
        2 => OsString::from(*r.pick(&["two words.sch", "ünï.kicad_pcb", "-", "漢字", "a\"b", "#", "%s{}", "a\nb"])),
        3 => OsString::from("n".repeat(1 + r.below(200))),
        _ => OsString::from(format!("f{}", r.below(100))),
    }
}

/// what every parser makes of a text: kind and observed model
fn accepted(text: &str) -> Vec<(&'static str, V)> {
    let mut v = vec![];
    for k in KINDS {
        if let Ok(d) = Doc::parse(k, text) {
            v.push((*k, d.obs()))
        }
    }
    if let Ok(p) = lib("parse project", || k::project::parse_str(text)) {
        v.push(("project", V::from(p.data)))
    }
    v
}

fn observe(f: k::KicadFile) -> (&'static str, V, Option<PathBuf>) {
    match f {
        k::KicadFile::Unknown(p) => ("unknown", V::Nil, Some(p)),
        k::KicadFile::Module(m) => ("module", obs::module(&m), None),
        k::KicadFile::Schematic(m) => {
            let v = obs::schematic(&m);
            ("sch", v, m.filename)
        }
        k::KicadFile::Layout(m) => ("board", obs::board(&m), None),
        k::KicadFile::SymbolLib(m) => ("lib", obs::symbol_lib(&m), None),
        k::KicadFile::Project(m) => ("project", V::from(m.data), None),
        k::KicadFile::FpLibTable(m) => ("table", obs::table(&m), None),
    }
}

const TYPED: &[&str] = &["module", "sch", "board", "lib", "project", "table"];

pub fn expected(kind: &str) -> k::Expected {
    match kind {
        "module" => k::Expected::Module,
        "sch" => k::Expected::Schematic,
        "board" => k::Expected::Layout,
        "lib" => k::Expected::SymbolLib,
        "project" => k::Expected::Project,
        "table" => k::Expected::FpLibTable,
        _ => k::Expected::Any,
    }
}

pub fn typed(kind: &str, p: &Path) -> Result<V, ()> {
    fn e<T>(x: Result<T, k::KicadError>) -> Result<T, ()> {
        x.map_err(|e| {
            let _ = lib("error text", || format!("{}", e));
        })
    }
    Ok(match kind {
        "module" => obs::module(&e(lib("read module", || k::read_module(p)))?),
        "sch" => obs::schematic(&e(lib("read schematic", || k::read_schematic(p)))?),
        "board" => obs::board(&e(lib("read layout", || k::read_layout(p)))?),
        "lib" => obs::symbol_lib(&e(lib("read symbol lib", || k::read_symbol_lib(p)))?),
        "project" => V::from(e(lib("read project", || k::read_project(p)))?.data),
        _ => obs::table(&e(lib("read table", || k::read_fp_lib_table(p)))?),
    })
}

/// restores the working directory
pub struct Back(PathBuf);
impl Drop for Back {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}
impl Back {
    pub fn enter(d: &Path) -> Result<Back, Fail> {
        let b = Back(io(std::env::current_dir())?);
        io(std::env::set_current_dir(d))?;
        Ok(b)
    }
}

/// a path to the file `n` in `d`: direct, relative, with detours or through links
fn other_way(c: &mut Ctx, d: &Path, n: &OsString) -> Result<(PathBuf, Option<Back>), Fail> {
    let direct = d.join(n);
    Ok(match c.rng.below(12) {
        0 => {
            event("way:relative");
            (PathBuf::from(n), Some(Back::enter(d)?))
        }
        1 => {
            event("way:relative with dots");
            io(fs::create_dir_all(d.join("a dir")))?;
            (PathBuf::from(*c.rng.pick(&["./", ".//", "a dir/../", "./././"])).join(n), Some(Back::enter(d)?))
        }
        2 => {
            event("way:symbolic link");
            io(fs::create_dir_all(d.join("links")))?;
            let l = d.join("links").join("other name.txt");
            io(std::os::unix::fs::symlink(&direct, &l))?;
            (l, None)
        }
        3 => {
            event("way:linked directory");
            let l = d.join("linked dir");
            io(std::os::unix::fs::symlink(d, &l))?;
            (l.join(n), None)
        }
        4 => {
            event("way:detour");
            (d.join("..").join(d.file_name().unwrap_or_default()).join(".").join(n), None)
        }
        5 => {
            event("way:hard link");
            let l = d.join("hard link");
            io(fs::hard_link(&direct, &l))?;
            (l, None)
        }
        _ => (direct, None),
    })
}

/// the text made several megabytes long, where it is possible with the same content or more of it
fn lengthened(r: &mut Rng, kind: &str, text: &str) -> String {
    let (at, fill) = match kind {
        "sch" => (text.rfind("$EndSCHEMATC"), "NoConn ~ 100 200\n"),
        "lib" => (text.rfind("#End"), "# a comment in the library\n"),
        "project" => (Some(text.len()), "\nkey=a value of the project"),
        _ => (text.rfind(')'), " \n   \t   "),
    };
    let n = (1 << 19) + r.below(4 << 20);
    match at {
        None => text.to_string(),
        Some(i) => format!("{}{}{}", &text[..i], fill.repeat(n / fill.len()), &text[i..]),
    }
}

fn kind_case(c: &mut Ctx) -> Res {
    let d = c.dir("kind")?;
    let n = name(&mut c.rng);
    let path = d.join(&n);
    if c.rng.pct(12) {
        // nothing readable there
        let what = *c.rng.pick(&["missing", "directory", "not utf-8", "dangling link", "link loop", "below a file"]);
        let mut path = path;
        match what {
            "directory" => io(fs::create_dir(&path))?,
            "not utf-8" => {
                let mut b = render::document(&gen_doc(&mut c.rng, "module"), &mut c.rng, true).into_bytes();
                let at = c.rng.below(b.len() + 1);
                b.insert(at, 0xff);
                io(fs::write(&path, b))?
            }
            "dangling link" => io(std::os::unix::fs::symlink(d.join("nowhere"), &path))?,
            "link loop" => io(std::os::unix::fs::symlink(&path, &path))?,
            "below a file" => {
                io(fs::write(&path, "(module a)"))?;
                path = path.join("x")
            }
            _ => (),
        }
        event(&format!("refused:{}", what));
        c.attach("what", format!("{} {:?}", what, path));
        for k in TYPED {
            if typed(k, &path).is_ok() {
                return bad(format!("a {} reader accepts a path that cannot be read ({})", k, what));
            }
            if lib("read expected", || k::read_kicad_file(&path, expected(k))).is_ok() {
                return bad(format!("reading with an expectation accepts a path that cannot be read ({})", what));
            }
        }
        if lib("read any", || k::read_kicad_file(&path, k::Expected::Any)).is_ok() {
            return bad(format!("the generic reader accepts a path that cannot be read ({})", what));
        }
        if lib("parse schematic file", || sch::parse_file(&path)).is_ok() || lib("parse symbol lib file", || sl::parse_file(&path)).is_ok() {
            return bad(format!("a file parser accepts a path that cannot be read ({})", what));
        }
        if lib("read file", || k::read_file(&path)).is_ok() {
            return bad(format!("a path that cannot be read ({}) is read", what));
        }
        c.eval();
        c.seen(core::hash_str(&format!("{} {:?}", what, n)));
        return Ok(());
    }
    let kind = *c.rng.pick(TYPED);
    let mut text = if kind == "project" {
        project(&mut c.rng)
    } else if c.rng.pct(10) {
        let f = corpus(kind);
        c.rng.pick(&f).1.to_string()
    } else {
        let v = gen_doc(&mut c.rng, kind);
        render::document(&v, &mut c.rng, true)
    };
    if c.rng.pct(30) {
        let o = project(&mut c.rng);
        for _ in 0..1 + c.rng.below(2) {
            text = mutate::change(&mut c.rng, &text, &o)
        }
    } else if c.rng.pct(10) {
        text = match c.rng.below(4) {
            0 => String::new(),
            1 => gen::line(&mut c.rng),
            2 => mutate::soup(&mut c.rng),
            _ => format!(" {}", text),
        }
    }
    let huge = c.rng.below(4000) == 0;
    if huge {
        text = lengthened(&mut c.rng, kind, &text);
        event("huge")
    }
    io(fs::write(&path, &text))?;
    let (path, _back) = other_way(c, &d, &n)?;
    c.attach("path", format!("{:?}", path));
    c.attach("content", if huge { crate::v::clip(&text, 10_000) } else { text.clone() });
    let acc = accepted(&text);
    // the generic reader
    match lib("read any", || k::read_kicad_file(&path, k::Expected::Any)) {
        Err(_) => return bad("the generic reader reports an error for a readable text"),
        Ok(f) => {
            let (kind, v, p) = observe(f);
            event(&format!("any:{}", kind));
            if acc.is_empty() {
                if kind != "unknown" {
                    return bad(format!("a text that no parser accepts is identified as {}", kind));
                }
                if p.as_ref() != Some(&path) {
                    return bad(format!("unknown file reported with path {:?}", p));
                }
            } else {
                match acc.iter().find(|a| a.0 == kind) {
                    None => return bad(format!("identified as {}, but accepted by {:?}", kind, acc.iter().map(|a| a.0).collect::<Vec<_>>())),
                    Some(a) => same(&format!("content of the {} differs from its parser's", kind), &a.1, &v)?,
                }
            }
        }
    }
    // the typed readers
    for k in TYPED {
        let exp = acc.iter().find(|a| a.0 == *k);
        if *k == "sch" && exp.is_some() {
            if let Ok(s) = lib("read schematic", || k::read_schematic(&path)) {
                if s.filename.as_ref() != Some(&path) {
                    return bad(format!("a schematic read from {:?} says it is from {:?}", path, s.filename));
                }
            }
        }
        match (exp, typed(k, &path)) {
            (Some(e), Ok(v)) => {
                event("typed:right kind");
                same(&format!("the {} reader's content differs from its parser's", k), &e.1, &v)?
            }
            (None, Err(())) => event("typed:wrong kind"),
            (Some(_), Err(())) => if acc.len() == 1 {
                return bad(format!("the {} reader refuses a {} file", k, k));
            },
            (None, Ok(_)) => return bad(format!("the {} reader accepts a file that is no {}", k, k)),
        }
        match (exp, lib("read expected", || k::read_kicad_file(&path, expected(k)))) {
            (Some(e), Ok(f)) => {
                let (kind, v, _) = observe(f);
                if acc.len() == 1 {
                    if kind != *k {
                        return bad(format!("a {} file read as expected comes out as {}", k, kind));
                    }
                    same("content differs when the kind is expected:", &e.1, &v)?
                }
            }
            (Some(_), Err(_)) => if acc.len() == 1 {
                return bad(format!("a {} file is refused when its kind is expected", k));
            },
            (None, Ok(f)) => {
                let (kind, v, _) = observe(f);
                match acc.iter().find(|a| a.0 == kind) {
                    Some(a) => same("content differs when another kind is expected:", &a.1, &v)?,
                    None => return bad(format!("expecting {} a file that is none is returned as {}", k, kind)),
                }
            }
            (None, Err(_)) => (),
        }
    }
    // the parsers that take a path
    let s = lib("parse schematic file", || sch::parse_file(&path)).ok().map(|s| obs::schematic(&s));
    let l = lib("parse symbol lib file", || sl::parse_file(&path)).ok().map(|s| obs::symbol_lib(&s));
    for (k, got) in vec![("sch", s), ("lib", l)] {
        match (acc.iter().find(|a| a.0 == k), got) {
            (Some(e), Some(v)) => same("the file parser's content differs", &e.1, &v)?,
            (None, None) => (),
            (e, _) => return bad(format!("the file parser of {} and the text parser disagree (text accepted: {})", k, e.is_some())),
        }
    }
    match lib("read file", || k::read_file(&path)) {
        Ok(ref t) if *t == text => (),
        _ => return bad("reading the file does not give its content"),
    }
    if io(fs::read(&path))? != text.as_bytes() {
        return bad("reading changed the file");
    }
    c.eval();
    c.seen(core::hash_str(&format!("{:?} {}", n, text)));
    if c.index < 30 {
        c.sample(format!("{:?} accepted by {:?}", n, acc.iter().map(|a| a.0).collect::<Vec<_>>()))
    }
    Ok(())
}

// ------------------------------------------------------------ C12

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn seteuid(u: u32) -> i32;
    fn geteuid() -> u32;
}

/// a temporary limit on the size of files; lifted again when dropped
struct SizeLimit;
impl SizeLimit {
    fn new(n: u64) -> SizeLimit {
        unsafe {
            signal(25, 1);
            setrlimit(1, &[n, !0]);
        }
        SizeLimit
    }
}
impl Drop for SizeLimit {
    fn drop(&mut self) {
        unsafe {
            setrlimit(1, &[!0, !0]);
        }
    }
}

struct Nobody;
impl Nobody {
    fn new() -> Option<Nobody> {
        unsafe {
            if geteuid() == 0 && seteuid(65534) == 0 {
                Some(Nobody)
            } else {
                None
            }
        }
    }
}
impl Drop for Nobody {
    fn drop(&mut self) {
        unsafe {
            seteuid(0);
        }
    }
}

pub fn snapshot(d: &Path) -> Result<Vec<(PathBuf, Vec<u8>)>, Fail> {
    let mut v = vec![];
    for e in io(fs::read_dir(d))? {
        let p = io(e)?.path();
        let m = io(fs::symlink_metadata(&p))?;
        if m.is_dir() {
            v.push((p.clone(), b"<dir>".to_vec()));
            v.extend(snapshot(&p)?)
        } else if m.file_type().is_symlink() {
            v.push((p.clone(), format!("-> {:?}", io(fs::read_link(&p))?).into_bytes()))
        } else {
            let b = io(fs::read(&p))?;
            v.push((p, b))
        }
    }
    v.sort();
    Ok(v)
}

fn write_case(c: &mut Ctx) -> Res {
    let d = c.dir("write")?;
    let what = *c.rng.pick(&["board", "module", "text"]);
    let mut doc: Option<Doc> = None;
    let text = match what {
        "text" => match c.rng.below(6) {
            0 => String::new(),
            1 => gen::line(&mut c.rng),
            2 => {
                event("large");
                let n = if c.rng.pct(1) { 1_000_000 + c.rng.below(5_000_000) } else { 8_000 + c.rng.below(200_000) };
                "a line of text é {} %s\r\n".repeat(n / 24 + 1)[..].chars().take(n).collect()
            }
            3 => mutate::soup(&mut c.rng),
            _ => {
                let v = gen_doc(&mut c.rng, "sch");
                render::document(&v, &mut c.rng, true)
            }
        },
        k => {
            let mut v = gen_doc(&mut c.rng, k);
            if c.rng.pct(10) {
                // a large one
                event("large");
                let e = v.gm("elements").lm();
                let n = c.rng.below(300);
                for _ in 0..n {
                    e.push(if k == "board" { gen::board_element(&mut c.rng) } else { gen::module_element(&mut c.rng) })
                }
            }
            let x = parsed(c, &v)?;
            let t = match x.write() {
                Ok(t) => t,
                Err(_) => return skip("the model cannot be written"),
            };
            doc = Some(x);
            t
        }
    };
    event(&format!("write:{}", what));
    let len = text.len();
    let file = *c.rng.pick(&["out.kicad_pcb", "a", "ü n.kicad_mod", "x.tmp", ".hidden", "a.b.c", "a.kicad_pcb"]);
    let mut path = d.join(file);
    // neighbours that must not be touched
    for n in &["out.kicad_pcb~", "out.kicad_pcb.bak", "out.kicad_pcb.tmp", "a.tmp", "a.bak", "x", "tmp", "out.kicad_mod"] {
        if c.rng.pct(40) {
            io(fs::write(d.join(n), format!("neighbour {}", n)))?
        }
    }
    let prior = *c.rng.pick(&["missing", "empty", "shorter", "longer", "same length", "equal"]);
    event(&format!("prior:{}", prior));
    let fault = *c.rng.pick(&["none", "none", "none", "none", "missing directory", "is a directory", "device full", "size limit", "size limit", "no permission"]);
    let old: Option<Vec<u8>> = match prior {
        "missing" => None,
        "empty" => Some(vec![]),
        "shorter" => Some(vec![b'o'; len / 2]),
        "longer" => {
            let n = 1 + c.rng.below(9000);
            Some(vec![b')'; len + n])
        }
        "same length" => Some(vec![b'o'; len]),
        _ => Some(text.clone().into_bytes()),
    };
    let mut limit = None;
    let mut must_fail = false;
    match fault {
        "missing directory" => {
            path = d.join("none").join(file);
            must_fail = true
        }
        "is a directory" => {
            io(fs::create_dir(&path))?;
            io(fs::write(path.join("inside"), "x"))?;
            must_fail = true
        }
        "device full" => {
            io(std::os::unix::fs::symlink("/dev/full", &path))?;
            must_fail = len > 0
        }
        "size limit" => {
            if let Some(o) = old {
                io(fs::write(&path, o))?
            }
            let n = match c.rng.below(5) {
                0 => len as u64,
                1 => len as u64 + 1 + c.rng.below(100) as u64,
                2 => (len as u64).saturating_sub(1),
                3 => 0,
                _ => c.rng.below(len + 1) as u64,
            };
            limit = Some(n);
            must_fail = n < len as u64;
            if !must_fail {
                event("size limit high enough")
            }
        }
        "no permission" => {
            if let Some(o) = old {
                io(fs::write(&path, o))?
            }
            must_fail = true
        }
        _ => if let Some(o) = old {
            io(fs::write(&path, o))?
        },
    }
    c.attach("case", format!("{} fault {} limit {:?} prior {} path {:?}", what, fault, limit, prior, path));
    c.attach("text", text.clone());
    let before = snapshot(&d)?;
    let ok = {
        let nobody = if fault == "no permission" {
            match Nobody::new() {
                Some(n) => Some(n),
                None => return Ok(()),
            }
        } else {
            None
        };
        let l = limit.map(SizeLimit::new);
        let r = match doc {
            Some(Doc::Board(ref b)) => lib("write layout file", || k::write_layout(b, &path)),
            Some(Doc::Module(ref m)) => lib("write module file", || k::write_module(m, &path)),
            _ => lib("write file", || k::write_file(&path, &text)),
        };
        drop(l);
        drop(nobody);
        r
    };
    if let Err(ref e) = ok {
        let _ = lib("error text", || format!("{}", e));
    }
    let mut after = snapshot(&d)?;
    if must_fail {
        event(&format!("fault:{}", fault));
        if ok.is_ok() {
            return bad(format!("writing {} bytes reports success although they cannot be stored ({}, limit {:?})", len, fault, limit));
        }
    } else {
        if ok.is_err() {
            return bad("writing reports an error although nothing is in the way");
        }
        if fault != "device full" {
            let got = io(fs::read(&path))?;
            if got != text.as_bytes() {
                c.attach("file holds", String::from_utf8_lossy(&got).into_owned());
                return bad(format!("the file does not hold the serialised text ({} instead of {} bytes)", got.len(), len));
            }
            event("stored");
            match doc {
                Some(ref x) => {
                    let v = x.obs();
                    let w = match *x {
                        Doc::Board(_) => lib("read layout", || k::read_layout(&path)).map(|b| obs::board(&b)),
                        _ => lib("read module", || k::read_module(&path)).map(|b| obs::module(&b)),
                    };
                    match w {
                        Ok(w) => same("the model read back differs", &v, &w)?,
                        Err(e) => return bad(format!("the written file cannot be read: {}", e)),
                    }
                }
                None => match lib("read file", || k::read_file(&path)) {
                    Ok(ref t) if *t == text => (),
                    _ => return bad("the written text is not what is read"),
                },
            }
        }
    }
    // everything else is as it was
    let other = |v: &mut Vec<(PathBuf, Vec<u8>)>| v.retain(|x| x.0 != path || fault == "device full" || fault == "is a directory" || fault == "no permission");
    let mut before = before;
    other(&mut before);
    other(&mut after);
    if before != after {
        let names = |v: &Vec<(PathBuf, Vec<u8>)>| v.iter().map(|x| format!("{:?} {} bytes", x.0, x.1.len())).collect::<Vec<_>>();
        return bad(format!("other files were touched: {:?} became {:?}", names(&before), names(&after)));
    }
    c.eval();
    c.seen(core::hash_str(&format!("{} {} {:?} {}", prior, fault, limit, text)));
    if c.index < 30 {
        c.sample(format!("{} of {} bytes, prior {}, fault {}, limit {:?}: {}", what, len, prior, fault, limit, if ok.is_ok() { "stored" } else { "error" }))
    }
    Ok(())
}
