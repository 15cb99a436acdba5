//! C33 and C34: what findings, errors and notices say.

use super::*;
use crate::core::event;
use crate::props::robust;
use k::checkfix::{CheckFix, CheckFixData, CheckFixItem, Config, KLCSection};
use k::KicadError;
use log::{Log, LogMetadata, LogRecord};
use std::cell::RefCell;
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::io::AsRawFd;
use std::sync::Once;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C33", cases: (800_000, 16_000_000), run: finding_case,
        required: &["tree:item", "tree:empty group", "tree:one", "tree:several", "tree:deep", "tree:chain", "level:warning", "level:information", "flattened", "not flattened",
            "findings of a footprint", "findings of a symbol", "section"],
        rule: "distinct trees of findings (hash of the tree and the indentation) whose log records were compared",
        assumptions: &["one logger that accepts everything is installed"],
    },
    &Prop {
        id: "C34", cases: (250_000, 5_000_000), run: report_case,
        required: &["missing file", "directory", "not utf-8", "other kind", "variable", "cannot create", "number in a schematic", "number in a symbol library", "category",
            "notice:component", "notice:sheet", "no notice"],
        rule: "distinct (file, failure) pairs whose report was judged, or texts with skipped lines whose notices were judged",
        assumptions: &[],
    },
];

// ------------------------------------------------------------ C33

thread_local! {
    static LINES: RefCell<Vec<(String, String)>> = const { RefCell::new(vec![]) };
}

struct Catch;

impl Log for Catch {
    fn enabled(&self, _: &LogMetadata) -> bool {
        true
    }
    fn log(&self, r: &LogRecord) {
        let _ = LINES.try_with(|l| l.borrow_mut().push((format!("{}", r.level()), format!("{}", r.args()))));
    }
}

/// what is logged while `f` runs
fn logged<F: FnOnce()>(f: F) -> Vec<(String, String)> {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(|m| {
            m.set(log::LogLevelFilter::Trace);
            Box::new(Catch)
        });
    });
    LINES.with(|l| l.borrow_mut().clear());
    f();
    LINES.with(|l| l.borrow_mut().drain(..).collect())
}

#[derive(Clone, Debug)]
enum Tree {
    Item(i64, i64, String, String, bool),
    More(Vec<Tree>),
}

/// now and then a chain of groups, each with little beside the next
fn chain(r: &mut Rng) -> Tree {
    event("tree:chain");
    let mut t = tree(r, 1);
    for _ in 0..3 + r.below(24) {
        let mut v = vec![t];
        for _ in 0..r.below(3) {
            let at = r.below(v.len() + 1);
            v.insert(at, tree(r, 1))
        }
        t = Tree::More(v)
    }
    t
}

fn tree(r: &mut Rng, depth: usize) -> Tree {
    if depth == 3 && r.pct(4) {
        return chain(r);
    }
    if depth == 0 || r.pct(55) {
        event("tree:item");
        return Tree::Item(gen::int(r), gen::int(r), gen::sstr(r), gen::sstr(r), r.bool());
    }
    let n = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        _ => 2 + r.below(4),
    };
    event(match n {
        0 => "tree:empty group",
        1 => "tree:one",
        _ => "tree:several",
    });
    if depth < 3 && n > 0 {
        event("tree:deep")
    }
    Tree::More((0..n).map(|_| tree(r, depth - 1)).collect())
}

fn make(r: &mut Rng, t: &Tree) -> CheckFixData {
    match *t {
        Tree::Item(s, u, ref i, ref m, info) => match (r.below(3), info) {
            (0, false) => lib("new finding", || CheckFixData::new(s, u, i, m.clone())),
            (0, true) => lib("new advice", || CheckFixData::info(s, u, i, m.clone())),
            (_, false) => CheckFixData::Item(lib("new item", || CheckFixItem::new(s, u, i, m.clone()))),
            (_, true) => CheckFixData::Item(lib("new advice", || CheckFixItem::new(s, u, i, m.clone()).info())),
        },
        Tree::More(ref v) => CheckFixData::More(v.iter().map(|t| make(r, t)).collect()),
    }
}

fn look(d: &CheckFixData) -> Tree {
    match *d {
        CheckFixData::Item(ref i) => Tree::Item(i.section, i.rule, i.item.clone(), i.message.clone(), i.info),
        CheckFixData::More(ref v) => Tree::More(v.iter().map(look).collect()),
    }
}

/// the log records of a tree
fn records(t: &Tree, indent: usize, out: &mut Vec<(String, String)>) {
    match *t {
        Tree::Item(s, r, ref i, ref m, info) => {
            event(if info { "level:information" } else { "level:warning" });
            out.push((if info { "INFO" } else { "WARN" }.to_string(), format!("{}{}.{} {}:{}", "  ".repeat(indent), s, r, i, m)))
        }
        Tree::More(ref v) => for x in v {
            let more = if let Tree::More(_) = *x { 1 } else { 0 };
            records(x, indent + more, out)
        },
    }
}

fn judge_log(c: &mut Ctx, d: &CheckFixData, indent: usize) -> Res {
    let t = look(d);
    let mut exp = vec![];
    records(&t, indent, &mut exp);
    let got = logged(|| lib("log findings", || d.dump_on_logger(indent)));
    c.eval();
    c.seen(core::hash_str(&format!("{} {:?}", indent, t)));
    c.attach("findings", format!("{:#?}", t));
    if exp != got {
        c.attach("expected", format!("{:#?}", exp));
        c.attach("logged", format!("{:#?}", got));
        return bad(format!("{} findings are expected in the log at indentation {}, {} records were written or they say something else", exp.len(), indent, got.len()));
    }
    Ok(())
}

const SECTIONS: &[(&str, i64)] = &[
    ("General Rules", 1),
    ("Symbol Library Names", 2),
    ("Symbol Names", 3),
    ("General Rules for Symbols", 4),
    ("Footprint Library Names", 5),
    ("Footprint Names", 6),
    ("General Rules for Footprints", 7),
    ("Rules for SMD Footprints", 8),
    ("Rules for Through-hole Footprints", 9),
    ("Footprint Properties", 10),
];

fn section(i: usize) -> KLCSection {
    match i {
        0 => KLCSection::General,
        1 => KLCSection::SymbolLibraryNames,
        2 => KLCSection::SymbolNames,
        3 => KLCSection::SymbolRules,
        4 => KLCSection::FootprintLibraryNames,
        5 => KLCSection::FootprintNames,
        6 => KLCSection::FootprintRules,
        7 => KLCSection::SMDRules,
        8 => KLCSection::THTRules,
        _ => KLCSection::FootprintProperties,
    }
}

fn finding_case(c: &mut Ctx) -> Res {
    match c.rng.below(20) {
        0 => {
            event("findings of a footprint");
            let cfg = Config::klc();
            let v = klc::footprint(&mut c.rng, &cfg);
            let mut d = parsed(c, &v)?;
            let f = lib("check", || d.module().check(&cfg));
            judge_log(c, &CheckFixData::More(f), 0)
        }
        1 => {
            event("findings of a symbol");
            let s = klc::klc_symbol(&mut c.rng);
            let mut v = gen::symbol_lib(&mut c.rng);
            v.set("symbols", V::L(vec![s]));
            let mut d = parsed(c, &v)?;
            let l = d.lib();
            if l.symbols.is_empty() {
                return skip("no symbol");
            }
            let f = lib("check", || l.symbols[0].check(&Config::klc()));
            judge_log(c, &CheckFixData::More(f), 0)
        }
        2 => {
            event("section");
            for (i, s) in SECTIONS.iter().enumerate() {
                let n: i64 = lib("section number", || section(i).into());
                let t = lib("section title", || format!("{}", section(i)));
                c.eval();
                if n != s.1 || t != s.0 {
                    return bad(format!("section {} {:?} is given as {} {:?}", s.1, s.0, n, t));
                }
            }
            Ok(())
        }
        _ => {
            let t = tree(&mut c.rng, 3);
            let d = make(&mut c.rng, &t);
            c.attach("tree", format!("{:#?}", t));
            let o = look(&d);
            if format!("{:?}", o) != format!("{:?}", t) {
                return bad(format!("a new finding holds {:?}", o));
            }
            let indent = if c.rng.pct(50) { 0 } else { c.rng.below(30) };
            judge_log(c, &d, indent)?;
            // a group of one becomes its member
            let exp = match t {
                Tree::More(ref v) if v.len() == 1 => {
                    event("flattened");
                    v[0].clone()
                }
                ref x => {
                    event("not flattened");
                    x.clone()
                }
            };
            let f = lib("flatter", || d.flatter());
            c.eval();
            if format!("{:?}", look(&f)) != format!("{:?}", exp) {
                return bad(format!("flattened to {:?}, expected {:?}", look(&f), exp));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------ C34

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
}

/// what is written to standard output while `f` runs
fn output<T, F: FnOnce() -> T>(c: &Ctx, f: F) -> Result<(T, String), Fail> {
    let d = c.dir("out")?;
    let p = d.join("stdout");
    let mut file = super::files::io(fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&p))?;
    let _ = std::io::stdout().flush();
    let old = unsafe { dup(1) };
    if old < 0 || unsafe { dup2(file.as_raw_fd(), 1) } < 0 {
        return broken("standard output cannot be redirected");
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _ = std::io::stdout().flush();
    unsafe {
        dup2(old, 1);
        close(old);
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    };
    let mut s = String::new();
    super::files::io(file.seek(SeekFrom::Start(0)))?;
    super::files::io(file.read_to_string(&mut s))?;
    let _ = fs::remove_dir_all(&d);
    Ok((r, s))
}

fn read_as(kind: &str, p: &std::path::Path) -> Result<(), KicadError> {
    lib("read", || match kind {
        "module" => k::read_module(p).map(|_| ()),
        "board" => k::read_layout(p).map(|_| ()),
        "sch" => k::read_schematic(p).map(|_| ()),
        "lib" => k::read_symbol_lib(p).map(|_| ()),
        "table" => k::read_fp_lib_table(p).map(|_| ()),
        "project" => k::read_project(p).map(|_| ()),
        _ => k::read_kicad_file(p, k::Expected::Any).map(|_| ()),
    })
}

fn report_case(c: &mut Ctx) -> Res {
    match c.rng.below(12) {
        0 | 1 => io_case(c),
        2 => kind_case(c),
        3 => variable_case(c),
        4 => category_case(c),
        5..=8 => number_case(c),
        _ => notice_case(c),
    }
}

fn io_case(c: &mut Ctx) -> Res {
    let d = c.dir("io")?;
    let kind = *c.rng.pick(&["module", "board", "sch", "lib", "table", "project", "any"]);
    let name = format!("{}.x", gen::lword(&mut c.rng).replace('/', "_").chars().take(40).collect::<String>());
    let p = d.join(&name);
    let what = c.rng.below(4);
    if what == 3 {
        // a file that cannot be created is named
        event("cannot create");
        let q = d.join("nowhere").join(&name);
        let m = Doc::Module(fp::Module::new("a".into()));
        let e = match m {
            Doc::Module(ref m) => lib("write module", || k::write_module(m, &q)),
            _ => Ok(()),
        };
        c.eval();
        let _ = fs::remove_dir_all(&d);
        return match e {
            Ok(()) => bad("a file in a missing directory is written"),
            Err(e) => {
                let t = format!("{}", e);
                c.seen(core::hash_str(&t));
                if t.contains(&format!("{}", q.display())) {
                    Ok(())
                } else {
                    bad(format!("the report of the file {} that cannot be created is {:?}", q.display(), t))
                }
            }
        };
    }
    let exp = match what {
        0 => {
            event("missing file");
            fs::File::open(&p).map(|_| ()).map_err(|e| e.kind())
        }
        1 => {
            event("directory");
            super::files::io(fs::create_dir(&p))?;
            fs::read(&p).map(|_| ()).map_err(|e| e.kind())
        }
        _ => {
            event("not utf-8");
            let mut t = text_of_kind(c, kind).into_bytes();
            let at = c.rng.below(t.len() + 1);
            t.insert(at, 0xff);
            super::files::io(fs::write(&p, &t))?;
            fs::read_to_string(&p).map(|_| ()).map_err(|e| e.kind())
        }
    };
    let exp = match exp {
        Ok(()) => return broken("the failure did not come about"),
        Err(e) => e,
    };
    let got = read_as(kind, &p);
    let _ = fs::remove_dir_all(&d);
    c.eval();
    c.seen(core::hash_str(&format!("{} {} {}", what, kind, name)));
    match got {
        Err(KicadError::Io(ref e)) if e.kind() == exp => Ok(()),
        Err(e) => bad(format!("reading as {}: expected an I/O error ({:?}), observed {:?}", kind, exp, e)),
        Ok(()) => bad("a file that cannot be read is accepted"),
    }
}

fn text_of_kind(c: &mut Ctx, kind: &str) -> String {
    match kind {
        "project" | "any" => super::files::project(&mut c.rng),
        k => {
            let v = gen_doc(&mut c.rng, k);
            render::document(&v, &mut c.rng, false)
        }
    }
}

const NAMES: &[(&str, &str)] = &[("module", "module"), ("sch", "schematic"), ("board", "layout"), ("lib", "symbollib"), ("project", "project"), ("table", "fp-lib-table")];

/// a file of a kind that is recognised before the one that was asked for
fn kind_case(c: &mut Ctx) -> Res {
    let a = c.rng.below(NAMES.len() - 1);
    let b = a + 1 + c.rng.below(NAMES.len() - a - 1);
    let t = text_of_kind(c, NAMES[a].0);
    let d = c.dir("kind")?;
    let name: String = gen::lword(&mut c.rng).replace('/', "_").chars().take(40).collect();
    let p = d.join(format!("{}.x", name));
    super::files::io(fs::write(&p, &t))?;
    let found = lib("read", || k::read_kicad_file(&p, k::Expected::Any));
    let got = read_as(NAMES[b].0, &p);
    let _ = fs::remove_dir_all(&d);
    match found {
        Ok(ref f) if format!("{}", f) == NAMES[a].1 => (),
        _ => return skip("not recognised"),
    }
    event("other kind");
    c.eval();
    c.attach("text", t.clone());
    c.seen(core::hash_str(&t));
    match got {
        Err(e) => {
            let s = format!("{}", e);
            if s.contains(NAMES[a].1) && s.contains(&format!("{}", p.display())) {
                Ok(())
            } else {
                bad(format!("a {} in {} read as {} is reported as {:?}", NAMES[a].1, p.display(), NAMES[b].1, s))
            }
        }
        Ok(()) => bad(format!("a {} is accepted as {}", NAMES[a].1, NAMES[b].1)),
    }
}

fn variable_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = format!("VERIF_UNSET_{}", r.below(1_000_000));
    let a: String = gen::lword(r).replace(|c| c == '$' || c == '~', "_");
    let uri = match r.below(3) {
        0 => format!("${{{}}}/{}", n, a),
        1 => format!("{}/${}/x", a, n),
        _ => format!("${}", n),
    };
    let v = crate::r!("table"; libs: V::L(vec![crate::r!("entry"; name: "a", type: "KiCad", uri: &uri, options: "", descr: "")]));
    let mut d = match Doc::parse("table", &render::document(&v, &mut c.rng, false)) {
        Ok(d) => d,
        Err(e) => return skip(e),
    };
    let got = lib("expand", || d.table().libs[0].get_expanded_uri());
    event("variable");
    c.eval();
    c.seen(core::hash_str(&uri));
    match got {
        Err(KicadError::ShellExpand(e)) => {
            if e.var_name == n && format!("{}", KicadError::ShellExpand(e)).contains(&n) {
                Ok(())
            } else {
                bad(format!("the unset variable of {:?} is not named", uri))
            }
        }
        Err(e) => bad(format!("the unset variable of {:?} is reported as {:?}", uri, e)),
        Ok(s) => bad(format!("{:?} is expanded to {:?}", uri, s)),
    }
}

/// the text of an error starts with what kind of error it is and has the whole message
fn category_case(c: &mut Ctx) -> Res {
    let s = gen::sstr(&mut c.rng);
    event("category");
    let io = std::io::Error::new(std::io::ErrorKind::Other, s.clone());
    let all = vec![
        (KicadError::Parse(s.clone()), "Kicad Parse Error: "),
        (KicadError::Other(s.clone()), "Kicad Other Error: "),
        (KicadError::from(s.clone()), "Kicad Other Error: "),
        (KicadError::from(io), "Kicad IO Error: "),
    ];
    for (e, p) in all {
        let t = lib("error text", || format!("{}", e));
        c.eval();
        if t != format!("{}{}", p, s) {
            return bad(format!("an error of the kind {:?} about {:?} has the text {:?}", p, s, t));
        }
    }
    c.seen(core::hash_str(&s));
    Ok(())
}

/// a bad number in a line is quoted together with its line
fn number_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["sch", "lib"]);
    let mut v = gen_doc(&mut c.rng, kind);
    let mut all = vec![];
    robust::numbers(&v, &mut vec![], &mut all);
    if all.is_empty() {
        return skip("no numbers");
    }
    let path = c.rng.pick(&all).clone();
    let names = robust::path_names(&v, &path);
    let mut leaf = &mut v;
    for &i in &path {
        leaf = robust::child(leaf, i)
    }
    let mark = match *leaf {
        V::N(ref mut x) => {
            *x = 73190.625;
            "73190.625"
        }
        V::I(ref mut x) => {
            *x = 7319064;
            "7319064"
        }
        _ => return broken("not a number"),
    };
    let text = render::document(&v, &mut c.rng, false);
    if Doc::parse(kind, &text).is_err() {
        return skip("the undamaged file is rejected");
    }
    let p = match text.find(mark) {
        Some(p) => p,
        None => return skip("the number is not in the text"),
    };
    let word = format!("{}{}", c.rng.pick(&["x", "µ", "1.2.", "--", "q", "0x", "_"]), c.rng.below(1000));
    let damaged = format!("{}{}{}", &text[..p], word, &text[p + mark.len()..]);
    let n = text[..p].matches('\n').count();
    let line = damaged.split('\n').nth(n).unwrap_or("").trim().to_string();
    c.attach("text", damaged.clone());
    c.attach("number", names.clone());
    match Doc::parse(kind, &damaged) {
        Ok(_) => skip("accepted"),
        Err(e) => {
            event(if kind == "sch" { "number in a schematic" } else { "number in a symbol library" });
            event(&format!("at {}", names.rsplit('/').nth(1).unwrap_or("")));
            c.eval();
            c.seen(core::hash_str(&damaged));
            if e.contains(&word) && e.contains(&line) {
                Ok(())
            } else {
                bad(format!("the bad number {:?} in the line {:?} is reported as {:?}", word, line, e))
            }
        }
    }
}

/// lines that are left out are announced, and nothing else is printed
fn notice_case(c: &mut Ctx) -> Res {
    let kind = if c.rng.pct(75) { "sch" } else { *c.rng.pick(KINDS) };
    let v = gen_doc(&mut c.rng, kind);
    let text = render::document(&v, &mut c.rng, false);
    let mut out = vec![];
    let mut lost = vec![];
    let mut block = "";
    for l in text.split('\n') {
        if kind == "sch" && !block.is_empty() && !l.starts_with('\t') && !l.starts_with(' ') && c.rng.pct(8) {
            let w = format!("{} {} {}", c.rng.pick(&["X", "Z", "Kx", "?", "A", "µ", "L1", "$Comp"]), gen::lword(&mut c.rng), c.rng.below(100));
            event(&format!("notice:{}", block));
            lost.push(w.clone());
            out.push(w)
        }
        // what follows the head of a text is its content
        let content = block.is_empty() && out.last().map_or(false, |x: &String| x.starts_with("Text "));
        match l.trim() {
            _ if content => (),
            "$Comp" => block = "component",
            "$Sheet" => block = "sheet",
            "$EndComp" | "$EndSheet" => block = "",
            _ => (),
        }
        out.push(l.to_string())
    }
    let text = out.join("\n");
    c.attach("text", text.clone());
    let (d, said) = output(c, || Doc::parse(kind, &text))?;
    let d = match d {
        Ok(d) => d,
        Err(e) => return skip(e),
    };
    if lost.is_empty() {
        event("no notice")
    }
    c.eval();
    c.seen(core::hash_str(&text));
    let lines: Vec<&str> = said.lines().collect();
    if lines.len() != lost.len() || lines.iter().zip(&lost).any(|(a, b)| !a.contains(&b[..])) {
        return bad(format!("skipped lines {:?} are announced as {:?}", lost, lines));
    }
    let _ = d;
    Ok(())
}
