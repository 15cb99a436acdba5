//! The properties and what they share.

use crate::core::{self, bad, broken, lib, skip, Ctx, Fail, Prop, Res};
use crate::build;
use crate::gen;
use crate::obs;
use crate::read;
use crate::render;
use crate::rng::Rng;
use crate::v::{diff, V};
use kicad_parse_gen as k;
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::fp_lib_table as tb;
use kicad_parse_gen::layout as lo;
use kicad_parse_gen::schematic as sch;
use kicad_parse_gen::symbol_lib as sl;

mod board;
mod cli;
pub mod conc;
mod files;
mod geom;
mod klc;
mod canon;
pub mod work;
mod lines;
mod more;
mod pass;
mod report;
mod robust;
mod rw;
mod schem;
mod strict;

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(rw::PROPS);
    v.extend(robust::PROPS);
    v.extend(files::PROPS);
    v.extend(pass::PROPS);
    v.extend(board::PROPS);
    v.extend(geom::PROPS);
    v.extend(klc::PROPS);
    v.extend(schem::PROPS);
    v.extend(conc::PROPS);
    v.extend(cli::PROPS);
    v.extend(more::PROPS);
    v.extend(report::PROPS);
    v.extend(strict::PROPS);
    v.extend(lines::PROPS);
    v.extend(canon::PROPS);
    v.extend(work::PROPS);
    v
}

pub const KINDS: &[&str] = &["module", "board", "sch", "lib", "table"];

/// a library model of any kind
pub enum Doc {
    Module(fp::Module),
    Board(lo::Layout),
    Sch(sch::Schematic),
    Lib(sl::SymbolLib),
    Table(tb::FpLibTable),
}

impl Doc {
    pub fn parse(kind: &str, s: &str) -> Result<Doc, String> {
        match kind {
            "module" => lib("parse module", || fp::parse(s)).map(Doc::Module).map_err(|e| lib("error text", || format!("{}", e))),
            "board" => lib("parse board", || lo::parse(s)).map(Doc::Board).map_err(|e| lib("error text", || format!("{}", e))),
            "sch" => lib("parse schematic", || sch::parse_str(s)).map(Doc::Sch).map_err(|e| lib("error text", || format!("{}", e))),
            "lib" => lib("parse symbol lib", || sl::parse_str(s)).map(Doc::Lib).map_err(|e| lib("error text", || format!("{}", e))),
            "table" => lib("parse table", || tb::parse(s)).map(Doc::Table).map_err(|e| lib("error text", || format!("{}", e))),
            _ => panic!("kind {}", kind),
        }
    }
    pub fn obs(&self) -> V {
        match *self {
            Doc::Module(ref m) => obs::module(m),
            Doc::Board(ref m) => obs::board(m),
            Doc::Sch(ref m) => obs::schematic(m),
            Doc::Lib(ref m) => obs::symbol_lib(m),
            Doc::Table(ref m) => obs::table(m),
        }
    }
    pub fn kind(&self) -> &'static str {
        match *self {
            Doc::Module(_) => "module",
            Doc::Board(_) => "board",
            Doc::Sch(_) => "sch",
            Doc::Lib(_) => "lib",
            Doc::Table(_) => "table",
        }
    }
    pub fn write_at(&self, indent: i64) -> Result<String, String> {
        match *self {
            Doc::Module(ref m) => lib("write module", || fp::module_to_string(m, indent)).map_err(|e| format!("{}", e)),
            Doc::Board(ref m) => lib("write board", || lo::layout_to_string(m, indent)).map_err(|e| format!("{}", e)),
            Doc::Sch(ref m) => Ok(lib("write schematic", || format!("{}", m))),
            Doc::Lib(ref m) => Ok(lib("write symbol lib", || format!("{}", m))),
            Doc::Table(ref m) => lib("write table", || tb::to_string(m, indent)).map_err(|e| format!("{}", e)),
        }
    }
    pub fn write(&self) -> Result<String, String> {
        self.write_at(0)
    }
    pub fn module(&mut self) -> &mut fp::Module {
        match *self {
            Doc::Module(ref mut m) => m,
            _ => panic!("not a module"),
        }
    }
    pub fn board(&mut self) -> &mut lo::Layout {
        match *self {
            Doc::Board(ref mut m) => m,
            _ => panic!("not a board"),
        }
    }
    pub fn sch(&mut self) -> &mut sch::Schematic {
        match *self {
            Doc::Sch(ref mut m) => m,
            _ => panic!("not a schematic"),
        }
    }
    pub fn lib(&mut self) -> &mut sl::SymbolLib {
        match *self {
            Doc::Lib(ref mut m) => m,
            _ => panic!("not a library"),
        }
    }
    pub fn table(&mut self) -> &mut tb::FpLibTable {
        match *self {
            Doc::Table(ref mut m) => m,
            _ => panic!("not a table"),
        }
    }
}

pub fn gen_doc(r: &mut Rng, kind: &str) -> V {
    match kind {
        "module" => gen::module(r),
        "board" => gen::board(r),
        "sch" => gen::schematic(r),
        "lib" => gen::symbol_lib(r),
        "table" => gen::table(r),
        _ => panic!("kind {}", kind),
    }
}

/// the sample files KiCad itself wrote
pub fn corpus(kind: &str) -> Vec<(&'static str, &'static str)> {
    match kind {
        "module" => vec![
            ("footprint1", include_str!("../../../corpus/footprint1.kicad_mod")),
            ("footprint2", include_str!("../../../corpus/footprint2.kicad_mod")),
            ("cy", include_str!("../../../corpus/cy.kicad_mod")),
        ],
        "board" => vec![
            ("layout1", include_str!("../../../corpus/layout1.kicad_pcb")),
            ("layout2", include_str!("../../../corpus/layout2.kicad_pcb")),
        ],
        "sch" => vec![("schematic1", include_str!("../../../corpus/schematic1.sch"))],
        "lib" => vec![("symbol_lib1", include_str!("../../../corpus/symbol_lib1-cache.lib"))],
        "table" => vec![("fp-lib-table", include_str!("../../../corpus/fp-lib-table"))],
        _ => panic!("kind {}", kind),
    }
}

/// a reference model: mostly generated, sometimes taken from a sample file and altered
pub fn any_doc(c: &mut Ctx, kind: &str) -> Result<V, Fail> {
    let r = &mut c.rng;
    if !r.pct(8) {
        return Ok(gen_doc(r, kind));
    }
    core::event("source:sample file");
    let files = corpus(kind);
    let (name, text) = *r.pick(&files);
    let mut v = match read::document(kind, text) {
        Ok(v) => v,
        Err(e) => return broken(format!("own reader on {}: {}", name, e)),
    };
    let list = match kind {
        "lib" => "symbols",
        "table" => "libs",
        _ => "elements",
    };
    let other = gen_doc(r, kind);
    let l = v.gm(list).lm();
    // keep a window of the real elements, mix in generated ones
    if l.len() > 60 {
        let a = r.below(l.len() - 40);
        *l = l[a..a + 40].to_vec();
    }
    for e in other.g(list).l() {
        let at = r.below(l.len() + 1);
        l.insert(at, e.clone())
    }
    Ok(v)
}

/// counts which kinds of items, options and flags a model has
pub fn cover(v: &V) {
    match *v {
        V::R(n, ref f) => {
            core::event(&format!("kind:{}", n));
            for x in f {
                match x.1 {
                    V::Nil => core::event(&format!("absent:{}.{}", n, x.0)),
                    V::B(b) => core::event(&format!("flag:{}.{}={}", n, x.0, b)),
                    ref y => cover(y),
                }
            }
        }
        V::L(ref l) => for x in l {
            cover(x)
        },
        _ => (),
    }
}

/// render a reference model and make sure the own reader agrees with the renderer
pub fn text_of(c: &mut Ctx, v: &V, vary: bool) -> Result<String, Fail> {
    let t = render::document(v, &mut c.rng, vary);
    match read::document(v.kind(), &t) {
        Err(e) => {
            c.attach("rendered", t);
            broken(format!("own reader rejects the rendered text: {}", e))
        }
        Ok(w) => match diff(v, &w, 0.0) {
            None => Ok(t),
            Some(d) => {
                c.attach("rendered", t);
                broken(format!("own reader disagrees with the renderer {}", d))
            }
        },
    }
}

pub fn same(what: &str, exp: &V, got: &V) -> Res {
    match diff(exp, got, 0.0) {
        None => Ok(()),
        Some(d) => bad(format!("{} {}", what, d)),
    }
}

pub fn near(what: &str, exp: &V, got: &V) -> Res {
    match diff(exp, got, 1e-9) {
        None => Ok(()),
        Some(d) => bad(format!("{} {}", what, d)),
    }
}

/// parse a text that is well-formed
pub fn parse_ok(kind: &str, text: &str) -> Result<Doc, Fail> {
    Doc::parse(kind, text).map_err(|e| Fail::Violation(format!("well-formed {} rejected: {}", kind, e)))
}

/// a parsed model together with its reference
pub fn parsed(c: &mut Ctx, v: &V) -> Result<Doc, Fail> {
    let t = text_of(c, v, false)?;
    c.attach("input", t.clone());
    // a model that is not the expected one is a matter of the reading properties
    match Doc::parse(v.kind(), &t) {
        Ok(d) => Ok(d),
        Err(e) => skip(format!("well-formed {} rejected: {}", v.kind(), e)),
    }
}

/// a model assembled in code
pub fn build_doc(v: &mut V) -> Result<Doc, build::No> {
    if v.kind() == "sch" {
        // a component gets its rotation from a file only
        for e in v.gm("elements").lm() {
            if e.kind() == "comp" {
                e.set("rot", vec![0i64, 0, 0, 0])
            }
        }
    }
    Ok(match v.kind() {
        "module" => Doc::Module(build::module(v)?),
        "board" => Doc::Board(build::board(v)?),
        "sch" => Doc::Sch(build::schematic(v)?),
        "lib" => Doc::Lib(build::symbol_lib(v)?),
        "table" => Doc::Table(build::table(v)?),
        x => panic!("kind {}", x),
    })
}

/// a model read from a file or, now and then, assembled in code
pub fn made(c: &mut Ctx, v: &mut V) -> Result<Doc, Fail> {
    if c.rng.pct(20) {
        if let Ok(d) = build_doc(v) {
            core::event("made in code");
            return Ok(d);
        }
    }
    parsed(c, v)
}

pub fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

#[allow(dead_code)]
pub fn crate_name() -> &'static str {
    let _ = k::reference_ord("R1");
    "kicad_parse_gen"
}
