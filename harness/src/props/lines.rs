//! C36: the line structure of written files.

use super::*;
use crate::core::event;
use crate::sx::{self, Tok};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C36", cases: (400_000, 8_000_000), run: lines_case,
    required: &["module", "board", "table", "sch", "lib", "indented", "points in several rows", "element after a module", "first segment"],
    rule: "distinct written texts (hash of the text) compared character by character with the expected layout of their content",
    assumptions: &["documents without uninterpreted expressions, whose layout is free"],
}];

/// an expression with its atoms as they stand in the text
enum Raw {
    A(String),
    L(Vec<Raw>),
}

impl Raw {
    fn head(&self) -> &str {
        match *self {
            Raw::L(ref v) => match v.first() {
                Some(&Raw::A(ref s)) => s.trim_matches('"'),
                _ => "",
            },
            _ => "",
        }
    }
}

fn raw(text: &str) -> Result<Raw, String> {
    let mut stack: Vec<Vec<Raw>> = vec![vec![]];
    for t in sx::tokens(text)? {
        match t {
            Tok::Open => stack.push(vec![]),
            Tok::Close => {
                let v = stack.pop().unwrap_or_default();
                match stack.last_mut() {
                    Some(p) => p.push(Raw::L(v)),
                    None => return Err("unbalanced".into()),
                }
            }
            Tok::Atom(s, q) => match stack.last_mut() {
                Some(p) => p.push(Raw::A(if q { format!("\"{}\"", s) } else { s })),
                None => return Err("unbalanced".into()),
            },
        }
    }
    match (stack.len(), stack.pop()) {
        (1, Some(mut v)) => match (v.len(), v.pop()) {
            (1, Some(x)) => Ok(x),
            _ => Err("not one expression".into()),
        },
        _ => Err("unbalanced".into()),
    }
}

#[derive(Clone, Copy, PartialEq)]
struct Rule {
    /// line breaks before
    before: usize,
    /// closing parenthesis on its own line
    close: bool,
    /// line breaks after
    after: usize,
}

const SAME: Option<Rule> = None;
const LINE: Option<Rule> = Some(Rule { before: 1, close: false, after: 0 });
const BLOCK: Option<Rule> = Some(Rule { before: 1, close: true, after: 0 });
const APART: Option<Rule> = Some(Rule { before: 2, close: true, after: 0 });

/// how an element is set, by its kind and place
fn rule(parents: &[String], head: &str, points: usize) -> Option<Rule> {
    let parent = match parents.last() {
        Some(p) => p.as_str(),
        None => return SAME,
    };
    let within = |n: &str| parents.iter().any(|p| p == n);
    match parent {
        "fp_lib_table" => return LINE,
        "module" => return match head {
            "at" | "descr" | "fp_line" | "fp_poly" | "pad" | "path" | "fp_circle" | "attr" => LINE,
            "model" | "fp_text" => BLOCK,
            _ => SAME,
        },
        "fp_text" | "gr_text" => return if head == "effects" { LINE } else { SAME },
        "model" => return if ["at", "scale", "rotate"].contains(&head) { LINE } else { SAME },
        "pad" => return if head == "net" { LINE } else { SAME },
        "pts" => {
            let row = if within("fp_poly") { 4 } else { 5 };
            let first = points == 0 && (within("polygon") || within("filled_polygon"));
            return if first || (points > 0 && points % row == 0) { LINE } else { SAME };
        }
        _ => (),
    }
    match (parent, head) {
        ("kicad_pcb", "page") => Some(Rule { before: 2, close: false, after: 0 }),
        ("kicad_pcb", "setup") => Some(Rule { before: 2, close: true, after: 1 }),
        ("kicad_pcb", "general") | ("kicad_pcb", "net_class") | ("kicad_pcb", "module") => APART,
        ("kicad_pcb", "layers") | ("kicad_pcb", "gr_text") | ("kicad_pcb", "dimension") | ("kicad_pcb", "zone") => BLOCK,
        ("kicad_pcb", "net") | ("kicad_pcb", "gr_circle") | ("kicad_pcb", "gr_line") | ("kicad_pcb", "gr_arc") => LINE,
        ("kicad_pcb", "segment") | ("kicad_pcb", "via") => LINE,
        ("general", _) | ("layers", _) | ("setup", _) | ("pcbplotparams", _) | ("net_class", _) => LINE,
        ("dimension", "gr_text") => BLOCK,
        ("dimension", "layer") | ("dimension", "width") | ("dimension", "tstamp") => SAME,
        ("dimension", _) => LINE,
        ("zone", "connect_pads") | ("zone", "min_thickness") | ("zone", "fill") | ("zone", "keepout") | ("zone", "priority") => LINE,
        ("zone", "polygon") | ("zone", "filled_polygon") => BLOCK,
        ("polygon", _) | ("filled_polygon", _) => BLOCK,
        _ => SAME,
    }
}

struct Page {
    parents: Vec<String>,
    indent: usize,
    points: usize,
    after_module: bool,
    segment: bool,
    out: String,
}

impl Page {
    fn lines(&mut self, n: usize, indent: usize) {
        for _ in 0..n {
            self.out.push('\n')
        }
        for _ in 0..indent {
            self.out.push_str("  ")
        }
    }

    fn set(&mut self, x: &Raw) {
        let v = match *x {
            Raw::A(ref s) => {
                self.out.push_str(s);
                return;
            }
            Raw::L(ref v) => v,
        };
        let head = x.head().to_string();
        let top = self.parents.last().map_or(false, |p| p == "kicad_pcb");
        let r = rule(&self.parents, &head, self.points);
        let table = self.parents.len() > 1 && self.parents[0] == "fp_lib_table";
        if !self.parents.is_empty() && r.is_none() && !table {
            self.out.push(' ')
        }
        // an empty line between the modules and what follows them, and before the tracks
        if head == "module" {
            self.after_module = true
        } else if top && self.after_module {
            event("element after a module");
            self.after_module = false;
            let i = self.indent;
            self.lines(1, i)
        }
        if top && head == "segment" && !self.segment {
            event("first segment");
            self.segment = true;
            let i = self.indent;
            self.lines(1, i)
        }
        let deeper = r.is_some() || table;
        if deeper {
            self.indent += 1
        }
        if let Some(r) = r {
            let i = self.indent;
            self.lines(r.before, i)
        }
        if head == "pts" {
            self.points = 0
        }
        if head == "xy" && self.parents.last().map_or(false, |p| p == "pts") {
            self.points += 1;
            if self.points > 6 {
                event("points in several rows")
            }
        }
        let root = self.parents.is_empty();
        self.parents.push(head);
        self.out.push('(');
        for (i, y) in v.iter().enumerate() {
            if let Raw::A(_) = *y {
                if i > 0 {
                    self.out.push(' ')
                }
            }
            self.set(y)
        }
        self.parents.pop();
        if deeper {
            self.indent -= 1
        }
        match r {
            Some(r) => {
                if r.close {
                    let i = self.indent + 1;
                    self.lines(1, i)
                }
                self.out.push(')');
                self.lines(r.after, 0)
            }
            None => {
                if root {
                    self.out.push('\n')
                }
                self.out.push(')')
            }
        }
    }
}

fn expected_expression(text: &str, indent: usize) -> Result<String, String> {
    let x = raw(text)?;
    let mut p = Page { parents: vec![], indent: indent, points: 0, after_module: false, segment: false, out: String::new() };
    p.set(&x);
    if x.head() == "kicad_pcb" {
        p.out.push('\n')
    }
    Ok(p.out)
}

fn flag(b: bool, yes: &'static str, no: &'static str) -> &'static str {
    if b { yes } else { no }
}

fn sch_text(v: &V) -> String {
    let mut o = String::from("EESchema Schematic File Version 2\n");
    for l in v.g("libraries").l() {
        o += &format!("LIBS:{}\n", l.s())
    }
    o += &format!("{}\nEELAYER END\n", v.fs("eelayer"));
    let d = v.g("descr");
    o += &format!("$Descr {} {} {}{}\nencoding utf-8\nSheet {} {}\n", d.fs("size"), d.fi("dimx"), d.fi("dimy"), flag(d.fb("portrait"), " portrait", ""), d.fi("sheet"), d.fi("sheet_count"));
    for &(w, f) in &[("Title", "title"), ("Date", "date"), ("Rev", "rev"), ("Comp", "comp"), ("Comment1", "comment1"), ("Comment2", "comment2"), ("Comment3", "comment3"), ("Comment4", "comment4")] {
        o += &format!("{} \"{}\"\n", w, d.fs(f))
    }
    o += "$EndDescr\n";
    // numbers are set flush left in columns
    let col = |n: i64| format!("{:<4}", n);
    for e in v.g("elements").l() {
        match e.kind() {
            "comp" => {
                o += &format!("$Comp\nL {} {}\n{}\nP {} {}\n", e.fs("name"), e.fs("reference"), e.fs("u"), e.fi("x"), e.fi("y"));
                for a in e.g("ar").l() {
                    o += &format!("{}\n", a.s())
                }
                for f in e.g("fields").l() {
                    o += &format!("F {} \"{}\" {} {:<3} {:<3} {:<3} {} {} {}{}{}", f.fi("i"), f.fs("value"), f.fs("orientation"), f.fnum("x").to_string(), f.fnum("y").to_string(),
                        f.fi("size"), flag(f.fb("visible"), "0000", "0001"), f.fs("hjustify"), f.fs("vjustify"), flag(f.fb("italic"), "I", "N"), flag(f.fb("bold"), "B", "N"));
                    if f.fi("i") > 3 {
                        o += &format!(" \"{}\"", f.fs("name"))
                    }
                    o.push('\n')
                }
                let unit = e.fs("u").split_whitespace().nth(1).unwrap_or("1");
                let r: Vec<String> = e.g("rot").l().iter().map(|x| col(x.i())).collect();
                o += &format!("\t{:<4} {} {}\n\t{}\n$EndComp\n", unit, col(e.fi("x")), col(e.fi("y")), r.join(" "))
            }
            "wire" => o += &format!("Wire {} Line\n\t{} {} {} {}\n", e.fs("t"), e.fi("x1"), e.fi("y1"), e.fi("x2"), e.fi("y2")),
            "conn" => o += &format!("Connection ~ {} {}\n", e.fi("x"), e.fi("y")),
            "noconn" => o += &format!("NoConn ~ {} {}\n", e.fi("x"), e.fi("y")),
            "text" => {
                let shape = if e.g("shape").is_nil() { String::new() } else { format!("{} ", e.fs("shape")) };
                o += &format!("Text {} {} {} {} {} {}{} {}\n{}\n", e.fs("t"), col(e.fi("x")), col(e.fi("y")), col(e.fi("orientation")), col(e.fi("size")), shape,
                    flag(e.fb("italic"), "Italic", "~"), e.fi("thickness"), e.fs("text"))
            }
            _ => o += &format!("{}\n", e.fs("v")),
        }
    }
    for s in v.g("sheets").l() {
        o += &format!("$Sheet\nS {} {} {} {}\nU {}\n", s.fi("x"), s.fi("y"), s.fi("dimx"), s.fi("dimy"), s.fs("unique"));
        o += &format!("F0 \"{}\" {}\nF1 \"{}\" {}\n", s.fs("name"), s.fi("name_size"), s.fs("filename"), s.fi("filename_size"));
        for (i, l) in s.g("labels").l().iter().enumerate() {
            o += &format!("F{} \"{}\" {} {} {} {} {}\n", i + 2, l.fs("name"), l.fs("form"), l.fs("side"), l.fi("x"), l.fi("y"), l.fi("size"))
        }
        o += "$EndSheet\n"
    }
    o + "$EndSCHEMATC\n"
}

fn lib_text(v: &V) -> String {
    let mut o = String::from("EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n");
    for s in v.g("symbols").l() {
        let fields = s.g("fields").l();
        o += &format!("# {}\n#\n", fields.get(1).map_or(s.fs("name"), |f| f.fs("value")));
        o += &format!("DEF {} {} 0 {} {} {} {} {} {}\n", s.fs("name"), s.fs("reference"), s.fnum("text_offset"), flag(s.fb("pinnumber"), "Y", "N"), flag(s.fb("pinname"), "Y", "N"),
            s.fi("unit_count"), flag(s.fb("locked"), "L", "F"), flag(s.fb("power"), "P", "N"));
        for f in fields {
            o += &format!("F{} \"{}\" {} {} {} {} {} {} {}{}{}", f.fi("i"), f.fs("value"), f.fnum("x"), f.fnum("y"), f.fi("dimension"), f.fs("orientation"),
                flag(f.fb("visible"), "V", "I"), f.fs("hjustify"), f.fs("vjustify"), flag(f.fb("italic"), "I", "N"), flag(f.fb("bold"), "B", "N"));
            if f.fi("i") > 3 {
                o += &format!(" \"{}\"", f.fs("name"))
            }
            o.push('\n')
        }
        let list = |n: &str| s.g(n).l().iter().map(|x| x.s().to_string()).collect::<Vec<_>>();
        if !list("aliases").is_empty() {
            o += &format!("ALIAS {}\n", list("aliases").join(" "))
        }
        if !list("fp").is_empty() {
            o += &format!("$FPLIST\n {}\n$ENDFPLIST\n", list("fp").join("\n "))
        }
        o += "DRAW\n";
        for d in s.g("draw").l() {
            match d.kind() {
                "pin" => {
                    let shape = format!("{}{}", flag(d.fb("visible"), "", "N"), d.fs("shape"));
                    o += &format!("X {} {} {} {} {} {} {} {} {} {} {}{}{}\n", d.fs("name"), d.fs("number"), d.fi("x"), d.fi("y"), d.fi("len"), d.fs("orientation"),
                        d.fi("num_size"), d.fi("name_size"), d.fi("unit"), d.fi("convert"), d.fs("type"), flag(shape.is_empty(), "", " "), shape)
                }
                "rect" => o += &format!("S {} {} {} {} {} {} {} {}\n", d.fi("x1"), d.fi("y1"), d.fi("x2"), d.fi("y2"), d.fi("unit"), d.fi("convert"), d.fi("thickness"), d.fs("fill")),
                _ => o += &format!("{}\n", d.fs("v")),
            }
        }
        o += "ENDDRAW\nENDDEF\n#\n"
    }
    o + "#End Library\n"
}

fn lines_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["module", "board", "board", "sch", "lib", "table", "board"]);
    let mut v = gen_doc(&mut c.rng, kind);
    if kind == "board" {
        let e = v.gm("elements").lm();
        e.retain(|x| x.kind() != "other");
        for z in e.iter_mut().filter(|x| x.kind() == "zone") {
            z.set("other", V::L(vec![]))
        }
        // free names that are also names of elements
        for part in &["setup", "plot"] {
            if v.g(part).l().iter().any(|x| x.fs("name") == "module") {
                return Ok(());
            }
        }
    }
    let d = made(c, &mut v)?;
    let indent = if c.rng.pct(20) && kind != "sch" && kind != "lib" {
        event("indented");
        if c.rng.pct(5) { 1 + c.rng.below(70) } else { 1 + c.rng.below(4) }
    } else {
        0
    };
    let text = match d.write_at(indent as i64) {
        Ok(t) => t,
        Err(e) => return bad(format!("writing fails: {}", e)),
    };
    let want = match kind {
        "sch" => sch_text(&d.obs()),
        "lib" => lib_text(&d.obs()),
        _ => match expected_expression(&text, indent) {
            Ok(t) => t,
            Err(e) => return bad(format!("the written text is no expression: {}", e)),
        },
    };
    event(kind);
    c.seen(core::hash_str(&text));
    c.eval();
    if text == want {
        return Ok(());
    }
    c.attach("written", text.clone());
    c.attach("expected", want.clone());
    for (i, (a, b)) in text.split('\n').zip(want.split('\n')).enumerate() {
        if a != b {
            return bad(format!("line {} of a written {}: expected {:?}, observed {:?}", i + 1, kind, crate::v::clip(b, 120), crate::v::clip(a, 120)));
        }
    }
    bad(format!("a written {} has {} lines instead of {}", kind, text.split('\n').count(), want.split('\n').count()))
}
