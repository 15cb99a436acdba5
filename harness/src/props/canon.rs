//! C37: the canonical parts, quoting and numbers of written expressions.

use super::*;
use crate::core::event;
use crate::sx::{self, Sx, Tok};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C37", cases: (300_000, 6_000_000), run: canon_case,
    required: &["module", "board", "table", "quoted", "absent part", "small number", "large number", "negative zero or zero rotation"],
    rule: "distinct written texts (hash of the text) compared token by token with the canonical tokens of their content",
    assumptions: &["quoting is judged for values without line breaks and quotes"],
}];

struct Out(Vec<String>);

impl Out {
    fn open(&mut self, head: &str) {
        self.0.push("(".into());
        self.word(head)
    }

    fn close(&mut self) {
        self.0.push(")".into())
    }

    /// a text, quoted only where needed
    fn word(&mut self, s: &str) {
        if s.is_empty() || s.contains(|c| "() \t{}%".contains(c)) {
            event("quoted");
            self.0.push(format!("\"{}\"", s))
        } else {
            self.0.push(s.into())
        }
    }

    fn num(&mut self, x: f64) {
        if x != 0.0 && x.abs() < 1e-4 {
            event("small number")
        }
        if x.abs() >= 1e7 {
            event("large number")
        }
        self.0.push(plain(x))
    }

    fn int(&mut self, x: i64) {
        self.0.push(x.to_string())
    }

    fn part(&mut self, head: &str, s: &str) {
        self.open(head);
        self.word(s);
        self.close()
    }

    fn nums(&mut self, head: &str, v: &[f64]) {
        self.open(head);
        for x in v {
            self.num(*x)
        }
        self.close()
    }

    fn ints(&mut self, head: &str, x: i64) {
        self.open(head);
        self.int(x);
        self.close()
    }

    fn flag(&mut self, on: bool, s: &str) {
        if on {
            self.word(s)
        } else {
            event("absent part")
        }
    }

    fn part_if(&mut self, head: &str, v: &V) {
        if v.is_nil() {
            event("absent part")
        } else {
            self.part(head, v.s())
        }
    }

    fn num_if(&mut self, head: &str, v: &V) {
        if v.is_nil() {
            event("absent part")
        } else {
            self.nums(head, &[v.n()])
        }
    }

    fn at(&mut self, v: &V) {
        let (x, y, r) = (v.fnum("x"), v.fnum("y"), v.fnum("rot"));
        if r == 0.0 {
            event("negative zero or zero rotation");
            self.nums("at", &[x, y])
        } else {
            self.nums("at", &[x, y, r])
        }
    }

    fn xy(&mut self, head: &str, v: &V) {
        self.nums(head, &[v.fnum("x"), v.fnum("y")])
    }

    fn pts(&mut self, v: &V) {
        self.open("pts");
        for p in v.l() {
            self.xy("xy", p)
        }
        self.close()
    }

    fn pts_in(&mut self, head: &str, v: &V) {
        self.open(head);
        self.pts(v);
        self.close()
    }

    fn effects(&mut self, v: &V) {
        let f = v.g("font");
        self.open("effects");
        self.open("font");
        if f.fnum("x") > 0.0 || f.fnum("y") > 0.0 {
            self.xy("size", f)
        }
        self.nums("thickness", &[f.fnum("thickness")]);
        self.flag(f.fb("italic"), "italic");
        self.close();
        if !v.g("justify").is_nil() {
            self.open("justify");
            for w in v.fs("justify").split(' ') {
                self.word(w)
            }
            self.close()
        }
        self.close()
    }

    fn layers(&mut self, v: &V) {
        self.open("layers");
        for l in v.l() {
            self.word(l.s())
        }
        self.close()
    }

    fn fp_element(&mut self, e: &V) {
        let k = e.kind();
        match k {
            "locked" => return self.word("locked"),
            "at" => return self.at(e),
            _ => (),
        }
        self.open(k);
        match k {
            "solder_mask_margin" | "clearance" => self.num(e.fnum("v")),
            "tedit" | "tstamp" => {
                let n = e.fi("v");
                self.0.push(format!("{:X}", n))
            }
            "fp_text" => {
                self.word(e.fs("name"));
                self.word(e.fs("value"));
                self.at(e.g("at"));
                self.part("layer", e.fs("layer"));
                self.flag(e.fb("hide"), "hide");
                self.effects(e.g("effects"))
            }
            "pad" => self.pad(e),
            "fp_poly" => {
                self.pts(e.g("pts"));
                self.drawn(e)
            }
            "fp_line" | "fp_circle" | "fp_arc" => self.drawn(e),
            "model" => {
                self.word(e.fs("name"));
                for p in &["at", "scale", "rotate"] {
                    let v = e.g(p);
                    self.open(p);
                    self.nums("xyz", &[v.fnum("x"), v.fnum("y"), v.fnum("z")]);
                    self.close()
                }
            }
            _ => self.word(e.fs("v")),
        }
        self.close()
    }

    /// what drawn items have in common
    fn drawn(&mut self, e: &V) {
        if e.has("start") {
            self.xy("start", e.g("start"))
        }
        if e.has("center") {
            self.xy("center", e.g("center"))
        }
        if e.has("end") {
            self.xy("end", e.g("end"))
        }
        if e.has("angle") {
            self.nums("angle", &[e.fnum("angle")])
        }
        self.part("layer", e.fs("layer"));
        self.nums("width", &[e.fnum("width")]);
        if e.has("tstamp") {
            self.part_if("tstamp", e.g("tstamp"))
        }
    }

    fn pad(&mut self, e: &V) {
        self.word(e.fs("name"));
        self.word(e.fs("type"));
        self.word(e.fs("shape"));
        self.at(e.g("at"));
        self.xy("size", e.g("size"));
        if !e.g("rect_delta").is_nil() {
            self.xy("rect_delta", e.g("rect_delta"))
        }
        let d = e.g("drill");
        if !d.is_nil() {
            self.open("drill");
            self.flag(d.fb("oval"), "oval");
            let (w, h) = (d.fnum("width"), d.fnum("height"));
            if w > 0.0 {
                self.num(w)
            }
            if h > 0.0 && (h - w).abs() > f64::EPSILON {
                self.num(h)
            }
            let (x, y) = (d.fnum("ox"), d.fnum("oy"));
            if x != 0.0 || y != 0.0 {
                self.nums("offset", &[x, y])
            }
            self.close()
        }
        self.layers(e.g("layers"));
        let n = e.g("net");
        if !n.is_nil() {
            self.net(n)
        }
        if !e.g("zone_connect").is_nil() {
            self.ints("zone_connect", e.fi("zone_connect"))
        }
        for p in &["solder_paste_margin", "solder_mask_margin", "clearance", "thermal_gap"] {
            self.num_if(p, e.g(p))
        }
    }

    fn net(&mut self, n: &V) {
        self.open("net");
        self.int(n.fi("num"));
        self.word(n.fs("name"));
        self.close()
    }

    fn module(&mut self, m: &V) {
        self.open("module");
        self.word(m.fs("name"));
        for e in m.g("elements").l() {
            self.fp_element(e)
        }
        self.close()
    }

    fn gr_text(&mut self, e: &V) {
        self.open("gr_text");
        self.word(e.fs("value"));
        self.at(e.g("at"));
        self.part("layer", e.fs("layer"));
        self.effects(e.g("effects"));
        self.part_if("tstamp", e.g("tstamp"));
        self.close()
    }

    fn free(&mut self, s: &Sx) {
        match *s {
            Sx::L(ref v) => {
                self.0.push("(".into());
                for x in v {
                    self.free(x)
                }
                self.close()
            }
            _ => self.word(s.text()),
        }
    }

    fn board_element(&mut self, e: &V) {
        let k = e.kind();
        match k {
            "module" => return self.module(e),
            "net" => return self.net(e),
            "gr_text" => return self.gr_text(e),
            "other" => {
                if let V::X(ref s) = *e.g("v") {
                    self.free(s)
                }
                return;
            }
            _ => (),
        }
        self.open(k);
        match k {
            "net_class" => {
                self.word(e.fs("name"));
                self.word(e.fs("desc"));
                for p in &["clearance", "trace_width", "via_dia", "via_drill", "uvia_dia", "uvia_drill", "diff_pair_gap", "diff_pair_width"] {
                    self.num_if(p, e.g(p))
                }
                for n in e.g("nets").l() {
                    self.part("add_net", n.s())
                }
            }
            "dimension" => {
                self.word(e.fs("name"));
                self.nums("width", &[e.fnum("width")]);
                self.part("layer", e.fs("layer"));
                self.part_if("tstamp", e.g("tstamp"));
                self.gr_text(e.g("text"));
                for p in &["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"] {
                    self.pts_in(p, e.g(p))
                }
            }
            "segment" => {
                self.xy("start", e.g("start"));
                self.xy("end", e.g("end"));
                self.nums("width", &[e.fnum("width")]);
                self.part("layer", e.fs("layer"));
                self.ints("net", e.fi("net"));
                self.part_if("tstamp", e.g("tstamp"));
                self.part_if("status", e.g("status"))
            }
            "via" => {
                self.flag(e.fb("blind"), "blind");
                self.flag(e.fb("micro"), "micro");
                self.at(e.g("at"));
                self.nums("size", &[e.fnum("size")]);
                if e.fnum("drill") != 0.0 {
                    self.nums("drill", &[e.fnum("drill")])
                }
                self.layers(e.g("layers"));
                self.ints("net", e.fi("net"))
            }
            "zone" => self.zone(e),
            _ => self.drawn(e),
        }
        self.close()
    }

    fn zone(&mut self, e: &V) {
        self.ints("net", e.fi("net"));
        self.part("net_name", e.fs("net_name"));
        self.part("layer", e.fs("layer"));
        self.part("tstamp", e.fs("tstamp"));
        self.open("hatch");
        self.word(e.fs("hatch_style"));
        self.num(e.fnum("hatch_pitch"));
        self.close();
        if e.fi("priority") != 0 {
            // priorities are not negative
            self.open("priority");
            self.0.push((e.fi("priority") as u64).to_string());
            self.close()
        }
        self.open("connect_pads");
        if !e.g("connection").is_nil() {
            self.word(e.fs("connection"))
        }
        self.nums("clearance", &[e.fnum("clearance")]);
        self.close();
        self.nums("min_thickness", &[e.fnum("min_thickness")]);
        let k = e.g("keepout");
        if !k.is_nil() {
            self.open("keepout");
            for p in &["tracks", "vias", "copperpour"] {
                self.part(p, if k.fb(p) { "allowed" } else { "not_allowed" })
            }
            self.close()
        }
        self.open("fill");
        self.flag(e.fb("filled"), "yes");
        if e.fb("segment") {
            self.part("mode", "segment")
        }
        self.ints("arc_segments", e.fi("arc_segments"));
        self.nums("thermal_gap", &[e.fnum("thermal_gap")]);
        self.nums("thermal_bridge_width", &[e.fnum("thermal_bridge_width")]);
        self.part_if("smoothing", e.g("smoothing"));
        if e.fnum("radius") != 0.0 {
            self.nums("radius", &[e.fnum("radius")])
        }
        self.close();
        for p in e.g("polygons").l() {
            self.pts_in("polygon", p)
        }
        for p in e.g("filled_polygons").l() {
            self.pts_in("filled_polygon", p)
        }
        if !e.g("fill_segments").is_nil() {
            self.pts_in("fill_segments", e.g("fill_segments"))
        }
        for o in e.g("other").l() {
            if let V::X(ref s) = *o {
                self.free(s)
            }
        }
    }

    fn settings(&mut self, v: &V) {
        for e in v.l() {
            self.open(e.fs("name"));
            self.word(e.fs("v1"));
            if !e.g("v2").is_nil() {
                self.word(e.fs("v2"))
            }
            self.close()
        }
    }

    fn board(&mut self, b: &V) {
        self.open("kicad_pcb");
        self.ints("version", b.fi("version"));
        self.open("host");
        self.word(b.fs("host_tool"));
        self.word(b.fs("host_build"));
        self.close();
        let g = b.g("general");
        self.open("general");
        self.ints("links", g.fi("links"));
        self.ints("no_connects", g.fi("no_connects"));
        self.nums("area", &[g.fnum("x1"), g.fnum("y1"), g.fnum("x2"), g.fnum("y2")]);
        self.nums("thickness", &[g.fnum("thickness")]);
        for p in &["drawings", "tracks", "zones", "modules", "nets"] {
            self.ints(p, g.fi(p))
        }
        self.close();
        self.part("page", b.fs("page"));
        self.open("layers");
        for l in b.g("layers").l() {
            self.0.push("(".into());
            self.int(l.fi("num"));
            self.word(l.fs("name"));
            self.word(l.fs("type"));
            self.flag(l.fb("hide"), "hide");
            self.close()
        }
        self.close();
        self.open("setup");
        self.settings(b.g("setup"));
        self.open("pcbplotparams");
        self.settings(b.g("plot"));
        self.close();
        self.close();
        for e in b.g("elements").l() {
            self.board_element(e)
        }
        self.close()
    }

    fn table(&mut self, t: &V) {
        self.open("fp_lib_table");
        for e in t.g("libs").l() {
            self.open("lib");
            for p in &["name", "type", "uri", "options", "descr"] {
                self.part(p, e.fs(p))
            }
            self.close()
        }
        self.close()
    }
}

/// the shortest decimal digits that give the number, without exponent
fn plain(x: f64) -> String {
    let e = format!("{:e}", x);
    let (m, p) = match e.find('e') {
        Some(i) => (&e[..i], e[i + 1..].parse::<i64>().unwrap_or(0)),
        None => return e,
    };
    let (sign, m) = if m.starts_with('-') { ("-", &m[1..]) } else { ("", m) };
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let n = digits.len() as i64;
    let body = if p < 0 {
        format!("0.{}{}", "0".repeat((-p - 1) as usize), digits)
    } else if p + 1 >= n {
        format!("{}{}", digits, "0".repeat((p + 1 - n) as usize))
    } else {
        format!("{}.{}", &digits[..(p + 1) as usize], &digits[(p + 1) as usize..])
    };
    format!("{}{}", sign, body)
}

fn canon_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["module", "board", "board", "table", "module", "board"]);
    let mut v = gen_doc(&mut c.rng, kind);
    let d = made(c, &mut v)?;
    let text = match d.write() {
        Ok(t) => t,
        Err(e) => return bad(format!("writing fails: {}", e)),
    };
    let got: Vec<String> = match sx::tokens(&text) {
        Ok(t) => t.into_iter().map(|t| match t {
            Tok::Open => "(".to_string(),
            Tok::Close => ")".to_string(),
            Tok::Atom(s, true) => format!("\"{}\"", s),
            Tok::Atom(s, false) => s,
        }).collect(),
        Err(e) => return bad(format!("the written text is no expression: {}", e)),
    };
    let mut o = Out(vec![]);
    let v = d.obs();
    match kind {
        "module" => o.module(&v),
        "board" => o.board(&v),
        _ => o.table(&v),
    }
    event(kind);
    c.seen(core::hash_str(&text));
    c.eval();
    if o.0 == got {
        return Ok(());
    }
    c.attach("written", text);
    let i = o.0.iter().zip(got.iter()).take_while(|&(a, b)| a == b).count();
    let near = |v: &[String]| {
        let from = if i > 8 { i - 8 } else { 0 };
        crate::v::clip(&v[from.min(v.len())..(i + 6).min(v.len())].join(" "), 300)
    };
    bad(format!("part {} of a written {}: expected {:?}, observed {:?}", i + 1, kind, near(&o.0), near(&got)))
}
