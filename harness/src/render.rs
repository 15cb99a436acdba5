//! Renders reference models as files, in varying but equivalent ways.

use crate::read::default_name;
use crate::rng::Rng;
use crate::sx::{a, l, q, Sx};
use crate::v::V;

/// one of several spellings of the same number
pub fn num_text(r: &mut Rng, x: f64) -> String {
    let plain = format!("{}", x);
    let s = match r.below(8) {
        0 => format!("{:e}", x),
        1 => if plain.contains('.') { format!("{}0", plain) } else { format!("{}.0", plain) },
        2 => format!("{:.6}", x),
        3 => if plain.contains('.') { format!("{}000", plain) } else { format!("{}.000000", plain) },
        4 => format!("{:E}", x),
        _ => plain.clone(),
    };
    match s.parse::<f64>() {
        Ok(y) if y == x => s,
        _ => plain,
    }
}

pub struct Rend<'a> {
    pub r: &'a mut Rng,
    /// when false, nothing optional is left out and numbers are plain
    pub vary: bool,
}

impl<'a> Rend<'a> {
    fn n(&mut self, v: &V) -> Sx {
        let x = v.n();
        if self.vary {
            a(num_text(self.r, x))
        } else {
            a(format!("{}", x))
        }
    }
    fn i(&mut self, v: &V) -> Sx {
        a(format!("{}", v.i()))
    }
    fn s(&mut self, v: &V) -> Sx {
        q(v.s())
    }
    /// may a part holding its default be left out here?
    fn skip(&mut self, is_default: bool) -> bool {
        is_default && self.vary && self.r.pct(60)
    }
    fn nl(&mut self, name: &str, v: &V) -> Sx {
        let x = self.n(v);
        l(name, vec![x])
    }
    fn il(&mut self, name: &str, v: &V) -> Sx {
        let x = self.i(v);
        l(name, vec![x])
    }
    fn sl(&mut self, name: &str, v: &V) -> Sx {
        let x = self.s(v);
        l(name, vec![x])
    }
    fn at(&mut self, v: &V) -> Sx {
        let mut x = vec![self.n(v.g("x")), self.n(v.g("y"))];
        let rot = v.g("rot");
        if !(rot.n() == 0.0 && (!self.vary || self.r.pct(85))) {
            x.push(self.n(rot))
        }
        l("at", x)
    }
    fn xy(&mut self, name: &str, v: &V) -> Sx {
        let x = vec![self.n(v.g("x")), self.n(v.g("y"))];
        l(name, x)
    }
    fn xyz(&mut self, name: &str, v: &V) -> Sx {
        let x = vec![self.n(v.g("x")), self.n(v.g("y")), self.n(v.g("z"))];
        l(name, vec![l("xyz", x)])
    }
    fn pts(&mut self, v: &V) -> Sx {
        let x = v.l().iter().map(|p| self.xy("xy", p)).collect();
        l("pts", x)
    }
    fn layers(&mut self, v: &V) -> Sx {
        let x = v.l().iter().map(|p| q(p.s())).collect();
        l("layers", x)
    }
    fn effects(&mut self, v: &V) -> Sx {
        let f = v.g("font");
        let mut x = vec![];
        let zero = f.fnum("x") == 0.0 && f.fnum("y") == 0.0;
        if !self.skip(zero) {
            x.push(self.xy("size", f))
        }
        if !self.skip(f.fnum("thickness") == 0.0) {
            x.push(self.nl("thickness", f.g("thickness")))
        }
        if f.fb("italic") {
            x.push(a("italic"))
        }
        let mut e = vec![l("font", x)];
        if !v.g("justify").is_nil() {
            e.push(l("justify", v.fs("justify").split(' ').map(a).collect()))
        }
        l("effects", e)
    }
    fn layer(&mut self, v: &V) -> Sx {
        self.sl("layer", v)
    }

    pub fn fp_element(&mut self, e: &V) -> Sx {
        match e.kind() {
            "solder_mask_margin" | "clearance" => self.nl(e.kind(), e.g("v")),
            "layer" | "descr" | "tags" | "attr" | "path" => self.sl(e.kind(), e.g("v")),
            "tedit" | "tstamp" => {
                let n = e.fi("v");
                let s = match if self.vary { self.r.below(4) } else { 0 } {
                    1 => format!("{:08X}", n),
                    2 => format!("{:x}", n),
                    _ => format!("{:X}", n),
                };
                l(e.kind(), vec![a(s)])
            }
            "locked" => a("locked"),
            "at" => self.at(e),
            "fp_text" => self.fp_text(e),
            "pad" => self.pad(e),
            "fp_poly" => {
                let mut x = vec![self.pts(e.g("pts"))];
                x.push(self.layer(e.g("layer")));
                x.push(self.nl("width", e.g("width")));
                l("fp_poly", x)
            }
            "fp_line" => {
                let mut x = vec![self.xy("start", e.g("start")), self.xy("end", e.g("end"))];
                x.push(self.layer(e.g("layer")));
                if !self.skip(e.fnum("width") == 0.0) {
                    x.push(self.nl("width", e.g("width")))
                }
                l("fp_line", x)
            }
            "fp_circle" => {
                let mut x = vec![self.xy("center", e.g("center")), self.xy("end", e.g("end"))];
                x.push(self.layer(e.g("layer")));
                if !self.skip(e.fnum("width") == 0.0) {
                    x.push(self.nl("width", e.g("width")))
                }
                l("fp_circle", x)
            }
            "fp_arc" => {
                let mut x = vec![self.xy("start", e.g("start")), self.xy("end", e.g("end"))];
                if !self.skip(e.fnum("angle") == 0.0) {
                    x.push(self.nl("angle", e.g("angle")))
                }
                x.push(self.layer(e.g("layer")));
                if !self.skip(e.fnum("width") == 0.0) {
                    x.push(self.nl("width", e.g("width")))
                }
                l("fp_arc", x)
            }
            "model" => {
                let mut x = vec![self.s(e.g("name"))];
                x.push(self.xyz("at", e.g("at")));
                x.push(self.xyz("scale", e.g("scale")));
                x.push(self.xyz("rotate", e.g("rotate")));
                l("model", x)
            }
            k => panic!("render {}", k),
        }
    }

    fn fp_text(&mut self, e: &V) -> Sx {
        let mut x = vec![self.s(e.g("name")), self.s(e.g("value"))];
        let at = e.g("at");
        if !self.skip(at.fnum("x") == 0.0 && at.fnum("y") == 0.0 && at.fnum("rot") == 0.0) {
            x.push(self.at(at))
        }
        if !self.skip(e.fs("layer") == "F.Cu") {
            x.push(self.layer(e.g("layer")))
        }
        if e.fb("hide") {
            x.push(a("hide"))
        }
        let f = e.g("effects").g("font");
        let plain = f.fnum("x") == 0.0 && f.fnum("y") == 0.0 && f.fnum("thickness") == 0.0 && !f.fb("italic") && e.g("effects").g("justify").is_nil();
        if !self.skip(plain) {
            x.push(self.effects(e.g("effects")))
        }
        l("fp_text", x)
    }

    fn drill(&mut self, d: &V) -> Sx {
        let mut x = vec![];
        let (w, h) = (d.fnum("width"), d.fnum("height"));
        if d.fb("oval") {
            x.push(a("oval"))
        }
        if w > 0.0 {
            x.push(self.n(d.g("width")));
            if h != w || (self.vary && self.r.pct(20)) {
                x.push(self.n(d.g("height")))
            }
        }
        if d.fnum("ox") != 0.0 || d.fnum("oy") != 0.0 || (self.vary && self.r.pct(10)) {
            let o = vec![self.n(d.g("ox")), self.n(d.g("oy"))];
            x.push(l("offset", o))
        }
        l("drill", x)
    }

    fn pad(&mut self, e: &V) -> Sx {
        let mut x = vec![self.s(e.g("name")), a(e.fs("type")), a(e.fs("shape"))];
        let at = e.g("at");
        if !self.skip(at.fnum("x") == 0.0 && at.fnum("y") == 0.0 && at.fnum("rot") == 0.0) {
            x.push(self.at(at))
        }
        let s = e.g("size");
        let mut xs = vec![];
        if !self.skip(s.fnum("x") == 0.0 && s.fnum("y") == 0.0) {
            xs.push(self.xy("size", s))
        }
        if !e.g("rect_delta").is_nil() {
            xs.push(self.xy("rect_delta", e.g("rect_delta")))
        }
        if self.vary && self.r.bool() {
            xs.reverse()
        }
        x.append(&mut xs);
        if !e.g("drill").is_nil() {
            x.push(self.drill(e.g("drill")))
        }
        if !self.skip(e.g("layers").l().is_empty()) {
            x.push(self.layers(e.g("layers")))
        }
        let mut parts = vec![];
        if !e.g("net").is_nil() {
            let n = e.g("net");
            let y = vec![self.i(n.g("num")), self.s(n.g("name"))];
            parts.push(l("net", y))
        }
        if !e.g("zone_connect").is_nil() {
            parts.push(self.il("zone_connect", e.g("zone_connect")))
        }
        for k in &["solder_paste_margin", "solder_mask_margin", "clearance", "thermal_gap"] {
            if !e.g(k).is_nil() {
                parts.push(self.nl(k, e.g(k)))
            }
        }
        if self.vary && self.r.bool() {
            self.r.shuffle(&mut parts)
        }
        x.append(&mut parts);
        l("pad", x)
    }

    pub fn module(&mut self, m: &V) -> Sx {
        let mut x = vec![self.s(m.g("name"))];
        for e in m.g("elements").l() {
            x.push(self.fp_element(e))
        }
        l("module", x)
    }

    // ------------------------------------------------------------ board

    fn tstamp(&mut self, x: &mut Vec<Sx>, v: &V) {
        if !v.is_nil() {
            x.push(self.sl("tstamp", v))
        }
    }

    fn gr_text(&mut self, e: &V) -> Sx {
        let mut x = vec![self.s(e.g("value")), self.at(e.g("at"))];
        x.push(self.layer(e.g("layer")));
        x.push(self.effects(e.g("effects")));
        self.tstamp(&mut x, e.g("tstamp"));
        l("gr_text", x)
    }

    pub fn board_element(&mut self, e: &V) -> Sx {
        match e.kind() {
            "module" => self.module(e),
            "net" => {
                let x = vec![self.i(e.g("num")), self.s(e.g("name"))];
                l("net", x)
            }
            "net_class" => {
                let mut x = vec![self.s(e.g("name")), self.s(e.g("desc"))];
                let mut p = vec![];
                for &(k, d) in &[("clearance", 0.1524), ("trace_width", 0.2032), ("via_dia", 0.675), ("via_drill", 0.25), ("uvia_dia", 0.508), ("uvia_drill", 0.127)] {
                    if !self.skip(e.fnum(k) == d) {
                        p.push(self.nl(k, e.g(k)))
                    }
                }
                for k in &["diff_pair_gap", "diff_pair_width"] {
                    if !e.g(k).is_nil() {
                        p.push(self.nl(k, e.g(k)))
                    }
                }
                if self.vary && self.r.pct(30) {
                    self.r.shuffle(&mut p)
                }
                let mut nets: Vec<Sx> = e.g("nets").l().iter().map(|n| l("add_net", vec![q(n.s())])).collect();
                if self.vary && self.r.pct(20) {
                    // nets keep their order but may come anywhere
                    let at = self.r.below(p.len() + 1);
                    let tail = p.split_off(at);
                    p.append(&mut nets);
                    p.extend(tail)
                } else {
                    p.append(&mut nets)
                }
                x.append(&mut p);
                l("net_class", x)
            }
            "gr_text" => self.gr_text(e),
            "gr_line" | "gr_arc" => {
                let mut x = vec![self.xy("start", e.g("start")), self.xy("end", e.g("end"))];
                if !(e.kind() == "gr_line" && self.skip(e.fnum("angle") == 0.0)) {
                    x.push(self.nl("angle", e.g("angle")))
                }
                x.push(self.layer(e.g("layer")));
                if !self.skip(e.fnum("width") == 0.0) {
                    x.push(self.nl("width", e.g("width")))
                }
                self.tstamp(&mut x, e.g("tstamp"));
                l(e.kind(), x)
            }
            "gr_circle" => {
                let mut x = vec![self.xy("center", e.g("center")), self.xy("end", e.g("end"))];
                x.push(self.layer(e.g("layer")));
                if !self.skip(e.fnum("width") == 0.0) {
                    x.push(self.nl("width", e.g("width")))
                }
                self.tstamp(&mut x, e.g("tstamp"));
                l("gr_circle", x)
            }
            "dimension" => {
                let mut x = vec![self.s(e.g("name")), self.nl("width", e.g("width"))];
                x.push(self.layer(e.g("layer")));
                self.tstamp(&mut x, e.g("tstamp"));
                x.push(self.gr_text(e.g("text")));
                for k in DIMENSION_PARTS {
                    let p = self.pts(e.g(k));
                    x.push(l(k, vec![p]))
                }
                l("dimension", x)
            }
            "segment" => {
                let mut x = vec![self.xy("start", e.g("start")), self.xy("end", e.g("end"))];
                x.push(self.nl("width", e.g("width")));
                x.push(self.layer(e.g("layer")));
                x.push(self.il("net", e.g("net")));
                self.tstamp(&mut x, e.g("tstamp"));
                if !e.g("status").is_nil() {
                    x.push(self.sl("status", e.g("status")))
                }
                l("segment", x)
            }
            "via" => {
                let mut x = vec![];
                if e.fb("blind") {
                    x.push(a("blind"))
                }
                if e.fb("micro") {
                    x.push(a("micro"))
                }
                x.push(self.at(e.g("at")));
                x.push(self.nl("size", e.g("size")));
                if e.fnum("drill") != 0.0 || (self.vary && self.r.pct(20)) {
                    x.push(self.nl("drill", e.g("drill")))
                }
                x.push(self.layers(e.g("layers")));
                if !self.skip(e.fi("net") == 0) {
                    x.push(self.il("net", e.g("net")))
                }
                l("via", x)
            }
            "zone" => self.zone(e),
            "other" => match *e.g("v") {
                V::X(ref s) => s.clone(),
                _ => panic!("other"),
            },
            k => panic!("render {}", k),
        }
    }

    fn zone(&mut self, e: &V) -> Sx {
        let mut x = vec![self.il("net", e.g("net")), self.sl("net_name", e.g("net_name"))];
        x.push(self.layer(e.g("layer")));
        x.push(self.sl("tstamp", e.g("tstamp")));
        let h = vec![self.s(e.g("hatch_style")), self.n(e.g("hatch_pitch"))];
        x.push(l("hatch", h));
        if e.fi("priority") > 0 {
            x.push(self.il("priority", e.g("priority")))
        }
        let mut c = vec![];
        if !e.g("connection").is_nil() {
            c.push(self.s(e.g("connection")))
        }
        c.push(self.nl("clearance", e.g("clearance")));
        x.push(l("connect_pads", c));
        x.push(self.nl("min_thickness", e.g("min_thickness")));
        if !e.g("keepout").is_nil() {
            let k = e.g("keepout");
            let y = ["tracks", "vias", "copperpour"]
                .iter()
                .map(|n| l(n, vec![a(if k.fb(n) { "allowed" } else { "not_allowed" })]))
                .collect();
            x.push(l("keepout", y))
        }
        let mut f = vec![];
        if e.fb("filled") {
            f.push(a("yes"))
        }
        if e.fb("segment") {
            f.push(l("mode", vec![a("segment")]))
        } else if self.vary && self.r.pct(10) {
            f.push(l("mode", vec![a("polygon")]))
        }
        f.push(self.il("arc_segments", e.g("arc_segments")));
        f.push(self.nl("thermal_gap", e.g("thermal_gap")));
        f.push(self.nl("thermal_bridge_width", e.g("thermal_bridge_width")));
        if !e.g("smoothing").is_nil() {
            f.push(self.sl("smoothing", e.g("smoothing")))
        }
        if e.fnum("radius") != 0.0 || (self.vary && self.r.pct(10)) {
            f.push(self.nl("radius", e.g("radius")))
        }
        x.push(l("fill", f));
        // the three kinds of outline and foreign parts keep their order within each kind
        let mut groups: Vec<Vec<Sx>> = vec![];
        for &(k, n) in &[("polygons", "polygon"), ("filled_polygons", "filled_polygon")] {
            let g = e.g(k).l().iter().map(|p| l(n, vec![self.pts(p)])).collect();
            groups.push(g)
        }
        if !e.g("fill_segments").is_nil() {
            let p = self.pts(e.g("fill_segments"));
            groups.push(vec![l("fill_segments", vec![p])])
        }
        groups.push(
            e.g("other")
                .l()
                .iter()
                .map(|o| match *o {
                    V::X(ref s) => s.clone(),
                    _ => panic!("other"),
                })
                .collect(),
        );
        if self.vary && self.r.pct(40) {
            // interleave
            let mut its: Vec<std::collections::VecDeque<Sx>> = groups.into_iter().map(|g| g.into_iter().collect()).collect();
            loop {
                its.retain(|i| !i.is_empty());
                if its.is_empty() {
                    break;
                }
                let k = self.r.below(its.len());
                x.push(its[k].pop_front().unwrap())
            }
        } else {
            for g in groups {
                x.extend(g)
            }
        }
        l("zone", x)
    }

    fn se(&mut self, e: &V) -> Sx {
        let mut x = vec![q(e.fs("name")), q(e.fs("v1"))];
        if !e.g("v2").is_nil() {
            x.push(q(e.fs("v2")))
        }
        Sx::L(x)
    }

    pub fn board(&mut self, b: &V) -> Sx {
        let mut x = vec![];
        if !self.skip(b.fi("version") == 4) {
            x.push(self.il("version", b.g("version")))
        }
        if !self.skip(b.fs("host_tool") == "pcbnew" && b.fs("host_build") == "custom") {
            let h = vec![self.s(b.g("host_tool")), self.s(b.g("host_build"))];
            x.push(l("host", h))
        }
        let g = b.g("general");
        let default = ["links", "no_connects", "drawings", "tracks", "zones", "modules", "nets"].iter().all(|k| g.fi(k) == 0)
            && ["x1", "y1", "x2", "y2"].iter().all(|k| g.fnum(k) == 0.0)
            && g.fnum("thickness") == 1.6;
        if !self.skip(default) {
            let mut y = vec![self.il("links", g.g("links")), self.il("no_connects", g.g("no_connects"))];
            let ar = vec![self.n(g.g("x1")), self.n(g.g("y1")), self.n(g.g("x2")), self.n(g.g("y2"))];
            y.push(l("area", ar));
            y.push(self.nl("thickness", g.g("thickness")));
            for k in &["drawings", "tracks", "zones", "modules", "nets"] {
                y.push(self.il(k, g.g(k)))
            }
            x.push(l("general", y))
        }
        if !self.skip(b.fs("page") == "A4") {
            x.push(self.sl("page", b.g("page")))
        }
        if !self.skip(b.g("layers").l().is_empty()) {
            let y = b.g("layers")
                .l()
                .iter()
                .map(|e| {
                    let mut z = vec![a(format!("{}", e.fi("num"))), q(e.fs("name")), a(e.fs("type"))];
                    if e.fb("hide") {
                        z.push(a("hide"))
                    }
                    Sx::L(z)
                })
                .collect();
            x.push(l("layers", y))
        }
        let nosetup = b.g("setup").l().is_empty() && b.g("plot").l().is_empty();
        if !self.skip(nosetup) {
            let mut y: Vec<Sx> = b.g("setup").l().iter().map(|e| self.se(e)).collect();
            if !self.skip(b.g("plot").l().is_empty()) {
                let p = b.g("plot").l().iter().map(|e| self.se(e)).collect();
                let at = if self.vary && self.r.pct(20) { self.r.below(y.len() + 1) } else { y.len() };
                y.insert(at, l("pcbplotparams", p))
            }
            x.push(l("setup", y))
        }
        for e in b.g("elements").l() {
            x.push(self.board_element(e))
        }
        l("kicad_pcb", x)
    }

    pub fn table(&mut self, t: &V) -> Sx {
        let x = t.g("libs")
            .l()
            .iter()
            .map(|e| {
                l("lib", ["name", "type", "uri", "options", "descr"].iter().map(|k| l(k, vec![q(e.fs(k))])).collect())
            })
            .collect();
        l("fp_lib_table", x)
    }

    // ------------------------------------------------------------ line formats

    /// blanks between two tokens
    fn gap(&mut self) -> &'static str {
        if self.vary {
            *self.r.pick(&[" ", " ", " ", "  ", "    "])
        } else {
            " "
        }
    }

    fn toks(&mut self, t: &[String]) -> String {
        let mut s = String::new();
        for (i, x) in t.iter().enumerate() {
            if i > 0 {
                s.push_str(self.gap())
            }
            s.push_str(x)
        }
        s
    }

    fn num(&mut self, v: &V) -> String {
        match *v {
            V::I(x) => format!("{}", x),
            V::N(x) => if self.vary { num_text(self.r, x) } else { format!("{}", x) },
            _ => panic!("num {:?}", v),
        }
    }

    pub fn field_line(&mut self, f: &V) -> String {
        let mut t = vec!["F".to_string(), format!("{}", f.fi("i")), format!("\"{}\"", f.fs("value")), f.fs("orientation").to_string()];
        t.push(self.num(f.g("x")));
        t.push(self.num(f.g("y")));
        t.push(self.num(f.g("size")));
        t.push(if f.fb("visible") { "0000" } else { "0001" }.to_string());
        t.push(f.fs("hjustify").to_string());
        t.push(format!("{}{}{}", f.fs("vjustify"), if f.fb("italic") { 'I' } else { 'N' }, if f.fb("bold") { 'B' } else { 'N' }));
        if f.fi("i") > 3 || f.fs("name") != default_name(f.fi("i")) || (self.vary && self.r.pct(3)) {
            t.push(format!("\"{}\"", f.fs("name")))
        }
        self.toks(&t)
    }

    fn component(&mut self, c: &V, o: &mut Vec<String>) {
        o.push("$Comp".into());
        let t = self.toks(&["L".into(), c.fs("name").into(), c.fs("reference").into()]);
        o.push(t);
        if !c.fs("u").is_empty() {
            o.push(c.fs("u").into())
        }
        let t = self.toks(&["P".into(), format!("{}", c.fi("x")), format!("{}", c.fi("y"))]);
        o.push(t);
        for x in c.g("ar").l() {
            o.push(x.s().into())
        }
        for f in c.g("fields").l() {
            let t = self.field_line(f);
            o.push(t)
        }
        let unit = c.fs("u").split_whitespace().nth(1).unwrap_or("1").to_string();
        let t = self.toks(&[unit, format!("{}", c.fi("x")), format!("{}", c.fi("y"))]);
        o.push(format!("\t{}", t));
        let rot: Vec<String> = c.g("rot").l().iter().map(|x| format!("{}", x.i())).collect();
        let t = self.toks(&rot);
        let pad = if self.vary && self.r.bool() { "  " } else { "" };
        o.push(format!("\t{}{}", t, pad));
        o.push("$EndComp".into());
    }

    fn sheet(&mut self, s: &V, o: &mut Vec<String>) {
        o.push("$Sheet".into());
        let n = |k: &str| format!("{}", s.fi(k));
        let t = self.toks(&["S".into(), n("x"), n("y"), n("dimx"), n("dimy")]);
        o.push(t);
        let t = self.toks(&["U".into(), s.fs("unique").into()]);
        o.push(t);
        let t = self.toks(&["F0".into(), format!("\"{}\"", s.fs("name")), n("name_size")]);
        o.push(t);
        let t = self.toks(&["F1".into(), format!("\"{}\"", s.fs("filename")), n("filename_size")]);
        o.push(t);
        for (i, b) in s.g("labels").l().iter().enumerate() {
            let t = self.toks(&[
                format!("F{}", i + 2),
                format!("\"{}\"", b.fs("name")),
                b.fs("form").into(),
                b.fs("side").into(),
                format!("{}", b.fi("x")),
                format!("{}", b.fi("y")),
                format!("{}", b.fi("size")),
            ]);
            o.push(t)
        }
        o.push("$EndSheet".into());
    }

    pub fn sch_element(&mut self, e: &V, o: &mut Vec<String>) {
        match e.kind() {
            "comp" => self.component(e, o),
            "wire" => {
                let t = self.toks(&["Wire".into(), e.fs("t").into(), "Line".into()]);
                o.push(t);
                let c: Vec<String> = ["x1", "y1", "x2", "y2"].iter().map(|k| format!("{}", e.fi(k))).collect();
                let t = self.toks(&c);
                o.push(format!("\t{}", t))
            }
            "conn" | "noconn" => {
                let k = if e.kind() == "conn" { "Connection" } else { "NoConn" };
                let t = self.toks(&[k.into(), "~".into(), format!("{}", e.fi("x")), format!("{}", e.fi("y"))]);
                o.push(t)
            }
            "text" => {
                let mut t: Vec<String> = vec!["Text".into(), e.fs("t").into()];
                for k in &["x", "y", "orientation", "size"] {
                    t.push(format!("{}", e.fi(k)))
                }
                if !e.g("shape").is_nil() {
                    t.push(e.fs("shape").into())
                }
                t.push(if e.fb("italic") { "Italic" } else { "~" }.into());
                t.push(format!("{}", e.fi("thickness")));
                let t = self.toks(&t);
                o.push(t);
                o.push(e.fs("text").into())
            }
            "other" => o.push(e.fs("v").into()),
            "sheet" => self.sheet(e, o),
            k => panic!("render {}", k),
        }
    }

    fn description(&mut self, d: &V, o: &mut Vec<String>) {
        let mut t = vec!["$Descr".to_string(), d.fs("size").into(), format!("{}", d.fi("dimx")), format!("{}", d.fi("dimy"))];
        if d.fb("portrait") {
            t.push("portrait".into())
        }
        let t = self.toks(&t);
        o.push(t);
        o.push("encoding utf-8".into());
        let t = self.toks(&["Sheet".into(), format!("{}", d.fi("sheet")), format!("{}", d.fi("sheet_count"))]);
        o.push(t);
        for &(k, f) in DESCR {
            let t = self.toks(&[k.into(), format!("\"{}\"", d.fs(f))]);
            o.push(t)
        }
        o.push("$EndDescr".into());
    }

    pub fn schematic_lines(&mut self, s: &V) -> Vec<String> {
        let mut o: Vec<String> = vec!["EESchema Schematic File Version 2".into()];
        for x in s.g("libraries").l() {
            o.push(format!("LIBS:{}", x.s()))
        }
        o.push(s.fs("eelayer").into());
        o.push("EELAYER END".into());
        self.description(s.g("descr"), &mut o);
        // sheets may come anywhere between the elements
        let mut slots: Vec<(usize, usize)> = vec![];
        let n = s.g("elements").l().len();
        for i in 0..s.g("sheets").l().len() {
            slots.push((if self.vary && self.r.bool() { self.r.below(n + 1) } else { n }, i))
        }
        let mut k: Vec<usize> = slots.iter().map(|x| x.0).collect();
        k.sort();
        let mut next = 0;
        for i in 0..n + 1 {
            while next < k.len() && k[next] == i {
                self.sheet(&s.g("sheets").l()[next], &mut o);
                next += 1
            }
            if i < n {
                self.sch_element(&s.g("elements").l()[i], &mut o)
            }
        }
        o.push("$EndSCHEMATC".into());
        o
    }

    pub fn sym_field_line(&mut self, f: &V) -> String {
        let mut t = vec![format!("F{}", f.fi("i")), format!("\"{}\"", f.fs("value"))];
        t.push(self.num(f.g("x")));
        t.push(self.num(f.g("y")));
        t.push(self.num(f.g("dimension")));
        t.push(f.fs("orientation").into());
        t.push(if f.fb("visible") { "V" } else { "I" }.to_string());
        t.push(f.fs("hjustify").to_string());
        t.push(format!("{}{}{}", f.fs("vjustify"), if f.fb("italic") { 'I' } else { 'N' }, if f.fb("bold") { 'B' } else { 'N' }));
        if f.fi("i") > 3 || f.fs("name") != default_name(f.fi("i")) || (self.vary && self.r.pct(3)) {
            t.push(format!("\"{}\"", f.fs("name")))
        }
        self.toks(&t)
    }

    pub fn draw_line(&mut self, d: &V) -> String {
        match d.kind() {
            "pin" => {
                let n = |k: &str| format!("{}", d.fi(k));
                let mut t: Vec<String> = vec![
                    "X".into(), d.fs("name").into(), d.fs("number").into(), n("x"), n("y"), n("len"), d.fs("orientation").into(),
                    n("num_size"), n("name_size"), n("unit"), n("convert"), d.fs("type").into(),
                ];
                let shape = format!("{}{}", if d.fb("visible") { "" } else { "N" }, d.fs("shape"));
                if !shape.is_empty() {
                    t.push(shape)
                }
                let mut s = self.toks(&t);
                // the line must start with "X "
                s = s.trim().to_string();
                s
            }
            "rect" => {
                let n = |k: &str| format!("{}", d.fi(k));
                let t: Vec<String> = vec!["S".into(), n("x1"), n("y1"), n("x2"), n("y2"), n("unit"), n("convert"), n("thickness"), d.fs("fill").into()];
                self.toks(&t)
            }
            "other" => d.fs("v").into(),
            k => panic!("render {}", k),
        }
    }

    pub fn symbol_lines(&mut self, s: &V, o: &mut Vec<String>) {
        let f = s.g("fields").l();
        let title = if f.len() > 1 { f[1].fs("value").to_string() } else { s.fs("name").to_string() };
        o.push(format!("# {}", title));
        o.push("#".into());
        let yn = |b: bool| if b { "Y".to_string() } else { "N".to_string() };
        let off = self.num(s.g("text_offset"));
        let t = self.toks(&[
            "DEF".into(), s.fs("name").into(), s.fs("reference").into(), "0".into(), off, yn(s.fb("pinnumber")), yn(s.fb("pinname")),
            format!("{}", s.fi("unit_count")), if s.fb("locked") { "L".into() } else { "F".into() }, if s.fb("power") { "P".into() } else { "N".into() },
        ]);
        o.push(t);
        for x in f {
            let t = self.sym_field_line(x);
            o.push(t)
        }
        let mut al = vec![];
        if !s.g("aliases").l().is_empty() {
            let mut t = vec!["ALIAS".to_string()];
            t.extend(s.g("aliases").l().iter().map(|x| x.s().to_string()));
            al.push(self.toks(&t))
        }
        let mut fp = vec![];
        if !s.g("fp").l().is_empty() {
            fp.push("$FPLIST".to_string());
            for x in s.g("fp").l() {
                fp.push(format!(" {}", x.s()))
            }
            fp.push("$ENDFPLIST".to_string());
        }
        if self.vary && self.r.pct(30) {
            o.append(&mut fp);
            o.append(&mut al)
        } else {
            o.append(&mut al);
            o.append(&mut fp)
        }
        o.push("DRAW".into());
        for d in s.g("draw").l() {
            let t = self.draw_line(d);
            o.push(t)
        }
        o.push("ENDDRAW".into());
        o.push("ENDDEF".into());
        o.push("#".into());
    }

    pub fn lib_lines(&mut self, s: &V) -> Vec<String> {
        let mut o: Vec<String> = vec!["EESchema-LIBRARY Version 2.3".into(), "#encoding utf-8".into(), "#".into()];
        for x in s.g("symbols").l() {
            self.symbol_lines(x, &mut o)
        }
        o.push("#End Library".into());
        o
    }
}

pub const DIMENSION_PARTS: &[&str] = &["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"];
pub const DESCR: &[(&str, &str)] = &[
    ("Title", "title"), ("Date", "date"), ("Rev", "rev"), ("Comp", "comp"), ("Comment1", "comment1"), ("Comment2", "comment2"),
    ("Comment3", "comment3"), ("Comment4", "comment4"),
];

/// join lines to a file
pub fn join(r: &mut Rng, lines: &[String], vary: bool) -> String {
    let crlf = vary && r.pct(15);
    let mut s = String::new();
    for (i, x) in lines.iter().enumerate() {
        s.push_str(x);
        if i + 1 < lines.len() || !vary || r.pct(90) {
            s.push_str(if crlf { "\r\n" } else { "\n" })
        }
    }
    s
}

/// render a whole document of any kind
pub fn document(v: &V, r: &mut Rng, vary: bool) -> String {
    use crate::sx;
    let style = if vary { sx::any_style(r) } else { sx::Style::Kicad };
    match v.kind() {
        "module" => {
            let x = Rend { r, vary }.module(v);
            sx::emit(&x, r, style)
        }
        "board" => {
            let x = Rend { r, vary }.board(v);
            sx::emit(&x, r, style)
        }
        "table" => {
            let x = Rend { r, vary }.table(v);
            sx::emit(&x, r, style)
        }
        "sch" => {
            let x = Rend { r, vary }.schematic_lines(v);
            join(r, &x, vary)
        }
        "lib" => {
            let x = Rend { r, vary }.lib_lines(v);
            join(r, &x, vary)
        }
        k => panic!("document {}", k),
    }
}
