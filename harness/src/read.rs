//! Own readers for every format: text to reference model.
//! Strict about what appears (unknown keywords, surplus values), lenient about the order of sub-lists.

use crate::r;
use crate::render::{DESCR, DIMENSION_PARTS};
use crate::sx::{self, Sx};
use crate::v::V;

type R<T> = Result<T, String>;

/// a list taken apart: leading words and named sub-lists
struct P<'a> {
    name: String,
    atoms: Vec<&'a str>,
    lists: Vec<(String, &'a Sx, bool)>,
}

fn p<'a>(s: &'a Sx) -> R<P<'a>> {
    let v = s.list().ok_or_else(|| format!("expected a list, got {:?}", s.atom()))?;
    if v.is_empty() || v[0].atom().is_none() {
        return Err(format!("list without a name: {}", s.flat()));
    }
    let mut atoms = vec![];
    let mut lists = vec![];
    for x in &v[1..] {
        match x.atom() {
            Some(t) => atoms.push(t),
            None => lists.push((x.head().to_string(), x, false)),
        }
    }
    Ok(P { name: v[0].text().to_string(), atoms, lists })
}

impl<'a> P<'a> {
    fn opt(&mut self, n: &str) -> R<Option<&'a Sx>> {
        let mut f = None;
        for x in self.lists.iter_mut() {
            if x.0 == n {
                if f.is_some() {
                    return Err(format!("several ({} ...) in ({} ...)", n, self.name));
                }
                x.2 = true;
                f = Some(x.1)
            }
        }
        Ok(f)
    }
    fn all(&mut self, n: &str) -> Vec<&'a Sx> {
        let mut f = vec![];
        for x in self.lists.iter_mut() {
            if x.0 == n {
                x.2 = true;
                f.push(x.1)
            }
        }
        f
    }
    fn req(&mut self, n: &str) -> R<&'a Sx> {
        let name = self.name.clone();
        self.opt(n)?.ok_or_else(|| format!("no ({} ...) in ({} ...)", n, name))
    }
    fn rest(&mut self) -> Vec<&'a Sx> {
        let mut f = vec![];
        for x in self.lists.iter_mut() {
            if !x.2 {
                x.2 = true;
                f.push(x.1)
            }
        }
        f
    }
    /// take a flag word out of the atoms from position `from` on
    fn flag(&mut self, from: usize, n: &str) -> bool {
        match self.atoms.iter().skip(from).position(|x| *x == n) {
            Some(k) => {
                self.atoms.remove(from + k);
                true
            }
            None => false,
        }
    }
    fn end(&self, atoms: usize) -> R<()> {
        if self.atoms.len() != atoms {
            return Err(format!("({} ...) has words {:?}, expected {}", self.name, self.atoms, atoms));
        }
        match self.lists.iter().find(|x| !x.2) {
            Some(x) => Err(format!("unexpected ({} ...) in ({} ...)", x.0, self.name)),
            None => Ok(()),
        }
    }
    fn atoms_only(&self, atoms: usize) -> R<()> {
        self.end(atoms)
    }
    fn optn(&mut self, n: &str) -> R<Option<f64>> {
        match self.opt(n)? {
            Some(x) => Ok(Some(num(one(x)?)?)),
            None => Ok(None),
        }
    }
    fn n(&mut self, n: &str) -> R<f64> {
        num(one(self.req(n)?)?)
    }
    fn i(&mut self, n: &str) -> R<i64> {
        int(one(self.req(n)?)?)
    }
    fn s(&mut self, n: &str) -> R<&'a str> {
        one(self.req(n)?)
    }
    fn opts(&mut self, n: &str) -> R<Option<&'a str>> {
        match self.opt(n)? {
            Some(x) => Ok(Some(one(x)?)),
            None => Ok(None),
        }
    }
}

/// the single word of a list
fn one(s: &Sx) -> R<&str> {
    let x = p(s)?;
    x.atoms_only(1)?;
    Ok(x.atoms[0])
}

fn num(s: &str) -> R<f64> {
    s.parse::<f64>().map_err(|_| format!("not a number: {:?}", s))
}
fn int(s: &str) -> R<i64> {
    s.parse::<i64>().map_err(|_| format!("not an integer: {:?}", s))
}
fn hex(s: &str) -> R<i64> {
    i64::from_str_radix(s, 16).map_err(|_| format!("not hexadecimal: {:?}", s))
}

fn at(s: &Sx) -> R<V> {
    let x = p(s)?;
    let n = x.atoms.len();
    x.end(if n == 3 { 3 } else { 2 })?;
    Ok(r!("at"; x: num(x.atoms[0])?, y: num(x.atoms[1])?, rot: if n == 3 { num(x.atoms[2])? } else { 0.0 }))
}
fn xy(s: &Sx) -> R<V> {
    let x = p(s)?;
    x.end(2)?;
    Ok(r!("xy"; x: num(x.atoms[0])?, y: num(x.atoms[1])?))
}
fn xyz(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    let y = p(x.req("xyz")?)?;
    x.end(0)?;
    y.end(3)?;
    Ok(r!("xyz"; x: num(y.atoms[0])?, y: num(y.atoms[1])?, z: num(y.atoms[2])?))
}
/// `(pts (xy ..)..)`
fn pts(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    if x.name != "pts" {
        return Err("pts expected".into());
    }
    let mut v = vec![];
    for e in x.all("xy") {
        v.push(xy(e)?)
    }
    x.end(0)?;
    Ok(V::L(v))
}
/// `(name (pts ..))`
fn in_pts(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    let v = pts(x.req("pts")?)?;
    x.end(0)?;
    Ok(v)
}
fn layers(s: &Sx) -> R<V> {
    let x = p(s)?;
    x.end(x.atoms.len())?;
    Ok(V::L(x.atoms.iter().map(|t| V::from(*t)).collect()))
}

fn effects(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    let mut f = p(x.req("font")?)?;
    let italic = f.flag(0, "italic");
    let size = match f.opt("size")? {
        Some(s) => xy(s)?,
        None => r!("xy"; x: 0.0, y: 0.0),
    };
    let thickness = f.optn("thickness")?.unwrap_or(0.0);
    f.end(0)?;
    let justify = match x.opt("justify")? {
        None => V::Nil,
        Some(j) => {
            let j = p(j)?;
            j.end(j.atoms.len())?;
            oneof(&j.atoms.join(" "), &["left", "right", "mirror", "left mirror", "right mirror"])?
        }
    };
    x.end(0)?;
    Ok(r!("effects";
        font: r!("font"; x: size.fnum("x"), y: size.fnum("y"), thickness: thickness, italic: italic),
        justify: justify))
}

fn at0() -> V {
    r!("at"; x: 0.0, y: 0.0, rot: 0.0)
}

fn fp_text(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    let hide = x.flag(2, "hide");
    let a = match x.opt("at")? {
        Some(a) => at(a)?,
        None => at0(),
    };
    let layer = x.opts("layer")?.unwrap_or("F.Cu");
    let e = match x.opt("effects")? {
        Some(e) => effects(e)?,
        None => crate::gen::effects0(),
    };
    x.end(2)?;
    Ok(r!("fp_text"; name: x.atoms[0], value: x.atoms[1], at: a, layer: layer, hide: hide, effects: e))
}

fn drill(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    let oval = x.flag(0, "oval");
    let (mut ox, mut oy) = (0.0, 0.0);
    if let Some(o) = x.opt("offset")? {
        let o = xy(o)?;
        ox = o.fnum("x");
        oy = o.fnum("y")
    }
    if x.atoms.len() > 2 {
        return Err("drill with too many numbers".into());
    }
    x.end(x.atoms.len())?;
    let w = if x.atoms.is_empty() { 0.0 } else { num(x.atoms[0])? };
    let h = if x.atoms.len() == 2 { num(x.atoms[1])? } else { w };
    Ok(r!("drill"; oval: oval, width: w, height: h, ox: ox, oy: oy))
}

fn oneof(s: &str, v: &[&str]) -> R<V> {
    if v.contains(&s) {
        Ok(V::from(s))
    } else {
        Err(format!("{:?} is none of {:?}", s, v))
    }
}

fn pad(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    if x.atoms.len() != 3 {
        return Err(format!("pad with words {:?}", x.atoms));
    }
    let a = match x.opt("at")? {
        Some(a) => at(a)?,
        None => at0(),
    };
    let size = match x.opt("size")? {
        Some(s) => xy(s)?,
        None => r!("xy"; x: 0.0, y: 0.0),
    };
    let rd = match x.opt("rect_delta")? {
        Some(s) => xy(s)?,
        None => V::Nil,
    };
    let d = match x.opt("drill")? {
        Some(d) => drill(d)?,
        None => V::Nil,
    };
    let ly = match x.opt("layers")? {
        Some(d) => layers(d)?,
        None => V::L(vec![]),
    };
    let net = match x.opt("net")? {
        Some(n) => net(n)?,
        None => V::Nil,
    };
    let zc = match x.opts("zone_connect")? {
        Some(n) => V::I(int(n)?),
        None => V::Nil,
    };
    let v = r!("pad"; name: x.atoms[0], type: oneof(x.atoms[1], &["smd", "thru_hole", "np_thru_hole"])?,
        shape: oneof(x.atoms[2], &["rect", "circle", "oval", "trapezoid"])?, at: a, size: size, rect_delta: rd, drill: d, layers: ly, net: net,
        zone_connect: zc,
        solder_paste_margin: x.optn("solder_paste_margin")?, solder_mask_margin: x.optn("solder_mask_margin")?,
        clearance: x.optn("clearance")?, thermal_gap: x.optn("thermal_gap")?);
    x.end(3)?;
    Ok(v)
}

fn net(s: &Sx) -> R<V> {
    let x = p(s)?;
    x.end(2)?;
    Ok(r!("net"; num: int(x.atoms[0])?, name: x.atoms[1]))
}

pub fn fp_element(s: &Sx) -> R<V> {
    if let Some(t) = s.atom() {
        return if t == "locked" { Ok(r!("locked")) } else { Err(format!("unexpected word {:?} in module", t)) };
    }
    let mut x = p(s)?;
    let name = x.name.clone();
    Ok(match &name[..] {
        "solder_mask_margin" => r!("solder_mask_margin"; v: num(one(s)?)?),
        "clearance" => r!("clearance"; v: num(one(s)?)?),
        "layer" => r!("layer"; v: one(s)?),
        "descr" => r!("descr"; v: one(s)?),
        "tags" => r!("tags"; v: one(s)?),
        "attr" => r!("attr"; v: one(s)?),
        "path" => r!("path"; v: one(s)?),
        "tedit" => r!("tedit"; v: hex(one(s)?)?),
        "tstamp" => r!("tstamp"; v: hex(one(s)?)?),
        "at" => at(s)?,
        "fp_text" => fp_text(s)?,
        "pad" => pad(s)?,
        "fp_poly" => {
            let v = r!("fp_poly"; pts: pts(x.req("pts")?)?, layer: x.s("layer")?, width: x.n("width")?);
            x.end(0)?;
            v
        }
        "fp_line" => {
            let v = r!("fp_line"; start: xy(x.req("start")?)?, end: xy(x.req("end")?)?, layer: x.s("layer")?, width: x.optn("width")?.unwrap_or(0.0));
            x.end(0)?;
            v
        }
        "fp_circle" => {
            let v = r!("fp_circle"; center: xy(x.req("center")?)?, end: xy(x.req("end")?)?, layer: x.s("layer")?, width: x.optn("width")?.unwrap_or(0.0));
            x.end(0)?;
            v
        }
        "fp_arc" => {
            let v = r!("fp_arc"; start: xy(x.req("start")?)?, end: xy(x.req("end")?)?, angle: x.optn("angle")?.unwrap_or(0.0), layer: x.s("layer")?,
                width: x.optn("width")?.unwrap_or(0.0));
            x.end(0)?;
            v
        }
        "model" => {
            if x.atoms.is_empty() {
                return Err("model without a name".into());
            }
            let v = r!("model"; name: x.atoms[0], at: xyz(x.req("at")?)?, scale: xyz(x.req("scale")?)?, rotate: xyz(x.req("rotate")?)?);
            x.end(1)?;
            v
        }
        n => return Err(format!("unexpected ({} ...) in module", n)),
    })
}

fn module_sx(s: &Sx) -> R<V> {
    let v = s.list().ok_or("not a list")?;
    if s.head() != "module" || v.len() < 2 {
        return Err("not a module".into());
    }
    let name = v[1].atom().ok_or("module without a name")?;
    let mut e = vec![];
    for x in &v[2..] {
        e.push(fp_element(x)?)
    }
    Ok(r!("module"; name: name, elements: V::L(e)))
}

pub fn module(s: &str) -> R<V> {
    module_sx(&sx::read(s)?)
}

fn tstamp<'a>(x: &mut P<'a>) -> R<V> {
    Ok(V::from(x.opts("tstamp")?))
}

fn gr_text(s: &Sx) -> R<V> {
    let mut x = p(s)?;
    if x.atoms.is_empty() {
        return Err("gr_text without a text".into());
    }
    let v = r!("gr_text"; value: x.atoms[0], at: at(x.req("at")?)?, layer: x.s("layer")?, effects: effects(x.req("effects")?)?, tstamp: tstamp(&mut x)?);
    x.end(1)?;
    Ok(v)
}

pub fn board_element(s: &Sx) -> R<V> {
    let mut x = match p(s) {
        Ok(x) => x,
        Err(_) => return Ok(r!("other"; v: s.clone())),
    };
    let name = x.name.clone();
    Ok(match &name[..] {
        "module" => module_sx(s)?,
        "net" => net(s)?,
        "net_class" => {
            if x.atoms.len() != 2 {
                return Err("net_class words".into());
            }
            let mut nets = vec![];
            for n in x.all("add_net") {
                nets.push(V::from(one(n)?))
            }
            let v = r!("net_class"; name: x.atoms[0], desc: x.atoms[1], clearance: x.optn("clearance")?.unwrap_or(0.1524),
                trace_width: x.optn("trace_width")?.unwrap_or(0.2032), via_dia: x.optn("via_dia")?.unwrap_or(0.675),
                via_drill: x.optn("via_drill")?.unwrap_or(0.25), uvia_dia: x.optn("uvia_dia")?.unwrap_or(0.508),
                uvia_drill: x.optn("uvia_drill")?.unwrap_or(0.127), diff_pair_gap: x.optn("diff_pair_gap")?,
                diff_pair_width: x.optn("diff_pair_width")?, nets: V::L(nets));
            x.end(2)?;
            v
        }
        "gr_text" => gr_text(s)?,
        "gr_line" | "gr_arc" => {
            let v = |k: &'static str, x: &mut P| -> R<V> {
                Ok(r!(k; start: xy(x.req("start")?)?, end: xy(x.req("end")?)?, angle: x.optn("angle")?.unwrap_or(0.0), layer: x.s("layer")?,
                    width: x.optn("width")?.unwrap_or(0.0), tstamp: tstamp(x)?))
            };
            let v = v(if name == "gr_line" { "gr_line" } else { "gr_arc" }, &mut x)?;
            x.end(0)?;
            v
        }
        "gr_circle" => {
            let v = r!("gr_circle"; center: xy(x.req("center")?)?, end: xy(x.req("end")?)?, layer: x.s("layer")?,
                width: x.optn("width")?.unwrap_or(0.0), tstamp: tstamp(&mut x)?);
            x.end(0)?;
            v
        }
        "dimension" => {
            if x.atoms.is_empty() {
                return Err("dimension without a name".into());
            }
            let mut v = vec![
                ("name", V::from(x.atoms[0])),
                ("width", V::N(x.n("width")?)),
                ("layer", V::from(x.s("layer")?)),
                ("tstamp", tstamp(&mut x)?),
                ("text", gr_text(x.req("gr_text")?)?),
            ];
            for k in DIMENSION_PARTS {
                v.push((k, in_pts(x.req(k)?)?))
            }
            x.end(1)?;
            V::R("dimension", v)
        }
        "segment" => {
            let v = r!("segment"; start: xy(x.req("start")?)?, end: xy(x.req("end")?)?, width: x.n("width")?, layer: x.s("layer")?,
                net: x.i("net")?, tstamp: tstamp(&mut x)?, status: x.opts("status")?);
            x.end(0)?;
            v
        }
        "via" => {
            let (blind, micro) = (x.flag(0, "blind"), x.flag(0, "micro"));
            let v = r!("via"; blind: blind, micro: micro, at: at(x.req("at")?)?, size: x.n("size")?, drill: x.optn("drill")?.unwrap_or(0.0),
                layers: layers(x.req("layers")?)?, net: match x.opts("net")? { Some(n) => int(n)?, None => 0 });
            x.end(0)?;
            v
        }
        "zone" => zone(x)?,
        _ => r!("other"; v: s.clone()),
    })
}

fn zone(mut x: P) -> R<V> {
    let h = p(x.req("hatch")?)?;
    h.end(2)?;
    let mut c = p(x.req("connect_pads")?)?;
    let clearance = c.n("clearance")?;
    if c.atoms.len() > 1 {
        return Err("connect_pads words".into());
    }
    c.end(c.atoms.len())?;
    let keepout = match x.opt("keepout")? {
        None => V::Nil,
        Some(k) => {
            let mut k = p(k)?;
            let mut al = |n: &str| -> R<bool> {
                match k.s(n)? {
                    "allowed" => Ok(true),
                    "not_allowed" => Ok(false),
                    w => Err(format!("keepout {}", w)),
                }
            };
            let v = r!("keepout"; tracks: al("tracks")?, vias: al("vias")?, copperpour: al("copperpour")?);
            k.end(0)?;
            v
        }
    };
    let mut f = p(x.req("fill")?)?;
    let filled = f.flag(0, "yes");
    let segment = match f.opts("mode")? {
        None | Some("polygon") => false,
        Some("segment") => true,
        Some(m) => return Err(format!("fill mode {}", m)),
    };
    let (arc, tg, tb, sm, rad) = (
        f.i("arc_segments")?, f.n("thermal_gap")?, f.n("thermal_bridge_width")?, V::from(f.opts("smoothing")?), f.optn("radius")?.unwrap_or(0.0),
    );
    f.end(0)?;
    let mut polys = vec![];
    for e in x.all("polygon") {
        polys.push(in_pts(e)?)
    }
    let mut filled_polys = vec![];
    for e in x.all("filled_polygon") {
        filled_polys.push(in_pts(e)?)
    }
    let segs = match x.opt("fill_segments")? {
        None => V::Nil,
        Some(e) => in_pts(e)?,
    };
    let (net, net_name, layer, ts) = (x.i("net")?, V::from(x.s("net_name")?), V::from(x.s("layer")?), V::from(x.s("tstamp")?));
    let priority = match x.opts("priority")? {
        None => 0,
        Some(n) => int(n)?,
    };
    let min = x.n("min_thickness")?;
    let other: Vec<V> = x.rest().into_iter().map(|s| V::X(s.clone())).collect();
    x.end(0)?;
    Ok(r!("zone"; net: net, net_name: net_name, layer: layer, tstamp: ts, hatch_style: h.atoms[0], hatch_pitch: num(h.atoms[1])?,
        priority: priority, connection: V::from(c.atoms.first().cloned()), clearance: clearance, min_thickness: min, keepout: keepout,
        filled: filled, segment: segment, arc_segments: arc, thermal_gap: tg, thermal_bridge_width: tb, smoothing: sm, radius: rad,
        polygons: V::L(polys), filled_polygons: V::L(filled_polys), fill_segments: segs, other: V::L(other)))
}

fn se(s: &Sx) -> R<V> {
    let v = s.list().ok_or("setup word")?;
    let t: Vec<&str> = v.iter().filter_map(|x| x.atom()).collect();
    if t.len() != v.len() || t.len() < 2 || t.len() > 3 {
        return Err(format!("setup entry {}", s.flat()));
    }
    Ok(r!("se"; name: t[0], v1: t[1], v2: V::from(t.get(2).cloned())))
}

pub fn board(s: &str) -> R<V> {
    let s = sx::read(s)?;
    if s.head() != "kicad_pcb" {
        return Err("not a board".into());
    }
    let mut version = 4;
    let (mut tool, mut build) = ("pcbnew".to_string(), "custom".to_string());
    let mut general = r!("general"; links: 0i64, no_connects: 0i64, x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0, thickness: 1.6,
        drawings: 0i64, tracks: 0i64, zones: 0i64, modules: 0i64, nets: 0i64);
    let mut page = "A4".to_string();
    let mut blayers = vec![];
    let (mut setup, mut plot) = (vec![], vec![]);
    let mut elements = vec![];
    let mut seen: Vec<String> = vec![];
    for e in &s.list().unwrap()[1..] {
        if let Some(t) = e.atom() {
            return Err(format!("unexpected word {:?} in board", t));
        }
        let h = e.head();
        if ["version", "host", "general", "page", "layers", "setup"].contains(&h) {
            if seen.contains(&h.to_string()) {
                return Err(format!("several {}", h));
            }
            seen.push(h.to_string())
        }
        match h {
            "version" => version = int(one(e)?)?,
            "host" => {
                let x = p(e)?;
                x.end(2)?;
                tool = x.atoms[0].to_string();
                build = x.atoms[1].to_string()
            }
            "general" => {
                let mut x = p(e)?;
                let a = p(x.req("area")?)?;
                a.end(4)?;
                general = r!("general"; links: x.i("links")?, no_connects: x.i("no_connects")?, x1: num(a.atoms[0])?, y1: num(a.atoms[1])?,
                    x2: num(a.atoms[2])?, y2: num(a.atoms[3])?, thickness: x.n("thickness")?, drawings: x.i("drawings")?, tracks: x.i("tracks")?,
                    zones: x.i("zones")?, modules: x.i("modules")?, nets: x.i("nets")?);
                x.end(0)?
            }
            "page" => page = one(e)?.to_string(),
            "layers" => for y in &e.list().unwrap()[1..] {
                let t: Vec<&str> = y.list().ok_or("layer word")?.iter().filter_map(|x| x.atom()).collect();
                if t.len() != y.list().unwrap().len() || t.len() < 3 || t.len() > 4 || (t.len() == 4 && t[3] != "hide") {
                    return Err(format!("layer entry {}", y.flat()));
                }
                blayers.push(r!("blayer"; num: int(t[0])?, name: t[1], type: oneof(t[2], &["signal", "power", "mixed", "jumper", "user"])?, hide: t.len() == 4))
            },
            "setup" => for y in &e.list().unwrap()[1..] {
                if y.head() == "pcbplotparams" {
                    for z in &y.list().unwrap()[1..] {
                        plot.push(se(z)?)
                    }
                } else {
                    setup.push(se(y)?)
                }
            },
            _ => elements.push(board_element(e)?),
        }
    }
    Ok(r!("board"; version: version, host_tool: tool, host_build: build, general: general, page: page, layers: V::L(blayers), setup: V::L(setup),
        plot: V::L(plot), elements: V::L(elements)))
}

pub fn table(s: &str) -> R<V> {
    let s = sx::read(s)?;
    let mut x = p(&s)?;
    if x.name != "fp_lib_table" {
        return Err("not a table".into());
    }
    let mut v = vec![];
    for e in x.all("lib") {
        let mut y = p(e)?;
        v.push(r!("entry"; name: y.s("name")?, type: y.s("type")?, uri: y.s("uri")?, options: y.s("options")?, descr: y.s("descr")?));
        y.end(0)?
    }
    x.end(0)?;
    Ok(r!("table"; libs: V::L(v)))
}

// ---------------------------------------------------------------- line formats

#[derive(Clone, Debug, PartialEq)]
pub struct Word {
    pub text: String,
    pub quoted: bool,
}

/// words of a line, separated by blanks; a quoted word may hold blanks and escaped quotes
pub fn words(s: &str) -> R<Vec<Word>> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        if c[i] == ' ' || c[i] == '\t' {
            i += 1;
            continue;
        }
        let mut t = String::new();
        if c[i] == '"' {
            i += 1;
            let mut esc = false;
            loop {
                if i >= c.len() {
                    return Err(format!("unterminated string in {:?}", s));
                }
                if esc {
                    esc = false
                } else if c[i] == '\\' {
                    esc = true
                } else if c[i] == '"' {
                    break;
                }
                t.push(c[i]);
                i += 1
            }
            i += 1;
            if i < c.len() && c[i] != ' ' && c[i] != '\t' {
                return Err(format!("text directly after a string in {:?}", s));
            }
            v.push(Word { text: t, quoted: true })
        } else {
            while i < c.len() && c[i] != ' ' && c[i] != '\t' {
                if c[i] == '"' {
                    return Err(format!("quote inside a word in {:?}", s));
                }
                t.push(c[i]);
                i += 1
            }
            v.push(Word { text: t, quoted: false })
        }
    }
    Ok(v)
}

/// words with an expected shape: 'w' bare word, 'q' quoted string, 'i' integer, 'n' number; lower case required
fn shape(s: &str, pat: &str) -> R<Vec<V>> {
    let w = words(s)?;
    if w.len() != pat.len() {
        return Err(format!("{} words instead of {} in {:?}", w.len(), pat.len(), s));
    }
    let mut v = vec![];
    for (x, k) in w.iter().zip(pat.chars()) {
        if x.quoted != (k == 'q') {
            return Err(format!("quoting of {:?} in {:?}", x.text, s));
        }
        v.push(match k {
            'i' => V::I(int(&x.text)?),
            'n' => V::N(num(&x.text)?),
            _ => V::S(x.text.clone()),
        })
    }
    Ok(v)
}

struct Lines<'a> {
    v: Vec<&'a str>,
    k: usize,
}

impl<'a> Lines<'a> {
    fn next(&mut self) -> R<&'a str> {
        if self.k < self.v.len() {
            self.k += 1;
            Ok(self.v[self.k - 1])
        } else {
            Err("unexpected end of text".into())
        }
    }
    fn peek(&self) -> Option<&'a str> {
        self.v.get(self.k).cloned()
    }
}

fn lines(s: &str) -> Lines {
    Lines { v: s.lines().collect(), k: 0 }
}

fn style(s: &str) -> R<(V, bool, bool)> {
    let c: Vec<char> = s.chars().collect();
    if c.len() != 3 || !"LRCBT".contains(c[0]) || !"IN".contains(c[1]) || !"BN".contains(c[2]) {
        return Err(format!("text style {:?}", s));
    }
    Ok((V::S(c[0].to_string()), c[1] == 'I', c[2] == 'B'))
}

pub fn default_name(i: i64) -> &'static str {
    match i {
        0 => "Reference",
        1 => "Value",
        2 => "Footprint",
        3 => "UserDocLink",
        _ => "",
    }
}

fn field(s: &str) -> R<V> {
    let n = words(s)?.len();
    let v = shape(s, if n == 11 { "wiqwnniwwwq" } else { "wiqwnniwww" })?;
    if v[0].s() != "F" {
        return Err(format!("field line {:?}", s));
    }
    let i = v[1].i();
    let (vj, it, bo) = style(v[9].s())?;
    let visible = match v[7].s() {
        "0000" => true,
        "0001" => false,
        f => return Err(format!("field flags {:?}", f)),
    };
    let name = if n == 11 {
        v[10].s().to_string()
    } else if i <= 3 {
        default_name(i).to_string()
    } else {
        return Err(format!("field without a name {:?}", s));
    };
    Ok(r!("field"; i: i, value: v[2].s(), orientation: oneof(v[3].s(), &["H", "V"])?, x: v[4].n(), y: v[5].n(), size: v[6].i(), visible: visible,
        hjustify: oneof(v[8].s(), &["L", "R", "C", "B", "T"])?, vjustify: vj, italic: it, bold: bo, name: name))
}

fn component(l: &mut Lines) -> R<V> {
    let (mut name, mut reference, mut u, mut x, mut y) = (String::new(), String::new(), String::new(), 0, 0);
    let mut ar = vec![];
    let mut fields = vec![];
    loop {
        let s = l.next()?;
        match s.chars().next() {
            None => (),
            Some('$') => return if s == "$EndComp" { Err("component without rotation".into()) } else { Err(format!("component line {:?}", s)) },
            Some('L') => {
                let v = shape(s, "www")?;
                name = v[1].s().into();
                reference = v[2].s().into()
            }
            Some('U') => u = s.to_string(),
            Some('P') => {
                let v = shape(s, "wii")?;
                x = v[1].i();
                y = v[2].i()
            }
            Some('A') => ar.push(V::from(s)),
            Some('F') => fields.push(field(s)?),
            Some('\t') => {
                let v = shape(s, "iii")?;
                let unit: i64 = u.split_whitespace().nth(1).unwrap_or("1").parse().map_err(|_| "unit".to_string())?;
                if v[0].i() != unit || v[1].i() != x || v[2].i() != y {
                    return Err(format!("component position line {:?} for unit {} at {} {}", s, unit, x, y));
                }
                let s = l.next()?;
                if !s.starts_with('\t') {
                    return Err(format!("component rotation line {:?}", s));
                }
                let rot = shape(s, "iiii")?;
                let e = l.next()?;
                if e != "$EndComp" {
                    return Err(format!("expected the end of the component, got {:?}", e));
                }
                return Ok(r!("comp"; name: name, reference: reference, u: u, x: x, y: y, ar: V::L(ar), fields: V::L(fields), rot: V::L(rot)));
            }
            Some(_) => return Err(format!("component line {:?}", s)),
        }
    }
}

fn sheet(l: &mut Lines) -> R<V> {
    let s = shape(l.next()?, "wiiii")?;
    let u = shape(l.next()?, "ww")?;
    let f0 = shape(l.next()?, "wqi")?;
    let f1 = shape(l.next()?, "wqi")?;
    if s[0].s() != "S" || u[0].s() != "U" || f0[0].s() != "F0" || f1[0].s() != "F1" {
        return Err("sheet header".into());
    }
    let mut labels = vec![];
    loop {
        let t = l.next()?;
        if t == "$EndSheet" {
            break;
        }
        let v = shape(t, "wqwwiii")?;
        if v[0].s() != format!("F{}", labels.len() + 2) {
            return Err(format!("sheet label line {:?}", t));
        }
        labels.push(r!("label"; name: v[1].s(), form: oneof(v[2].s(), &["I", "O", "B", "T", "U"])?, side: oneof(v[3].s(), &["L", "R", "T", "B"])?,
            x: v[4].i(), y: v[5].i(), size: v[6].i()))
    }
    Ok(r!("sheet"; x: s[1].i(), y: s[2].i(), dimx: s[3].i(), dimy: s[4].i(), unique: u[1].s(), name: f0[1].s(), name_size: f0[2].i(),
        filename: f1[1].s(), filename_size: f1[2].i(), labels: V::L(labels)))
}

fn description(first: &str, l: &mut Lines) -> R<V> {
    let n = words(first)?.len();
    let h = shape(first, if n == 5 { "wwiiw" } else { "wwii" })?;
    if n == 5 && h[4].s() != "portrait" {
        return Err(format!("description {:?}", first));
    }
    let e = l.next()?;
    if !e.starts_with("encoding") {
        return Err(format!("encoding line {:?}", e));
    }
    let sh = shape(l.next()?, "wii")?;
    if sh[0].s() != "Sheet" {
        return Err("no Sheet line".into());
    }
    let mut d = vec![("size", h[1].clone()), ("dimx", h[2].clone()), ("dimy", h[3].clone()), ("portrait", V::B(n == 5))];
    for &(k, f) in DESCR {
        let v = shape(l.next()?, "wq")?;
        if v[0].s() != k {
            return Err(format!("expected {}", k));
        }
        d.push((f, v[1].clone()))
    }
    d.push(("sheet", sh[1].clone()));
    d.push(("sheet_count", sh[2].clone()));
    if l.next()? != "$EndDescr" {
        return Err("no $EndDescr".into());
    }
    Ok(V::R("descr", d))
}

pub fn schematic(s: &str) -> R<V> {
    let mut l = lines(s);
    let h = l.next()?;
    if !h.starts_with("EESchema Schematic File Version") {
        return Err(format!("header {:?}", h));
    }
    let mut libs = vec![];
    while let Some(x) = l.peek() {
        if !x.starts_with("LIBS:") {
            break;
        }
        libs.push(V::from(&x[5..]));
        l.k += 1
    }
    let ee = l.next()?;
    if !ee.starts_with("EELAYER ") {
        return Err(format!("eelayer line {:?}", ee));
    }
    if l.next()? != "EELAYER END" {
        return Err("no EELAYER END".into());
    }
    let first = l.next()?;
    let descr = description(first, &mut l)?;
    let (mut el, mut sheets) = (vec![], vec![]);
    loop {
        let t = l.next()?;
        if t == "$EndSCHEMATC" {
            break;
        }
        let w: Vec<&str> = t.split_whitespace().collect();
        match w.first().cloned().unwrap_or("") {
            "$Comp" => el.push(component(&mut l)?),
            "$Sheet" => sheets.push(sheet(&mut l)?),
            "Wire" => {
                if w.len() != 3 || w[2] != "Line" || !["Wire", "Notes", "Bus"].contains(&w[1]) {
                    return Err(format!("wire line {:?}", t));
                }
                let c = l.next()?;
                if !c.starts_with('\t') {
                    return Err(format!("wire coordinates {:?}", c));
                }
                let v = shape(c, "iiii")?;
                el.push(r!("wire"; t: w[1], x1: v[0].i(), y1: v[1].i(), x2: v[2].i(), y2: v[3].i()))
            }
            k @ "Connection" | k @ "NoConn" => {
                let v = shape(t, "wwii")?;
                if v[1].s() != "~" {
                    return Err(format!("connection line {:?}", t));
                }
                el.push(if k == "Connection" { r!("conn"; x: v[2].i(), y: v[3].i()) } else { r!("noconn"; x: v[2].i(), y: v[3].i()) })
            }
            "Text" => {
                let shaped = w.len() > 1 && (w[1] == "GLabel" || w[1] == "HLabel");
                let v = shape(t, if shaped { "wwiiiiwwi" } else { "wwiiiiwi" })?;
                let k = if shaped { 7 } else { 6 };
                let it = match v[k].s() {
                    "Italic" => true,
                    "~" => false,
                    _ => return Err(format!("text line {:?}", t)),
                };
                el.push(r!("text"; t: oneof(v[1].s(), &["Notes", "GLabel", "HLabel", "Label"])?, x: v[2].i(), y: v[3].i(), orientation: v[4].i(),
                    size: v[5].i(), shape: if shaped { V::S(v[6].s().to_string()) } else { V::Nil },
                    italic: it, thickness: v[k + 1].i(), text: l.next()?))
            }
            "" => (),
            _ => el.push(r!("other"; v: t)),
        }
    }
    if l.v[l.k..].iter().any(|x| !x.is_empty()) {
        return Err("text after the end".into());
    }
    Ok(r!("sch"; libraries: V::L(libs), eelayer: ee, descr: descr, elements: V::L(el), sheets: V::L(sheets)))
}

fn sym_field(s: &str) -> R<V> {
    let n = words(s)?.len();
    let v = shape(s, if n == 10 { "wqnniwwwwq" } else { "wqnniwwww" })?;
    let i = int(v[0].s().trim_start_matches('F'))?;
    let visible = match v[6].s() {
        "V" => true,
        "I" => false,
        f => return Err(format!("field visibility {:?}", f)),
    };
    let (vj, it, bo) = style(v[8].s())?;
    let name = if n == 10 {
        v[9].s().to_string()
    } else if i <= 3 {
        default_name(i).to_string()
    } else {
        return Err(format!("field without a name {:?}", s));
    };
    Ok(r!("sfield"; i: i, value: v[1].s(), x: v[2].n(), y: v[3].n(), dimension: v[4].i(), orientation: oneof(v[5].s(), &["H", "V"])?,
        visible: visible, hjustify: oneof(v[7].s(), &["L", "R", "C", "B", "T"])?, vjustify: vj, italic: it, bold: bo, name: name))
}

fn draw(s: &str) -> R<V> {
    if s.starts_with("X ") {
        let n = words(s)?.len();
        let v = shape(s, if n == 13 { "wwwiiiwiiiiww" } else { "wwwiiiwiiiiw" })?;
        let sh = if n == 13 { v[12].s() } else { "" };
        let visible = !sh.starts_with('N');
        Ok(r!("pin"; name: v[1].s(), number: v[2].s(), x: v[3].i(), y: v[4].i(), len: v[5].i(), orientation: oneof(v[6].s(), &["U", "D", "L", "R"])?,
            num_size: v[7].i(), name_size: v[8].i(), unit: v[9].i(), convert: v[10].i(),
            type: oneof(v[11].s(), &["I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"])?, visible: visible,
            shape: oneof(if visible { sh } else { &sh[1..] }, &["", "I", "C", "CI", "L", "CL", "V", "F", "X"])?))
    } else if s.starts_with("S ") {
        let v = shape(s, "wiiiiiiiw")?;
        Ok(r!("rect"; x1: v[1].i(), y1: v[2].i(), x2: v[3].i(), y2: v[4].i(), unit: v[5].i(), convert: v[6].i(), thickness: v[7].i(),
            fill: oneof(v[8].s(), &["F", "f", "N"])?))
    } else {
        Ok(r!("other"; v: s))
    }
}

fn yes(v: &V, y: &str, n: &str) -> R<bool> {
    if v.s() == y {
        Ok(true)
    } else if v.s() == n {
        Ok(false)
    } else {
        Err(format!("expected {} or {}, got {:?}", y, n, v))
    }
}

pub fn symbol_lib(s: &str) -> R<V> {
    let mut l = lines(s);
    if !l.next()?.starts_with("EESchema-LIBRARY Version") {
        return Err("header".into());
    }
    let mut v = vec![];
    let mut ended = false;
    while let Some(t) = l.peek() {
        l.k += 1;
        if t == "#End Library" {
            ended = true;
            break;
        }
        if t.starts_with('#') {
            continue;
        }
        let d = shape(t, "wwwinwwiww")?;
        if d[0].s() != "DEF" || d[3].i() != 0 {
            return Err(format!("definition line {:?}", t));
        }
        let (mut fields, mut aliases, mut fp, mut dr) = (vec![], vec![], vec![], vec![]);
        loop {
            let t = l.next()?;
            if t == "ENDDEF" {
                break;
            } else if t.starts_with("ALIAS") {
                for w in &words(t)?[1..] {
                    aliases.push(V::from(&w.text))
                }
            } else if t == "$FPLIST" {
                loop {
                    let t = l.next()?;
                    if t == "$ENDFPLIST" {
                        break;
                    }
                    fp.push(V::from(t.trim()))
                }
            } else if t == "DRAW" {
                loop {
                    let t = l.next()?;
                    if t == "ENDDRAW" {
                        break;
                    }
                    dr.push(draw(t)?)
                }
            } else if t.starts_with('F') {
                fields.push(sym_field(t)?)
            } else {
                return Err(format!("symbol line {:?}", t));
            }
        }
        v.push(r!("symbol"; name: d[1].s(), reference: d[2].s(), text_offset: d[4].n(), pinnumber: yes(&d[5], "Y", "N")?, pinname: yes(&d[6], "Y", "N")?,
            unit_count: d[7].i(), locked: yes(&d[8], "L", "F")?, power: yes(&d[9], "P", "N")?, fields: V::L(fields), aliases: V::L(aliases),
            fp: V::L(fp), draw: V::L(dr)))
    }
    if !ended {
        return Err("no end of library".into());
    }
    if l.v[l.k..].iter().any(|x| !x.is_empty()) {
        return Err("text after the end".into());
    }
    Ok(r!("lib"; symbols: V::L(v)))
}

/// read a document of the given kind
pub fn document(kind: &str, s: &str) -> R<V> {
    match kind {
        "module" => module(s),
        "board" => board(s),
        "sch" => schematic(s),
        "lib" => symbol_lib(s),
        "table" => table(s),
        k => panic!("read {}", k),
    }
}
