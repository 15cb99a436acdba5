//! Makes library models of reference models without a file: with the public constructors, defaults
//! and fields. Kinds that have no constructor start from a small parsed one, and every field is set.

use crate::core::lib;
use crate::sx::Sx;
use crate::v::V;
use kicad_parse_gen as k;
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::fp_lib_table as tb;
use kicad_parse_gen::layout as lo;
use kicad_parse_gen::schematic as sch;
use kicad_parse_gen::symbol_lib as sl;

/// the library cannot make this (left to other properties)
pub struct No(pub String);
pub type R<T> = Result<T, No>;

fn no<T, E: std::fmt::Display>(what: &str) -> impl FnOnce(E) -> R<T> + '_ {
    move |e| Err(No(format!("{}: {}", what, e)))
}

fn ostr(v: &V) -> Option<String> {
    match *v {
        V::S(ref s) => Some(s.clone()),
        _ => None,
    }
}
fn onum(v: &V) -> Option<f64> {
    match *v {
        V::N(x) => Some(x),
        _ => None,
    }
}

pub fn layer(s: &str) -> R<fp::Layer> {
    let parts: Vec<&str> = s.split('.').collect();
    let mut l = fp::Layer::default();
    let t = if parts.len() == 2 {
        l.side = match parts[0] {
            "F" => fp::LayerSide::Front,
            "B" => fp::LayerSide::Back,
            "Dwgs" => fp::LayerSide::Dwgs,
            "Cmts" => fp::LayerSide::Cmts,
            "Eco1" => fp::LayerSide::Eco1,
            "Eco2" => fp::LayerSide::Eco2,
            "Edge" => fp::LayerSide::Edge,
            "In1" => fp::LayerSide::In1,
            "In2" => fp::LayerSide::In2,
            "*" => fp::LayerSide::Both,
            x => return Err(No(format!("layer side {}", x))),
        };
        parts[1]
    } else {
        l.side = fp::LayerSide::None;
        s
    };
    l.t = match t {
        "Cu" => fp::LayerType::Cu,
        "Paste" => fp::LayerType::Paste,
        "Mask" => fp::LayerType::Mask,
        "SilkS" => fp::LayerType::SilkS,
        "User" => fp::LayerType::User,
        "Adhes" => fp::LayerType::Adhes,
        "Cuts" => fp::LayerType::Cuts,
        "CrtYd" => fp::LayerType::CrtYd,
        "Fab" => fp::LayerType::Fab,
        "Margin" => fp::LayerType::Margin,
        x => fp::LayerType::Other(x.to_string()),
    };
    Ok(l)
}

pub fn layers(v: &V) -> R<fp::Layers> {
    let mut l = fp::Layers::default();
    for x in v.l() {
        let y = layer(x.s())?;
        lib("Layers::append", || l.append(y))
    }
    Ok(l)
}

pub fn at(v: &V) -> fp::At {
    lib("At::new", || fp::At::new(v.fnum("x"), v.fnum("y"), v.fnum("rot")))
}
pub fn xy(v: &V, t: fp::XyType) -> fp::Xy {
    lib("Xy::new", || fp::Xy::new(v.fnum("x"), v.fnum("y"), t))
}
pub fn xyz(v: &V) -> fp::Xyz {
    lib("Xyz::new", || fp::Xyz::new(v.fnum("x"), v.fnum("y"), v.fnum("z")))
}
pub fn pts(v: &V) -> fp::Pts {
    let mut p = fp::Pts::default();
    p.elements = v.l().iter().map(|x| xy(x, fp::XyType::Xy)).collect();
    p
}

pub fn effects(v: &V) -> R<fp::Effects> {
    let mut f = fp::Font::default();
    let w = v.g("font");
    f.size = xy(w, fp::XyType::Size);
    f.thickness = w.fnum("thickness");
    f.italic = w.fb("italic");
    let j = match ostr(v.g("justify")).as_ref().map(|x| &x[..]) {
        None => None,
        Some("left") => Some(fp::Justify::Left),
        Some("right") => Some(fp::Justify::Right),
        Some("mirror") => Some(fp::Justify::Mirror),
        Some("left mirror") => Some(fp::Justify::LeftMirror),
        Some("right mirror") => Some(fp::Justify::RightMirror),
        Some(x) => return Err(No(x.to_string())),
    };
    Ok(lib("Effects::from_font", || fp::Effects::from_font(f, j)))
}

pub fn fp_text(v: &V) -> R<fp::FpText> {
    let mut t = lib("FpText::new", || fp::FpText::new(v.fs("name").to_string(), v.fs("value").to_string()));
    t.at = at(v.g("at"));
    let l = layer(v.fs("layer"))?;
    lib("FpText::set_layer", || t.set_layer(&l));
    let e = effects(v.g("effects"))?;
    lib("FpText::set_effects", || t.set_effects(&e));
    t.hide = v.fb("hide");
    Ok(t)
}

pub fn drill(v: &V) -> fp::Drill {
    let mut d = fp::Drill::default();
    d.shape = if v.fb("oval") { Some("oval".to_string()) } else { None };
    d.width = v.fnum("width");
    d.height = v.fnum("height");
    d.offset_x = v.fnum("ox");
    d.offset_y = v.fnum("oy");
    d
}

pub fn pad(v: &V) -> R<fp::Pad> {
    let t = lib("PadType::from_string", || fp::PadType::from_string(v.fs("type"))).or_else(no("pad type"))?;
    let s = lib("PadShape::from_string", || fp::PadShape::from_string(v.fs("shape"))).or_else(no("pad shape"))?;
    let mut p = lib("Pad::new", || fp::Pad::new(v.fs("name").to_string(), t, s));
    p.size = xy(v.g("size"), fp::XyType::Size);
    p.at = at(v.g("at"));
    p.layers = layers(v.g("layers"))?;
    if !v.g("rect_delta").is_nil() {
        p.rect_delta = Some(xy(v.g("rect_delta"), fp::XyType::RectDelta))
    }
    if !v.g("drill").is_nil() {
        let d = drill(v.g("drill"));
        lib("Pad::set_drill", || p.set_drill(d))
    }
    let n = v.g("net");
    if !n.is_nil() {
        let n = fp::Net { num: n.fi("num"), name: n.fs("name").into() };
        lib("Pad::set_net", || p.set_net(n))
    }
    if let V::I(x) = *v.g("zone_connect") {
        p.zone_connect = Some(x)
    }
    p.solder_paste_margin = onum(v.g("solder_paste_margin"));
    p.solder_mask_margin = onum(v.g("solder_mask_margin"));
    p.clearance = onum(v.g("clearance"));
    p.thermal_gap = onum(v.g("thermal_gap"));
    Ok(p)
}

fn sample_module(s: &str) -> R<fp::Module> {
    lib("parse module", || fp::parse(s)).or_else(no("template"))
}

pub fn fp_element(v: &V) -> R<fp::Element> {
    use fp::Element as E;
    Ok(match v.kind() {
        "solder_mask_margin" => E::SolderMaskMargin(v.fnum("v")),
        "layer" => E::Layer(layer(v.fs("v"))?),
        "descr" => E::Descr(v.fs("v").to_string()),
        "tags" => E::Tags(v.fs("v").to_string()),
        "attr" => E::Attr(v.fs("v").to_string()),
        "tedit" => E::TEdit(v.fi("v")),
        "tstamp" => E::TStamp(v.fi("v")),
        "path" => E::Path(v.fs("v").to_string()),
        "clearance" => E::Clearance(v.fnum("v")),
        "locked" => E::Locked,
        "at" => E::At(at(v)),
        "fp_text" => E::FpText(fp_text(v)?),
        "pad" => E::Pad(pad(v)?),
        "fp_poly" => {
            let mut p = fp::FpPoly::default();
            p.pts = pts(v.g("pts"));
            p.layer = layer(v.fs("layer"))?;
            p.width = v.fnum("width");
            E::FpPoly(p)
        }
        "fp_line" => {
            let mut p = fp::FpLine::default();
            p.start.x = v.g("start").fnum("x");
            p.start.y = v.g("start").fnum("y");
            p.end.x = v.g("end").fnum("x");
            p.end.y = v.g("end").fnum("y");
            p.layer = layer(v.fs("layer"))?;
            p.width = v.fnum("width");
            E::FpLine(p)
        }
        "fp_circle" => {
            let mut p = fp::FpCircle::default();
            p.center.x = v.g("center").fnum("x");
            p.center.y = v.g("center").fnum("y");
            p.end.x = v.g("end").fnum("x");
            p.end.y = v.g("end").fnum("y");
            p.layer = layer(v.fs("layer"))?;
            p.width = v.fnum("width");
            E::FpCircle(p)
        }
        "fp_arc" => {
            let mut p = fp::FpArc::default();
            p.start.x = v.g("start").fnum("x");
            p.start.y = v.g("start").fnum("y");
            p.end.x = v.g("end").fnum("x");
            p.end.y = v.g("end").fnum("y");
            p.angle = v.fnum("angle");
            p.layer = layer(v.fs("layer"))?;
            p.width = v.fnum("width");
            E::FpArc(p)
        }
        "model" => {
            let m = sample_module("(module a (model b (at (xyz 0 0 0)) (scale (xyz 1 1 1)) (rotate (xyz 0 0 0))))")?;
            for e in m.elements {
                if let E::Model(mut m) = e {
                    m.name = v.fs("name").to_string();
                    m.at = xyz(v.g("at"));
                    m.scale = xyz(v.g("scale"));
                    m.rotate = xyz(v.g("rotate"));
                    return Ok(E::Model(m));
                }
            }
            return Err(No("model template".into()));
        }
        x => return Err(No(format!("element {}", x))),
    })
}

pub fn module(v: &V) -> R<fp::Module> {
    let mut m = lib("Module::new", || fp::Module::new(v.fs("name").to_string()));
    for e in v.g("elements").l() {
        let e = fp_element(e)?;
        lib("Module::append", || m.append(e))
    }
    Ok(m)
}

pub fn sexp(s: &Sx) -> k::Sexp {
    match *s {
        Sx::A(ref s) | Sx::Q(ref s) => k::Sexp::String(s.clone()),
        Sx::L(ref v) => k::Sexp::List(v.iter().map(sexp).collect()),
    }
}

const BOARD: &str = "(kicad_pcb (version 4) (host a b) (general (links 0) (no_connects 0) (area 0 0 0 0) (thickness 1.6) (drawings 0) (tracks 0) (zones 0) (modules 0) (nets 0)) \
    (page A4) (layers (0 F.Cu signal)) (setup (a 1) (pcbplotparams (b 2))) \
    (zone (net 0) (net_name \"\") (layer F.Cu) (tstamp 0) (hatch edge 0.5) (connect_pads (clearance 0.5)) (min_thickness 0.2) (fill (arc_segments 16) (thermal_gap 0.5) (thermal_bridge_width 0.5))))";

fn sample_board() -> R<lo::Layout> {
    lib("parse board", || lo::parse(BOARD)).or_else(no("board template"))
}

fn gr_text(v: &V) -> R<lo::GrText> {
    let mut t = lo::GrText::default();
    t.value = v.fs("value").to_string();
    t.at = at(v.g("at"));
    t.layer = layer(v.fs("layer"))?;
    t.effects = effects(v.g("effects"))?;
    t.tstamp = ostr(v.g("tstamp"));
    Ok(t)
}

pub fn zone(v: &V, mut z: lo::Zone) -> R<lo::Zone> {
    z.net = v.fi("net");
    z.net_name = v.fs("net_name").into();
    z.layer = layer(v.fs("layer"))?;
    z.tstamp = v.fs("tstamp").to_string();
    z.hatch = lo::Hatch::default();
    z.hatch.style = v.fs("hatch_style").to_string();
    z.hatch.pitch = v.fnum("hatch_pitch");
    z.priority = v.fi("priority") as u64;
    z.connect_pads = lo::ConnectPads::default();
    z.connect_pads.connection = ostr(v.g("connection"));
    z.connect_pads.clearance = v.fnum("clearance");
    z.min_thickness = v.fnum("min_thickness");
    let k = v.g("keepout");
    z.keepout = if k.is_nil() {
        None
    } else {
        let mut x = lo::Keepout::default();
        x.tracks = k.fb("tracks");
        x.vias = k.fb("vias");
        x.copperpour = k.fb("copperpour");
        Some(x)
    };
    z.fill = lo::Fill::default();
    z.fill.filled = v.fb("filled");
    z.fill.segment = v.fb("segment");
    z.fill.arc_segments = v.fi("arc_segments");
    z.fill.thermal_gap = v.fnum("thermal_gap");
    z.fill.thermal_bridge_width = v.fnum("thermal_bridge_width");
    z.fill.smoothing = ostr(v.g("smoothing"));
    z.fill.corner_radius = v.fnum("radius");
    z.polygons = v.g("polygons").l().iter().map(pts).collect();
    z.filled_polygons = v.g("filled_polygons").l().iter().map(pts).collect();
    z.fill_segments = if v.g("fill_segments").is_nil() { None } else { Some(pts(v.g("fill_segments"))) };
    z.other = v
        .g("other")
        .l()
        .iter()
        .map(|x| match *x {
            V::X(ref s) => sexp(s),
            _ => panic!("zone part"),
        })
        .collect();
    Ok(z)
}

/// add an element at the end of the board
pub fn add_board_element(b: &mut lo::Layout, v: &V) -> R<()> {
    use lo::Element as E;
    let e = match v.kind() {
        "module" => E::Module(module(v)?),
        "net" => {
            let name = super::props::leak(v.fs("name"));
            lib("add_net", || b.add_net(v.fi("num"), name));
            return Ok(());
        }
        "net_class" => {
            let (name, desc) = (super::props::leak(v.fs("name")), super::props::leak(v.fs("desc")));
            let nets = v.g("nets").l().iter().map(|x| x.s().to_string()).collect();
            lib("add_netclass", || {
                b.add_netclass(name, desc, v.fnum("clearance"), v.fnum("trace_width"), v.fnum("via_dia"), v.fnum("via_drill"), v.fnum("uvia_dia"), v.fnum("uvia_drill"),
                    onum(v.g("diff_pair_gap")), onum(v.g("diff_pair_width")), nets)
            });
            return Ok(());
        }
        "gr_text" => E::GrText(gr_text(v)?),
        "gr_line" => {
            let mut g = lo::GrLine::default();
            g.start = xy(v.g("start"), fp::XyType::Start);
            g.end = xy(v.g("end"), fp::XyType::End);
            g.angle = v.fnum("angle");
            g.layer = layer(v.fs("layer"))?;
            g.width = v.fnum("width");
            g.tstamp = ostr(v.g("tstamp"));
            E::GrLine(g)
        }
        "gr_arc" => {
            let mut g = lo::GrArc::default();
            g.start = xy(v.g("start"), fp::XyType::Start);
            g.end = xy(v.g("end"), fp::XyType::End);
            g.angle = v.fnum("angle");
            g.layer = layer(v.fs("layer"))?;
            g.width = v.fnum("width");
            g.tstamp = ostr(v.g("tstamp"));
            E::GrArc(g)
        }
        "gr_circle" => {
            let mut g = lo::GrCircle::default();
            g.center = xy(v.g("center"), fp::XyType::Center);
            g.end = xy(v.g("end"), fp::XyType::End);
            g.layer = layer(v.fs("layer"))?;
            g.width = v.fnum("width");
            g.tstamp = ostr(v.g("tstamp"));
            E::GrCircle(g)
        }
        "dimension" => {
            let mut d = lo::Dimension::default();
            d.name = v.fs("name").to_string();
            d.width = v.fnum("width");
            d.layer = layer(v.fs("layer"))?;
            d.tstamp = ostr(v.g("tstamp"));
            d.text = gr_text(v.g("text"))?;
            d.feature1 = pts(v.g("feature1"));
            d.feature2 = pts(v.g("feature2"));
            d.crossbar = pts(v.g("crossbar"));
            d.arrow1a = pts(v.g("arrow1a"));
            d.arrow1b = pts(v.g("arrow1b"));
            d.arrow2a = pts(v.g("arrow2a"));
            d.arrow2b = pts(v.g("arrow2b"));
            E::Dimension(d)
        }
        "segment" => {
            let mut g = lo::Segment::default();
            g.start = xy(v.g("start"), fp::XyType::Start);
            g.end = xy(v.g("end"), fp::XyType::End);
            g.width = v.fnum("width");
            g.layer = layer(v.fs("layer"))?;
            g.net = v.fi("net");
            g.tstamp = ostr(v.g("tstamp"));
            g.status = ostr(v.g("status"));
            E::Segment(g)
        }
        "via" => {
            let mut g = lo::Via::default();
            g.blind = v.fb("blind");
            g.micro = v.fb("micro");
            g.at = at(v.g("at"));
            g.size = v.fnum("size");
            g.drill = v.fnum("drill");
            g.layers = layers(v.g("layers"))?;
            g.net = v.fi("net");
            E::Via(g)
        }
        "zone" => {
            let t = sample_board()?;
            match t.elements.into_iter().next() {
                Some(E::Zone(z)) => E::Zone(zone(v, z)?),
                _ => return Err(No("zone template".into())),
            }
        }
        "other" => match *v.g("v") {
            V::X(ref s) => E::Other(sexp(s)),
            _ => panic!("other"),
        },
        x => return Err(No(format!("element {}", x))),
    };
    b.elements.push(e);
    Ok(())
}

pub fn board(v: &V) -> R<lo::Layout> {
    let mut b = lo::Layout::default();
    b.version = v.fi("version");
    b.host.tool = v.fs("host_tool").to_string();
    b.host.build = v.fs("host_build").to_string();
    let g = v.g("general");
    b.general.links = g.fi("links");
    b.general.no_connects = g.fi("no_connects");
    b.general.area.x1 = g.fnum("x1");
    b.general.area.y1 = g.fnum("y1");
    b.general.area.x2 = g.fnum("x2");
    b.general.area.y2 = g.fnum("y2");
    b.general.thickness = g.fnum("thickness");
    b.general.drawings = g.fi("drawings");
    b.general.tracks = g.fi("tracks");
    b.general.zones = g.fi("zones");
    b.general.modules = g.fi("modules");
    b.general.nets = g.fi("nets");
    b.page = v.fs("page").to_string();
    let t = sample_board()?;
    for l in v.g("layers").l() {
        let mut x = match t.layers.first() {
            Some(x) => x.clone(),
            None => return Err(No("layer template".into())),
        };
        x.num = l.fi("num");
        x.layer = layer(l.fs("name"))?;
        x.layer_type = match l.fs("type") {
            "signal" => lo::LayerType::Signal,
            "power" => lo::LayerType::Power,
            "mixed" => lo::LayerType::Mixed,
            "jumper" => lo::LayerType::Jumper,
            _ => lo::LayerType::User,
        };
        x.hide = l.fb("hide");
        b.layers.push(x)
    }
    let se = |s: &V| -> R<lo::SetupElement> {
        let mut x = match t.setup.elements.first() {
            Some(x) => x.clone(),
            None => return Err(No("setup template".into())),
        };
        x.name = s.fs("name").to_string();
        x.value1 = s.fs("v1").to_string();
        x.value2 = ostr(s.g("v2"));
        Ok(x)
    };
    for s in v.g("setup").l() {
        b.setup.elements.push(se(s)?)
    }
    for s in v.g("plot").l() {
        b.setup.pcbplotparams.push(se(s)?)
    }
    for e in v.g("elements").l() {
        add_board_element(&mut b, e)?
    }
    Ok(b)
}

// ------------------------------------------------------------ schematic

fn orientation(s: &str) -> R<sch::Orientation> {
    lib("Orientation::new", || sch::Orientation::new(s.chars().next().unwrap())).or_else(no("orientation"))
}
fn justify(s: &str) -> R<sch::Justify> {
    lib("Justify::new", || sch::Justify::new(s.chars().next().unwrap())).or_else(no("justify"))
}

pub fn field(v: &V) -> R<sch::ComponentField> {
    let mut f = lib("ComponentField::new_from", || {
        sch::ComponentField::new_from(v.fi("i"), v.fs("name").to_string(), v.fs("value").to_string(), v.fnum("x"), v.fnum("y"))
    });
    f.orientation = orientation(v.fs("orientation"))?;
    f.size = v.fi("size");
    f.visible = v.fb("visible");
    f.hjustify = justify(v.fs("hjustify"))?;
    f.vjustify = justify(v.fs("vjustify"))?;
    f.italic = v.fb("italic");
    f.bold = v.fb("bold");
    Ok(f)
}

pub fn sheet(v: &V) -> R<sch::Sheet> {
    let mut s = sch::Sheet::default();
    s.x = v.fi("x");
    s.y = v.fi("y");
    s.dimx = v.fi("dimx");
    s.dimy = v.fi("dimy");
    s.unique = v.fs("unique").to_string();
    s.name = v.fs("name").to_string();
    s.name_size = v.fi("name_size");
    s.filename = v.fs("filename").to_string();
    s.filename_size = v.fi("filename_size");
    for l in v.g("labels").l() {
        let mut x = sch::SheetLabel::default();
        x.name = l.fs("name").to_string();
        x.form = match l.fs("form") {
            "I" => sch::LabelForm::Input,
            "O" => sch::LabelForm::Output,
            "B" => sch::LabelForm::BiDi,
            "T" => sch::LabelForm::TriState,
            _ => sch::LabelForm::Unspecified,
        };
        x.side = match l.fs("side") {
            "L" => sch::LabelSide::Left,
            "R" => sch::LabelSide::Right,
            "T" => sch::LabelSide::Top,
            _ => sch::LabelSide::Bottom,
        };
        x.x = l.fi("x");
        x.y = l.fi("y");
        x.size = l.fi("size");
        s.labels.push(x)
    }
    Ok(s)
}

const SCH: &str = "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Descr A4 11693 8268\nencoding utf-8\nSheet 1 1\nTitle \"\"\nDate \"\"\nRev \"\"\nComp \"\"\nComment1 \"\"\nComment2 \"\"\nComment3 \"\"\nComment4 \"\"\n$EndDescr\n\
    Wire Wire Line\n\t0    0    0    0\nConnection ~ 0    0\nNoConn ~ 0    0\nText Notes 0 0 0 60 ~ 0\nx\n$EndSCHEMATC\n";

/// the kinds without a constructor: a wire, a connection, a no-connect, a text
fn sample_sch() -> R<Vec<sch::Element>> {
    let s = lib("parse schematic", || sch::parse_str(SCH)).or_else(no("schematic template"))?;
    if s.elements.len() != 4 {
        return Err(No("schematic template".into()));
    }
    Ok(s.elements)
}

/// a component gets its rotation only from a file; built ones have the default
pub fn sch_element(v: &V) -> R<sch::Element> {
    use sch::Element as E;
    match v.kind() {
        "comp" => {
            let mut c = sch::Component::default();
            c.name = v.fs("name").to_string();
            c.reference = v.fs("reference").to_string();
            c.u = v.fs("u").to_string();
            c.x = v.fi("x");
            c.y = v.fi("y");
            c.ar_path = v.g("ar").l().iter().map(|x| x.s().to_string()).collect();
            for f in v.g("fields").l() {
                c.fields.push(field(f)?)
            }
            return Ok(E::Component(c));
        }
        "other" => return Ok(E::Other(v.fs("v").to_string())),
        _ => (),
    }
    for e in sample_sch()? {
        match (e, v.kind()) {
            (E::Wire(mut w), "wire") => {
                w.type_ = match v.fs("t") {
                    "Wire" => sch::WireType::Wire,
                    "Notes" => sch::WireType::Notes,
                    _ => sch::WireType::Bus,
                };
                w.x1 = v.fi("x1");
                w.y1 = v.fi("y1");
                w.x2 = v.fi("x2");
                w.y2 = v.fi("y2");
                return Ok(E::Wire(w));
            }
            (E::Connection(mut w), "conn") => {
                w.x = v.fi("x");
                w.y = v.fi("y");
                return Ok(E::Connection(w));
            }
            (E::NoConnect(mut w), "noconn") => {
                w.x = v.fi("x");
                w.y = v.fi("y");
                return Ok(E::NoConnect(w));
            }
            (E::Text(mut t), "text") => {
                t.t = match v.fs("t") {
                    "Notes" => sch::TextType::Note,
                    "GLabel" => sch::TextType::Global,
                    "HLabel" => sch::TextType::Hierarchical,
                    _ => sch::TextType::Label,
                };
                t.x = v.fi("x");
                t.y = v.fi("y");
                t.orientation = v.fi("orientation");
                t.size = v.fi("size");
                t.shape = ostr(v.g("shape"));
                t.italic = v.fb("italic");
                t.thickness = v.fi("thickness");
                t.text = v.fs("text").to_string();
                return Ok(E::Text(t));
            }
            _ => (),
        }
    }
    Err(No(format!("element {}", v.kind())))
}

pub fn schematic(v: &V) -> R<sch::Schematic> {
    let mut s = sch::Schematic::default();
    s.libraries = v.g("libraries").l().iter().map(|x| x.s().to_string()).collect();
    s.eelayer = v.fs("eelayer").to_string();
    let d = v.g("descr");
    let mut x = sch::Description::default();
    x.size = d.fs("size").to_string();
    x.dimx = d.fi("dimx");
    x.dimy = d.fi("dimy");
    x.portrait = d.fb("portrait");
    x.title = d.fs("title").to_string();
    x.date = d.fs("date").to_string();
    x.rev = d.fs("rev").to_string();
    x.comp = d.fs("comp").to_string();
    x.comment1 = d.fs("comment1").to_string();
    x.comment2 = d.fs("comment2").to_string();
    x.comment3 = d.fs("comment3").to_string();
    x.comment4 = d.fs("comment4").to_string();
    x.sheet = d.fi("sheet");
    x.sheet_count = d.fi("sheet_count");
    s.description = x;
    for e in v.g("elements").l() {
        s.elements.push(sch_element(e)?)
    }
    for e in v.g("sheets").l() {
        s.sheets.push(sheet(e)?)
    }
    Ok(s)
}

// ------------------------------------------------------------ symbol library

pub fn pin(v: &V) -> sl::Pin {
    use sl::PinShape as S;
    use sl::PinType as T;
    let mut p = sl::Pin::default();
    p.name = v.fs("name").to_string();
    p.number = v.fs("number").to_string();
    p.x = v.fi("x");
    p.y = v.fi("y");
    p.len = v.fi("len");
    p.orientation = match v.fs("orientation") {
        "U" => sl::PinOrientation::Up,
        "D" => sl::PinOrientation::Down,
        "L" => sl::PinOrientation::Left,
        _ => sl::PinOrientation::Right,
    };
    p.num_size = v.fi("num_size");
    p.name_size = v.fi("name_size");
    p.unit = v.fi("unit");
    p.convert = v.fi("convert");
    p.pin_type = match v.fs("type") {
        "I" => T::Input,
        "O" => T::Output,
        "B" => T::Bidi,
        "T" => T::Tristate,
        "P" => T::Passive,
        "U" => T::Unspecified,
        "W" => T::PowerInput,
        "w" => T::PowerOutput,
        "C" => T::OpenCollector,
        "E" => T::OpenEmitter,
        _ => T::NotConnected,
    };
    p.pin_visible = v.fb("visible");
    p.pin_shape = match v.fs("shape") {
        "" => S::Line,
        "I" => S::Inverted,
        "C" => S::Clock,
        "CI" => S::InvertedClock,
        "L" => S::InputLow,
        "CL" => S::ClockLow,
        "V" => S::OutputLow,
        "F" => S::FallingEdgeClock,
        _ => S::NonLogic,
    };
    p
}

pub fn symbol(v: &V) -> R<sl::Symbol> {
    let mut s = lib("Symbol::new", || sl::Symbol::new(v.fs("name").to_string(), v.fs("reference").to_string()));
    s.text_offset = v.fnum("text_offset");
    s.draw_pinnumber = v.fb("pinnumber");
    s.draw_pinname = v.fb("pinname");
    s.unit_count = v.fi("unit_count");
    s.unit_locked = v.fb("locked");
    s.is_power = v.fb("power");
    for f in v.g("fields").l() {
        let mut x = sl::Field::default();
        x.i = f.fi("i");
        x.value = f.fs("value").to_string();
        x.x = f.fnum("x");
        x.y = f.fnum("y");
        x.dimension = f.fi("dimension");
        x.orientation = orientation(f.fs("orientation"))?;
        x.visible = f.fb("visible");
        x.hjustify = justify(f.fs("hjustify"))?;
        x.vjustify = justify(f.fs("vjustify"))?;
        x.italic = f.fb("italic");
        x.bold = f.fb("bold");
        x.name = f.fs("name").to_string();
        s.fields.push(x)
    }
    s.aliases = v.g("aliases").l().iter().map(|x| x.s().to_string()).collect();
    s.fp_list = v.g("fp").l().iter().map(|x| x.s().to_string()).collect();
    for d in v.g("draw").l() {
        let x = match d.kind() {
            "pin" => sl::Draw::Pin(pin(d)),
            "rect" => {
                let mut q = sl::Rectangle::default();
                q.x1 = d.fi("x1");
                q.y1 = d.fi("y1");
                q.x2 = d.fi("x2");
                q.y2 = d.fi("y2");
                q.unit = d.fi("unit");
                q.convert = d.fi("convert");
                q.thickness = d.fi("thickness");
                q.fill = match d.fs("fill") {
                    "F" => sl::Fill::FilledForeground,
                    "f" => sl::Fill::FilledBackground,
                    _ => sl::Fill::Transparent,
                };
                sl::Draw::Rectangle(q)
            }
            _ => sl::Draw::Other(d.fs("v").to_string()),
        };
        s.draw.push(x)
    }
    Ok(s)
}

pub fn symbol_lib(v: &V) -> R<sl::SymbolLib> {
    let mut l = sl::SymbolLib::default();
    for s in v.g("symbols").l() {
        l.symbols.push(symbol(s)?)
    }
    Ok(l)
}

pub fn table(v: &V) -> R<tb::FpLibTable> {
    let t = lib("parse table", || tb::parse("(fp_lib_table (lib (name a)(type b)(uri c)(options d)(descr e)))")).or_else(no("table template"))?;
    let x = match t.libs.first() {
        Some(x) => x.clone(),
        None => return Err(No("table template".into())),
    };
    let mut t = t;
    t.libs = v
        .g("libs")
        .l()
        .iter()
        .map(|e| {
            let mut x = x.clone();
            x.name = e.fs("name").to_string();
            x.type_ = e.fs("type").to_string();
            x.uri = e.fs("uri").to_string();
            x.options = e.fs("options").to_string();
            x.descr = e.fs("descr").to_string();
            x
        })
        .collect();
    Ok(t)
}
