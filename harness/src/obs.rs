//! Observes library models as reference trees.

use crate::r;
use crate::sx::Sx;
use crate::v::V;
use kicad_parse_gen as k;
use kicad_parse_gen::footprint as fp;
use kicad_parse_gen::layout as lo;
use kicad_parse_gen::schematic as sch;
use kicad_parse_gen::symbol_lib as sl;

pub fn layer(l: &fp::Layer) -> V {
    let side = match l.side {
        fp::LayerSide::Front => "F.",
        fp::LayerSide::Back => "B.",
        fp::LayerSide::Dwgs => "Dwgs.",
        fp::LayerSide::Cmts => "Cmts.",
        fp::LayerSide::Eco1 => "Eco1.",
        fp::LayerSide::Eco2 => "Eco2.",
        fp::LayerSide::Edge => "Edge.",
        fp::LayerSide::In1 => "In1.",
        fp::LayerSide::In2 => "In2.",
        fp::LayerSide::Both => "*.",
        fp::LayerSide::None => "",
        #[allow(unreachable_patterns)]
        _ => "?.",
    };
    let t = match l.t {
        fp::LayerType::Cu => "Cu",
        fp::LayerType::Paste => "Paste",
        fp::LayerType::Mask => "Mask",
        fp::LayerType::SilkS => "SilkS",
        fp::LayerType::User => "User",
        fp::LayerType::Adhes => "Adhes",
        fp::LayerType::Cuts => "Cuts",
        fp::LayerType::CrtYd => "CrtYd",
        fp::LayerType::Fab => "Fab",
        fp::LayerType::Margin => "Margin",
        fp::LayerType::Other(ref x) => &x[..],
        #[allow(unreachable_patterns)]
        _ => "?",
    };
    V::S(format!("{}{}", side, t))
}

pub fn layers(l: &fp::Layers) -> V {
    V::L(l.layers.iter().map(layer).collect())
}

pub fn at(a: &fp::At) -> V {
    r!("at"; x: a.x, y: a.y, rot: a.rot)
}
pub fn xy(a: &fp::Xy) -> V {
    r!("xy"; x: a.x, y: a.y)
}
pub fn xyz(a: &fp::Xyz) -> V {
    r!("xyz"; x: a.x, y: a.y, z: a.z)
}
pub fn pts(p: &fp::Pts) -> V {
    V::L(p.elements.iter().map(xy).collect())
}
pub fn effects(e: &fp::Effects) -> V {
    let j = e.justify.as_ref().map(|j| match *j {
        fp::Justify::Mirror => "mirror",
        fp::Justify::Left => "left",
        fp::Justify::Right => "right",
        fp::Justify::LeftMirror => "left mirror",
        fp::Justify::RightMirror => "right mirror",
        #[allow(unreachable_patterns)]
        _ => "?",
    });
    r!("effects";
        font: r!("font"; x: e.font.size.x, y: e.font.size.y, thickness: e.font.thickness, italic: e.font.italic),
        justify: j)
}
pub fn fp_text(t: &fp::FpText) -> V {
    r!("fp_text"; name: &t.name, value: &t.value, at: at(&t.at), layer: layer(&t.layer), hide: t.hide, effects: effects(&t.effects))
}
pub fn drill(d: &fp::Drill) -> V {
    r!("drill"; oval: match d.shape { None => V::B(false), Some(ref s) if s == "oval" => V::B(true), Some(ref s) => V::from(s) },
        width: d.width, height: d.height, ox: d.offset_x, oy: d.offset_y)
}
pub fn pad(p: &fp::Pad) -> V {
    r!("pad"; name: &p.name,
        type: match p.t { fp::PadType::Smd => "smd", fp::PadType::Pth => "thru_hole", fp::PadType::NpPth => "np_thru_hole",
            #[allow(unreachable_patterns)] _ => "?" },
        shape: match p.shape { fp::PadShape::Rect => "rect", fp::PadShape::Circle => "circle", fp::PadShape::Oval => "oval",
            fp::PadShape::Trapezoid => "trapezoid", #[allow(unreachable_patterns)] _ => "?" },
        at: at(&p.at), size: xy(&p.size), rect_delta: p.rect_delta.as_ref().map(xy), drill: p.drill.as_ref().map(drill), layers: layers(&p.layers),
        net: p.net.as_ref().map(|n| r!("net"; num: n.num, name: &n.name.0)), zone_connect: p.zone_connect,
        solder_paste_margin: p.solder_paste_margin, solder_mask_margin: p.solder_mask_margin, clearance: p.clearance, thermal_gap: p.thermal_gap)
}

pub fn fp_element(e: &fp::Element) -> V {
    use fp::Element::*;
    match *e {
        SolderMaskMargin(x) => r!("solder_mask_margin"; v: x),
        Layer(ref l) => r!("layer"; v: layer(l)),
        Descr(ref s) => r!("descr"; v: s),
        Tags(ref s) => r!("tags"; v: s),
        Attr(ref s) => r!("attr"; v: s),
        FpText(ref t) => fp_text(t),
        Pad(ref p) => pad(p),
        FpPoly(ref p) => r!("fp_poly"; pts: pts(&p.pts), layer: layer(&p.layer), width: p.width),
        FpLine(ref p) => r!("fp_line"; start: xy(&p.start), end: xy(&p.end), layer: layer(&p.layer), width: p.width),
        FpCircle(ref p) => r!("fp_circle"; center: xy(&p.center), end: xy(&p.end), layer: layer(&p.layer), width: p.width),
        FpArc(ref p) => r!("fp_arc"; start: xy(&p.start), end: xy(&p.end), angle: p.angle, layer: layer(&p.layer), width: p.width),
        TEdit(x) => r!("tedit"; v: x),
        TStamp(x) => r!("tstamp"; v: x),
        Path(ref s) => r!("path"; v: s),
        At(ref a) => at(a),
        Model(ref m) => r!("model"; name: &m.name, at: xyz(&m.at), scale: xyz(&m.scale), rotate: xyz(&m.rotate)),
        Clearance(x) => r!("clearance"; v: x),
        Locked => r!("locked"),
        #[allow(unreachable_patterns)]
        _ => r!("unknown"),
    }
}

pub fn module(m: &fp::Module) -> V {
    r!("module"; name: &m.name, elements: V::L(m.elements.iter().map(fp_element).collect()))
}

pub fn sexp(s: &k::Sexp) -> Sx {
    match *s {
        k::Sexp::String(ref s) => Sx::Q(s.clone()),
        k::Sexp::List(ref v) => Sx::L(v.iter().map(sexp).collect()),
        k::Sexp::Empty => Sx::L(vec![]),
    }
}

fn gr_text(t: &lo::GrText) -> V {
    r!("gr_text"; value: &t.value, at: at(&t.at), layer: layer(&t.layer), effects: effects(&t.effects), tstamp: t.tstamp.as_ref())
}

pub fn net_class(n: &lo::NetClass) -> V {
    r!("net_class"; name: &n.name, desc: &n.desc, clearance: n.clearance, trace_width: n.trace_width, via_dia: n.via_dia, via_drill: n.via_drill,
        uvia_dia: n.uvia_dia, uvia_drill: n.uvia_drill, diff_pair_gap: n.diff_pair_gap, diff_pair_width: n.diff_pair_width,
        nets: V::L(n.nets.iter().map(|x| V::from(&x.0)).collect()))
}

pub fn net(n: &lo::Net) -> V {
    r!("net"; num: n.num, name: &n.name.0)
}

pub fn board_element(e: &lo::Element) -> V {
    use lo::Element::*;
    match *e {
        Module(ref m) => module(m),
        Net(ref n) => net(n),
        NetClass(ref n) => net_class(n),
        GrText(ref t) => gr_text(t),
        GrLine(ref g) => r!("gr_line"; start: xy(&g.start), end: xy(&g.end), angle: g.angle, layer: layer(&g.layer), width: g.width, tstamp: g.tstamp.as_ref()),
        GrArc(ref g) => r!("gr_arc"; start: xy(&g.start), end: xy(&g.end), angle: g.angle, layer: layer(&g.layer), width: g.width, tstamp: g.tstamp.as_ref()),
        GrCircle(ref g) => r!("gr_circle"; center: xy(&g.center), end: xy(&g.end), layer: layer(&g.layer), width: g.width, tstamp: g.tstamp.as_ref()),
        Dimension(ref d) => r!("dimension"; name: &d.name, width: d.width, layer: layer(&d.layer), tstamp: d.tstamp.as_ref(), text: gr_text(&d.text),
            feature1: pts(&d.feature1), feature2: pts(&d.feature2), crossbar: pts(&d.crossbar), arrow1a: pts(&d.arrow1a), arrow1b: pts(&d.arrow1b),
            arrow2a: pts(&d.arrow2a), arrow2b: pts(&d.arrow2b)),
        Segment(ref s) => r!("segment"; start: xy(&s.start), end: xy(&s.end), width: s.width, layer: layer(&s.layer), net: s.net,
            tstamp: s.tstamp.as_ref(), status: s.status.as_ref()),
        Via(ref v) => r!("via"; blind: v.blind, micro: v.micro, at: at(&v.at), size: v.size, drill: v.drill, layers: layers(&v.layers), net: v.net),
        Zone(ref z) => r!("zone"; net: z.net, net_name: &z.net_name.0, layer: layer(&z.layer), tstamp: &z.tstamp, hatch_style: &z.hatch.style,
            hatch_pitch: z.hatch.pitch, priority: z.priority as i64, connection: z.connect_pads.connection.as_ref(), clearance: z.connect_pads.clearance,
            min_thickness: z.min_thickness,
            keepout: z.keepout.as_ref().map(|k| r!("keepout"; tracks: k.tracks, vias: k.vias, copperpour: k.copperpour)),
            filled: z.fill.filled, segment: z.fill.segment, arc_segments: z.fill.arc_segments, thermal_gap: z.fill.thermal_gap,
            thermal_bridge_width: z.fill.thermal_bridge_width, smoothing: z.fill.smoothing.as_ref(), radius: z.fill.corner_radius,
            polygons: V::L(z.polygons.iter().map(pts).collect()), filled_polygons: V::L(z.filled_polygons.iter().map(pts).collect()),
            fill_segments: z.fill_segments.as_ref().map(pts), other: V::L(z.other.iter().map(|s| V::X(sexp(s))).collect())),
        Other(ref s) => r!("other"; v: sexp(s)),
        #[allow(unreachable_patterns)]
        _ => r!("unknown"),
    }
}

fn se(v: &[lo::SetupElement]) -> V {
    V::L(v.iter().map(|e| r!("se"; name: &e.name, v1: &e.value1, v2: e.value2.as_ref())).collect())
}

pub fn board(b: &lo::Layout) -> V {
    let g = &b.general;
    r!("board"; version: b.version, host_tool: &b.host.tool, host_build: &b.host.build,
        general: r!("general"; links: g.links, no_connects: g.no_connects, x1: g.area.x1, y1: g.area.y1, x2: g.area.x2, y2: g.area.y2,
            thickness: g.thickness, drawings: g.drawings, tracks: g.tracks, zones: g.zones, modules: g.modules, nets: g.nets),
        page: &b.page,
        layers: V::L(b.layers.iter().map(|l| r!("blayer"; num: l.num, name: layer(&l.layer), type: match l.layer_type {
            lo::LayerType::Signal => "signal", lo::LayerType::Power => "power", lo::LayerType::Mixed => "mixed", lo::LayerType::Jumper => "jumper",
            lo::LayerType::User => "user", #[allow(unreachable_patterns)] _ => "?" }, hide: l.hide)).collect()),
        setup: se(&b.setup.elements), plot: se(&b.setup.pcbplotparams),
        elements: V::L(b.elements.iter().map(board_element).collect()))
}

// ------------------------------------------------------------ schematic

pub fn orientation(o: &sch::Orientation) -> &'static str {
    match *o {
        sch::Orientation::Horizontal => "H",
        sch::Orientation::Vertical => "V",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}
pub fn justify(o: &sch::Justify) -> &'static str {
    match *o {
        sch::Justify::Left => "L",
        sch::Justify::Right => "R",
        sch::Justify::Center => "C",
        sch::Justify::Bottom => "B",
        sch::Justify::Top => "T",
        #[allow(unreachable_patterns)]
        _ => "?",
    }
}
pub fn field(f: &sch::ComponentField) -> V {
    r!("field"; i: f.i, value: &f.value, orientation: orientation(&f.orientation), x: f.x, y: f.y, size: f.size, visible: f.visible,
        hjustify: justify(&f.hjustify), vjustify: justify(&f.vjustify), italic: f.italic, bold: f.bold, name: &f.name)
}
pub fn component(c: &sch::Component) -> V {
    // the rotation can only be seen in the component's text form
    let t = crate::core::lib("component text", || format!("{}", c));
    let rot: Vec<V> = match t.lines().filter(|x| x.starts_with('\t')).last() {
        None => vec![V::S("no rotation line".into())],
        Some(s) => s.split_whitespace().map(|w| match w.parse::<i64>() {
            Ok(i) => V::I(i),
            Err(_) => V::from(w),
        }).collect(),
    };
    r!("comp"; name: &c.name, reference: &c.reference, u: &c.u, x: c.x, y: c.y, ar: V::L(c.ar_path.iter().map(V::from).collect()),
        fields: V::L(c.fields.iter().map(field).collect()), rot: V::L(rot))
}
pub fn sheet(s: &sch::Sheet) -> V {
    r!("sheet"; x: s.x, y: s.y, dimx: s.dimx, dimy: s.dimy, unique: &s.unique, name: &s.name, name_size: s.name_size, filename: &s.filename,
        filename_size: s.filename_size, labels: V::L(s.labels.iter().map(|l| r!("label"; name: &l.name, form: match l.form {
            sch::LabelForm::Input => "I", sch::LabelForm::Output => "O", sch::LabelForm::BiDi => "B", sch::LabelForm::TriState => "T",
            sch::LabelForm::Unspecified => "U", #[allow(unreachable_patterns)] _ => "?" },
            side: match l.side { sch::LabelSide::Left => "L", sch::LabelSide::Right => "R", sch::LabelSide::Top => "T", sch::LabelSide::Bottom => "B",
                #[allow(unreachable_patterns)] _ => "?" }, x: l.x, y: l.y, size: l.size)).collect()))
}
pub fn sch_element(e: &sch::Element) -> V {
    match *e {
        sch::Element::Component(ref c) => component(c),
        sch::Element::Wire(ref w) => r!("wire"; t: match w.type_ { sch::WireType::Wire => "Wire", sch::WireType::Notes => "Notes",
            sch::WireType::Bus => "Bus", #[allow(unreachable_patterns)] _ => "?" }, x1: w.x1, y1: w.y1, x2: w.x2, y2: w.y2),
        sch::Element::Connection(ref c) => r!("conn"; x: c.x, y: c.y),
        sch::Element::NoConnect(ref c) => r!("noconn"; x: c.x, y: c.y),
        sch::Element::Text(ref t) => r!("text"; t: match t.t { sch::TextType::Note => "Notes", sch::TextType::Global => "GLabel",
            sch::TextType::Hierarchical => "HLabel", sch::TextType::Label => "Label", #[allow(unreachable_patterns)] _ => "?" },
            x: t.x, y: t.y, orientation: t.orientation, size: t.size, shape: t.shape.as_ref(), italic: t.italic, thickness: t.thickness, text: &t.text),
        sch::Element::Other(ref s) => r!("other"; v: s),
        #[allow(unreachable_patterns)]
        _ => r!("unknown"),
    }
}
pub fn schematic(s: &sch::Schematic) -> V {
    let d = &s.description;
    r!("sch"; libraries: V::L(s.libraries.iter().map(V::from).collect()), eelayer: &s.eelayer,
        descr: r!("descr"; size: &d.size, dimx: d.dimx, dimy: d.dimy, portrait: d.portrait, title: &d.title, date: &d.date, rev: &d.rev, comp: &d.comp,
            comment1: &d.comment1, comment2: &d.comment2, comment3: &d.comment3, comment4: &d.comment4, sheet: d.sheet, sheet_count: d.sheet_count),
        elements: V::L(s.elements.iter().map(sch_element).collect()), sheets: V::L(s.sheets.iter().map(sheet).collect()))
}

// ------------------------------------------------------------ symbol library

pub fn pin(p: &sl::Pin) -> V {
    use sl::PinShape as S;
    use sl::PinType as T;
    r!("pin"; name: &p.name, number: &p.number, x: p.x, y: p.y, len: p.len,
        orientation: match p.orientation { sl::PinOrientation::Up => "U", sl::PinOrientation::Down => "D", sl::PinOrientation::Left => "L",
            sl::PinOrientation::Right => "R", #[allow(unreachable_patterns)] _ => "?" },
        num_size: p.num_size, name_size: p.name_size, unit: p.unit, convert: p.convert,
        type: match p.pin_type { T::Input => "I", T::Output => "O", T::Bidi => "B", T::Tristate => "T", T::Passive => "P", T::Unspecified => "U",
            T::PowerInput => "W", T::PowerOutput => "w", T::OpenCollector => "C", T::OpenEmitter => "E", T::NotConnected => "N",
            #[allow(unreachable_patterns)] _ => "?" },
        visible: p.pin_visible,
        shape: match p.pin_shape { S::Line => "", S::Inverted => "I", S::Clock => "C", S::InvertedClock => "CI", S::InputLow => "L", S::ClockLow => "CL",
            S::OutputLow => "V", S::FallingEdgeClock => "F", S::NonLogic => "X", #[allow(unreachable_patterns)] _ => "?" })
}
pub fn symbol(s: &sl::Symbol) -> V {
    r!("symbol"; name: &s.name, reference: &s.reference, text_offset: s.text_offset, pinnumber: s.draw_pinnumber, pinname: s.draw_pinname,
        unit_count: s.unit_count, locked: s.unit_locked, power: s.is_power,
        fields: V::L(s.fields.iter().map(|f| r!("sfield"; i: f.i, value: &f.value, x: f.x, y: f.y, dimension: f.dimension,
            orientation: orientation(&f.orientation), visible: f.visible, hjustify: justify(&f.hjustify), vjustify: justify(&f.vjustify),
            italic: f.italic, bold: f.bold, name: &f.name)).collect()),
        aliases: V::L(s.aliases.iter().map(V::from).collect()), fp: V::L(s.fp_list.iter().map(V::from).collect()),
        draw: V::L(s.draw.iter().map(|d| match *d {
            sl::Draw::Pin(ref p) => pin(p),
            sl::Draw::Rectangle(ref q) => r!("rect"; x1: q.x1, y1: q.y1, x2: q.x2, y2: q.y2, unit: q.unit, convert: q.convert, thickness: q.thickness,
                fill: match q.fill { sl::Fill::FilledForeground => "F", sl::Fill::FilledBackground => "f", sl::Fill::Transparent => "N",
                    #[allow(unreachable_patterns)] _ => "?" }),
            sl::Draw::Other(ref s) => r!("other"; v: s),
            #[allow(unreachable_patterns)]
            _ => r!("unknown"),
        }).collect()))
}
pub fn symbol_lib(l: &sl::SymbolLib) -> V {
    r!("lib"; symbols: V::L(l.symbols.iter().map(symbol).collect()))
}

pub fn table(t: &k::fp_lib_table::FpLibTable) -> V {
    r!("table"; libs: V::L(t.libs.iter().map(|e| r!("entry"; name: &e.name, type: &e.type_, uri: &e.uri, options: &e.options, descr: &e.descr)).collect()))
}
