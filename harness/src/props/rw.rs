//! C01 to C09: reading and writing.

use super::*;
use crate::core::event;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C01", cases: (500_000, 10_000_000), run: |c| read_case(c, "module"),
        required: &["kind:pad", "kind:fp_text", "kind:fp_poly", "kind:fp_line", "kind:fp_circle", "kind:fp_arc", "kind:model", "kind:drill", "kind:net",
            "kind:locked", "kind:tedit", "kind:tstamp", "kind:path", "kind:clearance", "kind:solder_mask_margin", "kind:attr", "kind:descr", "kind:tags",
            "absent:pad.net", "flag:drill.oval=true", "flag:fp_text.hide=true", "source:sample file"],
        rule: "distinct reference footprints (hash of all elements and values) for which the parsed model was compared value by value",
        assumptions: READ_A,
    },
    &Prop {
        id: "C03", cases: (500_000, 10_000_000), run: |c| read_case(c, "board"),
        required: &["kind:net", "kind:net_class", "kind:gr_text", "kind:gr_line", "kind:gr_arc", "kind:gr_circle", "kind:dimension", "kind:segment",
            "kind:via", "kind:zone", "kind:keepout", "kind:module", "kind:other", "kind:blayer", "kind:se", "absent:zone.keepout", "source:sample file"],
        rule: "distinct reference boards (hash of all data and elements) for which the parsed model was compared value by value",
        assumptions: READ_A,
    },
    &Prop {
        id: "C05", cases: (500_000, 10_000_000), run: |c| read_case(c, "sch"),
        required: &["kind:comp", "kind:field", "kind:wire", "kind:conn", "kind:noconn", "kind:text", "kind:sheet", "kind:label", "kind:other", "kind:descr",
            "flag:descr.portrait=true", "flag:field.bold=true", "source:sample file"],
        rule: "distinct reference schematics (hash of all items and values) for which the parsed model was compared value by value",
        assumptions: READ_A,
    },
    &Prop {
        id: "C07", cases: (500_000, 10_000_000), run: |c| read_case(c, "lib"),
        required: &["kind:symbol", "kind:sfield", "kind:pin", "kind:rect", "kind:other", "flag:pin.visible=false", "flag:symbol.power=true", "source:sample file"],
        rule: "distinct reference libraries (hash of all symbols and values) for which the parsed model was compared value by value",
        assumptions: READ_A,
    },
    &Prop {
        id: "C02", cases: (500_000, 10_000_000), run: |c| write_case(c, "module"),
        required: &["kind:pad", "kind:drill", "kind:model", "kind:fp_arc", "edited", "rewritten"],
        rule: "distinct footprints written (hash of the observed model) whose text was read by an independent reader and by the library",
        assumptions: WRITE_A,
    },
    &Prop {
        id: "C04", cases: (250_000, 5_000_000), run: |c| write_case(c, "board"),
        required: &["kind:zone", "kind:dimension", "kind:via", "kind:segment", "kind:net_class", "kind:module", "edited", "rewritten"],
        rule: "distinct boards written (hash of the observed model) whose text was read by an independent reader and by the library",
        assumptions: WRITE_A,
    },
    &Prop {
        id: "C06", cases: (350_000, 7_000_000), run: |c| write_case(c, "sch"),
        required: &["kind:comp", "kind:field", "kind:text", "kind:sheet", "kind:label", "kind:wire", "edited", "rewritten"],
        rule: "distinct schematics written (hash of the observed model) whose text was read by an independent reader and by the library",
        assumptions: WRITE_A,
    },
    &Prop {
        id: "C08", cases: (350_000, 7_000_000), run: |c| write_case(c, "lib"),
        required: &["kind:symbol", "kind:pin", "kind:rect", "kind:sfield", "edited", "rewritten", "constructed"],
        rule: "distinct libraries written (hash of the observed model) whose text was read by an independent reader and by the library",
        assumptions: WRITE_A,
    },
    &Prop {
        id: "C09", cases: (800_000, 16_000_000), run: table_case,
        required: &["kind:entry", "uri:variable set", "uri:variable unset", "uri:tilde", "uri:plain", "any text:expanded", "any text:variable unset", "rewritten"],
        rule: "distinct tables read and written, and distinct (URI, environment) pairs whose expansion was compared with the independent expansion",
        assumptions: WRITE_A,
    },
];

const READ_A: &[&str] = &[
    "strings are those the format can carry: no raw line breaks, quotes only escaped",
    "sub-expressions come in the order KiCad 4 writes them, except where the format allows any order",
];
const WRITE_A: &[&str] = &["values stay within what the format can express (DESIGN.md, domain limits)"];

/// standard fields may carry a name of their own
fn name_fields(r: &mut Rng, v: &mut V) {
    match v.kind() {
        "field" | "sfield" if v.fi("i") <= 3 && r.pct(30) => {
            let s = if r.bool() { r.pick(&["Reference", "Value", "Package", "Datasheet", "MPN"]).to_string() } else { gen::lstr(r) };
            v.set("name", s);
            event("named standard field")
        }
        _ => (),
    }
    match *v {
        V::L(ref mut l) => for x in l {
            name_fields(r, x)
        },
        V::R(_, ref mut l) => for x in l {
            name_fields(r, &mut x.1)
        },
        _ => (),
    }
}

fn read_case(c: &mut Ctx, kind: &str) -> Res {
    let mut v = any_doc(c, kind)?;
    if (kind == "sch" || kind == "lib") && c.rng.pct(15) {
        name_fields(&mut c.rng, &mut v)
    }
    cover(&v);
    let text = text_of(c, &v, true)?;
    c.attach("input", text.clone());
    let d = parse_ok(kind, &text)?;
    same("parsed model differs from the file", &v, &d.obs())?;
    c.eval();
    c.seen(v.hash());
    if c.index < 40 {
        c.sample(text.clone())
    }
    // the same content in another style
    if c.rng.pct(30) {
        let t2 = text_of(c, &v, true)?;
        c.attach("input in another style", t2.clone());
        let d = parse_ok(kind, &t2)?;
        same("parsed model depends on the style of the file", &v, &d.obs())?;
        c.eval();
        event("second style")
    }
    Ok(())
}

/// write, then read with an independent reader and with the library, then write again
pub fn check_written(c: &mut Ctx, d: &Doc) -> Result<String, Fail> {
    let v = d.obs();
    let text = match d.write() {
        Ok(t) => t,
        Err(e) => return bad(format!("the model cannot be written: {}", e)),
    };
    c.attach("written", text.clone());
    match read::document(d.kind(), &text) {
        Err(e) => return bad(format!("the written text is not well-formed: {}", e)),
        Ok(w) => same("the written text does not carry the model:", &v, &w)?,
    }
    let d2 = match Doc::parse(d.kind(), &text) {
        Err(e) => return bad(format!("the written text is rejected: {}", e)),
        Ok(d) => d,
    };
    same("the model read back differs", &v, &d2.obs())?;
    match d2.write() {
        Ok(ref t) if *t == text => (),
        Ok(t) => {
            c.attach("written again", t);
            return bad("writing the re-read model gives another text");
        }
        Err(e) => return bad(format!("the re-read model cannot be written: {}", e)),
    }
    event("rewritten");
    c.eval();
    Ok(text)
}

fn write_case(c: &mut Ctx, kind: &str) -> Res {
    let mut v = any_doc(c, kind)?;
    let mut d = if c.rng.pct(25) {
        match build_doc(&mut v) {
            Ok(d) => {
                event("made in code");
                d
            }
            Err(e) => return skip(e.0),
        }
    } else {
        parsed(c, &v)?
    };
    if c.rng.pct(70) {
        let w = gen_doc(&mut c.rng, kind);
        let mut e = parsed(c, &w)?;
        let n = 1 + c.rng.below(6);
        for _ in 0..n {
            edit(c, &mut d, &mut e)
        }
        event("edited")
    }
    let o = d.obs();
    cover(&o);
    let t = check_written(c, &d)?;
    c.seen(o.hash());
    if c.index < 40 {
        c.sample(t)
    }
    Ok(())
}

/// one random edit through the public fields and methods; values may come from the second model
pub fn edit(c: &mut Ctx, d: &mut Doc, other: &mut Doc) {
    let r = &mut c.rng;
    match *d {
        Doc::Module(ref mut m) => edit_module(r, m, other.module()),
        Doc::Board(ref mut b) => edit_board(r, b, other.board()),
        Doc::Sch(ref mut s) => edit_sch(r, s, other.sch()),
        Doc::Lib(ref mut l) => edit_lib(r, l, other.lib()),
        Doc::Table(ref mut t) => edit_table(r, t, other.table()),
    }
}

fn edit_list<T: Clone>(r: &mut Rng, a: &mut Vec<T>, b: &[T]) {
    match r.below(5) {
        0 => if !a.is_empty() {
            let k = r.below(a.len());
            a.remove(k);
        },
        1 => if !a.is_empty() {
            let k = r.below(a.len());
            let x = a[k].clone();
            let k = r.below(a.len() + 1);
            a.insert(k, x)
        },
        2 => r.shuffle(a),
        _ => if !b.is_empty() {
            let x = r.pick(b).clone();
            let k = r.below(a.len() + 1);
            a.insert(k, x)
        },
    }
}

fn edit_pad(r: &mut Rng, p: &mut fp::Pad, q: &fp::Pad) {
    for _ in 0..1 + r.below(3) {
        match r.below(14) {
            0 => p.name = gen::sstr(r),
            1 => p.t = q.t.clone(),
            2 => p.shape = q.shape.clone(),
            3 => p.size = q.size.clone(),
            4 => p.rect_delta = q.rect_delta.clone(),
            5 => p.at = q.at.clone(),
            6 => p.layers = q.layers.clone(),
            7 => p.net = q.net.clone(),
            8 => p.zone_connect = q.zone_connect,
            9 => p.drill = q.drill.clone(),
            10 => p.solder_paste_margin = q.solder_paste_margin,
            11 => p.solder_mask_margin = q.solder_mask_margin,
            12 => p.clearance = q.clearance,
            _ => p.thermal_gap = q.thermal_gap,
        }
    }
}

pub fn edit_module(r: &mut Rng, m: &mut fp::Module, o: &mut fp::Module) {
    match r.below(10) {
        0 => m.name = gen::sstr(r),
        1 => edit_list(r, &mut m.elements, &o.elements),
        2 => {
            let s = gen::sstr(r);
            if let Some(t) = lib("reference text", || m.get_reference_text_mut()) {
                t.value = s
            }
        }
        3 => lib("flip module", || fp::Flip::flip(m)),
        4 => {
            let a = gen::angle(r);
            if a.abs() <= 360.0 {
                lib("rotate module", || fp::Rotate::rotate(m, a))
            }
        }
        5 => {
            let (x, y) = (gen::pos(r), gen::pos(r));
            lib("move module", || k::Adjust::adjust(m, x, y))
        }
        6 => {
            let t = fp::FpText::new(gen::sstr(r), gen::sstr(r));
            m.append(fp::Element::FpText(t))
        }
        _ => {
            // copy fields between elements of a kind
            if m.elements.is_empty() || o.elements.is_empty() {
                return;
            }
            for _ in 0..20 {
                let a = r.below(m.elements.len());
                let b = r.below(o.elements.len());
                use fp::Element as E;
                match (&mut m.elements[a], &o.elements[b]) {
                    (&mut E::Pad(ref mut p), &E::Pad(ref q)) => {
                        edit_pad(r, p, q);
                        return;
                    }
                    (&mut E::FpText(ref mut p), &E::FpText(ref q)) => {
                        match r.below(6) {
                            0 => p.name = q.name.clone(),
                            1 => p.value = q.value.clone(),
                            2 => p.at = q.at.clone(),
                            3 => p.layer = q.layer.clone(),
                            4 => p.hide = q.hide,
                            _ => p.effects = q.effects.clone(),
                        }
                        return;
                    }
                    (&mut E::FpPoly(ref mut p), &E::FpPoly(ref q)) => {
                        match r.below(3) {
                            0 => edit_list(r, &mut p.pts.elements, &q.pts.elements),
                            1 => p.layer = q.layer.clone(),
                            _ => p.width = q.width,
                        }
                        return;
                    }
                    (&mut E::FpLine(ref mut p), &E::FpLine(ref q)) => {
                        match r.below(4) {
                            0 => p.start = q.start.clone(),
                            1 => p.end = q.end.clone(),
                            2 => p.layer = q.layer.clone(),
                            _ => p.width = q.width,
                        }
                        return;
                    }
                    (&mut E::FpArc(ref mut p), &E::FpArc(ref q)) => {
                        match r.below(3) {
                            0 => p.start = q.start.clone(),
                            1 => p.angle = q.angle,
                            _ => p.end = q.end.clone(),
                        }
                        return;
                    }
                    (&mut E::Model(ref mut p), &E::Model(ref q)) => {
                        match r.below(4) {
                            0 => p.name = q.name.clone(),
                            1 => p.at = q.at.clone(),
                            2 => p.scale = q.scale.clone(),
                            _ => p.rotate = q.rotate.clone(),
                        }
                        return;
                    }
                    _ => (),
                }
            }
        }
    }
}

pub fn edit_board(r: &mut Rng, m: &mut lo::Layout, o: &mut lo::Layout) {
    use lo::Element as E;
    match r.below(12) {
        0 => edit_list(r, &mut m.elements, &o.elements),
        1 => edit_list(r, &mut m.layers, &o.layers),
        2 => edit_list(r, &mut m.setup.elements, &o.setup.elements),
        3 => edit_list(r, &mut m.setup.pcbplotparams, &o.setup.pcbplotparams),
        4 => {
            m.page = gen::sstr(r);
            m.version = gen::int(r)
        }
        5 => m.general = o.general.clone(),
        6 => {
            let (n, s) = (gen::int(r), leak(&gen::sstr(r)));
            lib("add net", || m.add_net(n, s))
        }
        7 => {
            let (x, y) = (gen::pos(r), gen::pos(r));
            lib("move board", || k::Adjust::adjust(m, x, y))
        }
        8 => {
            let (a, b) = (gen::sstr(r), gen::sstr(r));
            lib("change net name", || m.change_net_name(&a, &b))
        }
        9 => {
            let (a, b) = (leak(&gen::sword(r)), gen::sstr(r));
            if a != "pcbplotparams" {
                lib("update setup", || m.setup.update_element(a, b))
            }
        }
        _ => {
            if m.elements.is_empty() || o.elements.is_empty() {
                return;
            }
            for _ in 0..20 {
                let a = r.below(m.elements.len());
                let b = r.below(o.elements.len());
                match (&mut m.elements[a], &mut o.elements[b]) {
                    (&mut E::Module(ref mut p), &mut E::Module(ref mut q)) => {
                        edit_module(r, p, q);
                        return;
                    }
                    (&mut E::Zone(ref mut p), &mut E::Zone(ref q)) => {
                        match r.below(12) {
                            0 => p.net = q.net,
                            1 => p.net_name = q.net_name.clone(),
                            2 => p.layer = q.layer.clone(),
                            3 => p.hatch = q.hatch.clone(),
                            4 => p.priority = q.priority,
                            5 => p.connect_pads = q.connect_pads.clone(),
                            6 => p.keepout = q.keepout.clone(),
                            7 => p.fill = q.fill.clone(),
                            8 => edit_list(r, &mut p.polygons, &q.polygons),
                            9 => edit_list(r, &mut p.filled_polygons, &q.filled_polygons),
                            10 => p.fill_segments = q.fill_segments.clone(),
                            _ => edit_list(r, &mut p.other, &q.other),
                        }
                        return;
                    }
                    (&mut E::Via(ref mut p), &mut E::Via(ref q)) => {
                        match r.below(6) {
                            0 => p.blind = q.blind,
                            1 => p.micro = q.micro,
                            2 => p.drill = q.drill,
                            3 => p.layers = q.layers.clone(),
                            4 => p.net = q.net,
                            _ => p.size = q.size,
                        }
                        return;
                    }
                    (&mut E::Segment(ref mut p), &mut E::Segment(ref q)) => {
                        match r.below(5) {
                            0 => p.start = q.start.clone(),
                            1 => p.tstamp = q.tstamp.clone(),
                            2 => p.status = q.status.clone(),
                            3 => p.layer = q.layer.clone(),
                            _ => p.net = q.net,
                        }
                        return;
                    }
                    (&mut E::GrText(ref mut p), &mut E::GrText(ref q)) => {
                        match r.below(4) {
                            0 => p.value = q.value.clone(),
                            1 => p.tstamp = q.tstamp.clone(),
                            2 => p.effects = q.effects.clone(),
                            _ => p.at = q.at.clone(),
                        }
                        return;
                    }
                    (&mut E::NetClass(ref mut p), &mut E::NetClass(ref q)) => {
                        match r.below(5) {
                            0 => edit_list(r, &mut p.nets, &q.nets),
                            1 => p.diff_pair_gap = q.diff_pair_gap,
                            2 => p.diff_pair_width = q.diff_pair_width,
                            3 => p.desc = q.desc.clone(),
                            _ => p.via_dia = q.via_dia,
                        }
                        return;
                    }
                    (&mut E::Dimension(ref mut p), &mut E::Dimension(ref q)) => {
                        match r.below(4) {
                            0 => p.arrow1a = q.arrow1a.clone(),
                            1 => p.text = q.text.clone(),
                            2 => p.tstamp = q.tstamp.clone(),
                            _ => p.name = q.name.clone(),
                        }
                        return;
                    }
                    (&mut E::GrLine(ref mut p), &mut E::GrLine(ref q)) => {
                        match r.below(3) {
                            0 => p.angle = q.angle,
                            1 => p.tstamp = q.tstamp.clone(),
                            _ => p.end = q.end.clone(),
                        }
                        return;
                    }
                    _ => (),
                }
            }
        }
    }
}

pub fn edit_sch(r: &mut Rng, m: &mut sch::Schematic, o: &mut sch::Schematic) {
    match r.below(9) {
        0 => edit_list(r, &mut m.libraries, &o.libraries),
        1 => edit_list(r, &mut m.sheets, &o.sheets),
        2 => m.description.title = gen::lstr(r),
        3 => m.description.portrait = !m.description.portrait,
        4 => {
            // move an element over
            if !o.elements.is_empty() {
                let a = r.below(o.elements.len());
                let e = o.elements.remove(a);
                let k = r.below(m.elements.len() + 1);
                m.elements.insert(k, e)
            }
        }
        5 => if !m.elements.is_empty() {
            let a = r.below(m.elements.len());
            m.elements.remove(a);
        },
        6 => lib("increment sheet count", || {
            if m.description.sheet_count < i64::max_value() {
                m.increment_sheet_count()
            }
        }),
        _ => {
            let (name, value) = (gen::lstr(r), gen::lstr(r));
            let word = gen::lword(r);
            let n = m.elements.len();
            for _ in 0..10 {
                if n == 0 {
                    return;
                }
                let a = r.below(n);
                if let sch::Element::Component(ref mut c) = m.elements[a] {
                    match r.below(7) {
                        0 => lib("update reference", || c.update_reference(word)),
                        1 => lib("update name", || c.update_name(word)),
                        2 => if let Some(t) = c.fields.first().cloned() {
                            if c.fields.iter().all(|f| f.i >= 0 && f.i < 1000) {
                                let next = lib("available field number", || c.get_available_field_num());
                                if next > 3 {
                                    lib("add field", || c.add_new_field(&t, &name, &value))
                                }
                            }
                        },
                        3 => if let Some(n) = c.fields.first().map(|f| f.name.clone()) {
                            lib("update field", || c.update_field(&n, &value))
                        },
                        4 => {
                            c.x = gen::int(r);
                            c.y = gen::int(r)
                        }
                        5 => if !c.fields.is_empty() {
                            let a = r.below(c.fields.len());
                            c.fields[a].visible = !c.fields[a].visible;
                            c.fields[a].bold = !c.fields[a].bold
                        },
                        _ => r.shuffle(&mut c.fields),
                    }
                    return;
                }
            }
        }
    }
}

pub fn edit_lib(r: &mut Rng, m: &mut sl::SymbolLib, o: &mut sl::SymbolLib) {
    match r.below(8) {
        0 => edit_list(r, &mut m.symbols, &o.symbols),
        1 => {
            let s = lib("new symbol", || sl::Symbol::new(gen::lword(r), gen::lword(r)));
            let k = r.below(m.symbols.len() + 1);
            m.symbols.insert(k, s);
            event("constructed")
        }
        _ => {
            if m.symbols.is_empty() || o.symbols.is_empty() {
                return;
            }
            let a = r.below(m.symbols.len());
            let b = r.below(o.symbols.len());
            let (p, q) = (&mut m.symbols[a], &o.symbols[b]);
            match r.below(10) {
                0 => {
                    let n = gen::lword(r);
                    lib("set name", || p.set_name(&n))
                }
                1 => edit_list(r, &mut p.aliases, &q.aliases),
                2 => edit_list(r, &mut p.fp_list, &q.fp_list),
                3 | 4 => edit_list(r, &mut p.draw, &q.draw),
                5 => p.draw_pinname = !p.draw_pinname,
                6 => p.unit_locked = !p.unit_locked,
                7 => p.is_power = !p.is_power,
                8 => p.text_offset = q.text_offset,
                _ => for d in p.draw.iter_mut() {
                    if let sl::Draw::Pin(ref mut x) = *d {
                        x.pin_visible = !x.pin_visible;
                        x.name = gen::lword(r);
                    }
                },
            }
        }
    }
}

pub fn edit_table(r: &mut Rng, m: &mut tb::FpLibTable, o: &mut tb::FpLibTable) {
    if r.bool() || m.libs.is_empty() {
        edit_list(r, &mut m.libs, &o.libs)
    } else {
        let a = r.below(m.libs.len());
        let l = &mut m.libs[a];
        match r.below(5) {
            0 => l.name = gen::sstr(r),
            1 => l.type_ = gen::sstr(r),
            2 => l.uri = gen::sstr(r),
            3 => l.options = gen::sstr(r),
            _ => l.descr = gen::sstr(r),
        }
    }
}

// ------------------------------------------------------------ C09

/// own expansion of `$NAME`, `${NAME}`, `$$` and a leading tilde
fn expand(uri: &[Piece], env: &dyn Fn(&str) -> Option<String>, home: &str) -> Option<String> {
    let mut o = String::new();
    for p in uri {
        match *p {
            Piece::Text(ref t) => o.push_str(t),
            Piece::Var(ref n, _) => o.push_str(&env(n)?),
            Piece::Home => o.push_str(home),
        }
    }
    Some(o)
}

/// own reading of a text with references
fn scan(uri: &str, env: &dyn Fn(&str) -> Option<String>, home: &str) -> Option<String> {
    let name = |c: &char| c.is_alphanumeric() || *c == '_';
    let t: Vec<char> = uri.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] != '$' {
            o.push(t[i]);
            i += 1;
            continue;
        }
        match t.get(i + 1) {
            Some('$') => {
                o.push('$');
                i += 2
            }
            Some('{') if t[i..].contains(&'}') => {
                let n: String = t[i + 2..].iter().take_while(|c| **c != '}').collect();
                o.push_str(&env(&n)?);
                i += 3 + n.chars().count()
            }
            Some('{') => {
                o.push_str("${");
                i += 2
            }
            Some(c) if name(c) => {
                let n: String = t[i + 1..].iter().take_while(|c| name(c)).collect();
                o.push_str(&env(&n)?);
                i += 1 + n.chars().count()
            }
            _ => {
                o.push('$');
                i += 1
            }
        }
    }
    // only a tilde of the text itself is the home directory
    if uri.starts_with('~') && (o == "~" || o.starts_with("~/")) {
        o = format!("{}{}", home, &o[1..])
    }
    Some(o)
}

fn any_uri(c: &mut Ctx, uri: &str, env: &[(String, String)], home: &str) -> Res {
    if uri.contains('"') || uri.contains('\\') || uri.contains('\0') || uri.contains('=') {
        return Ok(());
    }
    // the process has variables of its own
    let lookup = |n: &str| if n.is_empty() { None } else { std::env::var(n).ok() };
    let exp = scan(uri, &lookup, home);
    event(if exp.is_some() { "any text:expanded" } else { "any text:variable unset" });
    c.attach("uri", uri.to_string());
    c.attach("environment", format!("{:?} HOME={}", env, home));
    let l = k::fp_lib_table::Lib { name: "a".into(), type_: "KiCad".into(), uri: uri.to_string(), options: String::new(), descr: String::new() };
    let got = lib("expand uri", || l.get_expanded_uri());
    c.eval();
    c.seen(core::hash_str(&format!("{} {:?}", uri, env)));
    match (&exp, &got) {
        (&Some(ref e), &Ok(ref g)) if e == g => Ok(()),
        (&None, &Err(_)) => Ok(()),
        (e, g) => bad(format!("URI {:?}: expected {:?}, got {:?}", uri, e, g.as_ref().ok())),
    }
}

enum Piece {
    Text(String),
    Var(String, bool),
    Home,
}

fn table_case(c: &mut Ctx) -> Res {
    if c.rng.bool() {
        let v = any_doc(c, "table")?;
        cover(&v);
        let text = text_of(c, &v, true)?;
        c.attach("input", text.clone());
        let mut d = parse_ok("table", &text)?;
        same("parsed table differs from the file", &v, &d.obs())?;
        c.eval();
        if c.rng.bool() {
            let w = gen::table(&mut c.rng);
            let mut e = parsed(c, &w)?;
            for _ in 0..3 {
                edit(c, &mut d, &mut e)
            }
        }
        check_written(c, &d)?;
        c.seen(v.hash());
        return Ok(());
    }
    // URI expansion in a given environment
    let r = &mut c.rng;
    const NAMES: &[&str] = &["KISYSMOD", "KISYS3DMOD", "VP_A", "VP_AB", "VP_A_B", "VP_LONG_NAME_9", "VP_EMPTY", "VP_U", "élan", "漢", "Ünï_1"];
    const KICAD: &[&str] = &["KIPRJMOD", "KIGITHUB", "KICAD_PTEMPLATES", "KICAD_USER_TEMPLATE_DIR", "KICAD_CONFIG_HOME", "KICAD6_FOOTPRINT_DIR", "PWD", "USER", "kisysmod", "_", "X"];
    let mut names: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    names.push(r.pick(KICAD).to_string());
    let w = crate::dict::word(r);
    let plain = |c: char| c.is_ascii_alphanumeric() || c == '_';
    if w.chars().all(plain) && !w.starts_with(|c: char| c.is_ascii_digit()) && std::env::var_os(w).is_none() && w != "HOME" && !names.iter().any(|n| n == w) {
        names.push(w.to_string())
    }
    let extra: Vec<String> = names[NAMES.len()..].to_vec();
    struct Clear(Vec<(String, Option<std::ffi::OsString>)>);
    impl Drop for Clear {
        fn drop(&mut self) {
            for x in &self.0 {
                match x.1 {
                    Some(ref v) => std::env::set_var(&x.0, v),
                    None => std::env::remove_var(&x.0),
                }
            }
        }
    }
    let _clear = Clear(extra.into_iter().map(|n| (n.clone(), std::env::var_os(&n))).collect());
    const TEXTS: &[&str] = &["/usr/share/", "/", ".pretty", "https://github.com/KiCad/", "C:\\x\\y", "-", ".", " ", "a b", "é漢", "~", "/~/", "%20", "}", "{", ":", "#", "()"];
    let mut env: Vec<(String, String)> = vec![];
    for n in &names {
        std::env::remove_var(n);
        if r.pct(70) {
            let v = match r.below(6) {
                0 => String::new(),
                1 => "$VP_A".to_string(),
                2 => "~/x".to_string(),
                3 => format!("/opt/kicad {}/", r.below(9)),
                4 => "ünï${VP_AB}".to_string(),
                _ => format!("/home/lib{}", r.below(100)),
            };
            std::env::set_var(n, &v);
            env.push((n.to_string(), v))
        }
    }
    let home = format!("/home/u{}", r.below(10));
    std::env::set_var("HOME", &home);
    let mut pieces = vec![];
    if r.pct(25) {
        // any text at all
        const BITS: &[&str] = &["$", "$$", "${", "}", "{", "$VP_A", "${VP_AB}", "$élan", "$漢", "${Ünï_1}", "$KISYSMOD", "VP_U", "_", "1", "é", "/", " ", "~", "$VP_NEVER_SET", "%", "²", "${VP_A$VP_AB}"];
        let mut uri: String = (0..r.below(7)).map(|_| *r.pick(BITS)).collect();
        if r.pct(10) {
            uri = gen::lstr(r)
        }
        event("uri:any text");
        return any_uri(c, &uri, &env, &home);
    }
    if r.pct(25) {
        pieces.push(Piece::Home);
        if r.pct(80) {
            pieces.push(Piece::Text("/".to_string()))
        }
    }
    let only_home = pieces.len() == 1;
    if !only_home {
        for _ in 0..r.below(5) {
            if r.pct(50) {
                let n = if r.pct(85) { if r.pct(30) { names[NAMES.len()..].last().unwrap().clone() } else { r.pick(&names).clone() } } else { "VP_NEVER_SET".to_string() };
                pieces.push(Piece::Var(n, r.pct(70)))
            } else {
                let t = if r.pct(80) { r.pick(TEXTS).to_string() } else { gen::lstr(r) };
                // nothing that would itself be expanded
                if !t.is_empty() && !t.contains('$') && !(t.contains('\\') && t.contains('"')) {
                    pieces.push(Piece::Text(t))
                }
            }
        }
    }
    let mut uri = String::new();
    let mut fixed = vec![];
    for p in pieces {
        match p {
            Piece::Home => {
                uri.push('~');
                fixed.push(Piece::Home)
            }
            Piece::Text(t) => {
                // a bare variable name must not run on, a tilde at the start would be the home directory
                let bad_start = fixed.is_empty() && t.starts_with('~');
                let t = if bad_start { format!("x{}", t) } else { t };
                // text right after a bare variable must not extend its name
                let t = match fixed.last() {
                    Some(&Piece::Var(_, false)) if t.starts_with(|c: char| c.is_alphanumeric() || c == '_') => format!("/{}", t),
                    Some(&Piece::Home) if !t.starts_with('/') => format!("/{}", t),
                    _ => t,
                };
                uri.push_str(&t);
                fixed.push(Piece::Text(t))
            }
            Piece::Var(n, braces) => {
                if let Some(&Piece::Home) = fixed.last() {
                    uri.push('/');
                    fixed.push(Piece::Text("/".into()))
                }
                uri.push_str(&if braces { format!("${{{}}}", n) } else { format!("${}", n) });
                fixed.push(Piece::Var(n, braces))
            }
        }
    }
    let lookup = |n: &str| env.iter().find(|e| e.0 == n).map(|e| e.1.clone());
    let exp = expand(&fixed, &lookup, &home);
    event(if !fixed.iter().any(|p| matches!(*p, Piece::Var(..))) {
        if matches!(fixed.first(), Some(&Piece::Home)) { "uri:tilde" } else { "uri:plain" }
    } else if exp.is_none() {
        "uri:variable unset"
    } else {
        "uri:variable set"
    });
    let v = crate::r!("table"; libs: vec![crate::r!("entry"; name: "a", type: "KiCad", uri: &uri, options: "", descr: "")]);
    c.attach("uri", uri.clone());
    c.attach("environment", format!("{:?} HOME={}", env, home));
    let mut d = parsed(c, &v)?;
    let l = &d.table().libs[0];
    let got = lib("expand uri", || l.get_expanded_uri());
    match (&exp, &got) {
        (&Some(ref e), &Ok(ref g)) if e == g => (),
        (&None, &Err(ref e)) => {
            let _ = lib("error text", || format!("{} {:?}", e, e));
        }
        (e, g) => return bad(format!("URI {:?}: expected {:?}, got {:?}", uri, e, g.as_ref().ok())),
    }
    if l.uri != uri {
        return bad("expanding changed the entry");
    }
    c.eval();
    c.seen(core::hash_str(&format!("{} {:?}", uri, env)));
    if c.index < 40 {
        c.sample(format!("{} -> {:?}", uri, exp))
    }
    Ok(())
}
