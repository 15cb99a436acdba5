//! C17 and C18: extents, flips and rotations.

use super::*;
use crate::core::event;
use k::{Bound, BoundingBox};

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C17", cases: (300_000, 6_000_000), run: bound_case,
        required: &["box:pad", "box:pad upright", "box:fp_poly", "box:fp_line", "box:fp_circle", "box:fp_arc", "box:fp_text", "box:module", "box:gr_text", "box:gr_line", "box:gr_arc",
            "box:gr_circle", "box:dimension", "box:segment", "box:via", "box:zone", "box:board", "box:comp", "box:sheet", "box:sch", "none:net", "none:net_class", "none:other",
            "none:empty board", "none:wire", "none:zone", "reordered", "descending", "bound:update", "bound:empty", "far from the origin"],
        rule: "distinct (item, box) pairs compared with the reference extent",
        assumptions: &["sizes are not negative and pads are turned by multiples of 90 degrees", "points the library counts: the position of texts and components, both ends of arcs, sheets with their captions 100 units above and below"],
    },
    &Prop {
        id: "C18", cases: (300_000, 6_000_000), run: turn_case,
        required: &["flip:module", "flip:element", "flip twice", "rotate:module", "rotate:element", "rotate back", "wrapped up", "wrapped down", "more than a turn",
            "flip:pad", "flip:fp_text", "flip:fp_line", "flip:fp_circle", "flip:fp_arc", "flip:fp_poly", "flip:at", "flip:layer", "flip:drill offset", "flip:rect_delta",
            "kept:descr", "kept:model", "kept:tedit", "kept:attr", "part:points", "part:effects", "part:layers"],
        rule: "distinct (element, operation) pairs compared with the reference",
        assumptions: &["orientations are equal when they differ by whole turns; angles are at most 1e6 degrees"],
    },
];

// ---------------------------------------------------------------- extents

type Box4 = Option<[f64; 4]>;

fn join(a: Box4, b: Box4) -> Box4 {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(p), Some(q)) => Some([p[0].min(q[0]), p[1].min(q[1]), p[2].max(q[2]), p[3].max(q[3])]),
    }
}

fn point(x: f64, y: f64) -> Box4 {
    Some([x, y, x, y])
}

fn pt(v: &V) -> Box4 {
    point(v.fnum("x"), v.fnum("y"))
}

fn points(v: &V) -> Box4 {
    v.l().iter().fold(None, |b, p| join(b, pt(p)))
}

fn circle(v: &V) -> Box4 {
    let (c, e) = (v.g("center"), v.g("end"));
    let (x, y) = (c.fnum("x"), c.fnum("y"));
    let d = (x - e.fnum("x")).hypot(y - e.fnum("y"));
    Some([x - d, y - d, x + d, y + d])
}

fn upright(rot: f64) -> bool {
    let q = (rot / 90.0).round();
    (q as i64) % 2 != 0
}

/// the reference extent of an item
pub fn extent(v: &V) -> Box4 {
    match v.kind() {
        "pad" => {
            let a = v.g("at");
            let (mut w, mut h) = (v.g("size").fnum("x"), v.g("size").fnum("y"));
            if upright(a.fnum("rot")) {
                std::mem::swap(&mut w, &mut h)
            }
            let (x, y) = (a.fnum("x"), a.fnum("y"));
            Some([x - w / 2.0, y - h / 2.0, x + w / 2.0, y + h / 2.0])
        }
        "fp_poly" => points(v.g("pts")),
        "fp_line" | "fp_arc" | "gr_line" | "gr_arc" | "segment" => join(pt(v.g("start")), pt(v.g("end"))),
        "fp_circle" | "gr_circle" => circle(v),
        "fp_text" | "gr_text" => pt(v.g("at")),
        "via" => {
            let (x, y, h) = (v.g("at").fnum("x"), v.g("at").fnum("y"), v.fnum("size") / 2.0);
            Some([x - h, y - h, x + h, y + h])
        }
        "dimension" => {
            let mut b = extent(v.g("text"));
            for f in &["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"] {
                b = join(b, points(v.g(f)))
            }
            b
        }
        "zone" => {
            let mut b = None;
            for p in v.g("polygons").l().iter().chain(v.g("filled_polygons").l()) {
                b = join(b, points(p))
            }
            if !v.g("fill_segments").is_nil() {
                b = join(b, points(v.g("fill_segments")))
            }
            b
        }
        "module" => {
            let e = v.g("elements").l();
            let (x, y) = e.iter().find(|x| x.kind() == "at").map(|a| (a.fnum("x"), a.fnum("y"))).unwrap_or((0.0, 0.0));
            let mut b = point(x, y);
            for i in e {
                let counts = match i.kind() {
                    "pad" => true,
                    "fp_poly" | "fp_line" | "fp_circle" | "fp_arc" => i.fs("layer").ends_with(".Fab"),
                    _ => false,
                };
                if counts {
                    if let Some(q) = extent(i) {
                        b = join(b, Some([q[0] + x, q[1] + y, q[2] + x, q[3] + y]))
                    }
                }
            }
            b
        }
        "board" => v.g("elements").l().iter().fold(None, |b, e| join(b, extent(e))),
        "comp" => point(v.fi("x") as f64, v.fi("y") as f64),
        "sheet" => {
            let (x, y) = (v.fi("x") as f64, v.fi("y") as f64);
            Some([x, y - 100.0, x + v.fi("dimx") as f64, y + v.fi("dimy") as f64 + 100.0])
        }
        "sch" => {
            let b = v.g("elements").l().iter().fold(None, |b, e| join(b, extent(e)));
            v.g("sheets").l().iter().fold(b, |b, e| join(b, extent(e)))
        }
        _ => None,
    }
}

/// sizes that make sense, right angles, magnitudes for arithmetic
pub fn tame(r: &mut Rng, v: &mut V, base: f64) {
    match *v {
        V::R("pad", ref mut f) => {
            for x in f.iter_mut() {
                if x.0 == "size" {
                    for n in &["x", "y"] {
                        x.1.set(n, gen::size(r))
                    }
                }
                if x.0 == "at" {
                    let mut rot = *r.pick(&[0.0, 90.0, 180.0, 270.0, 90.0, 270.0, -90.0, -180.0, -270.0, 360.0]);
                    if r.pct(5) {
                        rot += *r.pick(&[0.01, -0.01])
                    }
                    x.1.set("rot", rot);
                    x.1.set("x", base + gen::pos(r));
                    x.1.set("y", base + gen::pos(r))
                }
            }
        }
        V::R("via", ref mut f) => for x in f.iter_mut() {
            match x.0 {
                "size" => x.1 = V::N(gen::size(r)),
                "at" => tame(r, &mut x.1, base),
                _ => (),
            }
        },
        V::R("sheet", ref mut f) => for x in f.iter_mut() {
            match x.0 {
                "dimx" | "dimy" => x.1 = V::I(r.range(0, 20000)),
                "x" | "y" => x.1 = V::I(r.range(-20000, 20000) + base as i64),
                _ => (),
            }
        },
        V::R("comp", ref mut f) => for x in f.iter_mut() {
            match x.0 {
                "x" | "y" => x.1 = V::I(r.range(-20000, 20000) + base as i64),
                _ => (),
            }
        },
        V::R("xy", ref mut f) | V::R("at", ref mut f) => for x in f.iter_mut() {
            if x.0 != "rot" {
                x.1 = V::N(base + gen::pos(r))
            }
        },
        V::R(_, ref mut f) => for x in f.iter_mut() {
            tame(r, &mut x.1, base)
        },
        V::L(ref mut l) => for x in l {
            tame(r, x, base)
        },
        _ => (),
    }
}

fn check_box(what: &str, exp: Box4, got: &Bound) -> Res {
    if exp.is_some() != got.is_bounded {
        return bad(format!("box of {}: expected {:?}, observed {:?}", what, exp, got));
    }
    if let Some(e) = exp {
        let g = [got.x1, got.y1, got.x2, got.y2];
        let scale = e.iter().fold(1.0f64, |m, x| m.max(x.abs()));
        for i in 0..4 {
            if !((e[i] - g[i]).abs() <= 1e-9 * scale) {
                return bad(format!("box of {}: expected {:?}, observed {:?}", what, e, g));
            }
        }
        if got.x1 > got.x2 || got.y1 > got.y2 {
            return bad(format!("box of {} has its low corner above its high corner: {:?}", what, g));
        }
        let (w, h) = (lib("Bound::width", || got.width()), lib("Bound::height", || got.height()));
        if !((w - (e[2] - e[0])).abs() <= 1e-8 * scale) || !((h - (e[3] - e[1])).abs() <= 1e-8 * scale) {
            return bad(format!("width and height of {}: observed {} by {} for {:?}", what, w, h, e));
        }
    }
    Ok(())
}

fn seen_box(c: &mut Ctx, v: &V) {
    c.eval();
    c.seen(v.hash());
    match extent(v) {
        Some(b) => {
            event(&format!("box:{}", v.kind()));
            if b[0] > 1e5 || b[2] < -1e5 {
                event("far from the origin")
            }
        }
        None => event(&format!("none:{}", v.kind())),
    }
    match v.kind() {
        "pad" => if upright(v.g("at").fnum("rot")) {
            event("box:pad upright")
        },
        "fp_line" | "gr_line" | "segment" | "fp_arc" | "gr_arc" => if v.g("start").fnum("x") > v.g("end").fnum("x") {
            event("descending")
        },
        "board" => if v.g("elements").l().is_empty() {
            event("none:empty board")
        },
        _ => (),
    }
}

fn base(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 1e6,
        1 => -1e6,
        2 => 300.0,
        3 => -300.0,
        _ => 0.0,
    }
}

fn bound_case(c: &mut Ctx) -> Res {
    bounds(c)?;
    let kind = *c.rng.pick(&["module", "module", "board", "board", "sch"]);
    let mut v = any_doc(c, kind)?;
    let b = base(&mut c.rng);
    if c.rng.pct(85) {
        tame(&mut c.rng, &mut v, b)
    } else {
        // as drawn, but for sizes and angles that have no defined extent
        let keep = v.clone();
        tame(&mut c.rng, &mut v, b);
        let all_fine = |v: &V| v.g("elements").l().iter().all(|e| matches!(e.kind(), "fp_line" | "fp_poly" | "fp_text" | "gr_line" | "segment" | "gr_text" | "zone" | "net" | "comp"));
        if keep.kind() != "sch" && all_fine(&keep) {
            v = keep
        }
    }
    if v.kind() == "sch" && v.g("sheets").l().is_empty() && c.rng.bool() {
        let mut s = gen::sheet(&mut c.rng);
        tame(&mut c.rng, &mut s, b);
        v.gm("sheets").lm().push(s)
    }
    let mut d = made(c, &mut v)?;
    let m = d.obs();
    let e = m.g("elements").l();
    match d {
        Doc::Module(ref mut x) => {
            for (i, y) in x.elements.iter().enumerate() {
                seen_box(c, &e[i]);
                check_box(&format!("element {} ({})", i, e[i].kind()), extent(&e[i]), &lib("Element::bounding_box", || y.bounding_box()))?
            }
            seen_box(c, &m);
            check_box("the footprint", extent(&m), &lib("Module::bounding_box", || x.bounding_box()))?;
            // any order of the same elements has the same box
            let mut at: Vec<fp::Element> = x.elements.iter().filter(|e| matches!(*e, fp::Element::At(_))).cloned().collect();
            at.truncate(1);
            x.elements.retain(|e| !matches!(*e, fp::Element::At(_)));
            c.rng.shuffle(&mut x.elements);
            for y in x.elements.iter_mut() {
                if let fp::Element::FpPoly(ref mut p) = *y {
                    c.rng.shuffle(&mut p.pts.elements)
                }
                if let fp::Element::FpLine(ref mut l) = *y {
                    std::mem::swap(&mut l.start.x, &mut l.end.x);
                    std::mem::swap(&mut l.start.y, &mut l.end.y)
                }
            }
            let n = c.rng.below(x.elements.len() + 1);
            for a in at {
                x.elements.insert(n, a)
            }
            event("reordered");
            c.eval();
            check_box("the reordered footprint", extent(&m), &lib("Module::bounding_box", || x.bounding_box()))
        }
        Doc::Board(ref mut x) => {
            for (i, y) in x.elements.iter().enumerate() {
                seen_box(c, &e[i]);
                check_box(&format!("element {} ({})", i, e[i].kind()), extent(&e[i]), &lib("Element::bounding_box", || y.bounding_box()))?
            }
            seen_box(c, &m);
            check_box("the board", extent(&m), &lib("Layout::bounding_box", || x.bounding_box()))?;
            c.rng.shuffle(&mut x.elements);
            event("reordered");
            c.eval();
            check_box("the reordered board", extent(&m), &lib("Layout::bounding_box", || x.bounding_box()))
        }
        Doc::Sch(ref mut x) => {
            for (i, y) in x.elements.iter().enumerate() {
                seen_box(c, &e[i]);
                check_box(&format!("element {} ({})", i, e[i].kind()), extent(&e[i]), &lib("Element::bounding_box", || y.bounding_box()))?;
                if let sch::Element::Component(ref q) = *y {
                    check_box("a component", extent(&e[i]), &lib("Component::bounding_box", || q.bounding_box()))?
                }
            }
            for (i, y) in x.sheets.iter().enumerate() {
                let s = &m.g("sheets").l()[i];
                seen_box(c, s);
                check_box(&format!("sheet {}", i), extent(s), &lib("Sheet::bounding_box", || y.bounding_box()))?
            }
            seen_box(c, &m);
            check_box("the schematic", extent(&m), &lib("Schematic::bounding_box", || x.bounding_box()))?;
            c.rng.shuffle(&mut x.elements);
            c.rng.shuffle(&mut x.sheets);
            event("reordered");
            c.eval();
            check_box("the reordered schematic", extent(&m), &lib("Schematic::bounding_box", || x.bounding_box()))
        }
        _ => Ok(()),
    }
}

/// the box type itself
fn bounds(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = r.below(6);
    let b = base(r);
    let mut exp = None;
    let mut got = lib("Bound::default", || Bound::default());
    let mut log = vec![];
    for _ in 0..n {
        let (x, y) = (b + gen::pos(r), b + gen::pos(r));
        let (w, h) = (gen::size(r), gen::size(r));
        let (one, q) = match r.below(3) {
            0 => (lib("Bound::default", || Bound::default()), None),
            1 => {
                let i = [x as i64, y as i64, x as i64 + w as i64, y as i64 + h as i64];
                (lib("Bound::new_from_i64", || Bound::new_from_i64(i[0], i[1], i[2], i[3])), Some([i[0] as f64, i[1] as f64, i[2] as f64, i[3] as f64]))
            }
            _ => (lib("Bound::new", || Bound::new(x, y, x + w, y + h)), Some([x, y, x + w, y + h])),
        };
        check_box("a new bound", q, &one)?;
        log.push(q);
        exp = join(exp, q);
        lib("Bound::update", || got.update(&one))
    }
    if r.bool() {
        lib("Bound::swap_if_needed", || got.swap_if_needed())
    }
    c.eval();
    event(if exp.is_some() { "bound:update" } else { "bound:empty" });
    check_box(&format!("the union of {:?}", log), exp, &got)
}

// ---------------------------------------------------------------- flips and rotations

fn flip_layer(v: &mut V) {
    let s = v.s().to_string();
    if s.split('.').count() == 2 {
        if let Some(t) = s.strip_prefix("F.") {
            *v = V::from(format!("B.{}", t))
        } else if let Some(t) = s.strip_prefix("B.") {
            *v = V::from(format!("F.{}", t))
        }
    }
}

fn flip_y(v: &mut V) {
    let y = -v.fnum("y");
    v.set("y", y)
}

fn flip_at(v: &mut V) {
    flip_y(v);
    let a = -v.fnum("rot");
    v.set("rot", a)
}

fn flip_effects(v: &mut V) {
    let j = match *v.g("justify") {
        V::Nil => Some("mirror"),
        V::S(ref s) => match s.as_str() {
            "mirror" => None,
            "left" => Some("left mirror"),
            "left mirror" => Some("left"),
            "right" => Some("right mirror"),
            _ => Some("right"),
        },
        _ => None,
    };
    v.set("justify", j)
}

/// the reference: what flipping means
fn flipped(v: &mut V) {
    match v.kind() {
        "module" => for e in v.gm("elements").lm() {
            flipped(e)
        },
        "layer" => flip_layer(v.gm("v")),
        "at" => flip_at(v),
        "fp_text" => {
            flip_at(v.gm("at"));
            flip_layer(v.gm("layer"));
            flip_effects(v.gm("effects"))
        }
        "pad" => {
            flip_at(v.gm("at"));
            for l in v.gm("layers").lm() {
                flip_layer(l)
            }
            if !v.g("rect_delta").is_nil() {
                event("flip:rect_delta");
                flip_y(v.gm("rect_delta"))
            }
            if !v.g("drill").is_nil() {
                let d = v.gm("drill");
                let y = -d.fnum("oy");
                if y != 0.0 {
                    event("flip:drill offset")
                }
                d.set("oy", y)
            }
        }
        "fp_poly" => {
            for p in v.gm("pts").lm() {
                flip_y(p)
            }
            flip_layer(v.gm("layer"))
        }
        "fp_line" => {
            flip_y(v.gm("start"));
            flip_y(v.gm("end"));
            flip_layer(v.gm("layer"))
        }
        "fp_arc" => {
            flip_y(v.gm("start"));
            flip_y(v.gm("end"));
            let a = -v.fnum("angle");
            v.set("angle", a);
            flip_layer(v.gm("layer"))
        }
        "fp_circle" => {
            flip_y(v.gm("center"));
            flip_y(v.gm("end"));
            flip_layer(v.gm("layer"))
        }
        _ => (),
    }
}

/// the reference: what rotating means
fn rotated(v: &mut V, a: f64) {
    match v.kind() {
        "module" => for e in v.gm("elements").lm() {
            rotated(e, a)
        },
        "at" => {
            let x = v.fnum("rot") + a;
            v.set("rot", x)
        }
        "fp_text" | "pad" => rotated(v.gm("at"), a),
        _ => (),
    }
}

/// compares orientations up to whole turns
fn normal(v: &V) -> V {
    match *v {
        V::R("at", _) => {
            let mut w = v.clone();
            let mut a = v.fnum("rot").rem_euclid(360.0);
            if a > 360.0 - 1e-6 {
                a = 0.0
            }
            // whole millionths of a degree
            a = (a * 1e6).round() / 1e6;
            w.set("rot", a);
            w
        }
        V::R(n, ref f) => V::R(n, f.iter().map(|x| (x.0, normal(&x.1))).collect()),
        V::L(ref l) => V::L(l.iter().map(normal).collect()),
        ref x => x.clone(),
    }
}

fn agree(what: &str, exp: &V, got: &V) -> Res {
    match diff(&normal(exp), &normal(got), 2e-6) {
        None => (),
        Some(d) => return bad(format!("{} {}", what, d)),
    }
    // everything but orientations exactly
    match diff(&no_rot(exp), &no_rot(got), 0.0) {
        None => Ok(()),
        Some(d) => bad(format!("{} {}", what, d)),
    }
}

fn no_rot(v: &V) -> V {
    match *v {
        V::R("at", _) => {
            let mut w = v.clone();
            w.set("rot", 0.0);
            w
        }
        V::R(n, ref f) => V::R(n, f.iter().map(|x| (x.0, no_rot(&x.1))).collect()),
        V::L(ref l) => V::L(l.iter().map(no_rot).collect()),
        ref x => x.clone(),
    }
}

fn within_turn(v: &V) -> Res {
    match *v {
        V::R("at", _) => {
            let a = v.fnum("rot");
            if a >= 0.0 && a <= 360.0 {
                Ok(())
            } else {
                bad(format!("orientation {} after a rotation", a))
            }
        }
        V::R(_, ref f) => {
            for x in f {
                within_turn(&x.1)?
            }
            Ok(())
        }
        V::L(ref l) => {
            for x in l {
                within_turn(x)?
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn turn(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 | 2 => *r.pick(&[90.0, -90.0, 180.0, -180.0, 270.0, -270.0, 360.0, -360.0, 45.0]),
        3 => r.range(-3600, 3600) as f64 / 10.0,
        4 => *r.pick(&[720.0, -720.0, 900.0, -450.0, 360.5, -1080.0, 123456.5, 540.0]),
        5 => *r.pick(&[0.1, -0.1, 359.9, -359.9, 0.001]),
        _ => r.range(-360, 360) as f64,
    }
}

fn count_flip(e: &V) {
    match e.kind() {
        "pad" | "fp_text" | "fp_line" | "fp_circle" | "fp_arc" | "fp_poly" | "at" | "layer" => event(&format!("flip:{}", e.kind())),
        k => event(&format!("kept:{}", k)),
    }
}

fn turn_case(c: &mut Ctx) -> Res {
    parts(c)?;
    let mut v = any_doc(c, "module")?;
    if c.rng.pct(40) {
        let p = gen::pad(&mut c.rng);
        v.gm("elements").lm().push(p)
    }
    let mut d = made(c, &mut v)?;
    let mut m = d.obs();
    let md = d.module();
    let mut log = vec![];
    for _ in 0..1 + c.rng.below(5) {
        let r = &mut c.rng;
        let whole = r.bool() || md.elements.is_empty();
        let i = if whole { 0 } else { r.below(md.elements.len()) };
        let a = turn(r);
        let before = m.clone();
        let op;
        if r.bool() {
            op = format!("flip of {}", if whole { "the footprint".to_string() } else { format!("element {}", i) });
            if whole {
                lib("Module::flip", || fp::Flip::flip(md));
                flipped(&mut m);
                m.g("elements").l().iter().for_each(count_flip);
                event("flip:module")
            } else {
                lib("Element::flip", || fp::Flip::flip(&mut md.elements[i]));
                let e = &mut m.gm("elements").lm()[i];
                flipped(e);
                count_flip(e);
                event("flip:element")
            }
            log.push(op.clone());
            c.eval();
            c.seen(m.hash());
            let got = obs::module(md);
            agree(&format!("after {:?}:", log), &m, &got)?;
            if c.rng.pct(30) {
                if whole {
                    lib("Module::flip", || fp::Flip::flip(md))
                } else {
                    lib("Element::flip", || fp::Flip::flip(&mut md.elements[i]))
                }
                event("flip twice");
                c.eval();
                agree(&format!("after {:?} and flipping again:", log), &before, &obs::module(md))?;
                m = before;
                log.pop();
            }
        } else {
            op = format!("rotation of {} by {:?}", if whole { "the footprint".to_string() } else { format!("element {}", i) }, a);
            let from = if whole { m.clone() } else { m.g("elements").l()[i].clone() };
            if whole {
                lib("Module::rotate", || fp::Rotate::rotate(md, a));
                rotated(&mut m, a);
                event("rotate:module")
            } else {
                lib("Element::rotate", || fp::Rotate::rotate(&mut md.elements[i], a));
                rotated(&mut m.gm("elements").lm()[i], a);
                event("rotate:element")
            }
            count_wrap(&from, a);
            log.push(op.clone());
            c.eval();
            c.seen(m.hash());
            let got = obs::module(md);
            agree(&format!("after {:?}:", log), &m, &got)?;
            if whole {
                for e in got.g("elements").l() {
                    within_turn(e)?
                }
            } else {
                within_turn(&got.g("elements").l()[i])?
            }
            if c.rng.pct(30) {
                if whole {
                    lib("Module::rotate", || fp::Rotate::rotate(md, -a))
                } else {
                    lib("Element::rotate", || fp::Rotate::rotate(&mut md.elements[i], -a))
                }
                event("rotate back");
                c.eval();
                agree(&format!("after {:?} and rotating back:", log), &before, &obs::module(md))?;
                m = before;
                log.pop();
            }
        }
        c.sample(op)
    }
    Ok(())
}

fn count_wrap(v: &V, a: f64) {
    match *v {
        V::R("at", _) => {
            let x = v.fnum("rot") + a;
            if x >= 360.0 {
                event("wrapped up")
            }
            if x < 0.0 {
                event("wrapped down")
            }
            if x >= 720.0 || x < -360.0 {
                event("more than a turn")
            }
        }
        V::R(_, ref f) => for x in f {
            count_wrap(&x.1, a)
        },
        V::L(ref l) => for x in l {
            count_wrap(x, a)
        },
        _ => (),
    }
}

/// the parts that are flipped and rotated on their own
fn parts(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let p: Vec<(f64, f64)> = (0..r.below(5)).map(|_| (gen::num(r), gen::num(r))).collect();
    let mut q = fp::Pts { elements: p.iter().map(|q| fp::Xy { x: q.0, y: q.1, t: fp::XyType::Xy }).collect() };
    lib("Pts::flip", || fp::Flip::flip(&mut q));
    event("part:points");
    c.eval();
    same("flipped points", &V::L(p.iter().map(|q| crate::r!("xy"; x: q.0, y: -q.1)).collect()), &obs::pts(&q))?;

    let r = &mut c.rng;
    let names: Vec<String> = (0..r.below(5)).map(|_| gen::layer(r)).collect();
    let mut ls = fp::Layers::default();
    for n in &names {
        match lib("Layer::from_string", || fp::Layer::from_string(n)) {
            Ok(l) => lib("Layers::append", || ls.append(l)),
            Err(_) => return skip("layer name rejected"),
        }
    }
    let mut exp = obs::layers(&ls);
    for l in exp.lm() {
        flip_layer(l)
    }
    lib("Layers::flip", || fp::Flip::flip(&mut ls));
    event("part:layers");
    c.eval();
    same("flipped layers", &exp, &obs::layers(&ls))?;

    let r = &mut c.rng;
    let font = fp::Font { size: fp::Xy::new(gen::num(r), gen::num(r), fp::XyType::Size), thickness: gen::num(r), italic: r.bool() };
    let j = match r.below(6) {
        0 => Some(fp::Justify::Mirror),
        1 => Some(fp::Justify::Left),
        2 => Some(fp::Justify::Right),
        3 => Some(fp::Justify::LeftMirror),
        4 => Some(fp::Justify::RightMirror),
        _ => None,
    };
    let mut e = lib("Effects::from_font", || fp::Effects::from_font(font, j));
    let mut exp = obs::effects(&e);
    let start = exp.clone();
    flip_effects(&mut exp);
    lib("Effects::flip", || fp::Flip::flip(&mut e));
    event("part:effects");
    c.eval();
    same("flipped text effects", &exp, &obs::effects(&e))?;
    lib("Effects::flip", || fp::Flip::flip(&mut e));
    same("text effects flipped twice", &start, &obs::effects(&e))
}
