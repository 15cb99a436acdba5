//! C28 to C32: symbols by name, equality, models made in code, memory, locality of changes.

use super::*;
use crate::alloc::measure;
use crate::build::No;
use crate::core::event;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C28", cases: (300_000, 6_000_000), run: symbols_case,
        required: &["find:first", "find:later", "find:several", "find:none", "find:empty library", "power", "not power", "graphic", "not graphic", "basic", "not basic",
            "pins:0", "pins:1", "pins:many", "rename:hidden", "rename:shown", "rename:value field", "rename:no value field"],
        rule: "distinct (library, question or edit) pairs whose answer or resulting library was compared with the reference",
        assumptions: &["names are those the format can carry"],
    },
    &Prop {
        id: "C29", cases: (2_000_000, 40_000_000), run: equal_case,
        required: &["equal:same", "equal:differs", "equal:other side", "equal:other net", "equal:reference text", "equal:value text", "equal:kinds differ",
            "kind:pad", "kind:fp_text", "kind:fp_line", "kind:fp_circle", "kind:fp_arc", "kind:fp_poly", "kind:model", "kind:drill", "net class:same", "net class:differs"],
        rule: "distinct pairs of elements (hash of both) whose comparison was judged",
        assumptions: &[],
    },
    &Prop {
        id: "C30", cases: (350_000, 7_000_000), run: built_case,
        required: &["built:module", "built:board", "built:sch", "built:lib", "built:table", "defaults", "rewritten",
            "kind:pad", "kind:zone", "kind:dimension", "kind:comp", "kind:sheet", "kind:symbol", "kind:entry"],
        rule: "distinct models made in code (hash of the model) whose written text was compared with the reference and with the parsed twin",
        assumptions: &["values stay within what the format can express (DESIGN.md, domain limits)"],
    },
    &Prop {
        id: "C31", cases: (6_000, 120_000), run: memory_case,
        required: &["grown:module", "grown:board", "grown:sch", "grown:lib", "grown:table", "measured"],
        rule: "distinct (document, list that grows, operation) whose allocations were measured at two sizes",
        assumptions: &["a growth by 16 times may cost up to 45 times the memory: room for growing vectors, none for quadratic growth"],
    },
    &Prop {
        id: "C32", cases: (300_000, 6_000_000), run: local_case,
        required: &["local:module", "local:board", "local:sch", "local:lib", "local:table", "change:replace", "change:insert", "change:remove", "change:swap"],
        rule: "distinct (document, change) pairs for which the text of all other items was compared",
        assumptions: &[],
    },
];

// ------------------------------------------------------------ C28

const NAMES: &[&str] = &["R", "C", "L", "D", "r", "R1", "~R", "~GND", "GND", "LM358", "LM358N", "~LM358", "LM", "Ω", "~", "~~X", "RR", "CP", "device:R"];
const REFS: &[&str] = &["#PWR", "#PWR", "#PWR0", "#SYM", "#", "PWR", "U", "R", "#pwr", "#FLG"];

fn is_power(s: &V) -> bool {
    s.fs("reference") == "#PWR" && pins_of(s).len() == 1
}
fn is_graphic(s: &V) -> bool {
    s.fs("reference").starts_with('#') && pins_of(s).is_empty()
}
fn is_basic(s: &V) -> bool {
    ["L", "R", "C", "D"].contains(&s.fs("name"))
}
fn pins_of(s: &V) -> Vec<V> {
    s.g("draw").l().iter().filter(|d| d.kind() == "pin").cloned().collect()
}

fn symbols_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let mut v = gen::symbol_lib(r);
    for s in v.gm("symbols").lm() {
        if r.pct(80) {
            s.set("name", *r.pick(NAMES))
        }
        if r.pct(80) {
            s.set("reference", *r.pick(REFS))
        }
        if r.pct(60) {
            // few pins
            let keep = r.below(3);
            let mut n = 0;
            s.gm("draw").lm().retain(|d| {
                n += (d.kind() == "pin") as usize;
                d.kind() != "pin" || n <= keep
            });
            if r.bool() && n == 0 {
                let p = gen::pin(r);
                s.gm("draw").lm().push(p)
            }
        }
    }
    let mut d = super::made(c, &mut v)?;
    let mut m = d.obs();
    let l = d.lib();
    for _ in 0..1 + c.rng.below(4) {
        symbol_questions(c, l, &m)?;
        if l.symbols.is_empty() {
            break;
        }
        // rename one
        let r = &mut c.rng;
        let i = r.below(l.symbols.len());
        let name = if r.pct(60) { r.pick(NAMES).trim_start_matches('~').to_string() } else { gen::lword(r).trim_start_matches('~').to_string() };
        if name.is_empty() {
            continue;
        }
        lib("set_name", || l.symbols[i].set_name(&name));
        let s = &mut m.gm("symbols").lm()[i];
        let hidden = s.fs("name").starts_with('~');
        event(if hidden { "rename:hidden" } else { "rename:shown" });
        s.set("name", if hidden { format!("~{}", name) } else { name.clone() });
        let f = s.gm("fields").lm();
        let mut any = false;
        if let Some(x) = f.iter_mut().find(|f| f.fi("i") == 1) {
            any = true;
            x.set("value", &name)
        }
        event(if any { "rename:value field" } else { "rename:no value field" });
        c.eval();
        c.seen(m.hash());
        same(&format!("after renaming symbol {} to {:?}", i, name), &m, &obs::symbol_lib(l))?
    }
    Ok(())
}

fn symbol_questions(c: &mut Ctx, l: &sl::SymbolLib, m: &V) -> Res {
    let all = m.g("symbols").l();
    for (s, v) in l.symbols.iter().zip(all) {
        let pins = pins_of(v);
        event(match pins.len() {
            0 => "pins:0",
            1 => "pins:1",
            _ => "pins:many",
        });
        same("pins", &V::L(pins), &V::L(lib("pins", || s.pins()).into_iter().map(obs::pin).collect()))?;
        for (what, exp, got, yes, no) in &[
            ("power symbol", is_power(v), lib("is_power", || s.is_power()), "power", "not power"),
            ("graphic symbol", is_graphic(v), lib("is_graphics", || s.is_graphics()), "graphic", "not graphic"),
            ("basic symbol", is_basic(v), lib("is_basic", || s.is_basic()), "basic", "not basic"),
        ] {
            event(if *exp { yes } else { no });
            c.eval();
            if exp != got {
                return bad(format!("symbol {:?} with reference {:?} and {} pins: {} expected {}, observed {}", v.fs("name"), v.fs("reference"), pins_of(v).len(), what, exp, got));
            }
        }
    }
    if all.is_empty() {
        event("find:empty library")
    }
    for _ in 0..3 {
        let r = &mut c.rng;
        let what = r.below(4);
        let key = match what {
            0 | 3 => r.pick(NAMES).to_string(),
            1 => r.pick(REFS).to_string(),
            _ => format!("{}", r.below(3)),
        };
        let hit = |name: &str, reference: &str, pins: usize| match what {
            0 => name == key,
            1 => reference == key,
            3 => name.starts_with(&key[..]),
            _ => format!("{}", pins) == key,
        };
        let exp: Vec<usize> = (0..all.len()).filter(|i| hit(all[*i].fs("name"), all[*i].fs("reference"), pins_of(&all[*i]).len())).collect();
        event(match exp.first() {
            None => "find:none",
            Some(0) => "find:first",
            _ => "find:later",
        });
        if exp.len() > 1 {
            event("find:several")
        }
        let got = lib("find", || l.find(|s| hit(&s.name, &s.reference, s.draw.iter().filter(|d| matches!(**d, sl::Draw::Pin(_))).count())));
        let at = got.map(|g| l.symbols.iter().position(|s| std::ptr::eq(s, g)));
        c.eval();
        c.seen(m.hash() ^ core::hash_str(&format!("{} {}", what, key)));
        match (exp.first(), at) {
            (None, None) => (),
            (Some(i), Some(Some(j))) if *i == j => (),
            (e, g) => return bad(format!("finding a symbol ({} {:?}) gives {:?}, expected {:?} of {} symbols", what, key, g, e, all.len())),
        }
    }
    same("library after asking", m, &obs::symbol_lib(l))
}

// ------------------------------------------------------------ C29

/// the type of a layer, without its side
fn layer_type(s: &str) -> String {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() == 2 {
        p[1].to_string()
    } else {
        s.to_string()
    }
}

/// what counts when elements are compared
fn essence(v: &V) -> V {
    match *v {
        V::R(k, ref f) => V::R(
            k,
            f.iter()
                .map(|x| {
                    let y = match (k, x.0, &x.1) {
                        ("pad", "net", _) => V::Nil,
                        (_, "layer", &V::S(ref s)) | ("layer", "v", &V::S(ref s)) => V::S(layer_type(s)),
                        (_, "layers", &V::L(ref l)) => V::L(l.iter().map(|s| V::S(layer_type(s.s()))).collect()),
                        (_, _, y) => essence(y),
                    };
                    (x.0, y)
                })
                .collect(),
        ),
        V::L(ref l) => V::L(l.iter().map(essence).collect()),
        ref x => x.clone(),
    }
}

fn equal(a: &V, b: &V) -> bool {
    if a.kind() == "fp_text" && b.kind() == "fp_text" && a.fs("name") == b.fs("name") && (a.fs("name") == "reference" || a.fs("name") == "value") {
        event(if a.fs("name") == "value" { "equal:value text" } else { "equal:reference text" });
        return true;
    }
    a.kind() == b.kind() && diff(&essence(a), &essence(b), 0.0).is_none()
}

/// change one value somewhere
fn perturb(r: &mut Rng, v: &mut V, name: &str, rec: &str) {
    match *v {
        V::R(k, ref mut f) => {
            if f.is_empty() {
                return;
            }
            let i = r.below(f.len());
            let n = f[i].0;
            if f[i].1.is_nil() {
                // a part more
                f[i].1 = match (k, n) {
                    ("pad", "rect_delta") => gen::xy(r),
                    ("pad", "drill") => gen::drill(r),
                    ("pad", "net") => gen::pad_net(r),
                    ("pad", "zone_connect") => V::I(gen::int(r)),
                    ("pad", _) | ("net_class", _) => V::N(if r.bool() { 0.0 } else { gen::num(r) }),
                    ("effects", _) => V::S(r.pick(&["left", "mirror", "right mirror"]).to_string()),
                    _ => V::Nil,
                };
                return;
            }
            let optional = match (k, n) {
                ("pad", "rect_delta") | ("pad", "drill") | ("pad", "net") | ("pad", "zone_connect") | ("pad", "solder_paste_margin") => true,
                ("pad", "solder_mask_margin") | ("pad", "clearance") | ("pad", "thermal_gap") | ("effects", "justify") => true,
                ("net_class", "diff_pair_gap") | ("net_class", "diff_pair_width") => true,
                _ => false,
            };
            if optional && r.pct(30) {
                f[i].1 = V::Nil;
                return;
            }
            perturb(r, &mut f[i].1, n, k)
        }
        V::L(ref mut l) => match r.below(4) {
            0 if !l.is_empty() => {
                let i = r.below(l.len());
                l.remove(i);
            }
            1 if !l.is_empty() => {
                let i = r.below(l.len());
                let x = l[i].clone();
                l.push(x)
            }
            2 if l.len() > 1 => {
                let i = r.below(l.len() - 1);
                l.swap(i, i + 1)
            }
            _ => if !l.is_empty() {
                let i = r.below(l.len());
                perturb(r, &mut l[i], name, rec)
            },
        },
        V::N(ref mut x) => {
            *x = match r.below(7) {
                0 => -*x,
                1 => *x + 1e-6,
                2 => *x * (1.0 + 1e-9),
                3 => *x + 1.0,
                4 => 0.0,
                5 => f64::from_bits(x.to_bits() ^ 1),
                _ => gen::num(r),
            };
            if !x.is_finite() {
                *x = 1.5
            }
        }
        V::I(ref mut x) => *x = if r.bool() { x.wrapping_add(1) } else { gen::int(r) },
        V::B(ref mut b) => *b = !*b,
        V::S(ref mut s) => {
            *s = match (rec, name) {
                (_, "layer") | (_, "layers") | ("layer", "v") => {
                    if r.pct(60) {
                        let t = layer_type(s);
                        format!("{}.{}", r.pick(&["F", "B", "*", "In1", "Dwgs"]), t.trim_matches('.').replace('.', ""))
                    } else {
                        gen::layer(r)
                    }
                }
                ("pad", "type") => r.pick(&["smd", "thru_hole", "np_thru_hole"]).to_string(),
                ("pad", "shape") => r.pick(&["rect", "circle", "oval", "trapezoid"]).to_string(),
                ("effects", "justify") => r.pick(&["left", "right", "mirror", "left mirror", "right mirror"]).to_string(),
                ("fp_text", "name") => r.pick(&["reference", "value", "user", "Reference", "value2"]).to_string(),
                _ => match r.below(5) {
                    0 => format!("{}x", s),
                    1 => format!("{} ", s),
                    2 => s.to_lowercase(),
                    3 => s.to_uppercase(),
                    _ => gen::sstr(r),
                },
            }
        }
        V::Nil | V::X(_) => (),
    }
}

fn made<T>(x: Result<T, No>) -> Result<T, Fail> {
    x.map_err(|e| Fail::Skip(format!("cannot be made: {}", e.0)))
}

fn equal_case(c: &mut Ctx) -> Res {
    if c.rng.pct(12) {
        return equal_classes(c);
    }
    let r = &mut c.rng;
    let a = gen::module_element(r);
    let mut b = a.clone();
    match r.below(10) {
        0 => (),
        1 => b = gen::module_element(r),
        2 => for _ in 0..3 {
            perturb(r, &mut b, "", "")
        },
        _ => perturb(r, &mut b, "", ""),
    }
    c.attach("first", format!("{:?}", a));
    c.attach("second", format!("{:?}", b));
    let mut x = made(build::fp_element(&a))?;
    let mut y = made(build::fp_element(&b))?;
    let (a, b) = (obs::fp_element(&x), obs::fp_element(&y));
    cover(&a);
    let exp = equal(&a, &b);
    if a.kind() != b.kind() {
        event("equal:kinds differ")
    }
    if exp && diff(&a, &b, 0.0).is_some() && a.kind() != "fp_text" {
        let mut n = b.clone();
        if a.kind() == "pad" {
            n.set("net", a.g("net").clone())
        }
        event(if diff(&a, &n, 0.0).is_none() { "equal:other net" } else { "equal:other side" })
    }
    judge(c, &x, &y, exp)?;
    c.seen(a.hash() ^ b.hash().rotate_left(1));
    // turning both over keeps what was equal equal
    if c.rng.pct(20) && exp {
        lib("flip", || {
            fp::Flip::flip(&mut x);
            fp::Flip::flip(&mut y)
        });
        let exp = equal(&obs::fp_element(&x), &obs::fp_element(&y));
        judge(c, &x, &y, exp)?
    }
    Ok(())
}

fn judge<T: PartialEq + Clone>(c: &mut Ctx, x: &T, y: &T, exp: bool) -> Res {
    event(if exp { "equal:same" } else { "equal:differs" });
    c.eval();
    for (what, e, g) in &[
        ("first == second", exp, lib("==", || x == y)),
        ("second == first", exp, lib("==", || y == x)),
        ("first != second", !exp, lib("!=", || x != y)),
        ("first == first", true, lib("==", || x == &x.clone())),
        ("second == second", true, lib("==", || y == &y.clone())),
    ] {
        if e != g {
            return bad(format!("{}: expected {}, observed {}", what, e, g));
        }
    }
    Ok(())
}

fn equal_classes(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let a = gen::net_class(r);
    let mut b = a.clone();
    for _ in 0..r.below(3) {
        perturb(r, &mut b, "", "")
    }
    let mut l = lo::Layout::default();
    c.attach("first", format!("{:?}", a));
    c.attach("second", format!("{:?}", b));
    for v in &[&a, &b] {
        made(build::add_board_element(&mut l, v))?
    }
    let n: Vec<lo::NetClass> = l.netclasses().into_iter().cloned().collect();
    if n.len() != 2 {
        return skip("no net classes");
    }
    let (av, bv) = (obs::net_class(&n[0]), obs::net_class(&n[1]));
    let exp = diff(&av, &bv, 0.0).is_none();
    event(if exp { "net class:same" } else { "net class:differs" });
    judge(c, &n[0], &n[1], exp)?;
    let (mut p, mut q) = (av.clone(), bv.clone());
    p.set("nets", V::L(vec![]));
    q.set("nets", V::L(vec![]));
    let exp = diff(&p, &q, 0.0).is_none();
    c.eval();
    if lib("equal_no_net", || n[0].equal_no_net(&n[1])) != exp {
        return bad(format!("net classes equal without their nets: expected {}, observed {}", exp, !exp));
    }
    c.seen(av.hash() ^ bv.hash().rotate_left(1));
    Ok(())
}

// ------------------------------------------------------------ C30

fn built_case(c: &mut Ctx) -> Res {
    if c.rng.pct(3) {
        return defaults_case(c);
    }
    let kind = *c.rng.pick(KINDS);
    let mut v = gen_doc(&mut c.rng, kind);
    let d = made(build_doc(&mut v))?;
    c.attach("model", format!("{:?}", v));
    same("the model made in code is not what was put in:", &v, &d.obs())?;
    cover(&v);
    event(&format!("built:{}", kind));
    let t = super::rw::check_written(c, &d)?;
    // the same content from a file is written the same
    let p = parsed(c, &v)?;
    match p.write() {
        Ok(ref u) if *u == t => (),
        Ok(u) => {
            c.attach("written by the model made in code", t);
            c.attach("written by the parsed model", u);
            return bad("a model made in code and the same model read from a file are written differently");
        }
        Err(e) => return bad(format!("the parsed model cannot be written: {}", e)),
    }
    c.eval();
    c.seen(v.hash());
    Ok(())
}

fn defaults_case(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    event("defaults");
    let zero_xy = gen::xy0;
    let (n, s) = (gen::sstr(r), gen::sstr(r));
    let (x, y) = (gen::num(r), gen::num(r));
    let i = gen::int(r);
    let no_layer = obs::layer(&fp::Layer::default());
    let checks: Vec<(&str, V, V)> = vec![
        ("new footprint", crate::r!("module"; name: &n, elements: V::L(vec![])), obs::module(&lib("Module::new", || fp::Module::new(n.clone())))),
        (
            "new text",
            crate::r!("fp_text"; name: &n, value: &s, at: gen::at0(), layer: no_layer.clone(), hide: false, effects: gen::effects0()),
            obs::fp_text(&lib("FpText::new", || fp::FpText::new(n.clone(), s.clone()))),
        ),
        (
            "new pad",
            crate::r!("pad"; name: &n, type: "thru_hole", shape: "oval", at: gen::at0(), size: zero_xy(), rect_delta: V::Nil, drill: V::Nil, layers: V::L(vec![]), net: V::Nil,
                zone_connect: V::Nil, solder_paste_margin: V::Nil, solder_mask_margin: V::Nil, clearance: V::Nil, thermal_gap: V::Nil),
            obs::pad(&lib("Pad::new", || fp::Pad::new(n.clone(), fp::PadType::Pth, fp::PadShape::Oval))),
        ),
        ("new position", crate::r!("at"; x: x, y: y, rot: 90.0), obs::at(&lib("At::new", || fp::At::new(x, y, 90.0)))),
        ("new point", crate::r!("xy"; x: x, y: y), obs::xy(&lib("Xy::new", || fp::Xy::new(x, y, fp::XyType::Xy)))),
        ("empty point", zero_xy(), obs::xy(&lib("Xy::new_empty", || fp::Xy::new_empty(fp::XyType::Size)))),
        ("new coordinate", crate::r!("xyz"; x: x, y: y, z: 3.0), obs::xyz(&lib("Xyz::new", || fp::Xyz::new(x, y, 3.0)))),
        (
            "new symbol",
            crate::r!("symbol"; name: &n, reference: &s, text_offset: 0.0, pinnumber: false, pinname: false, unit_count: 1i64, locked: false, power: false,
                fields: V::L(vec![]), aliases: V::L(vec![]), fp: V::L(vec![]), draw: V::L(vec![])),
            obs::symbol(&lib("Symbol::new", || sl::Symbol::new(n.clone(), s.clone()))),
        ),
        (
            "new field",
            crate::r!("field"; i: i, value: &s, orientation: "H", x: x, y: y, size: 60i64, visible: false, hjustify: "C", vjustify: "C", italic: false, bold: false, name: &n),
            obs::field(&lib("ComponentField::new_from", || sch::ComponentField::new_from(i, n.clone(), s.clone(), x, y))),
        ),
        (
            "default board",
            crate::r!("board"; version: 4i64, host_tool: "pcbnew", host_build: "custom",
                general: crate::r!("general"; links: 0i64, no_connects: 0i64, x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0, thickness: 1.6,
                    drawings: 0i64, tracks: 0i64, zones: 0i64, modules: 0i64, nets: 0i64),
                page: "A4", layers: V::L(vec![]), setup: V::L(vec![]), plot: V::L(vec![]), elements: V::L(vec![])),
            obs::board(&lib("Layout::default", lo::Layout::default)),
        ),
        (
            "default sheet",
            crate::r!("sheet"; x: 0i64, y: 0i64, dimx: 0i64, dimy: 0i64, unique: "", name: "DUMMY", name_size: 60i64, filename: "", filename_size: 60i64, labels: V::L(vec![])),
            obs::sheet(&lib("Sheet::default", sch::Sheet::default)),
        ),
    ];
    for (what, exp, got) in checks {
        c.eval();
        same(what, &exp, &got)?
    }
    c.seen(core::hash_str(&format!("{} {} {} {} {}", n, s, x, y, i)));
    // a default board can be written and read
    let d = Doc::Board(lo::Layout::default());
    super::rw::check_written(c, &d)?;
    Ok(())
}

// ------------------------------------------------------------ C31

const SMALL: usize = 256;
const FACTOR: usize = 16;

fn memory_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(KINDS);
    let v = gen_doc(&mut c.rng, kind);
    let r = &mut c.rng;
    let mut lists = super::work::growable(&v);
    // small contents, so that many fit
    lists.retain(|p| gen::get(&v, p).leaves() < 400);
    if lists.is_empty() {
        return skip("nothing can grow");
    }
    let p = r.pick(&lists).clone();
    let (a, b) = (super::work::grown(&v, &p, SMALL), super::work::grown(&v, &p, SMALL * FACTOR));
    let at = gen::name_of(&v, &p);
    event(&format!("grown:{}", kind));
    event(&format!("list:{}", at));
    let small = costs(c, &a)?;
    let big = costs(c, &b)?;
    for (x, y) in small.iter().zip(big.iter()) {
        if x.0 != y.0 {
            return broken("operations differ");
        }
        c.eval();
        event("measured");
        c.seen(v.hash() ^ core::hash_str(&format!("{} {}", at, x.0)));
        for (what, s, b) in &[("allocates", x.1, y.1), ("needs at once", x.2, y.2)] {
            let limit = *s * (FACTOR as u64) * 14 / 5 + 40_000;
            if *b > limit {
                return bad(format!(
                    "{}: {} items in {} take {} bytes ({}), {} items take {}: more than in proportion",
                    x.0, SMALL, at, s, what, SMALL * FACTOR, b
                ));
            }
        }
    }
    if c.index < 20 {
        c.sample(format!("{}: {:?} {:?}", at, small, big))
    }
    Ok(())
}

fn costs(c: &mut Ctx, v: &V) -> Result<Vec<(&'static str, u64, u64)>, Fail> {
    let t = render::document(v, &mut c.rng, false);
    let mut out = vec![];
    each_op(v.kind(), &t, &mut |name, f| {
        let (_, b, p) = measure(f);
        out.push((name, b, p))
    })?;
    Ok(out)
}

/// parse the text and hand every operation on the result to `m`, which performs it
pub fn each_op(kind: &str, t: &str, m: &mut dyn FnMut(&'static str, &mut dyn FnMut())) -> Res {
    let perform = m;
    let mut d = None;
    perform("parse", &mut || d = Some(Doc::parse(kind, t)));
    let mut d = match d {
        Some(Ok(d)) => d,
        Some(Err(e)) => return skip(e),
        None => return broken("not parsed"),
    };
    let mut written = true;
    perform("write", &mut || written = d.write().is_ok());
    if !written {
        return skip("not written");
    }
    macro_rules! op {
        ($name:expr, $f:expr) => {
            perform($name, &mut || {
                lib($name, || $f);
            })
        };
    }
    match d {
        Doc::Module(ref mut m) => {
            op!("bounding box", k::BoundingBox::bounding_box(m));
            op!("check", k::checkfix::CheckFix::check(m, &k::checkfix::Config::klc()));
            op!("pads", m.pads().len());
            op!("lines", m.lines().len());
            op!("find text", m.get_text("nowhere").is_some());
            op!("find attribute", m.has_smd_attr());
            op!("set reference", m.set_reference("R1", "R2"));
            op!("rename net", m.rename_net("GND", "VCC"));
            op!("flip", fp::Flip::flip(m));
            op!("move", k::Adjust::adjust(m, 1.0, 2.0));
            op!("fix", k::checkfix::CheckFix::fix(m, &k::checkfix::Config::klc()));
        }
        Doc::Board(ref mut m) => {
            op!("bounding box", k::BoundingBox::bounding_box(m));
            op!("nets", m.nets().len());
            op!("modules", m.get_modules().len());
            op!("net classes", m.netclasses().len());
            op!("has net", m.netclasses().iter().filter(|n| n.has_net("nowhere")).count());
            op!("setup value", m.setup.get("nowhere").is_some());
            op!("update setup", m.setup.update_element("nowhere", "1".to_string()));
            op!("modify module", m.modify_module("nowhere", |_| ()).is_ok());
            op!("add net", m.add_net(5000, "NEW"));
            op!("find module", m.get_module("R1").is_some());
            op!("rename net", m.change_net_name("GND", "VCC"));
            op!("rename nets", m.update_net_names(|n| {
                n.rename("R1", "R2");
                Ok(())
            }).is_ok());
            op!("move", k::Adjust::adjust(m, 1.0, 2.0));
        }
        Doc::Sch(ref mut m) => {
            op!("components", m.components().len());
            let mut all = vec![];
            op!("collect components", m.collect_components(&mut all));
            if m.sheets.is_empty() {
                op!("all components", m.all_components().map(|x| x.len()).unwrap_or(0));
                op!("find component", m.component_by_reference("nowhere").is_ok())
            }
            if let Some(x) = all.first_mut() {
                let template = sch::ComponentField::new_from(4, "a".to_string(), "b".to_string(), 0.0, 0.0);
                op!("field", x.get_field_value("nowhere").is_some());
                op!("free field", x.get_available_field_num());
                op!("fields by name", x.fields_hash().len());
                op!("update field", x.update_field("nowhere", "x"));
                op!("add field", x.add_or_update_field(&template, "nowhere", "x"))
            }
            op!("bounding box", k::BoundingBox::bounding_box(m));
            op!("modify components", m.modify_components(|c| c.update_reference("X1".to_string())));
        }
        Doc::Lib(ref mut m) => {
            op!("set names", for s in m.symbols.iter_mut() {
                s.set_name("X")
            });
            op!("find", m.find(|s| s.name == "nowhere").is_some());
            op!("pins", m.symbols.iter().map(|s| s.pins().len()).sum::<usize>());
            op!("check", m.symbols.iter().map(|s| k::checkfix::CheckFix::check(s, &k::checkfix::Config::klc()).len()).sum::<usize>());
        }
        Doc::Table(ref m) => op!("expand", m.libs.iter().filter(|l| l.get_expanded_uri().is_ok()).count()),
    }
    Ok(())
}

// ------------------------------------------------------------ C32

fn local_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(KINDS);
    let v = any_doc(c, kind)?;
    let w = gen_doc(&mut c.rng, kind);
    let list = match kind {
        "lib" => "symbols",
        "table" => "libs",
        _ => "elements",
    };
    let n = v.g(list).l().len();
    if n == 0 {
        return skip("nothing to change");
    }
    let r = &mut c.rng;
    // keep[i] is where item i of the first document is in the second
    let mut keep: Vec<Option<usize>> = (0..n).map(Some).collect();
    let mut v2 = v.clone();
    let l = v2.gm(list).lm();
    let other = w.g(list).l();
    let i = r.below(n);
    let op = match r.below(4) {
        0 if !other.is_empty() => {
            l[i] = r.pick(other).clone();
            keep[i] = None;
            "replace"
        }
        1 if !other.is_empty() => {
            l.insert(i, r.pick(other).clone());
            for k in keep.iter_mut().skip(i) {
                *k = k.map(|x| x + 1)
            }
            "insert"
        }
        2 => {
            let j = r.below(n);
            l.swap(i, j);
            keep[i] = Some(j);
            keep[j] = Some(i);
            "swap"
        }
        _ => {
            l.remove(i);
            keep[i] = None;
            for k in keep.iter_mut().skip(i + 1) {
                *k = k.map(|x| x - 1)
            }
            "remove"
        }
    };
    let mut d = parsed(c, &v)?;
    let mut d2 = parsed(c, &v2)?;
    let (a, b) = (pieces(&mut d, n)?, pieces(&mut d2, v2.g(list).l().len())?);
    event(&format!("local:{}", kind));
    event(&format!("change:{}", op));
    c.eval();
    c.seen(v.hash() ^ v2.hash().rotate_left(1));
    if a.0 != b.0 {
        c.attach("before", a.0);
        c.attach("after", b.0);
        return bad(format!("to {} item {} changes the text around the items", op, i));
    }
    for (x, k) in keep.iter().enumerate() {
        if let Some(k) = *k {
            if a.1[x] != b.1[k] {
                c.attach("before", a.1[x].clone());
                c.attach("after", b.1[k].clone());
                return bad(format!("to {} item {} changes the text of item {}", op, i, x));
            }
        }
    }
    Ok(())
}

/// the text around the items, and of each item
fn pieces(d: &mut Doc, n: usize) -> Result<(String, Vec<String>), Fail> {
    let t = match d.write() {
        Ok(t) => t,
        Err(e) => return skip(e),
    };
    let (items, rest): (Vec<String>, String) = match *d {
        Doc::Sch(ref mut s) => {
            let items = s.elements.iter().map(|e| lib("element text", || format!("{}", e))).collect();
            s.elements.clear();
            (items, lib("write schematic", || format!("{}", s)))
        }
        Doc::Lib(ref mut l) => {
            let items = l.symbols.iter().map(|e| lib("symbol text", || format!("{}", e))).collect();
            l.symbols.clear();
            (items, lib("write symbol lib", || format!("{}", l)))
        }
        _ => (vec![], String::new()),
    };
    if let Doc::Sch(_) | Doc::Lib(_) = *d {
        // the items' own texts follow each other in the file, whose other text does not depend on them
        let all = items.concat();
        let mut from = 0;
        while let Some(i) = t[from..].find(&all).map(|i| i + from) {
            if format!("{}{}", &t[..i], &t[i + all.len()..]) == rest {
                return Ok((rest, items));
            }
            from = i + t[i..].chars().next().map_or(1, |c| c.len_utf8());
            if from > t.len() {
                break;
            }
        }
        return bad("the written file does not consist of the texts of its items and what an empty file has");
    }
    // the last n expressions one level down
    let mut spans = vec![];
    let (mut depth, mut quoted, mut esc, mut start) = (0, false, false, 0);
    let mut fresh = true;
    for (i, ch) in t.char_indices() {
        if quoted {
            if ch == '"' && !esc {
                quoted = false
            }
            esc = ch == '\\';
            continue;
        }
        match ch {
            '"' if fresh => {
                quoted = true;
                esc = false
            }
            '(' => {
                depth += 1;
                if depth == 2 {
                    start = i
                }
            }
            ')' => {
                if depth == 2 {
                    spans.push((start, i + 1))
                }
                depth -= 1
            }
            _ => (),
        }
        fresh = ch == '(' || ch == ')' || ch.is_whitespace()
    }
    // a locked footprint says so with a bare word
    let bare = match *d {
        Doc::Module(ref m) => m.elements.iter().filter(|e| matches!(**e, fp::Element::Locked)).count(),
        _ => 0,
    };
    if bare > 0 {
        return skip("locked");
    }
    if spans.len() < n {
        return skip("other structure");
    }
    let head = spans.len() - n;
    let mut around = String::new();
    for s in &spans[..head] {
        around.push_str(&t[s.0..s.1]);
        around.push('\n')
    }
    Ok((around, spans[head..].iter().map(|s| t[s.0..s.1].to_string()).collect()))
}
