//! C19, C20 and C21: checking and fixing against the library convention.

use super::geom::{extent, tame};
use super::*;
use crate::core::event;
use k::checkfix::{self, CheckFix, CheckFixData, Config, ModConfig};

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C19", cases: (600_000, 12_000_000), run: check_case,
        required: &["clean", "finding:7.3", "finding:7.4", "finding:7.5", "finding:8.1", "finding:9.1", "advice", "reference missing", "value missing", "user missing",
            "reference value", "reference layer", "reference hidden", "reference aspect", "value value", "value layer", "value hidden", "user value", "user layer", "user aspect",
            "courtyard lines:0", "courtyard lines:3", "courtyard lines:4", "pads:mixed", "pads:smd", "pads:through hole", "pads:unplated only", "several texts", "other font size"],
        rule: "distinct (footprint, font configuration) pairs whose findings were compared with the rules the footprint breaks",
        assumptions: &["font sizes are either as configured or differ by more than a rounding error", "the first text of a kind is the one the rules apply to"],
    },
    &Prop {
        id: "C20", cases: (300_000, 6_000_000), run: fix_case,
        required: &["fixed:reference", "fixed:value", "fixed:user", "added:user", "added:attribute", "added:courtyard", "kept:courtyard", "kept:clean footprint", "clearance:small", "clearance:grid", "clearance:normal",
            "left:reference missing", "left:value missing", "left:attribute", "fixed again", "moved footprint", "written and read again"],
        rule: "distinct (footprint, font configuration) pairs whose fixed form was compared with the original element by element",
        assumptions: &["sizes are not negative and pads are turned by multiples of 90 degrees", "the clearance is 0.15 for parts smaller than 2 mm both ways, else 0.1 for BGA, else 0.25"],
    },
    &Prop {
        id: "C21", cases: (600_000, 12_000_000), run: symbol_case,
        required: &["clean", "finding:1.7", "finding:4.1", "finding:4.2", "finding:4.7", "finding:4.8", "finding:4.9", "advice", "symbol:normal", "symbol:power", "symbol:graphics",
            "symbol:power with pins", "name:hidden marker", "pin:short", "pin:long", "pin:not connected", "pin:named NC", "name:allowed", "name:not allowed", "several characters", "own:pin", "own:rect", "own:draw"],
        rule: "distinct symbols whose findings were compared with the rules the symbol breaks",
        assumptions: &["pin names either plainly say NC or do not contain nc at all"],
    },
];

/// a finding: section, rule, advice only, and a text its item must mention
type Finding = (i64, i64, bool, String);

fn flatten(v: &[CheckFixData], out: &mut Vec<Finding>) {
    for x in v {
        match *x {
            CheckFixData::Item(ref i) => out.push((i.section, i.rule, i.info, i.item.clone())),
            CheckFixData::More(ref m) => flatten(m, out),
        }
    }
}

fn keys(v: &[Finding], merge: bool) -> Vec<(i64, i64, bool)> {
    // advice on text sizes comes under either of the two text rules
    let mut k: Vec<(i64, i64, bool)> = v.iter().map(|f| if merge && f.2 && f.0 == 7 && f.1 == 4 { (7, 3, true) } else { (f.0, f.1, f.2) }).collect();
    k.sort();
    k
}

fn compare(what: &str, exp: &[Finding], got: &[CheckFixData], merge: bool) -> Res {
    let mut o = vec![];
    flatten(got, &mut o);
    let (a, b) = (keys(exp, merge), keys(&o, merge));
    if a != b {
        return bad(format!("findings for {} (section, rule, advice): expected {:?}, observed {:?} from {:?}", what, a, b, got));
    }
    for (i, f) in o.iter().enumerate() {
        let k = &keys(&[f.clone()], merge)[0];
        let ok = exp.iter().any(|e| &keys(&[e.clone()], merge)[0] == k && f.3.contains(e.3.as_str()));
        if !ok {
            return bad(format!("finding {} for {} names {:?}, expected one of {:?}", i, what, f.3, exp));
        }
    }
    for f in exp {
        event(&format!("finding:{}.{}", f.0, f.1));
        if f.2 {
            event("advice")
        }
    }
    if exp.is_empty() {
        event("clean")
    }
    Ok(())
}

// ---------------------------------------------------------------- footprints

pub fn config(r: &mut Rng) -> Config {
    let (s, t) = if r.pct(60) {
        (1.0, 0.15)
    } else {
        event("other font size");
        (*r.pick(&[0.8, 1.27, 2.0, 0.5]), *r.pick(&[0.1, 0.2, 0.15, 0.05]))
    };
    let mut c = lib("Config::klc", || Config::klc());
    c.m = ModConfig { font_size: s, font_thickness: t };
    c
}

fn layer_type(s: &str) -> &str {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() == 2 {
        p[1]
    } else {
        s
    }
}

fn conforming(c: &Config, name: &str, value: &str, layer: &str) -> V {
    crate::r!("fp_text"; name: name, value: value, at: crate::r!("at"; x: 0.0, y: 1.5, rot: 0.0), layer: layer, hide: false,
        effects: crate::r!("effects"; font: crate::r!("font"; x: c.m.font_size, y: c.m.font_size, thickness: c.m.font_thickness, italic: false), justify: V::Nil))
}

/// a footprint that breaks some of the rules
pub fn footprint(r: &mut Rng, cfg: &Config) -> V {
    let name = if r.pct(30) { r.pick(&["BGA-16", "BGA", "LQFP-48", "R_0603", "xBGA"]).to_string() } else { gen::sstr(r) };
    let mut e: Vec<V> = vec![];
    let breakage = *r.pick(&[0, 8, 25, 60]);
    for &(kind, value, layer) in &[("reference", "REF**", "SilkS"), ("value", name.as_str(), "Fab"), ("user", "%R", "Fab")] {
        if r.pct(breakage / 3) {
            continue;
        }
        let side = *r.pick(&["F", "F", "B"]);
        let mut t = conforming(cfg, kind, value, &format!("{}.{}", side, layer));
        if r.pct(breakage) {
            let v = if r.bool() { gen::sstr(r) } else { r.pick(&["REF**", "%R", "ref**", "REF**x", "", "%V"]).to_string() };
            t.set("value", v)
        }
        if r.pct(breakage) {
            t.set("layer", gen::layer(r))
        }
        if r.pct(breakage) {
            t.set("hide", true)
        }
        for f in &["x", "y", "thickness"] {
            if r.pct(breakage) {
                let v = match r.below(4) {
                    0 => 1.0,
                    1 => 0.15,
                    2 => cfg.m.font_size + 0.001,
                    _ => r.range(1, 3000) as f64 / 1000.0,
                };
                t.gm("effects").gm("font").set(f, v)
            }
        }
        if r.pct(30) {
            t.set("at", gen::at(r));
            let j = gen::effects(r);
            t.gm("effects").set("justify", j.g("justify").clone());
            let it = r.bool();
            t.gm("effects").gm("font").set("italic", it)
        }
        e.push(t);
        if r.pct(10) {
            event("several texts");
            let x = gen::fp_text(r, kind);
            e.push(x)
        }
    }
    let n = if r.pct(100 - breakage) { 4 } else { r.below(6) };
    for _ in 0..n {
        let mut l = gen::fp_line(r);
        l.set("layer", *r.pick(&["F.CrtYd", "F.CrtYd", "B.CrtYd"]));
        e.push(l)
    }
    for _ in 0..r.below(3) {
        let x = match r.below(5) {
            0 => gen::fp_line(r),
            1 => {
                let mut l = gen::fp_line(r);
                l.set("layer", "F.Fab");
                l
            }
            2 => gen::fp_circle(r),
            3 => gen::fp_arc(r),
            _ => gen::fp_poly(r),
        };
        e.push(x)
    }
    let style = r.below(6);
    for _ in 0..r.below(5) {
        let mut p = gen::pad(r);
        p.set("type", match style {
            0 => "smd",
            1 => "thru_hole",
            2 => "np_thru_hole",
            3 => *r.pick(&["smd", "np_thru_hole"]),
            4 => *r.pick(&["thru_hole", "np_thru_hole"]),
            _ => *r.pick(&["smd", "thru_hole", "np_thru_hole"]),
        });
        e.push(p)
    }
    let smd = e.iter().any(|x| x.kind() == "pad" && x.fs("type") == "smd");
    if if r.pct(breakage) { r.bool() } else { smd } {
        e.push(crate::r!("attr"; v: "smd"))
    }
    if r.pct(10) {
        e.push(crate::r!("attr"; v: *r.pick(&["virtual", "SMD", "smd2", ""])))
    }
    for _ in 0..r.below(3) {
        let x = gen::module_element(r);
        if !matches!(x.kind(), "fp_text" | "pad" | "attr") && !(x.kind() == "fp_line" && layer_type(x.fs("layer")) == "CrtYd") {
            e.push(x)
        }
    }
    if r.pct(40) {
        let a = gen::at(r);
        e.push(a)
    }
    if r.pct(30) {
        // texts of one kind keep their order
        let mut texts: Vec<V> = e.iter().filter(|x| x.kind() == "fp_text").cloned().collect();
        e.retain(|x| x.kind() != "fp_text");
        r.shuffle(&mut e);
        for t in texts.drain(..) {
            e.push(t)
        }
        let n = r.below(e.len() + 1);
        e.rotate_left(n)
    }
    crate::r!("module"; name: name, elements: V::L(e))
}

fn text<'a>(m: &'a V, name: &str) -> Option<&'a V> {
    m.g("elements").l().iter().find(|e| e.kind() == "fp_text" && e.fs("name") == name)
}

fn courtyard(m: &V) -> usize {
    m.g("elements").l().iter().filter(|e| e.kind() == "fp_line" && layer_type(e.fs("layer")) == "CrtYd").count()
}

fn pads(m: &V) -> (usize, usize, usize) {
    let n = |k: &str| m.g("elements").l().iter().filter(|e| e.kind() == "pad" && e.fs("type") == k).count();
    (n("smd"), n("thru_hole"), n("np_thru_hole"))
}

fn smd_attr(m: &V) -> bool {
    m.g("elements").l().iter().any(|e| e.kind() == "attr" && e.fs("v") == "smd")
}

/// the reference: the rules a footprint breaks
pub fn broken_rules(m: &V, cfg: &Config) -> Vec<Finding> {
    let mut out = vec![];
    let name = m.fs("name").to_string();
    let f = |rule: (i64, i64), info: bool, why: &str| {
        event(why);
        (rule.0, rule.1, info, name.clone())
    };
    for &(kind, value, layer, rule) in &[("reference", "REF**", "SilkS", (7, 3)), ("value", m.fs("name"), "Fab", (7, 4)), ("user", "%R", "Fab", (7, 4))] {
        let t = match text(m, kind) {
            Some(t) => t,
            None => {
                out.push(f(rule, false, &format!("{} missing", kind)));
                continue;
            }
        };
        if t.fs("value") != value {
            out.push(f(rule, false, &format!("{} value", kind)))
        }
        if layer_type(t.fs("layer")) != layer {
            out.push(f(rule, false, &format!("{} layer", kind)))
        }
        if kind != "user" && t.fb("hide") {
            out.push(f(rule, false, &format!("{} hidden", kind)))
        }
        let font = t.g("effects").g("font");
        if kind != "value" && font.fnum("x") != font.fnum("y") {
            out.push(f(rule, false, &format!("{} aspect", kind)))
        }
        for (n, want) in &[("x", cfg.m.font_size), ("y", cfg.m.font_size), ("thickness", cfg.m.font_thickness)] {
            if font.fnum(n) != *want {
                out.push(f((7, 3), true, &format!("{} {}", kind, n)))
            }
        }
    }
    let n = courtyard(m);
    event(&format!("courtyard lines:{}", n));
    if n < 4 {
        out.push(f((7, 5), false, "no courtyard"))
    }
    let (s, t, u) = pads(m);
    event(match (s > 0, t > 0, u > 0) {
        (true, true, _) => "pads:mixed",
        (true, false, _) => "pads:smd",
        (false, true, _) => "pads:through hole",
        (false, false, true) => "pads:unplated only",
        _ => "pads:none",
    });
    if t == 0 && s > 0 && !smd_attr(m) {
        out.push(f((8, 1), false, "smd attribute missing"))
    }
    if t > 0 && s == 0 && smd_attr(m) {
        out.push(f((9, 1), false, "smd attribute wrong"))
    }
    out
}

/// sizes that differ by no more than the library's rounding tolerance have no defined answer
fn sizes_clear(m: &V, cfg: &Config) -> bool {
    m.g("elements").l().iter().filter(|e| e.kind() == "fp_text").all(|t| {
        let f = t.g("effects").g("font");
        let near = |a: f64, b: f64| a != b && (a - b).abs() < 1e-9;
        let (x, y, th) = (f.fnum("x"), f.fnum("y"), f.fnum("thickness"));
        !(near(x, y) || near(x, cfg.m.font_size) || near(y, cfg.m.font_size) || near(th, cfg.m.font_thickness))
    })
}

fn check_case(c: &mut Ctx) -> Res {
    let cfg = config(&mut c.rng);
    let mut v = if c.rng.pct(85) { footprint(&mut c.rng, &cfg) } else { any_doc(c, "module")? };
    let mut d = made(c, &mut v)?;
    let m = d.obs();
    if !sizes_clear(&m, &cfg) {
        return skip("text sizes on the edge of rounding");
    }
    let md = d.module();
    let exp = broken_rules(&m, &cfg);
    let got = lib("Module::check", || md.check(&cfg));
    c.eval();
    c.seen(m.hash() ^ cfg.m.font_size.to_bits().rotate_left(7) ^ cfg.m.font_thickness.to_bits());
    compare("the footprint", &exp, &got, true)?;
    same("footprint after the check", &m, &obs::module(md))?;
    c.sample(format!("{}: {:?}", m.fs("name"), keys(&exp, true)));
    Ok(())
}

// ---------------------------------------------------------------- fixing

fn same_but(e: &V, a: &V, kind: &str, cfg: &Config, name: &str) -> Res {
    // only what breaks a rule may change, and only to what the rule says
    let (value, layer) = match kind {
        "reference" => ("REF**", "SilkS"),
        "value" => (name, "Fab"),
        _ => ("%R", "Fab"),
    };
    let mut want = e.clone();
    want.set("value", value);
    if layer_type(e.fs("layer")) != layer {
        let l = a.fs("layer").to_string();
        if layer_type(&l) != layer {
            return bad(format!("the {} text is on layer {} after fixing", kind, l));
        }
        for side in &["F.", "B."] {
            if e.fs("layer").starts_with(side) && e.fs("layer").split('.').count() == 2 && !l.starts_with(side) {
                return bad(format!("the {} text moved from {} to {}", kind, e.fs("layer"), l));
            }
        }
        want.set("layer", l)
    }
    if kind == "user" && !a.fb("hide") || kind != "user" {
        want.set("hide", false)
    }
    let f = want.gm("effects").gm("font");
    f.set("x", cfg.m.font_size);
    f.set("y", cfg.m.font_size);
    f.set("thickness", cfg.m.font_thickness);
    same(&format!("{} text after fixing", kind), &want, a)
}

fn fix_case(c: &mut Ctx) -> Res {
    let cfg = config(&mut c.rng);
    let mut v = if c.rng.pct(85) { footprint(&mut c.rng, &cfg) } else { any_doc(c, "module")? };
    let mut base = 0.0;
    if c.rng.pct(20) {
        base = 50.0
    }
    tame(&mut c.rng, &mut v, base);
    if c.rng.pct(60) {
        // small parts
        shrink(&mut c.rng, &mut v)
    }
    let mut d = made(c, &mut v)?;
    let m = d.obs();
    if !sizes_clear(&m, &cfg) {
        return skip("text sizes on the edge of rounding");
    }
    if c.rng.pct(5) {
        // fixing something just checked
        let md = d.module();
        let _ = lib("Module::check", || md.check(&cfg));
    }
    let before = broken_rules(&m, &cfg);
    let md = d.module();
    lib("Module::fix", || md.fix(&cfg));
    let a = obs::module(md);
    c.eval();
    c.seen(m.hash() ^ cfg.m.font_size.to_bits().rotate_left(7) ^ cfg.m.font_thickness.to_bits());
    compare_fixed(&m, &a, &cfg)?;
    if before.is_empty() {
        event("kept:clean footprint")
    }
    // what is left
    let left: Vec<Finding> = before
        .iter()
        .filter(|f| (f.0, f.1) == (9, 1))
        .cloned()
        .chain(text(&m, "reference").is_none().then(|| (7, 3, false, m.fs("name").to_string())))
        .chain(text(&m, "value").is_none().then(|| (7, 4, false, m.fs("name").to_string())))
        .collect();
    if text(&m, "reference").is_none() {
        event("left:reference missing")
    }
    if text(&m, "value").is_none() {
        event("left:value missing")
    }
    if before.iter().any(|f| f.0 == 9) {
        event("left:attribute")
    }
    let got = lib("Module::check", || md.check(&cfg));
    compare("the fixed footprint", &left, &got, true)?;
    // fixing again changes nothing
    for i in 0..1 + c.rng.below(3) {
        lib("Module::fix", || md.fix(&cfg));
        same(&format!("footprint fixed {} times", i + 2), &a, &obs::module(md))?;
        event("fixed again")
    }
    if c.rng.pct(20) {
        let t = match d.write() {
            Ok(t) => t,
            Err(_) => return skip("not written"),
        };
        let mut e = match Doc::parse("module", &t) {
            Ok(e) => e,
            Err(_) => return skip("not read"),
        };
        let b = e.obs();
        if diff(&a, &b, 0.0).is_some() {
            return skip("not read as written");
        }
        let me = e.module();
        lib("Module::fix", || me.fix(&cfg));
        event("written and read again");
        same("footprint fixed after writing and reading it", &b, &obs::module(me))?
    }
    c.sample(format!("{}: {:?} left {:?}", m.fs("name"), keys(&before, true), keys(&left, true)));
    Ok(())
}

/// make everything that counts for the extent small
fn shrink(r: &mut Rng, v: &mut V) {
    let k = *r.pick(&[0.001, 0.01, 0.1]);
    fn go(v: &mut V, k: f64) {
        match *v {
            V::R("xy", ref mut f) | V::R("at", ref mut f) => for x in f.iter_mut() {
                if x.0 != "rot" {
                    let n = x.1.n();
                    x.1 = V::N(((n * k) % 1.0 * 1e4).round() / 1e4)
                }
            },
            V::R(_, ref mut f) => for x in f.iter_mut() {
                go(&mut x.1, k)
            },
            V::L(ref mut l) => for x in l {
                go(x, k)
            },
            _ => (),
        }
    }
    for e in v.gm("elements").lm() {
        match e.kind() {
            "pad" | "fp_line" | "fp_poly" | "fp_circle" | "fp_arc" => go(e, k),
            _ => (),
        }
    }
}

/// the fixed footprint against the original
fn compare_fixed(m: &V, a: &V, cfg: &Config) -> Res {
    if m.fs("name") != a.fs("name") {
        return bad(format!("name changed from {:?} to {:?}", m.fs("name"), a.fs("name")));
    }
    let (e, g) = (m.g("elements").l(), a.g("elements").l());
    if g.len() < e.len() {
        return bad(format!("{} elements before fixing, {} after", e.len(), g.len()));
    }
    // new elements: what was missing
    let mut first = vec![];
    for kind in &["reference", "value", "user"] {
        if let Some(i) = e.iter().position(|x| x.kind() == "fp_text" && x.fs("name") == *kind) {
            first.push((i, *kind))
        }
    }
    let (s, t, _) = pads(m);
    let want_user = text(m, "user").is_none();
    let want_attr = t == 0 && s > 0 && !smd_attr(m);
    let want_yard = courtyard(m) < 4;
    // the old elements in their order, then the new ones
    for (i, x) in e.iter().enumerate() {
        match first.iter().find(|f| f.0 == i) {
            Some(f) => {
                if g[i].kind() != "fp_text" || g[i].fs("name") != f.1 {
                    return bad(format!("the {} text is gone: {:?}", f.1, g[i]));
                }
                same_but(x, &g[i], f.1, cfg, m.fs("name"))?;
                if diff(x, &g[i], 0.0).is_some() {
                    event(&format!("fixed:{}", f.1))
                }
            }
            None => same(&format!("element {} after fixing", i), x, &g[i])?,
        }
    }
    let mut new: Vec<&V> = g[e.len()..].iter().collect();
    if want_user {
        match new.iter().position(|x| x.kind() == "fp_text" && x.fs("name") == "user") {
            Some(i) => {
                let x = new.remove(i);
                same_but(&conforming(cfg, "user", "%R", x.fs("layer")), &{
                    let mut y = x.clone();
                    let at = crate::r!("at"; x: 0.0, y: 1.5, rot: 0.0);
                    y.set("at", at);
                    y
                }, "user", cfg, "")?;
                if layer_type(x.fs("layer")) != "Fab" {
                    return bad(format!("the new reference text is on layer {}", x.fs("layer")));
                }
                event("added:user")
            }
            None => return bad("no second reference text after fixing"),
        }
    }
    if want_attr {
        match new.iter().position(|x| x.kind() == "attr" && x.fs("v") == "smd") {
            Some(i) => {
                new.remove(i);
                event("added:attribute")
            }
            None => return bad("no smd attribute after fixing"),
        }
    }
    if want_yard {
        let lines: Vec<&V> = new.iter().filter(|x| x.kind() == "fp_line" && layer_type(x.fs("layer")) == "CrtYd").cloned().collect();
        new.retain(|x| !(x.kind() == "fp_line" && layer_type(x.fs("layer")) == "CrtYd"));
        rectangle(m, &lines)?;
        event("added:courtyard")
    } else {
        event("kept:courtyard")
    }
    if !new.is_empty() {
        return bad(format!("fixing added {:?}", new));
    }
    Ok(())
}

fn rectangle(m: &V, lines: &[&V]) -> Res {
    let b = match extent(m) {
        Some(b) => b,
        None => return broken("footprint without extent"),
    };
    let (x, y) = m.g("elements").l().iter().find(|x| x.kind() == "at").map(|a| (a.fnum("x"), a.fnum("y"))).unwrap_or((0.0, 0.0));
    if x != 0.0 || y != 0.0 {
        event("moved footprint")
    }
    let (w, h) = (b[2] - b[0], b[3] - b[1]);
    let scale = b.iter().fold(1.0f64, |m, q| m.max(q.abs()));
    let small = (w < 2.0 && h < 2.0, "clearance:small", 0.15);
    let big = if m.fs("name").starts_with("BGA") { (true, "clearance:grid", 0.1) } else { (true, "clearance:normal", 0.25) };
    let edge = (w - 2.0).abs() < 1e-6 * scale || (h - 2.0).abs() < 1e-6 * scale;
    let allowed = if edge { vec![small.2, big.2] } else if small.0 { vec![small.2] } else { vec![big.2] };
    event(if small.0 { small.1 } else { big.1 });
    let near = |p: f64, q: f64| (p - q).abs() <= 1e-9 * scale;
    let ok = allowed.iter().any(|o| {
        let r = [b[0] - x - o, b[1] - y - o, b[2] - x + o, b[3] - y + o];
        let c = [(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3])];
        (0..4).all(|i| {
            let (p, q) = (c[i], c[(i + 1) % 4]);
            lines.iter().any(|l| {
                let (s, e) = (l.g("start"), l.g("end"));
                let s = (s.fnum("x"), s.fnum("y"));
                let e = (e.fnum("x"), e.fnum("y"));
                let fits = |s: (f64, f64), e: (f64, f64)| near(s.0, p.0) && near(s.1, p.1) && near(e.0, q.0) && near(e.1, q.1);
                fits(s, e) || fits(e, s)
            })
        })
    });
    if !ok || lines.len() != 4 {
        return bad(format!("courtyard of a footprint at ({}, {}) with extent {:?} and clearance {:?}: observed lines {:?}", x, y, b, allowed, lines));
    }
    for l in lines {
        if l.fs("layer") != "F.CrtYd" || l.fnum("width") != 0.05 {
            return bad(format!("courtyard line {:?} is not 0.05 wide on the front courtyard layer", l));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- symbols

fn pin_name(r: &mut Rng) -> String {
    if r.pct(25) {
        return r.pick(&["NC", "nc", "NC1", "Nc", "NC_3"]).to_string();
    }
    loop {
        let s = if r.bool() { r.pick(&["A", "VCC", "GND", "~", "N", "C", "CN", "N_C", "D0"]).to_string() } else { gen::lword(r) };
        if !s.to_lowercase().contains("nc") {
            return s;
        }
    }
}

pub fn klc_symbol(r: &mut Rng) -> V {
    let mut s = gen::symbol(r);
    let breakage = *r.pick(&[0, 5, 20, 60]);
    let name = if r.pct(100 - breakage) {
        r.pick(&["LM317", "R", "a-b_c.d", "74HC00", "ABCXYZabcxyz0189", "-", "."]).to_string()
    } else {
        match r.below(4) {
            0 => gen::lword(r),
            1 => "A~B".to_string(),
            2 => format!("{}{}", gen::lword(r), r.pick(&["/", "+", "é", "@", "[", "`", "{", ":", ","])),
            _ => r.pick(&["~~X", "a/b", "µA741", "@`[{/:", "(x)", "a,b", "a+b", "ÄÖ"]).to_string(),
        }
    };
    s.set("name", if r.pct(20) { format!("~{}", name) } else { name });
    if s.fs("name").is_empty() {
        s.set("name", "X")
    }
    s.set("reference", r.pick(&["U", "R", "#PWR", "#PWR", "#SYM", "#", "#PWR1", "PWR#", "Q"]).to_string());
    let power = s.fs("reference") == "#PWR";
    let hash = s.fs("reference").starts_with('#');
    if hash && r.pct(60) {
        let n = if power { 1 } else { 0 };
        let mut k = 0;
        s.gm("draw").lm().retain(|d| {
            if d.kind() == "pin" {
                k += 1
            }
            d.kind() != "pin" || k <= n
        });
        while k < n {
            let p = gen::pin(r);
            s.gm("draw").lm().push(p);
            k += 1
        }
    }
    let pins = s.g("draw").l().iter().filter(|d| d.kind() == "pin").count();
    let graphics = hash && pins == 0;
    let power = power && pins == 1;
    for f in s.gm("fields").lm() {
        if !r.pct(breakage) {
            f.set("dimension", 50i64)
        }
        if !r.pct(breakage) {
            let vis = match f.fi("i") {
                0 => !graphics && (!power || r.bool()),
                1 => !graphics && !power,
                2 | 3 => false,
                _ => r.bool(),
            };
            f.set("visible", vis)
        }
    }
    for d in s.gm("draw").lm() {
        match d.kind() {
            "pin" => {
                d.set("name", pin_name(r));
                let nc = d.fs("name").to_lowercase().contains("nc");
                for f in &["x", "y"] {
                    if !r.pct(breakage) {
                        d.set(f, r.range(-30, 30) * 100)
                    } else if r.bool() {
                        d.set(f, r.range(-60, 60) * 50)
                    }
                }
                if !r.pct(breakage) {
                    d.set("len", r.range(2, 6) * 50)
                } else {
                    d.set("len", *r.pick(&[0i64, 50, 99, 100, 101, 150, 299, 300, 301, 350, 1000, -100, 75, -75, -30, -1]))
                }
                for f in &["num_size", "name_size"] {
                    if !r.pct(breakage) {
                        d.set(f, 50i64)
                    }
                }
                if !r.pct(breakage) {
                    if nc {
                        d.set("type", "N")
                    }
                    let vis = d.fs("type") != "N";
                    d.set("visible", vis)
                }
            }
            "rect" => {
                if !r.pct(breakage) {
                    d.set("fill", "f")
                }
                if !r.pct(breakage) {
                    d.set("thickness", 10i64)
                }
            }
            _ => (),
        }
    }
    s
}

const ALLOWED: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-.";

fn draw_rules(d: &V) -> Vec<Finding> {
    let mut out = vec![];
    match d.kind() {
        "pin" => {
            let key = d.fs("name").to_string();
            let mut f = |rule: i64, info: bool| out.push((4, rule, info, key.clone()));
            if d.fi("x") % 100 != 0 {
                f(1, false)
            }
            if d.fi("y") % 100 != 0 {
                f(1, false)
            }
            let len = d.fi("len");
            if len % 50 != 0 {
                f(1, false)
            }
            if len < 100 {
                event("pin:short");
                f(1, true)
            }
            if len > 300 {
                event("pin:long");
                f(1, true)
            }
            let nc = d.fs("type") == "N";
            if nc {
                event("pin:not connected")
            }
            if d.fs("name").to_lowercase().contains("nc") {
                event("pin:named NC");
                if !nc {
                    f(7, false)
                }
            }
            if d.fb("visible") == nc {
                f(7, false)
            }
            if d.fi("num_size") != 50 {
                f(8, false)
            }
            if d.fi("name_size") != 50 {
                f(8, false)
            }
        }
        "rect" => {
            if d.fs("fill") != "f" {
                out.push((4, 2, false, String::new()))
            }
            if d.fi("thickness") != 10 {
                out.push((4, 2, false, String::new()))
            }
        }
        _ => (),
    }
    out
}

/// the reference: the rules a symbol breaks
pub fn symbol_rules(s: &V) -> Vec<Finding> {
    let mut out = vec![];
    let full = s.fs("name");
    let name = full.strip_prefix('~').unwrap_or(full);
    if name.len() != full.len() {
        event("name:hidden marker")
    }
    let wrong = name.chars().filter(|c| !ALLOWED.contains(*c)).count();
    if wrong > 1 {
        event("several characters")
    }
    for _ in 0..wrong {
        out.push((1, 7, false, String::new()))
    }
    let pins = s.g("draw").l().iter().filter(|d| d.kind() == "pin").count();
    let power = s.fs("reference") == "#PWR" && pins == 1;
    let graphics = s.fs("reference").starts_with('#') && pins == 0;
    event(if power {
        "symbol:power"
    } else if graphics {
        "symbol:graphics"
    } else if s.fs("reference") == "#PWR" {
        "symbol:power with pins"
    } else {
        "symbol:normal"
    });
    for f in s.g("fields").l() {
        if f.fi("dimension") != 50 {
            out.push((4, 8, false, String::new()))
        }
        let vis = f.fb("visible");
        let wrong = match f.fi("i") {
            0 => if graphics {
                vis
            } else {
                !power && !vis
            },
            1 => if graphics || power {
                vis
            } else {
                !vis
            },
            2 | 3 => vis,
            _ => false,
        };
        if wrong {
            out.push((4, 9, false, full.to_string()))
        }
    }
    if !power && !graphics {
        for d in s.g("draw").l() {
            out.extend(draw_rules(d))
        }
    }
    out
}

fn symbol_case(c: &mut Ctx) -> Res {
    let n = 1 + c.rng.below(2);
    let s: Vec<V> = (0..n).map(|_| klc_symbol(&mut c.rng)).collect();
    let mut v = crate::r!("lib"; symbols: V::L(s));
    let mut d = made(c, &mut v)?;
    let m = d.obs();
    let cfg = config(&mut c.rng);
    let l = d.lib();
    for (i, s) in l.symbols.iter().enumerate() {
        let sv = &m.g("symbols").l()[i];
        let exp = symbol_rules(sv);
        let got = lib("Symbol::check", || s.check(&cfg));
        c.eval();
        c.seen(sv.hash());
        compare(&format!("symbol {:?}", s.name), &exp, &got, false)?;
        // the drawing items on their own
        for (j, x) in s.draw.iter().enumerate() {
            let xv = &sv.g("draw").l()[j];
            let exp = draw_rules(xv);
            compare(&format!("drawing item {}", j), &exp, &lib("Draw::check", || x.check(&cfg)), false)?;
            match *x {
                sl::Draw::Pin(ref p) => {
                    event("own:pin");
                    compare(&format!("pin {}", j), &exp, &lib("Pin::check", || p.check(&cfg)), false)?
                }
                sl::Draw::Rectangle(ref p) => {
                    event("own:rect");
                    compare(&format!("rectangle {}", j), &exp, &lib("Rectangle::check", || p.check(&cfg)), false)?
                }
                _ => event("own:draw"),
            }
        }
        c.sample(format!("{}: {:?}", s.name, keys(&exp, false)))
    }
    same("symbols after the check", &m, &obs::symbol_lib(l))?;
    // names
    let r = &mut c.rng;
    let s = match r.below(4) {
        0 => gen::lstr(r),
        1 => (0..r.below(6)).map(|_| (r.range(32, 127) as u8) as char).collect(),
        2 => (0..r.below(8)).map(|_| ALLOWED.chars().nth(r.below(ALLOWED.len())).unwrap()).collect(),
        _ => gen::sstr(r),
    };
    c.eval();
    let wrong = s.chars().filter(|c| !ALLOWED.contains(*c)).count();
    event(if wrong == 0 { "name:allowed" } else { "name:not allowed" });
    let exp: Vec<Finding> = (0..wrong).map(|_| (1, 7, false, String::new())).collect();
    compare(&format!("name {:?}", s), &exp, &lib("allowed_1_7_items", || checkfix::allowed_1_7_items(&s)), false)?;
    if lib("is_allowed_1_7", || checkfix::is_allowed_1_7(&s)) != (wrong == 0) {
        return bad(format!("name {:?} with {} characters that are not allowed is answered wrongly", s, wrong));
    }
    Ok(())
}
