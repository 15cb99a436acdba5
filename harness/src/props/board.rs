//! C15, C16 and C26: renaming, moving, looking up and editing boards and footprints.

use super::*;
use crate::core::event;
use crate::sx;
use k::Adjust;
use std::cell::RefCell;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C15", cases: (300_000, 6_000_000), run: rename_case,
        required: &["place:net list", "place:net class", "place:pad", "place:zone", "op:change", "op:change absent", "op:function", "op:function error", "op:block",
            "op:automatic", "op:module", "op:pad", "helper:automatic", "helper:ordinary", "helper:block", "prefix of another name"],
        rule: "distinct (board, rename) pairs after which the whole model was compared with the reference",
        assumptions: &["references in automatic net names have no '-', '(' or ')' of their own"],
    },
    &Prop {
        id: "C16", cases: (300_000, 6_000_000), run: move_case,
        required: &["moved:module", "moved:gr_text", "moved:gr_line", "moved:gr_arc", "moved:gr_circle", "moved:dimension", "moved:segment", "moved:via", "moved:zone",
            "moved:zone outline", "moved:zone fill", "moved:zone fill segments", "kept:net", "kept:net_class", "kept:other", "moved back", "op:board", "op:element", "op:module", "op:module position"],
        rule: "distinct (element, displacement) pairs compared with the element's coordinates before the move",
        assumptions: &["displacements are finite"],
    },
    &Prop {
        id: "C26", cases: (300_000, 6_000_000), run: access_case,
        required: &["found:module", "missing:module", "several:module", "modify:module", "modify missing", "list:nets", "list:netclasses", "list:modules", "add:net", "add:netclass",
            "setup:found", "setup:missing", "setup:update", "setup:add", "netclass:has", "netclass:has not", "netclass:same", "netclass:differs",
            "fp:set reference", "fp:no such reference", "fp:text found", "fp:text missing", "fp:text edited", "fp:position", "fp:no position", "fp:front", "fp:back",
            "fp:smd", "fp:not smd", "fp:tstamp", "fp:tedit", "fp:pads", "fp:lines", "fp:append", "pad:set", "ord:smaller", "ord:same", "ord:list", "fp:built"],
        rule: "distinct (model, operation) pairs whose result and effect on the whole model were compared with the reference",
        assumptions: &["reference designators are letters followed by one number of at most 18 digits"],
    },
];

// ---------------------------------------------------------------- nets

const REFS: &[&str] = &["R1", "R10", "R", "U1", "U12", "é1", "IC3", "R?"];

fn net_name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "".to_string(),
        1 => gen::sstr(r),
        2 | 3 => format!("Net-({}-Pad{})", r.pick(REFS), r.pick(&["1", "2", "12", "A1", ""])),
        4 | 5 => format!("/{}/{}", r.pick(&["blk", "blk2", "b", "a b"]), r.pick(&["SIG", "blk", "x", "sub/SIG"])),
        _ => r.pick(&["GND", "GNDA", "GN", "VCC", "VCC3", "+5V", "gnd", "Net-", "Net-(", "Net-(R1)", "NET-(R1-Pad1)", "x Net-(R1-Pad1)", "/blk", "blk/", "G ND"]).to_string(),
    }
}

/// every net name of a board or footprint model
fn names<'a>(v: &'a mut V, out: &mut Vec<(&'static str, &'a mut V)>, in_pad: bool) {
    match *v {
        V::R(kind, ref mut f) => for x in f.iter_mut() {
            match (kind, x.0) {
                ("net", "name") => out.push((if in_pad { "pad" } else { "net list" }, &mut x.1)),
                ("net_class", "nets") => for y in x.1.lm() {
                    out.push(("net class", y))
                },
                ("zone", "net_name") => out.push(("zone", &mut x.1)),
                _ => names(&mut x.1, out, in_pad || kind == "pad"),
            }
        },
        V::L(ref mut l) => for x in l {
            names(x, out, in_pad)
        },
        _ => (),
    }
}

/// put names of a small pool into all places
fn pool_names(r: &mut Rng, v: &mut V) -> Vec<String> {
    let n = 2 + r.below(5);
    let pool: Vec<String> = (0..n).map(|_| net_name(r)).collect();
    let mut out = vec![];
    names(v, &mut out, false);
    for x in out {
        if r.pct(85) {
            *x.1 = V::from(r.pick(&pool))
        }
    }
    pool
}

fn board_pool(r: &mut Rng) -> V {
    let n = 2 + r.below(14);
    let e: Vec<V> = (0..n)
        .map(|_| match r.below(6) {
            0 => gen::net(r),
            1 => gen::net_class(r),
            2 => {
                let mut m = gen::module(r);
                for _ in 0..r.below(3) {
                    let p = gen::pad(r);
                    m.gm("elements").lm().push(p)
                }
                m
            }
            3 => gen::zone(r),
            _ => gen::board_element(r),
        })
        .collect();
    gen::board_with(r, e)
}

/// the reference part and the pad part of an automatic net name
fn automatic(s: &str) -> Option<(&str, &str)> {
    let t = s.strip_prefix("Net-(")?.strip_suffix(")")?;
    let p: Vec<&str> = t.split(|c| c == '-' || c == '(' || c == ')').collect();
    if p.len() == 2 {
        Some((p[0], p[1]))
    } else {
        None
    }
}

/// replace every whole path component `from` that has a slash on both sides
fn block(s: &str, from: &str, to: &str) -> String {
    let p: Vec<&str> = s.split('/').collect();
    let n = p.len();
    let q: Vec<&str> = p.iter().enumerate().map(|(i, x)| if i > 0 && i + 1 < n && *x == from { to } else { *x }).collect();
    q.join("/")
}

fn apply(v: &mut V, what: &dyn Fn(&str) -> String) -> u64 {
    let mut out = vec![];
    names(v, &mut out, false);
    let n = out.len() as u64;
    for x in out {
        let s = what(x.1.s());
        if s != x.1.s() {
            event(&format!("place:{}", x.0))
        }
        *x.1 = V::from(s)
    }
    n
}

fn helpers(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let name = if r.pct(70) { net_name(r) } else { format!("Net-({}-{})", gen::lword(r).replace(|c| c == '-' || c == '(' || c == ')', "x"), r.pick(&["Pad1", "PadA", "x"])) };
    if name.starts_with("Net-(") && automatic(&name).is_none() && name.contains('-') && name.matches(|c| c == '-' || c == '(' || c == ')').count() > 3 {
        return Ok(()); // neither clearly automatic nor clearly not
    }
    c.attach("net name", name.clone());
    c.eval();
    let n: lo::NetName = lib("net name", || lo::NetName::from(name.as_str()));
    let shown = lib("net name", || format!("{}", n));
    if shown != name {
        return bad(format!("net name {:?} displayed as {:?}", name, shown));
    }
    let got = lib("is_unnamed_net", || n.is_unnamed_net());
    let exp = automatic(&name).map(|x| (x.0.to_string(), x.1.to_string()));
    if got != exp {
        return bad(format!("net name {:?}: expected automatic parts {:?}, observed {:?}", name, exp, got));
    }
    let r = &mut c.rng;
    let new = r.pick(REFS).to_string();
    let mut m = n.clone();
    let res = lib("set_unnamed_net", || m.set_unnamed_net(&new));
    match exp {
        Some(e) => {
            event("helper:automatic");
            let want = format!("Net-({}-{})", new, e.1);
            if res.is_err() || m.0 != want {
                return bad(format!("automatic net {:?} with reference {:?}: expected {:?}, observed {:?} ({})", name, new, want, m.0, if res.is_err() { "error" } else { "ok" }));
            }
        }
        None => {
            event("helper:ordinary");
            if m.0 != name {
                return bad(format!("net {:?} is not automatic but was renamed to {:?}", name, m.0));
            }
        }
    }
    // path components
    let parts = ["blk", "b", "x", "SIG", "blk2", "a b", ""];
    let (from, to) = (*r.pick(&parts[..6]), *r.pick(&["new", "b", "n w", "blk"]));
    if !name.contains(&format!("/{}/{}/", from, from)) {
        let want = block(&name, from, to);
        let mut m = n.clone();
        lib("replace_block", || m.replace_block(from, to));
        if m.0 != want {
            return bad(format!("net {:?} with block {:?} replaced by {:?}: expected {:?}, observed {:?}", name, from, to, want, m.0));
        }
        if want != name {
            event("helper:block")
        }
    }
    // exact rename
    let other = if r.pct(50) { name.clone() } else { net_name(r) };
    let mut m = n.clone();
    lib("rename", || m.rename(&other, "new name"));
    let want = if other == name { "new name" } else { name.as_str() };
    if m.0 != want {
        return bad(format!("net {:?} with {:?} renamed: expected {:?}, observed {:?}", name, other, want, m.0));
    }
    let h = V::L(vec![V::from(name.as_str()), V::from(new), V::from(other), V::from(from), V::from(to)]).hash();
    c.seen(h);
    Ok(())
}

fn rename_case(c: &mut Ctx) -> Res {
    for _ in 0..2 {
        helpers(c)?
    }
    let mut v = board_pool(&mut c.rng);
    let mut pool = pool_names(&mut c.rng, &mut v);
    for (i, a) in pool.iter().enumerate() {
        if pool.iter().enumerate().any(|(j, b)| i != j && a != b && !a.is_empty() && b.starts_with(a.as_str())) {
            event("prefix of another name")
        }
    }
    let mut d = made(c, &mut v)?;
    let mut m = d.obs();
    let b = d.board();
    let steps = 1 + c.rng.below(5);
    let mut log = String::new();
    for _ in 0..steps {
        let r = &mut c.rng;
        let old = if r.pct(85) { r.pick(&pool).clone() } else { net_name(r) };
        let mut new = net_name(r);
        if !sx::can_quote(&new) {
            new = "fresh".to_string()
        }
        let op;
        match r.below(8) {
            0..=2 => {
                op = format!("change_net_name({:?}, {:?})", old, new);
                lib("change_net_name", || b.change_net_name(&old, &new));
                let before = m.hash();
                apply(&mut m, &|s| if s == old { new.clone() } else { s.to_string() });
                event(if m.hash() == before { "op:change absent" } else { "op:change" });
                if new != "" {
                    pool.push(new.clone())
                }
            }
            3 => {
                op = format!("update_net_names(prefix {:?})", new);
                let seen = RefCell::new(vec![]);
                let res = lib("update_net_names", || {
                    b.update_net_names(|n| {
                        seen.borrow_mut().push(n.0.clone());
                        n.0 = format!("{}{}", new, n.0);
                        Ok(())
                    })
                });
                if res.is_err() {
                    return bad("update_net_names reports an error the function did not report");
                }
                let mut want: Vec<String> = vec![];
                let mut out = vec![];
                names(&mut m, &mut out, false);
                for x in &out {
                    want.push(x.1.s().to_string())
                }
                let mut seen = seen.into_inner();
                want.sort();
                seen.sort();
                if want != seen {
                    c.attach("operation", op);
                    return bad(format!("the function was applied to {:?}, the board has {:?}", seen, want));
                }
                apply(&mut m, &|s| format!("{}{}", new, s));
                event("op:function")
            }
            4 => {
                // an error of the function comes back
                op = format!("update_net_names(error on {:?})", old);
                let hits = RefCell::new(0u64);
                let res = lib("update_net_names", || {
                    b.update_net_names(|n| {
                        if n.0 == old {
                            *hits.borrow_mut() += 1;
                            let mut x = lo::NetName::from("not automatic");
                            return x.set_unnamed_net("R1").and_then(|_| Err(k::KicadError::from("stop".to_string())));
                        }
                        Ok(())
                    })
                });
                if (hits.into_inner() > 0) != res.is_err() {
                    c.attach("operation", op);
                    return bad("update_net_names does not report the error of the function");
                }
                if res.is_err() {
                    event("op:function error")
                }
            }
            5 => {
                let (from, to) = (*r.pick(&["blk", "b", "blk2"]), *r.pick(&["new", "b", "blk2"]));
                op = format!("replace block {:?} by {:?}", from, to);
                let mut probe = m.clone();
                let mut out = vec![];
                names(&mut probe, &mut out, false);
                if out.iter().any(|x| x.1.s().contains(&format!("/{}/{}/", from, from))) {
                    continue;
                }
                let _ = lib("update_net_names", || {
                    b.update_net_names(|n| {
                        n.replace_block(from, to);
                        Ok(())
                    })
                });
                apply(&mut m, &|s| block(s, from, to));
                event("op:block")
            }
            6 => {
                let to = *r.pick(REFS);
                op = format!("automatic nets of {:?} to {:?}", old, to);
                let from = automatic(&old).map(|x| x.0.to_string()).unwrap_or("R1".to_string());
                let clear = |s: &str| automatic(s).map(|x| x.0 == from).unwrap_or(false);
                let res = lib("update_net_names", || b.update_net_names(|n| if clear(&n.0) { n.set_unnamed_net(to) } else { Ok(()) }));
                if res.is_err() {
                    c.attach("operation", op);
                    return bad("renaming the reference of an automatic net is refused");
                }
                apply(&mut m, &|s| if clear(s) { format!("Net-({}-{})", to, automatic(s).unwrap().1) } else { s.to_string() });
                event("op:automatic")
            }
            _ => {
                let mods: Vec<usize> = (0..b.elements.len()).filter(|&i| matches!(b.elements[i], lo::Element::Module(_))).collect();
                if mods.is_empty() {
                    continue;
                }
                let i = *r.pick(&mods);
                let one_pad = r.bool();
                op = format!("rename_net({:?}, {:?}) on element {}{}", old, new, i, if one_pad { ", one pad" } else { "" });
                let mv = &mut m.gm("elements").lm()[i];
                if let lo::Element::Module(ref mut md) = b.elements[i] {
                    if one_pad {
                        let pads: Vec<usize> = (0..md.elements.len()).filter(|&j| matches!(md.elements[j], fp::Element::Pad(_))).collect();
                        if pads.is_empty() {
                            continue;
                        }
                        let j = *r.pick(&pads);
                        if let fp::Element::Pad(ref mut p) = md.elements[j] {
                            lib("Pad::rename_net", || p.rename_net(&old, &new))
                        }
                        apply(&mut mv.gm("elements").lm()[j], &|s| if s == old { new.clone() } else { s.to_string() });
                        event("op:pad")
                    } else {
                        lib("Module::rename_net", || md.rename_net(&old, &new));
                        apply(mv, &|s| if s == old { new.clone() } else { s.to_string() });
                        event("op:module")
                    }
                }
            }
        }
        log.push_str(&op);
        log.push('\n');
        c.eval();
        let got = obs::board(b);
        if let Some(x) = diff(&m, &got, 0.0) {
            c.attach("operations", log);
            return bad(format!("after {}: {}", op, x));
        }
        c.seen(got.hash() ^ V::from(op.as_str()).hash());
        c.sample(op)
    }
    Ok(())
}

// ---------------------------------------------------------------- moves

fn shift(v: &mut V, fields: &[&str], dx: f64, dy: f64) {
    for f in fields {
        let p = v.gm(f);
        if p.kind() == "at" || p.kind() == "xy" {
            let (x, y) = (p.fnum("x") + dx, p.fnum("y") + dy);
            p.set("x", x);
            p.set("y", y)
        } else {
            for q in p.lm() {
                let (x, y) = (q.fnum("x") + dx, q.fnum("y") + dy);
                q.set("x", x);
                q.set("y", y)
            }
        }
    }
}

/// the reference: what moving an element means
pub fn moved(v: &mut V, dx: f64, dy: f64) {
    match v.kind() {
        "board" => for e in v.gm("elements").lm() {
            moved(e, dx, dy)
        },
        "module" => for e in v.gm("elements").lm() {
            if e.kind() == "at" {
                let (x, y) = (e.fnum("x") + dx, e.fnum("y") + dy);
                e.set("x", x);
                e.set("y", y)
            }
        },
        "gr_text" | "via" => shift(v, &["at"], dx, dy),
        "gr_line" | "gr_arc" | "segment" => shift(v, &["start", "end"], dx, dy),
        "gr_circle" => shift(v, &["center", "end"], dx, dy),
        "dimension" => {
            moved(v.gm("text"), dx, dy);
            shift(v, &["feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"], dx, dy)
        }
        "zone" => {
            for f in &["polygons", "filled_polygons"] {
                for p in v.gm(f).lm() {
                    for q in p.lm() {
                        let (x, y) = (q.fnum("x") + dx, q.fnum("y") + dy);
                        q.set("x", x);
                        q.set("y", y)
                    }
                }
            }
            if !v.g("fill_segments").is_nil() {
                shift(v, &["fill_segments"], dx, dy)
            }
        }
        _ => (),
    }
}

fn count_moved(e: &V) {
    match e.kind() {
        "net" | "net_class" | "other" => event(&format!("kept:{}", e.kind())),
        k => event(&format!("moved:{}", k)),
    }
    if e.kind() == "zone" {
        if !e.g("polygons").l().is_empty() {
            event("moved:zone outline")
        }
        if !e.g("filled_polygons").l().is_empty() {
            event("moved:zone fill")
        }
        if !e.g("fill_segments").is_nil() {
            event("moved:zone fill segments")
        }
    }
}

fn displacement(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => *r.pick(&[100.0, -100.0, 25.4, 0.1, -0.0, 1e-6, 360.0, 1.0, -1.0]),
        2 => gen::num(r),
        _ => gen::pos(r),
    }
}

fn move_case(c: &mut Ctx) -> Res {
    if c.rng.pct(15) {
        return move_module(c);
    }
    let mut v = any_doc(c, "board")?;
    let mut d = made(c, &mut v)?;
    if c.rng.pct(30) {
        coincide(&mut c.rng, d.board())
    }
    let mut m = d.obs();
    let start = m.clone();
    let b = d.board();
    let mut log = vec![];
    let steps = 1 + c.rng.below(4);
    let whole = c.rng.pct(70);
    for _ in 0..steps {
        let r = &mut c.rng;
        let (dx, dy) = (displacement(r), displacement(r));
        let op;
        if whole || b.elements.is_empty() {
            op = format!("board by ({:?}, {:?})", dx, dy);
            lib("Layout::adjust", || b.adjust(dx, dy));
            moved(&mut m, dx, dy);
            for e in m.g("elements").l() {
                count_moved(e);
                c.distinct.insert(e.hash());
            }
            event("op:board")
        } else {
            let i = r.below(b.elements.len());
            op = format!("element {} by ({:?}, {:?})", i, dx, dy);
            lib("Element::adjust", || b.elements[i].adjust(dx, dy));
            let e = &mut m.gm("elements").lm()[i];
            moved(e, dx, dy);
            count_moved(e);
            c.distinct.insert(e.hash());
            event("op:element")
        }
        log.push((dx, dy));
        c.eval();
        let got = obs::board(b);
        if let Some(x) = diff(&m, &got, 1e-12) {
            c.attach("moves", format!("{:?}", log));
            return bad(format!("after moving {}: {}", op, x));
        }
        c.sample(op)
    }
    if whole && log.iter().all(|x| x.0.abs() < 1e6 && x.1.abs() < 1e6) {
        for &(dx, dy) in log.iter().rev() {
            lib("Layout::adjust", || b.adjust(-dx, -dy))
        }
        c.eval();
        if let Some(x) = diff(&start, &obs::board(b), 1e-7) {
            c.attach("moves", format!("{:?}", log));
            return bad(format!("after moving by {:?} and back: {}", log, x));
        }
        event("moved back")
    }
    Ok(())
}

/// give items two ends that are the same point in every respect
fn coincide(r: &mut Rng, b: &mut lo::Layout) {
    for e in &mut b.elements {
        if !r.pct(40) {
            continue;
        }
        match *e {
            lo::Element::Segment(ref mut x) => x.end = x.start.clone(),
            lo::Element::GrLine(ref mut x) => x.end = x.start.clone(),
            lo::Element::GrArc(ref mut x) => x.end = x.start.clone(),
            lo::Element::Module(ref mut m) => coincide_module(r, m),
            _ => continue,
        }
        event("coinciding ends")
    }
}

fn coincide_module(r: &mut Rng, m: &mut fp::Module) {
    for e in &mut m.elements {
        if !r.pct(40) {
            continue;
        }
        match *e {
            fp::Element::FpLine(ref mut x) => x.end = x.start.clone(),
            fp::Element::FpArc(ref mut x) => x.end = x.start.clone(),
            fp::Element::FpCircle(ref mut x) => x.end = x.center.clone(),
            _ => (),
        }
    }
}

fn move_module(c: &mut Ctx) -> Res {
    let mut v = any_doc(c, "module")?;
    let mut d = made(c, &mut v)?;
    if c.rng.pct(30) {
        coincide_module(&mut c.rng, d.module())
    }
    let mut m = d.obs();
    let start = m.clone();
    let md = d.module();
    let r = &mut c.rng;
    let (dx, dy) = (displacement(r), displacement(r));
    if r.bool() {
        lib("Module::adjust", || md.adjust(dx, dy));
        event("op:module")
    } else {
        lib("Module::adjust_at", || md.adjust_at(dx, dy));
        event("op:module position")
    }
    moved(&mut m, dx, dy);
    c.eval();
    c.seen(m.hash());
    if let Some(x) = diff(&m, &obs::module(md), 1e-12) {
        return bad(format!("after moving the footprint by ({:?}, {:?}): {}", dx, dy, x));
    }
    if dx.abs() < 1e6 && dy.abs() < 1e6 {
        lib("Module::adjust", || md.adjust(-dx, -dy));
        if let Some(x) = diff(&start, &obs::module(md), 1e-7) {
            return bad(format!("after moving the footprint by ({:?}, {:?}) and back: {}", dx, dy, x));
        }
    }
    // the point types themselves
    let r = &mut c.rng;
    let p: Vec<(f64, f64)> = (0..r.below(6)).map(|_| (gen::num(r), gen::num(r))).collect();
    let mut pts = fp::Pts { elements: p.iter().map(|q| fp::Xy { x: q.0, y: q.1, t: fp::XyType::Xy }).collect() };
    lib("Pts::adjust", || pts.adjust(dx, dy));
    c.eval();
    let exp = V::L(p.iter().map(|q| crate::r!("xy"; x: q.0 + dx, y: q.1 + dy)).collect());
    near("points after a move", &exp, &obs::pts(&pts))
}

// ---------------------------------------------------------------- access

const POOL: &[&str] = &["R1", "R2", "R10", "U1", "U11", "REF**", "r1", "", "R", "%R", "é2"];

fn module_pool(r: &mut Rng) -> V {
    let mut m = gen::module(r);
    let e = m.gm("elements").lm();
    for _ in 0..r.below(3) {
        let name = *r.pick(&["reference", "value", "user", "reference", "other"]);
        let t = gen::fp_text(r, name);
        let at = r.below(e.len() + 1);
        e.insert(at, t)
    }
    for _ in 0..r.below(2) {
        let at = r.below(e.len() + 1);
        let x = match r.below(5) {
            0 => crate::r!("attr"; v: *r.pick(&["smd", "virtual", "SMD", "smd2"])),
            1 => crate::r!("layer"; v: *r.pick(&["F.Cu", "B.Cu"])),
            2 => gen::at(r),
            3 => crate::r!("tedit"; v: gen::stamp(r)),
            _ => crate::r!("tstamp"; v: gen::stamp(r)),
        };
        e.insert(at, x)
    }
    for t in e.iter_mut() {
        if t.kind() == "fp_text" && r.pct(85) {
            t.set("value", *r.pick(POOL))
        }
    }
    m
}

fn first<'a>(m: &'a V, kind: &str) -> Option<&'a V> {
    m.g("elements").l().iter().find(|e| e.kind() == kind)
}

fn text_at(m: &V, name: &str) -> Option<usize> {
    m.g("elements").l().iter().position(|e| e.kind() == "fp_text" && e.fs("name") == name)
}

fn has_reference(m: &V, s: &str) -> bool {
    m.kind() == "module" && m.g("elements").l().iter().any(|e| e.kind() == "fp_text" && e.fs("name") == "reference" && e.fs("value") == s)
}

fn access_case(c: &mut Ctx) -> Res {
    ord(c)?;
    match c.rng.below(3) {
        0 => access_module(c),
        1 => built(c),
        _ => access_board(c),
    }
}

fn num_of(d: &str) -> i64 {
    d.parse().unwrap_or(0)
}

fn ord(c: &mut Ctx) -> Res {
    let mut keys: Vec<((char, i64), String)> = vec![];
    for _ in 0..4 {
        let r = &mut c.rng;
        let head = *r.pick(&["R", "U", "C", "IC", "é", "r", "#PWR", "TP", "RV"]);
        let n = r.below(6);
        let digits: String = match r.below(5) {
            0 => String::new(),
            1 => format!("{:018}", r.below(1000)),
            2 => format!("{}", r.next() % 1_000_000_000_000_000_000),
            _ => format!("{}", n * 9),
        };
        let tail = *r.pick(&["", "", "?", "A", "_x"]);
        let mut s = format!("{}{}{}", head, digits, tail);
        if r.pct(25) {
            s.push_str(&format!(",{}{}", r.pick(&["R", "U"]), r.below(100)));
            event("ord:list")
        }
        let k = lib("reference_ord", || k::reference_ord(&s));
        let exp = (head.chars().next().unwrap(), num_of(&digits));
        c.eval();
        if k != exp {
            return bad(format!("order key of {:?}: expected {:?}, observed {:?}", s, exp, k));
        }
        c.distinct.insert(V::from(s.as_str()).hash());
        for q in &keys {
            event(if q.0 == k { "ord:same" } else { "ord:smaller" })
        }
        keys.push((k, s))
    }
    Ok(())
}

/// everything that can be asked of a footprint
fn queries(c: &mut Ctx, md: &mut fp::Module, m: &V) -> Res {
    c.eval();
    let e = m.g("elements").l();
    let opt_text = |t: Option<&fp::FpText>| t.map(obs::fp_text).unwrap_or(V::Nil);
    for name in &["reference", "value", "user", "other", "reference2"] {
        let name: &'static str = name;
        let exp = text_at(m, name).map(|i| e[i].clone()).unwrap_or(V::Nil);
        event(if exp.is_nil() { "fp:text missing" } else { "fp:text found" });
        same(&format!("text {:?}", name), &exp, &opt_text(lib("get_text", || md.get_text(name))))?;
        same(&format!("mutable text {:?}", name), &exp, &opt_text(lib("get_text_mut", || md.get_text_mut(name)).map(|x| &*x)))?;
        match name {
            "reference" => {
                same("reference text", &exp, &opt_text(lib("get_reference_text", || md.get_reference_text())))?;
                same("reference text", &exp, &opt_text(lib("get_reference_text_mut", || md.get_reference_text_mut()).map(|x| &*x)))?
            }
            "value" => {
                same("value text", &exp, &opt_text(lib("get_value_text", || md.get_value_text())))?;
                same("value text", &exp, &opt_text(lib("get_value_text_mut", || md.get_value_text_mut()).map(|x| &*x)))?
            }
            "user" => {
                same("second reference text", &exp, &opt_text(lib("get_reference2_text", || md.get_reference2_text())))?;
                same("second reference text", &exp, &opt_text(lib("get_reference2_text_mut", || md.get_reference2_text_mut()).map(|x| &*x)))?
            }
            _ => (),
        }
    }
    let exp = V::from(text_at(m, "reference").map(|i| e[i].fs("value").to_string()));
    same("reference", &exp, &V::from(lib("get_reference", || md.get_reference().cloned())))?;
    let s = *c.rng.pick(POOL);
    same(&format!("has reference {:?}", s), &V::B(has_reference(m, s)), &V::B(lib("is_reference_with_name", || md.is_reference_with_name(s))))?;
    let smd = e.iter().any(|x| x.kind() == "attr" && x.fs("v") == "smd");
    event(if smd { "fp:smd" } else { "fp:not smd" });
    same("smd attribute", &V::B(smd), &V::B(lib("has_smd_attr", || md.has_smd_attr())))?;
    let stamp = |k: &str| first(m, k).map(|x| x.fi("v"));
    if stamp("tstamp").is_some() {
        event("fp:tstamp")
    }
    if stamp("tedit").is_some() {
        event("fp:tedit")
    }
    same("time stamp", &V::from(stamp("tstamp")), &V::from(lib("get_tstamp", || md.get_tstamp())))?;
    same("edit stamp", &V::from(stamp("tedit")), &V::from(lib("get_tedit", || md.get_tedit())))?;
    let (x, y, rot) = match first(m, "at") {
        Some(a) => {
            event("fp:position");
            (a.fnum("x"), a.fnum("y"), a.fnum("rot"))
        }
        None => {
            event("fp:no position");
            (0.0, 0.0, 0.0)
        }
    };
    let p = lib("Module::at", || md.at());
    same("position", &V::L(vec![V::N(x), V::N(y), V::N(rot)]), &V::L(vec![V::N(p.0), V::N(p.1), V::N(lib("get_rotation", || md.get_rotation()))]))?;
    let front = match first(m, "layer") {
        Some(l) => l.fs("v").starts_with("F."),
        None => true,
    };
    if first(m, "layer").map(|l| l.fs("v").starts_with("F.") || l.fs("v").starts_with("B.")).unwrap_or(true) {
        event(if front { "fp:front" } else { "fp:back" });
        same("front side", &V::B(front), &V::B(lib("is_front", || md.is_front())))?
    }
    let pick = |k: &str| V::L(e.iter().filter(|x| x.kind() == k).cloned().collect());
    same("pads", &pick("pad"), &V::L(lib("pads", || md.pads()).into_iter().map(obs::pad).collect()))?;
    let lines = lib("lines", || md.lines()).into_iter().map(|l| obs::fp_element(&fp::Element::FpLine(l.clone()))).collect();
    same("lines", &pick("fp_line"), &V::L(lines))?;
    if !pick("pad").l().is_empty() {
        event("fp:pads")
    }
    if !pick("fp_line").l().is_empty() {
        event("fp:lines")
    }
    same("model after looking things up", m, &obs::module(md))
}

fn access_module(c: &mut Ctx) -> Res {
    let mut v = module_pool(&mut c.rng);
    let mut d = made(c, &mut v)?;
    let mut m = d.obs();
    let md = d.module();
    queries(c, md, &m)?;
    for _ in 0..1 + c.rng.below(4) {
        let op = edit_step(c, md, &mut m)?;
        c.eval();
        c.seen(m.hash() ^ V::from(op.as_str()).hash());
        same(&format!("after {}", op), &m, &obs::module(md))?;
        queries(c, md, &m)?;
        c.sample(op)
    }
    Ok(())
}

fn edit_step(c: &mut Ctx, md: &mut fp::Module, m: &mut V) -> Result<String, Fail> {
    let r = &mut c.rng;
    let op;
    match r.below(6) {
        0 | 1 => {
            let (old, new) = (*r.pick(POOL), *r.pick(POOL));
            op = format!("set_reference({:?}, {:?})", old, new);
            event(if has_reference(m, old) { "fp:set reference" } else { "fp:no such reference" });
            lib("set_reference", || md.set_reference(old, new));
            for e in m.gm("elements").lm() {
                if e.kind() == "fp_text" && e.fs("name") == "reference" && e.fs("value") == old {
                    e.set("value", new)
                }
            }
        }
        2 => {
            let name: &'static str = *r.pick(&["reference", "value", "user"]);
            let s = gen::sstr(r);
            op = format!("text {:?} = {:?}", name, s);
            let t = match name {
                "reference" => lib("get_reference_text_mut", || md.get_reference_text_mut()),
                "value" => lib("get_value_text_mut", || md.get_value_text_mut()),
                _ => lib("get_reference2_text_mut", || md.get_reference2_text_mut()),
            };
            if let Some(t) = t {
                t.value = s.clone();
                event("fp:text edited")
            }
            if let Some(i) = text_at(m, name) {
                m.gm("elements").lm()[i].set("value", s)
            }
        }
        3 => {
            op = "append".to_string();
            let s = gen::sstr(r);
            let e = match r.below(3) {
                0 => fp::Element::Descr(s),
                1 => fp::Element::TEdit(gen::stamp(r)),
                _ => fp::Element::At(fp::At::new(gen::pos(r), gen::pos(r), gen::angle(r))),
            };
            m.gm("elements").lm().push(obs::fp_element(&e));
            lib("append", || md.append(e));
            event("fp:append")
        }
        _ => {
            let pads: Vec<usize> = (0..md.elements.len()).filter(|&i| matches!(md.elements[i], fp::Element::Pad(_))).collect();
            if pads.is_empty() {
                return Ok("nothing".to_string());
            }
            let i = *r.pick(&pads);
            let v = &mut m.gm("elements").lm()[i];
            if let fp::Element::Pad(ref mut p) = md.elements[i] {
                if r.bool() {
                    let (n, s) = (gen::int(r), gen::sstr(r));
                    op = format!("set_net({}, {:?})", n, s);
                    lib("Pad::set_net", || p.set_net(fp::Net { num: n, name: s.clone().into() }));
                    v.set("net", crate::r!("net"; num: n, name: s))
                } else {
                    let dr = fp::Drill { shape: None, width: gen::size(r), height: gen::size(r), offset_x: gen::pos(r), offset_y: gen::pos(r) };
                    op = format!("set_drill({:?})", dr);
                    v.set("drill", obs::drill(&dr));
                    lib("Pad::set_drill", || p.set_drill(dr))
                }
                event("pad:set")
            } else {
                op = String::new()
            }
        }
    }
    Ok(op)
}

/// a footprint made with the constructors
fn built(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let name = gen::sstr(r);
    let mut md = lib("Module::new", || fp::Module::new(name.clone()));
    let mut m = crate::r!("module"; name: name, elements: V::L(vec![]));
    for _ in 0..1 + r.below(5) {
        let e;
        if r.bool() {
            let (n, s) = (*r.pick(&["reference", "value", "user"]), r.pick(POOL).to_string());
            let mut eff = fp::Effects::default();
            eff.font.size.x = gen::size(r);
            let mut t = lib("FpText::new", || fp::FpText::new(n.to_string(), s.clone()));
            lib("FpText::set_effects", || t.set_effects(&eff));
            let l = fp::Layer::default();
            lib("FpText::set_layer", || t.set_layer(&l));
            let got = obs::fp_text(&t);
            let want = crate::r!("fp_text"; name: n, value: s, at: crate::r!("at"; x: 0.0, y: 0.0, rot: 0.0), layer: obs::layer(&l), hide: false, effects: obs::effects(&eff));
            same("constructed text", &want, &got)?;
            e = fp::Element::FpText(t)
        } else {
            let (x, y, rot) = (gen::pos(r), gen::pos(r), gen::angle(r));
            let a = lib("At::new", || fp::At::new(x, y, rot));
            same("constructed position", &crate::r!("at"; x: x, y: y, rot: rot), &obs::at(&a))?;
            e = fp::Element::At(a)
        }
        m.gm("elements").lm().push(obs::fp_element(&e));
        lib("append", || md.append(e))
    }
    event("fp:built");
    c.eval();
    c.seen(m.hash());
    same("built footprint", &m, &obs::module(&md))?;
    queries(c, &mut md, &m)
}

fn access_board(c: &mut Ctx) -> Res {
    let r = &mut c.rng;
    let n = r.below(12);
    let e: Vec<V> = (0..n)
        .map(|_| match r.below(6) {
            0 => gen::net(r),
            1 => gen::net_class(r),
            2 | 3 => module_pool(r),
            _ => gen::board_element(r),
        })
        .collect();
    let mut v = gen::board_with(r, e);
    let pool = pool_names(r, &mut v);
    // setup names that repeat
    for s in v.gm("setup").lm() {
        if r.pct(50) {
            s.set("name", *r.pick(&["via_size", "via_siz", "via_size2", "zone"]))
        }
    }
    // net classes that differ in one value only
    let classes: Vec<V> = v.g("elements").l().iter().filter(|e| e.kind() == "net_class").cloned().collect();
    if !classes.is_empty() {
        let mut x = r.pick(&classes).clone();
        match r.below(12) {
            0 => x.set("name", "other name"),
            1 => x.set("desc", "other description"),
            2 => x.set("clearance", 7.25),
            3 => x.set("trace_width", 7.25),
            4 => x.set("via_dia", 7.25),
            5 => x.set("via_drill", 7.25),
            6 => x.set("uvia_dia", 7.25),
            7 => x.set("uvia_drill", 7.25),
            8 => x.set("diff_pair_gap", 7.25),
            9 => x.set("diff_pair_width", 7.25),
            _ => (),
        }
        if r.bool() {
            x.gm("nets").lm().push(V::from("one more"))
        }
        v.gm("elements").lm().push(x)
    }
    let mut d = made(c, &mut v)?;
    let mut m = d.obs();
    let b = d.board();
    board_queries(c, b, &m, &pool)?;
    for _ in 0..1 + c.rng.below(4) {
        let op = board_step(c, b, &mut m)?;
        c.eval();
        c.seen(m.hash() ^ V::from(op.as_str()).hash());
        same(&format!("after {}", op), &m, &obs::board(b))?;
        board_queries(c, b, &m, &pool)?;
        c.sample(op)
    }
    Ok(())
}

fn board_queries(c: &mut Ctx, b: &mut lo::Layout, m: &V, pool: &[String]) -> Res {
    c.eval();
    let e = m.g("elements").l();
    let pick = |k: &str| V::L(e.iter().filter(|x| x.kind() == k).cloned().collect());
    same("nets", &pick("net"), &V::L(lib("nets", || b.nets()).into_iter().map(obs::net).collect()))?;
    same("net classes", &pick("net_class"), &V::L(lib("netclasses", || b.netclasses()).into_iter().map(obs::net_class).collect()))?;
    same("modules", &pick("module"), &V::L(lib("get_modules", || b.get_modules()).into_iter().map(obs::module).collect()))?;
    if !pick("net").l().is_empty() {
        event("list:nets")
    }
    if !pick("net_class").l().is_empty() {
        event("list:netclasses")
    }
    if !pick("module").l().is_empty() {
        event("list:modules")
    }
    for _ in 0..3 {
        let s = *c.rng.pick(POOL);
        let all: Vec<&V> = e.iter().filter(|x| has_reference(x, s)).collect();
        let exp = all.first().map(|x| (*x).clone()).unwrap_or(V::Nil);
        event(match all.len() {
            0 => "missing:module",
            1 => "found:module",
            _ => "several:module",
        });
        let got = lib("get_module", || b.get_module(s)).map(obs::module).unwrap_or(V::Nil);
        same(&format!("module {:?}", s), &exp, &got)?
    }
    // setup values
    let mut names: Vec<String> = vec!["via_size".to_string(), "via_siz".to_string(), "absent".to_string(), "".to_string()];
    names.extend(m.g("setup").l().iter().map(|x| x.fs("name").to_string()));
    let s = c.rng.pick(&names).clone();
    let exp = m.g("setup").l().iter().find(|x| x.fs("name") == s).map(|x| x.fs("v1").to_string());
    event(if exp.is_some() { "setup:found" } else { "setup:missing" });
    same(&format!("setup value {:?}", s), &V::from(exp), &V::from(lib("Setup::get", || b.setup.get(&s).cloned())))?;
    // net classes
    let nc: Vec<lo::NetClass> = b.netclasses().into_iter().cloned().collect();
    for x in &nc {
        let xv = obs::net_class(x);
        let mut names: Vec<String> = pool.to_vec();
        names.extend(xv.g("nets").l().iter().map(|n| n.s().to_string()));
        names.push(String::new());
        let s = c.rng.pick(&names).clone();
        let exp = xv.g("nets").l().iter().any(|n| n.s() == s);
        event(if exp { "netclass:has" } else { "netclass:has not" });
        let ls = leak(&s);
        same(&format!("net class has {:?}", s), &V::B(exp), &V::B(lib("has_net", || x.has_net(ls))))?;
        for y in &nc {
            let mut yv = obs::net_class(y);
            let mut xv = xv.clone();
            xv.set("nets", V::L(vec![]));
            yv.set("nets", V::L(vec![]));
            let exp = diff(&xv, &yv, 0.0).is_none();
            event(if exp { "netclass:same" } else { "netclass:differs" });
            same("net classes equal but for their nets", &V::B(exp), &V::B(lib("equal_no_net", || x.equal_no_net(y))))?
        }
    }
    same("board after looking things up", m, &obs::board(b))
}

fn board_step(c: &mut Ctx, b: &mut lo::Layout, m: &mut V) -> Result<String, Fail> {
    let r = &mut c.rng;
    let op;
    match r.below(5) {
        0 | 1 => {
            let (s, new) = (*r.pick(POOL), *r.pick(POOL));
            let x = gen::pos(r);
            op = format!("modify_module({:?})", s);
            let calls = RefCell::new(0);
            let res = lib("modify_module", || {
                b.modify_module(s, |md| {
                    *calls.borrow_mut() += 1;
                    md.set_reference(s, new);
                    md.adjust_at(x, 1.0);
                    md.name.push('!')
                })
            });
            let found = m.gm("elements").lm().iter_mut().find(|e| has_reference(e, s));
            event(if found.is_some() { "modify:module" } else { "modify missing" });
            if res.is_ok() != found.is_some() {
                return bad(format!("modifying module {:?} reports {}", s, if res.is_ok() { "success though there is none" } else { "an error though there is one" }));
            }
            if *calls.borrow() != found.is_some() as i64 {
                return bad(format!("modifying module {:?} calls the function {} times", s, calls.borrow()));
            }
            if let Some(e) = found {
                for t in e.gm("elements").lm() {
                    if t.kind() == "fp_text" && t.fs("name") == "reference" && t.fs("value") == s {
                        t.set("value", new)
                    }
                }
                moved(e, x, 1.0);
                let n = format!("{}!", e.fs("name"));
                e.set("name", n)
            }
        }
        2 => {
            let (num, name) = (gen::int(r), leak(&gen::sstr(r)));
            op = format!("add_net({}, {:?})", num, name);
            lib("add_net", || b.add_net(num, name));
            m.gm("elements").lm().push(crate::r!("net"; num: num, name: name));
            event("add:net")
        }
        3 => {
            let (name, desc) = (leak(&gen::sstr(r)), leak(&gen::sstr(r)));
            let f: Vec<f64> = (0..8).map(|_| gen::num(r)).collect();
            let gap = if r.bool() { Some(f[6]) } else { None };
            let width = if r.bool() { Some(f[7]) } else { None };
            let nets: Vec<String> = (0..r.below(4)).map(|_| net_name(r)).collect();
            op = format!("add_netclass({:?}, {:?}, {:?})", name, desc, f);
            lib("add_netclass", || b.add_netclass(name, desc, f[0], f[1], f[2], f[3], f[4], f[5], gap, width, nets.clone()));
            m.gm("elements").lm().push(crate::r!("net_class"; name: name, desc: desc, clearance: f[0], trace_width: f[1], via_dia: f[2], via_drill: f[3],
                uvia_dia: f[4], uvia_drill: f[5], diff_pair_gap: gap, diff_pair_width: width, nets: nets));
            event("add:netclass")
        }
        _ => {
            let mut names: Vec<String> = vec!["via_size".to_string(), "via_siz".to_string(), "fresh".to_string()];
            names.extend(m.g("setup").l().iter().map(|x| x.fs("name").to_string()));
            let name = leak(r.pick(&names));
            let value = gen::sstr(r);
            op = format!("update setup {:?} to {:?}", name, value);
            lib("update_element", || b.setup.update_element(name, value.clone()));
            let l = m.gm("setup").lm();
            let i = l.iter().position(|x| x.fs("name") == name);
            event(if i.is_some() { "setup:update" } else { "setup:add" });
            match i {
                Some(i) => l[i].set("v1", value),
                None => l.push(crate::r!("se"; name: name, v1: value, v2: V::Nil)),
            }
        }
    }
    Ok(op)
}
