//! C13 and C14: uninterpreted content and formatting.

use super::*;
use crate::core::event;
use crate::sx;
use k::Adjust;

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "C13", cases: (200_000, 4_000_000), run: pass_case,
        required: &["kept:board expression", "kept:zone part", "kept:schematic line", "kept:drawing line", "edit:move board", "edit:rename net", "edit:module",
            "edit:setup", "edit:add net", "edit:component", "edit:field", "edit:symbol name", "edit:drop neighbour"],
        rule: "distinct uninterpreted items (hash of the item and of its position) compared in the model, after edits and in the written text",
        assumptions: &["expressions nested up to 70 levels; strings are those the format can carry"],
    },
    &Prop {
        id: "C14", cases: (200_000, 4_000_000), run: indent_case,
        required: &["doc:module", "doc:board", "doc:table", "indent:large", "indent:small", "wrapped points"],
        rule: "distinct (model, indentation level) pairs whose tokens were compared with those of the unindented text and with the model",
        assumptions: &["indentation levels from 0 to 2000"],
    },
];

/// the elements in order: uninterpreted ones in full, the others by kind; items that edits add are left out
fn skeleton(v: &V) -> V {
    let list = |l: &Vec<V>, drop: &[&str]| {
        V::L(
            l.iter()
                .filter(|e| !drop.contains(&e.kind()))
                .map(|e| match e.kind() {
                    "other" => e.clone(),
                    "zone" => crate::r!("zone"; other: e.g("other").clone()),
                    k => V::from(k),
                })
                .collect(),
        )
    };
    match v.kind() {
        "board" => list(v.g("elements").l(), &["net", "net_class"]),
        "sch" => list(v.g("elements").l(), &[]),
        "lib" => V::L(v.g("symbols").l().iter().map(|s| list(s.g("draw").l(), &[])).collect()),
        _ => V::Nil,
    }
}

fn with_others(c: &mut Ctx, kind: &str) -> V {
    let r = &mut c.rng;
    let mut v = gen_doc(r, kind);
    let n = 1 + r.below(6);
    match kind {
        "board" => {
            let e = v.gm("elements").lm();
            if r.pct(50) {
                e.push(gen::zone(r))
            }
            for _ in 0..n {
                let at = r.below(e.len() + 1);
                let x = gen::board_other(r);
                e.insert(at, x)
            }
            for z in e.iter_mut() {
                if z.kind() == "zone" && r.pct(60) {
                    let x = gen::foreign(r, gen::KNOWN_ZONE);
                    z.gm("other").lm().push(x)
                }
            }
        }
        "sch" => {
            let e = v.gm("elements").lm();
            for _ in 0..n {
                let at = r.below(e.len() + 1);
                let x = gen::sch_other(r);
                e.insert(at, x)
            }
        }
        _ => for s in v.gm("symbols").lm() {
            let e = s.gm("draw").lm();
            for _ in 0..n {
                let at = r.below(e.len() + 1);
                let x = gen::draw_other(r);
                e.insert(at, x)
            }
        },
    }
    v
}

/// an edit of anything but the uninterpreted items
fn edit_rest(c: &mut Ctx, d: &mut Doc, skel: &mut V) {
    let r = &mut c.rng;
    match *d {
        Doc::Board(ref mut b) => match r.below(7) {
            0 => {
                let (x, y) = (gen::pos(r), gen::pos(r));
                lib("move board", || b.adjust(x, y));
                event("edit:move board")
            }
            1 => {
                let names: Vec<String> = b.nets().iter().map(|n| n.name.0.clone()).collect();
                let a = if names.is_empty() || r.pct(30) { gen::sstr(r) } else { r.pick(&names).clone() };
                let z = gen::sstr(r);
                lib("change net name", || b.change_net_name(&a, &z));
                event("edit:rename net")
            }
            2 => {
                let z = gen::sstr(r);
                let _ = lib("update net names", || {
                    b.update_net_names(|n| {
                        let x = format!("{}{}", z, n.0);
                        if sx::can_quote(&x) {
                            n.0 = x
                        }
                        Ok(())
                    })
                });
                event("edit:rename net")
            }
            3 => {
                let refs: Vec<String> = b.get_modules().iter().filter_map(|m| m.get_reference()).cloned().collect();
                if !refs.is_empty() {
                    let a = r.pick(&refs).clone();
                    let z = gen::sstr(r);
                    let _ = lib("modify module", || {
                        b.modify_module(&a, |m| {
                            m.set_reference(&a, &z);
                            fp::Flip::flip(m);
                            m.adjust(1.0, 0.0)
                        })
                    });
                    event("edit:module")
                }
            }
            4 => {
                let (n, v) = (leak(&gen::sword(r)), gen::sstr(r));
                if n != "pcbplotparams" {
                    lib("update setup", || b.setup.update_element(n, v));
                    event("edit:setup")
                }
            }
            5 => {
                let n = leak(&gen::sword(r));
                lib("add net", || b.add_net(7, n));
                lib("add net class", || b.add_netclass(n, "", 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, None, Some(1.0), vec![n.to_string()]));
                event("edit:add net")
            }
            _ => {
                // drop a neighbour
                let can: Vec<usize> = (0..b.elements.len()).filter(|&i| !matches!(b.elements[i], lo::Element::Other(_) | lo::Element::Zone(_))).collect();
                if !can.is_empty() {
                    b.elements.remove(*r.pick(&can));
                    *skel = skeleton(&obs::board(b));
                    event("edit:drop neighbour")
                }
            }
        },
        Doc::Sch(ref mut s) => match r.below(5) {
            0 => {
                let refs: Vec<String> = s.components().iter().map(|c| c.reference.clone()).collect();
                if !refs.is_empty() {
                    let a = r.pick(&refs).clone();
                    let z = gen::lword(r);
                    lib("modify component", || {
                        s.modify_component(&a, |c: &mut sch::Component| {
                            c.update_reference(z.clone());
                            c.update_name(z.clone())
                        })
                    });
                    event("edit:component")
                }
            }
            1 => {
                let z = gen::lstr(r);
                lib("modify components", || {
                    s.modify_components(|c: &mut sch::Component| {
                        if let Some(t) = c.fields.iter().find(|f| f.i > 3).cloned() {
                            c.update_field(&t.name, &z);
                        }
                        c.x = 5
                    })
                });
                event("edit:field")
            }
            2 => if s.description.sheet_count < 1_000_000_000 {
                lib("increment sheet count", || s.increment_sheet_count())
            },
            3 => s.sheets.clear(),
            _ => {
                let can: Vec<usize> = (0..s.elements.len()).filter(|&i| !matches!(s.elements[i], sch::Element::Other(_))).collect();
                if !can.is_empty() {
                    s.elements.remove(*r.pick(&can));
                    *skel = skeleton(&obs::schematic(s));
                    event("edit:drop neighbour")
                }
            }
        },
        Doc::Lib(ref mut l) => if !l.symbols.is_empty() {
            let i = r.below(l.symbols.len());
            let s = &mut l.symbols[i];
            match r.below(3) {
                0 => {
                    let z = gen::lword(r);
                    lib("set name", || s.set_name(&z));
                    event("edit:symbol name")
                }
                1 => {
                    let _ = lib("fix symbol", || k::checkfix::CheckFix::fix(s, &k::checkfix::Config::klc()));
                }
                _ => for d in s.draw.iter_mut() {
                    if let sl::Draw::Pin(ref mut p) = *d {
                        p.x = p.x.wrapping_add(1)
                    }
                },
            }
        },
        _ => (),
    }
}

fn pass_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["board", "board", "sch", "lib"]);
    let v = with_others(c, kind);
    let text = text_of(c, &v, true)?;
    c.attach("input", text.clone());
    let mut d = match Doc::parse(kind, &text) {
        Ok(d) => d,
        Err(e) => return bad(format!("a file with uninterpreted content is rejected: {}", e)),
    };
    let mut skel = skeleton(&v);
    same("uninterpreted content is not kept:", &skel, &skeleton(&d.obs()))?;
    c.eval();
    let n = c.rng.below(6);
    for _ in 0..n {
        edit_rest(c, &mut d, &mut skel);
        same("uninterpreted content after an edit:", &skel, &skeleton(&d.obs()))?;
        c.eval()
    }
    let out = match d.write() {
        Ok(t) => t,
        Err(e) => return bad(format!("the model cannot be written: {}", e)),
    };
    c.attach("written", out.clone());
    let w = match read::document(kind, &out) {
        Ok(w) => w,
        Err(e) => return bad(format!("the written text is not well-formed: {}", e)),
    };
    same("uninterpreted content in the written text:", &skel, &skeleton(&w))?;
    c.eval();
    // lines byte for byte, independent of any reader
    let mut at: Vec<&str> = out.lines().collect();
    let mut need: Vec<String> = vec![];
    collect(&skel, &mut need);
    let mut seen = 0;
    for (i, l) in need.iter().enumerate() {
        match at.iter().position(|x| x == l) {
            Some(p) => {
                at = at[p + 1..].to_vec();
                seen += 1
            }
            None => return bad(format!("line {:?} is missing or out of order in the written text", l)),
        }
        c.seen(core::hash_str(&format!("{} {} {}", kind, i, l)))
    }
    core::events(if kind == "sch" { "kept:schematic line" } else { "kept:drawing line" }, seen);
    if kind == "board" {
        for (i, e) in skel.l().iter().enumerate() {
            match e.kind() {
                "other" => event("kept:board expression"),
                "zone" => core::events("kept:zone part", e.g("other").l().len() as u64),
                _ => continue,
            }
            c.seen(e.hash() ^ i as u64)
        }
    }
    if c.index < 40 {
        c.sample(crate::v::brief(&skel))
    }
    Ok(())
}

fn collect(v: &V, o: &mut Vec<String>) {
    match *v {
        V::L(ref l) => for x in l {
            collect(x, o)
        },
        V::R("other", _) => if let V::S(ref s) = *v.g("v") {
            o.push(s.clone())
        },
        _ => (),
    }
}

// ------------------------------------------------------------ C14

fn indent_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["module", "board", "table"]);
    let mut v = any_doc(c, kind)?;
    if kind != "table" && c.rng.pct(30) {
        // long point lists
        let n = c.rng.below(60);
        let p: Vec<V> = (0..n).map(|_| gen::xy(&mut c.rng)).collect();
        let e = if kind == "module" {
            let mut e = gen::fp_poly(&mut c.rng);
            e.set("pts", V::L(p));
            e
        } else {
            let mut e = gen::zone(&mut c.rng);
            e.set("polygons", V::L(vec![V::L(p.clone()), V::L(p.clone())]));
            e.set("filled_polygons", V::L(vec![V::L(p.clone())]));
            e.set("fill_segments", V::L(p));
            e
        };
        v.gm("elements").lm().push(e);
        event("wrapped points")
    }
    let d = parsed(c, &v)?;
    event(&format!("doc:{}", kind));
    let model = d.obs();
    let base = match d.write() {
        Ok(t) => t,
        Err(e) => return bad(format!("the model cannot be written: {}", e)),
    };
    c.attach("at level 0", base.clone());
    let toks = match sx::tokens(&base) {
        Ok(t) => t,
        Err(e) => return bad(format!("the written text is not well-formed: {}", e)),
    };
    match read::document(kind, &base) {
        Ok(w) => same("the text does not carry the model:", &model, &w)?,
        Err(e) => return bad(format!("the written text is not well-formed: {}", e)),
    }
    let mut levels = vec![1, 2, 3];
    levels.push(c.rng.range(4, 40));
    if c.rng.pct(10) {
        levels.push(*c.rng.pick(&[100, 255, 256, 1000, 2000]));
    }
    if c.rng.pct(70) {
        let i = c.rng.below(levels.len());
        levels = vec![0, levels[i]]
    }
    for i in levels {
        event(if i >= 100 { "indent:large" } else { "indent:small" });
        let t = match d.write_at(i) {
            Ok(t) => t,
            Err(e) => return bad(format!("the model cannot be written at level {}: {}", i, e)),
        };
        match sx::tokens(&t) {
            Ok(ref x) if *x == toks => (),
            Ok(x) => {
                let k = x.iter().zip(toks.iter()).position(|(a, b)| a != b).unwrap_or_else(|| x.len().min(toks.len()));
                c.attach(&format!("at level {}", i), t);
                return bad(format!("at level {} token {} is {:?}, at level 0 it is {:?}", i, k, x.get(k), toks.get(k)));
            }
            Err(e) => {
                c.attach(&format!("at level {}", i), t);
                return bad(format!("the text at level {} is not well-formed: {}", i, e));
            }
        }
        match Doc::parse(kind, &t) {
            Ok(x) => same(&format!("the model read back from level {} differs", i), &model, &x.obs())?,
            Err(e) => {
                c.attach(&format!("at level {}", i), t);
                return bad(format!("the text at level {} is rejected: {}", i, e));
            }
        }
        c.eval();
        c.seen(model.hash() ^ (i as u64).wrapping_mul(0x9E3779B97F4A7C15));
        if c.index < 20 {
            c.sample(t)
        }
    }
    Ok(())
}
