//! C35: incomplete items, foreign parts and unknown keywords.

use super::*;
use crate::core::event;
use crate::dict;
use crate::sx::{self, Sx};

pub static PROPS: &[&Prop] = &[&Prop {
    id: "C35", cases: (700_000, 14_000_000), run: strict_case,
    required: &["left out:board", "left out:module", "left out:table", "left out:sch", "left out:lib", "added:board", "added:module", "added:table",
        "added:sch", "added:lib", "keyword:board", "keyword:module", "keyword:table", "keyword:sch", "keyword:lib", "twice:board"],
    rule: "distinct altered texts (hash of the text), each made from a valid file by one alteration, whose parse result was judged",
    assumptions: &["only parts, keywords and places listed in DESIGN.md; names that other versions of the format know are not used as unknown keywords"],
}];

/// parts that an item must have
const MUST: &[(&str, &[&str])] = &[
    ("general", &["links", "no_connects", "area", "thickness", "drawings", "tracks", "zones", "modules", "nets"]),
    ("gr_text", &["at", "layer", "effects"]),
    ("gr_line", &["start", "end", "layer"]),
    ("gr_arc", &["start", "end", "angle", "layer"]),
    ("gr_circle", &["center", "end", "layer"]),
    ("dimension", &["width", "layer", "gr_text", "feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"]),
    ("zone", &["net", "net_name", "layer", "tstamp", "hatch", "connect_pads", "min_thickness", "fill"]),
    ("connect_pads", &["clearance"]),
    ("keepout", &["tracks", "vias", "copperpour"]),
    ("fill", &["arc_segments", "thermal_gap", "thermal_bridge_width"]),
    ("segment", &["start", "end", "width", "layer", "net"]),
    ("via", &["at", "size", "layers"]),
    ("effects", &["font"]),
    ("model", &["at", "scale", "rotate"]),
    ("lib", &["name", "type", "uri", "options", "descr"]),
];

/// items whose parts come in a fixed order
const ORDERED: &[&str] = &["general", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "segment", "via"];

/// items that have only the parts the format gives them
const CLOSED: &[&str] = &[
    "version", "host", "general", "page", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "segment", "via", "hatch",
    "connect_pads", "keepout", "fill", "area", "at", "layer", "effects", "font", "start", "end", "size", "center", "rect_delta", "xyz", "drill", "offset",
    "fp_text", "pad", "fp_poly", "fp_line", "fp_circle", "fp_arc", "model", "module", "layers", "value", "pts",
];

/// items whose named values hold exactly one value
const VALUES: &[&str] = &["general", "gr_text", "gr_line", "gr_arc", "gr_circle", "segment", "via", "dimension", "fill", "keepout", "connect_pads", "font",
    "fp_poly", "fp_line", "fp_circle", "fp_arc", "net_class", "lib", "zone", "model"];

/// what the library interprets on a board
const TOP: &[&str] = &["version", "host", "general", "page", "setup", "module", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension",
    "zone", "segment", "via"];

struct Spot {
    path: Vec<usize>,
    role: &'static str,
    parent: &'static str,
}

fn intern(s: &str) -> &'static str {
    for k in CLOSED.iter().chain(["kicad_pcb", "fp_lib_table", "zone", "lib", "setup", "setup value", "board layer", "justify"].iter()) {
        if *k == s {
            return k;
        }
    }
    ""
}

/// the interpreted expressions of a document
fn walk(x: &Sx, parent: &'static str, role: &'static str, path: &mut Vec<usize>, o: &mut Vec<Spot>) {
    let v = match x.list() {
        Some(v) => v,
        None => return,
    };
    o.push(Spot { path: path.clone(), role: role, parent: parent });
    for (i, y) in v.iter().enumerate() {
        if y.list().is_none() {
            continue;
        }
        let h = y.head();
        let r = match (role, h) {
            ("kicad_pcb", "layers") => "board layers",
            ("board layers", _) => "board layer",
            ("setup", "pcbplotparams") => "setup",
            ("setup", _) => "setup value",
            ("setup value", _) | ("board layer", _) => continue,
            ("kicad_pcb", h) if !TOP.contains(&h) => continue,
            ("model", _) => "value",
            ("dimension", h) if !["gr_text", "layer"].contains(&h) => "value",
            // only named parts of these stand for themselves
            ("module", h) if ["descr", "tags", "attr", "path", "tedit", "tstamp", "solder_mask_margin", "clearance"].contains(&h) => continue,
            ("pad", h) if ["solder_paste_margin", "solder_mask_margin", "clearance", "thermal_gap", "zone_connect"].contains(&h) => continue,
            ("effects", "justify") => "justify",
            ("via", "size") | ("via", "drill") | ("via", "net") | ("segment", "net") | ("zone", "net") => "value",
            (p, h) if VALUES.contains(&p) && intern(h).is_empty() => "value",
            _ => intern(h),
        };
        if r.is_empty() {
            continue;
        }
        path.push(i);
        walk(y, role, r, path, o);
        path.pop();
        if role == "zone" && h == "fill" {
            break;
        }
    }
}

fn at<'a>(x: &'a mut Sx, path: &[usize]) -> &'a mut Vec<Sx> {
    match *x {
        Sx::L(ref mut v) => match path.split_first() {
            None => v,
            Some((&i, rest)) => at(&mut v[i], rest),
        },
        _ => panic!("path into an atom"),
    }
}

const KNOWN: &[&str] = &[
    "signal", "power", "mixed", "jumper", "user", "smd", "thru_hole", "np_thru_hole", "connect", "rect", "circle", "oval", "trapezoid", "roundrect", "custom",
    "left", "right", "top", "bottom", "mirror", "locked", "placed", "hide", "italic", "bold", "yes", "no", "blind", "micro", "portrait",
];

/// a word that the format does not know, close to one it knows
fn unknown(r: &mut Rng, w: &str) -> Sx {
    let s = match r.below(9) {
        0 => format!("{}x", w),
        1 => w.to_uppercase(),
        2 => w.to_lowercase(),
        3 => w.chars().rev().collect(),
        4 => w.chars().skip(1).collect(),
        5 => format!("x{}", w),
        6 => dict::word(r).to_string(),
        7 => (*r.pick(KNOWN)).to_string(),
        _ => "zzz".to_string(),
    };
    if s == w || s.parse::<f64>().is_ok() || i64::from_str_radix(&s, 16).is_ok() {
        return sx::a("zzz");
    }
    if s.is_empty() {
        return sx::q("");
    }
    if !sx::can_quote(&s) || s.chars().any(|c| c.is_control()) {
        return sx::a("zzz");
    }
    if sx::must_quote(&s) { sx::q(s) } else { sx::a(s) }
}

fn foreign(r: &mut Rng) -> Sx {
    match r.below(4) {
        0 => sx::l("zzz", vec![]),
        1 => sx::l("zzz", vec![sx::a("1")]),
        2 => sx::l("zzz", vec![sx::a("1"), sx::l("xy", vec![sx::a("1"), sx::a("2")])]),
        _ => sx::l("zzz", vec![sx::q("a b")]),
    }
}

/// the places of atoms that are keywords
fn keywords(v: &[Sx], s: &Spot) -> Vec<usize> {
    let mut o = vec![];
    for (i, x) in v.iter().enumerate() {
        let w = match x.atom() {
            Some(w) => w,
            None => continue,
        };
        let yes = match s.role {
            "board layer" => i == 2,
            "pad" => i == 2 || i == 3,
            "justify" => i == 1,
            "module" => i >= 2,
            "via" => i >= 1 && (w == "blind" || w == "micro"),
            "fill" => i >= 1,
            "fp_text" => i >= 3,
            "font" => i >= 1,
            "drill" => i == 1 && w == "oval",
            // the name of a part
            "value" | "start" | "end" | "center" | "at" | "effects" | "hatch" | "connect_pads" | "keepout" | "area" => i == 0,
            "fp_line" | "fp_circle" | "fp_arc" | "fp_poly" | "model" => i == 0,
            _ => false,
        };
        if yes || (i == 0 && ["layer", "layers", "pad", "drill", "fp_text", "fill", "font"].contains(&s.role)) {
            o.push(i)
        }
    }
    o
}

fn alter(c: &mut Ctx, kind: &str, tree: &Sx) -> Option<(Sx, &'static str, String)> {
    let mut spots = vec![];
    walk(tree, "", match kind { "board" => "kicad_pcb", "module" => "module", _ => "fp_lib_table" }, &mut vec![], &mut spots);
    let mut t = tree.clone();
    let what = c.rng.below(10);
    // kinds of expressions with the same chance, however often they occur
    let mut roles: Vec<(&str, &str)> = spots.iter().map(|s| (s.parent, s.role)).collect();
    roles.sort();
    roles.dedup();
    let fits = |s: &Spot, v: &[Sx]| match what {
        0..=3 => MUST.iter().any(|m| m.0 == s.role && v.iter().any(|y| m.1.contains(&y.head()))),
        4..=5 => CLOSED.contains(&s.role) || s.role == "board layer" || s.role == "setup value" || (s.role == "lib"),
        6 => ORDERED.contains(&s.role),
        _ => !keywords(v, s).is_empty(),
    };
    let mut able: Vec<&Spot> = vec![];
    for s in &spots {
        let v = at(&mut t, &s.path);
        if fits(s, v) {
            able.push(s)
        }
    }
    roles.retain(|r| able.iter().any(|s| (s.parent, s.role) == *r));
    if roles.is_empty() {
        return None;
    }
    let role = *c.rng.pick(&roles);
    able.retain(|s| (s.parent, s.role) == role);
    let s = *c.rng.pick(&able);
    let r = &mut c.rng;
    let place = format!("{} in {}", s.role, s.parent);
    let v = at(&mut t, &s.path);
    match what {
        0..=3 => {
            let must = MUST.iter().find(|m| m.0 == s.role)?.1;
            let mut p: Vec<usize> = vec![];
            let mut seen = vec![];
            for (i, y) in v.iter().enumerate() {
                if must.contains(&y.head()) && !seen.contains(&y.head().to_string()) {
                    seen.push(y.head().to_string());
                    p.push(i)
                }
            }
            let i = *r.pick(&p);
            let gone = v.remove(i);
            Some((t, "left out", format!("{} of {}", gone.head(), place)))
        }
        4..=5 => {
            let list_only = ["board layer", "setup value", "layers"].contains(&s.role);
            let lib = s.role == "lib";
            if lib || list_only || r.pct(60) {
                // further parts of a table entry may only be judged where they stand before the last one
                let n = if lib { v.len() } else { v.len() + 1 };
                let i = 1 + r.below(n - 1);
                v.insert(i, foreign(r))
            } else {
                let w = unknown(r, "zzz");
                v.push(if KNOWN.contains(&w.text()) { sx::a("zzz") } else { w })
            }
            Some((t, "added", place))
        }
        6 => {
            let must = MUST.iter().find(|m| m.0 == s.role)?.1;
            let p: Vec<usize> = v.iter().enumerate().filter(|x| must.contains(&x.1.head())).map(|x| x.0).collect();
            if p.is_empty() {
                return None;
            }
            let i = *r.pick(&p);
            let y = v[i].clone();
            let h = y.head().to_string();
            v.insert(i, y);
            Some((t, "twice", format!("{} of {}", h, place)))
        }
        _ => {
            let p = keywords(v, s);
            let i = *r.pick(&p);
            let old = v[i].text().to_string();
            let new = if i == 0 { sx::a(*r.pick(&["zzz", "x", "Start", "atx", "lay"])) } else { unknown(r, &old) };
            if new.text() == old {
                return None;
            }
            // some flags may be any of several words
            if ["module", "via", "fill", "fp_text", "font", "drill", "justify", "pad", "board layer"].contains(&s.role) && KNOWN.contains(&new.text()) {
                v[i] = sx::a("zzz")
            } else {
                v[i] = new
            }
            let shown = format!("{:?} as {:?} in {}", old, v[i].text(), place);
            Some((t, "keyword", shown))
        }
    }
}

fn strict_case(c: &mut Ctx) -> Res {
    let kind = *c.rng.pick(&["module", "board", "board", "board", "sch", "lib", "sch", "lib", "table"]);
    let v = if kind == "board" && c.rng.pct(70) {
        let n = 1 + c.rng.below(2);
        let e: Vec<V> = (0..n).map(|_| gen::board_element(&mut c.rng)).collect();
        gen::board_with(&mut c.rng, e)
    } else {
        gen_doc(&mut c.rng, kind)
    };
    let text = render::document(&v, &mut c.rng, false);
    let (valid, altered, how, what) = match kind {
        "sch" | "lib" => match alter_lines(c, kind, &text) {
            Some((t, how, what)) => (text, t, how, what),
            None => return Ok(()),
        },
        _ => {
            let tree = match sx::read(&text) {
                Ok(t) => t,
                Err(e) => return broken(format!("own text unreadable: {}", e)),
            };
            match alter(c, kind, &tree) {
                Some((t, how, what)) => {
                    let style = sx::any_style(&mut c.rng);
                    (text, sx::emit(&t, &mut c.rng, style), how, what)
                }
                None => return Ok(()),
            }
        }
    };
    // the valid file must be accepted, otherwise nothing can be learnt from altering it
    if Doc::parse(kind, &valid).is_err() {
        return skip("the unaltered file is rejected");
    }
    event(&format!("{}:{}", how, kind));
    event(&format!("{} {}", how, if how == "keyword" { what.split(" in ").last().unwrap_or("") } else { &what }));
    c.attach("what", format!("{}: {}", how, what));
    c.attach("valid text", valid);
    c.attach("altered text", altered.clone());
    c.seen(core::hash_str(&altered));
    c.eval();
    if c.index < 40 {
        c.sample(format!("{}: {}", how, what))
    }
    match Doc::parse(kind, &altered) {
        Err(_) => Ok(()),
        Ok(d) => {
            c.attach("observed", format!("{:?}", d.obs()));
            bad(format!("accepted although altered ({}: {})", how, what))
        }
    }
}

// ------------------------------------------------------------ line formats

/// the tokens of a line as places in it
fn spans(l: &str) -> Vec<(usize, usize)> {
    let mut o = vec![];
    let mut start = None;
    let (mut quoted, mut esc) = (false, false);
    for (i, ch) in l.char_indices() {
        if start.is_none() {
            if !ch.is_whitespace() {
                start = Some(i);
                quoted = ch == '"';
                esc = false
            }
            continue;
        }
        if quoted {
            if ch == '"' && !esc {
                quoted = false
            }
            esc = ch == '\\' && !esc
        } else if ch.is_whitespace() {
            o.push((start.unwrap_or(0), i));
            start = None
        }
    }
    if let Some(s) = start {
        o.push((s, l.len()))
    }
    o
}

fn letter(r: &mut Rng, not: &str) -> String {
    loop {
        let c = *r.pick(&['X', 'Z', 'q', 'h', 'v', 'n', '?', 'é', '0', '7', 'A', 'M', 'i', '-', 'c', 'l', 'Y', 'N', 'H', 'I', 'C', 'L', 'S']);
        if !not.contains(c) {
            return c.to_string();
        }
    }
}

/// one letter of a token becomes an unknown one
fn style(r: &mut Rng, old: &str) -> String {
    let ch: Vec<char> = old.chars().collect();
    if ch.len() != 3 || r.pct(20) {
        return old.chars().take(r.below(ch.len().min(3))).chain(" ".chars()).collect();
    }
    let i = r.below(3);
    let new = letter(r, ["CRLBT", "IN", "BN"][i]);
    let mut s = String::new();
    for (j, x) in ch.iter().enumerate() {
        if i == j { s.push_str(&new) } else { s.push(*x) }
    }
    s
}

enum Change {
    Token(usize, usize, &'static str, &'static str),
    Drop(usize, usize, &'static str),
    Add(usize, &'static str),
    Line(usize, &'static str),
}

fn alter_lines(c: &mut Ctx, kind: &str, text: &str) -> Option<(String, &'static str, String)> {
    let lines: Vec<&str> = text.split('\n').collect();
    let mut ch: Vec<Change> = vec![];
    let number = |l: &str, s: &[(usize, usize)], i: usize, skip: usize| l[s[i].0 + skip..s[i].1].parse::<i64>().unwrap_or(0);
    let mut mode = "";
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim_end_matches('\r');
        let s = spans(l);
        let w = s.first().map_or("", |x| &l[x.0..x.1]);
        if kind == "sch" {
            match (mode, w) {
                ("", "EESchema") if i == 0 => ch.push(Change::Line(i, "header")),
                ("", "$Comp") | ("", "$Sheet") | ("", "$Descr") => mode = w,
                ("$Comp", "$EndComp") | ("$Sheet", "$EndSheet") | ("$Descr", "$EndDescr") => {
                    if w == "$EndDescr" {
                        ch.push(Change::Line(i, "description"))
                    }
                    mode = ""
                }
                ("$Comp", "F") if s.len() == 10 || s.len() == 11 => {
                    ch.push(Change::Token(i, 3, "HV", "field orientation"));
                    ch.push(Change::Token(i, 7, "visible", "field visibility"));
                    ch.push(Change::Token(i, 8, "CRLBT", "field alignment"));
                    ch.push(Change::Token(i, 9, "style", "field alignment and style"));
                    // one more is the name if there is none yet
                    ch.push(Change::Add(i, if s.len() == 11 { "field" } else { "field without a name" }));
                    if s.len() == 10 || number(l, &s, 1, 0) > 3 {
                        for &k in &[2, 3, 7, 8] {
                            ch.push(Change::Drop(i, k, "field"))
                        }
                    }
                    if s.len() == 11 && number(l, &s, 1, 0) > 3 {
                        ch.push(Change::Drop(i, 10, "name of field"))
                    }
                }
                ("$Comp", "L") if s.len() == 3 => {
                    let k = 1 + i % 2;
                    ch.push(Change::Drop(i, k, "name and reference"))
                }
                ("$Comp", w) if w.parse::<i64>().is_ok() => {
                    // the second of the two lines is the matrix
                    ch.push(Change::Add(i + 1, "matrix"));
                    i += 1
                }
                ("$Sheet", w) if w.starts_with('F') && s.len() == 7 => {
                    ch.push(Change::Token(i, 2, "IOBTU", "pin form"));
                    ch.push(Change::Token(i, 3, "LRTB", "pin side"));
                    ch.push(Change::Drop(i, 1, "pin name"));
                    ch.push(Change::Drop(i, 2, "pin form"));
                    ch.push(Change::Drop(i, 3, "pin side"));
                }
                ("$Sheet", w) if (w == "F0" || w == "F1") && s.len() == 3 => ch.push(Change::Drop(i, 1, "sheet name")),
                ("$Descr", w) if ["Sheet", "Title", "Date", "Rev", "Comp", "Comment1", "Comment2", "Comment3", "Comment4"].contains(&w) => {
                    ch.push(Change::Line(i, "description"));
                    ch.push(Change::Token(i, 0, "word", "description"))
                }
                ("", "Text") => {
                    ch.push(Change::Token(i, 1, "text", "text kind"));
                    i += 1
                }
                ("", "Wire") => {
                    ch.push(Change::Add(i, "wire"));
                    ch.push(Change::Add(i + 1, "wire"));
                    i += 1
                }
                ("", "Connection") | ("", "NoConn") => ch.push(Change::Add(i, "connection")),
                _ => (),
            }
        } else {
            match (mode, w) {
                ("", _) if i < 3 => ch.push(Change::Line(i, "header")),
                ("", "DEF") => {
                    mode = "fields";
                    for &(k, ok) in &[(5, "YN"), (6, "YN"), (8, "LF"), (9, "PN")] {
                        ch.push(Change::Token(i, k, ok, "symbol flag"));
                        ch.push(Change::Drop(i, k, "symbol flag"))
                    }
                    ch.push(Change::Drop(i, 1 + i % 3, "symbol head"));
                    ch.push(Change::Add(i, "symbol head"));
                }
                ("", "#") if l == "#" => ch.push(Change::Line(i, "separator")),
                ("fields", w) if w.starts_with('F') && l.starts_with('F') && (s.len() == 9 || s.len() == 10) => {
                    ch.push(Change::Token(i, 5, "HV", "field orientation"));
                    ch.push(Change::Token(i, 6, "VI", "field visibility"));
                    ch.push(Change::Token(i, 7, "CRLBT", "field alignment"));
                    ch.push(Change::Token(i, 8, "style", "field alignment and style"));
                    ch.push(Change::Add(i, if s.len() == 10 { "field" } else { "field without a name" }));
                    if s.len() == 9 || number(l, &s, 0, 1) > 3 {
                        for &k in &[1, 5, 6, 7] {
                            ch.push(Change::Drop(i, k, "field"))
                        }
                    }
                    if s.len() == 10 && number(l, &s, 0, 1) > 3 {
                        ch.push(Change::Drop(i, 9, "name of field"))
                    }
                }
                ("fields", "DRAW") => {
                    mode = "draw";
                    ch.push(Change::Line(i, "start of drawing"))
                }
                ("fields", _) => mode = "lists",
                ("lists", "DRAW") if l == "DRAW" => {
                    mode = "draw";
                    ch.push(Change::Line(i, "start of drawing"))
                }
                ("draw", "ENDDRAW") if l == "ENDDRAW" => mode = "",
                ("draw", "X") if s.len() == 12 || s.len() == 13 => {
                    ch.push(Change::Token(i, 6, "UDLR", "pin orientation"));
                    ch.push(Change::Token(i, 11, "IOBTPUWwCEN", "pin type"));
                    ch.push(Change::Add(i, "pin"));
                    if s.len() == 13 {
                        ch.push(Change::Token(i, 12, "shape", "pin shape"))
                    } else {
                        ch.push(Change::Drop(i, 11, "pin type"))
                    }
                    for &k in &[1, 2, 6] {
                        ch.push(Change::Drop(i, k, "pin"))
                    }
                }
                ("draw", "S") if s.len() == 9 => {
                    ch.push(Change::Token(i, 8, "FfN", "fill"));
                    ch.push(Change::Drop(i, 8, "fill"));
                    ch.push(Change::Add(i, "rectangle"))
                }
                ("", "ENDDEF") => ch.push(Change::Line(i, "end of symbol")),
                _ => (),
            }
        }
        i += 1
    }
    if ch.is_empty() {
        return None;
    }
    // kinds of changes with the same chance
    let name = |x: &Change| match *x {
        Change::Token(_, k, _, n) => ("keyword", n, k),
        Change::Drop(_, k, n) => ("left out", n, k),
        Change::Add(_, n) => ("added", n, 0),
        Change::Line(_, n) => ("left out", n, 99),
    };
    let mut names: Vec<_> = ch.iter().map(|x| name(x)).collect();
    names.sort();
    names.dedup();
    let n = *c.rng.pick(&names);
    let same: Vec<&Change> = ch.iter().filter(|x| name(x) == n).collect();
    let x = *c.rng.pick(&same);
    let r = &mut c.rng;
    let mut out: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
    match *x {
        Change::Token(i, k, ok, _) => {
            let l = lines[i];
            let (a, b) = *spans(l.trim_end_matches('\r')).get(k)?;
            let old = &l[a..b];
            let new = match ok {
                "visible" => (*r.pick(&["0002", "000", "1", "0", "yes", "00000", "0010", "V"])).to_string(),
                "style" => style(r, old),
                "shape" => (*r.pick(&["Q", "NQ", "II", "i", "IC", "NN", "LC", "x", "n", "c", "NCC", "A", "CF", "W"])).to_string(),
                "text" => (*r.pick(&["Note", "label", "Glabel", "Foo", "LABEL", "Labels", "HLabe", "GHLabel", "notes"])).to_string(),
                "word" => format!("{}x", old),
                ok => letter(r, ok),
            };
            out[i] = format!("{}{}{}", &l[..a], new, &l[b..]);
            Some((out.join("\n"), "keyword", format!("{:?} as {:?} in {}", old, new, n.1)))
        }
        Change::Drop(i, k, _) => {
            let l = lines[i];
            let (a, b) = *spans(l.trim_end_matches('\r')).get(k)?;
            out[i] = format!("{}{}", &l[..a], &l[b..]);
            Some((out.join("\n"), "left out", format!("value {} of {}", k, n.1)))
        }
        Change::Add(i, _) => {
            let l = lines.get(i)?.trim_end_matches('\r');
            out[i] = format!("{} {}", l.trim_end(), r.pick(&["zzz", "0", "\"a b\"", "1.5"]));
            if n.1 == "field without a name" {
                out[i].push_str(" \"a b\"")
            }
            Some((out.join("\n"), "added", n.1.to_string()))
        }
        Change::Line(i, _) => {
            out.remove(i);
            Some((out.join("\n"), "left out", format!("line of {}", n.1)))
        }
    }
}
