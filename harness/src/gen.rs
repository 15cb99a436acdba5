//! Generators of reference models.

use crate::dict;
use crate::r;
use crate::rng::Rng;
use crate::sx::{self, Sx};
use crate::v::V;

const WORDS: &[&str] = &[
    "R1", "C22", "U3", "SOT23", "QFN-20", "GND", "+3V3", "VCC", "/block/SIG_1", "Net-(R1-Pad2)", "Net-(C4-Pad1)",
    "REF**", "%R", "0603", "1", "42", "-7", "3.50", "1e5", "A4", "hide", "locked", "oval", "italic", "yes",
    "mirror", "module", "smd", "nan", "inf", "~", "*", "a.b.c", "x/y/z", "${KISYS3DMOD}/a.wrl", "%", "{x}", "a#b",
    "Ω10k", "µC", "日本語", "Ünïcode", "a\\\"b", "C:\\lib\\x.pretty", "tr\\", "'quoted'", ";;", "a,b", "F.Cu", "$Comp", "=",
    "[1]", "<tag>", "&amp;", "é", "\u{a0}x", "\u{1F600}", "_", "-", ".", "..", "#PWR", "at", "0", "00", "0x1F", "+5",
];

const PHRASES: &[&str] = &[
    "hello world", " lead", "trail ", "two  blanks", "(at 1 2)", "a (b) c", ")", "(", "a\tb", "\t", " ", "Resistor 0603, 1%",
    "say \\\"hi\\\" now", "path with\\\\ backslash x", "日本 語", "Vin (max) = 5V", "100 %", "x { y }", "end of (module", "hide (effects)",
    "net 1", "a\u{3000}b c", "C:\\my lib\\f", "% R", "very long text very long text very long text very long text very long text very long text",
];

/// a string that S-expressions can carry
pub fn sstr(r: &mut Rng) -> String {
    if r.below(150) == 0 {
        return long_str(r, false);
    }
    match r.below(12) {
        0..=4 => r.pick(WORDS).to_string(),
        5 | 6 => r.pick(PHRASES).to_string(),
        7 => String::new(),
        8 => random_str(r, false),
        9 | 10 => loop {
            let s = dict::text(r);
            if carried(&s) {
                return s;
            }
        },
        _ => format!("{}{}", r.pick(&["N$", "P", "SIG_", "Net-(R", "x y "]), r.below(50)),
    }
}

/// can an S-expression carry this text?
fn carried(s: &str) -> bool {
    let mut esc = false;
    for c in s.chars() {
        if c == '\n' || c == '\r' || (c == '"' && !esc) {
            return false;
        }
        esc = c == '\\' && !esc
    }
    !esc
}

/// a non-empty string that S-expressions can carry without quotes
pub fn sword(r: &mut Rng) -> String {
    if r.below(150) == 0 {
        return long_str(r, true);
    }
    loop {
        let s = match r.below(8) {
            0..=3 => r.pick(WORDS).to_string(),
            4 => random_str(r, true),
            5 | 6 => dict::text(r),
            _ => format!("{}{}", r.pick(&["N", "P", "SIG_", "B-"]), r.below(50)),
        };
        if !sx::must_quote(&s) && carried(&s) {
            return s;
        }
    }
}

/// a long text, sometimes of a length that the source mentions
fn long_str(r: &mut Rng, word: bool) -> String {
    let n = match r.below(8) {
        0..=2 => 20 + r.below(60),
        3 => 80 + r.below(200),
        4 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
        5 if r.pct(20) => 1000 + r.below(6000),
        _ => dict::size(r, 1100),
    };
    let mut s: Vec<char> = vec![];
    while s.len() < n {
        match r.below(6) {
            0 => s.push(*r.pick(&['é', 'Ω', '漢', '\u{1F600}', '.', '/', '-'])),
            1 if !word => s.push(*r.pick(&[' ', ' ', '(', ')', '\t', ' '])),
            _ => {
                let c = *r.pick(&['a', 'b', 'c', 'X', '0', '1', '_']);
                for _ in 0..1 + r.below(9) {
                    s.push(c)
                }
            }
        }
    }
    s.truncate(n);
    if word && s.is_empty() {
        s.push('a')
    }
    s.into_iter().collect()
}

fn random_str(r: &mut Rng, word: bool) -> String {
    const C: &[char] = &[
        'a', 'B', 'z', '0', '9', '_', '-', '.', '/', ':', '+', '*', '%', '{', '}', '[', ']', ',', ';', '=', '!', '?', '$', '&',
        '#', '\'', '`', '|', '<', '>', '@', '^', '~', 'é', 'Ω', '漢', '\u{b}', '\u{1b}', '\u{7f}', '\u{2028}',
    ];
    const W: &[char] = &[' ', '(', ')', '\t', ' '];
    let n = 1 + r.below(12);
    let mut s = String::new();
    for _ in 0..n {
        if !word && r.pct(15) {
            s.push(*r.pick(W))
        } else if r.pct(3) {
            s.push_str("\\\"");
            s.push('q')
        } else {
            s.push(*r.pick(C))
        }
    }
    s
}

/// content of a quoted string in the line formats
pub fn lstr(r: &mut Rng) -> String {
    loop {
        let s = sstr(r);
        // a closing quote must not be escaped by the content
        let mut esc = false;
        let mut ok = true;
        for c in s.chars() {
            if esc {
                esc = false
            } else if c == '\\' {
                esc = true
            } else if c == '"' {
                ok = false
            }
        }
        if ok && !esc {
            return s;
        }
    }
}

/// a bare token in the line formats
pub fn lword(r: &mut Rng) -> String {
    loop {
        let s = sword(r);
        if !s.chars().any(|c| c.is_whitespace() || c == '"' || c == '\\') && !s.is_empty() {
            return s;
        }
    }
}

/// an unrestricted line, possibly with odd content (no line break, no final CR)
pub fn line(r: &mut Rng) -> String {
    match r.below(6) {
        0 => sstr(r),
        1 => format!("{} \"{}\" {}", sstr(r), sstr(r), sstr(r)),
        2 => format!("\t{} {}  {} ", int(r), int(r), sstr(r)),
        3 => format!("unbalanced \" {} ( \\", sstr(r)),
        4 => r.pick(&["$EndComp", "$Comp", "Wire Wire Line", "$EndSCHEMATC", "ENDDRAW x", "F 0 \"x\"", "L a b", "Text", "EELAYER END"]).to_string(),
        _ => format!("{} {} {}", sword(r), sword(r), num(r)),
    }
}

pub fn int(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => -1,
        3 => r.range(-100, 100) * 50,
        4 => r.range(-100_000, 100_000),
        5 => r.range(-1_000_000_000_000, 1_000_000_000_000),
        6 => *r.pick(&[i64::max_value(), i64::min_value(), 2147483648, -2147483649, 9007199254740993]),
        7 => dict::int(r),
        _ => r.range(-5000, 12000),
    }
}

/// a number that is mostly in 0..=hi, but need not be
pub fn nat(r: &mut Rng, hi: i64) -> i64 {
    match r.below(16) {
        0 => *r.pick(&[127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 32767, 32768, 65535, 65536, 65537]),
        1 => *r.pick(&[2147483647, 2147483648, 4294967295, 4294967296, 9007199254740993, i64::max_value()]),
        2 => dict::int(r).checked_abs().unwrap_or(7),
        3 => r.range(0, 100_000),
        _ => r.range(0, hi),
    }
}

/// an integer of ordinary magnitude
pub fn coord(r: &mut Rng) -> i64 {
    match r.below(7) {
        0 => 0,
        1 => r.range(-100, 100) * 50,
        2 => r.range(-1_000_000, 1_000_000),
        3 => dict::int(r) % 1_000_000_000,
        _ => r.range(-5000, 12000),
    }
}

/// any finite number
pub fn num(r: &mut Rng) -> f64 {
    match r.below(20) {
        0 => 0.0,
        1 => r.range(-10, 10) as f64,
        2..=6 => r.range(-100_000, 100_000) as f64 / 1000.0,
        7..=9 => r.range(-3_000_000, 3_000_000) as f64 / 10_000.0,
        10 | 11 => r.range(-300_000_000, 300_000_000) as f64 / 1_000_000.0,
        12 => r.range(-1000, 1000) as f64 * 0.0254,
        13 => r.range(1, 99) as f64 * 1e-6,
        14 => r.range(-1_000_000_000, 1_000_000_000) as f64,
        15 => r.range(-9, 9) as f64 * 1e-9,
        16 => f64::from_bits((r.next() & 0x000F_FFFF_FFFF_FFFF) | ((r.range(1015, 1035) as u64) << 52)),
        17 if r.pct(20) => {
            let x = f64::from_bits(r.next());
            if x.is_finite() {
                x
            } else {
                1e300
            }
        }
        18 => dict::num(r),
        _ => r.range(-100, 100) as f64 / 10.0,
    }
}

/// a number of ordinary magnitude (for arithmetic)
pub fn pos(r: &mut Rng) -> f64 {
    loop {
        let x = num(r);
        if x.abs() < 1e7 && (x == 0.0 || x.abs() > 1e-10) {
            return x;
        }
    }
}

/// a positive number
pub fn size(r: &mut Rng) -> f64 {
    loop {
        let x = pos(r).abs();
        if x > 0.0 {
            return x;
        }
    }
}

pub fn angle(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 | 1 => 0.0,
        2 => if r.pct(80) { *r.pick(&[90.0, 180.0, 270.0, 45.0, 315.0]) } else { dict::num(r) % 3600.0 },
        3 => r.range(1, 3599) as f64 / 10.0,
        4 => r.range(1, 359) as f64,
        _ => *r.pick(&[-90.0, -45.0, 359.9, 0.1, 89.95, 90.05, 360.0, -180.0, -270.0, 12.345]),
    }
}

pub const LAYERS: &[&str] = &[
    "F.Cu", "B.Cu", "F.SilkS", "B.SilkS", "F.Fab", "B.Fab", "F.CrtYd", "B.CrtYd", "F.Mask", "B.Mask", "F.Paste", "B.Paste",
    "F.Adhes", "B.Adhes", "*.Cu", "*.Mask", "*.Paste", "*.SilkS", "In1.Cu", "In2.Cu", "Dwgs.User", "Cmts.User", "Eco1.User",
    "Eco2.User", "Edge.Cuts", "Margin",
];
const ODD_LAYERS: &[&str] = &["GND", "Inner layer", "F.Custom", "B.Custom", "a.b.c", "v1.2.3-GND", "Cu", "Top", "*.Other", "Edge.User", "F.User", "Schaltung Ω"];

pub fn layer(r: &mut Rng) -> String {
    if r.pct(8) {
        r.pick(ODD_LAYERS).to_string()
    } else {
        r.pick(LAYERS).to_string()
    }
}

pub fn at(r: &mut Rng) -> V {
    let rot = angle(r);
    r!("at"; x: num(r), y: num(r), rot: rot)
}

pub fn at0() -> V {
    r!("at"; x: 0.0, y: 0.0, rot: 0.0)
}

pub fn xy(r: &mut Rng) -> V {
    r!("xy"; x: num(r), y: num(r))
}

pub fn xy0() -> V {
    r!("xy"; x: 0.0, y: 0.0)
}

pub fn xyz(r: &mut Rng) -> V {
    r!("xyz"; x: num(r), y: num(r), z: num(r))
}

pub fn pts(r: &mut Rng, max: usize) -> V {
    let n = if r.pct(5) { r.below(40) } else { some(r, max) };
    let mut v: Vec<V> = (0..n).map(|_| xy(r)).collect();
    if n > 1 {
        match r.below(20) {
            // closed
            0 | 1 => v[n - 1] = v[0].clone(),
            // a point twice in a row
            2 => {
                let i = r.below(n - 1);
                v[i + 1] = v[i].clone()
            }
            // on one line
            3 => {
                let y = v[0].fnum("y");
                v.iter_mut().for_each(|p| p.set("y", y))
            }
            4 => {
                let x = v[0].fnum("x");
                v.iter_mut().for_each(|p| p.set("x", x))
            }
            _ => (),
        }
    }
    V::L(v)
}

/// how many of something there are: mostly 0..=usual, seldom many
pub fn some(r: &mut Rng, usual: usize) -> usize {
    match r.below(400) {
        0..=3 => dict::size(r, 140),
        4 | 5 => *r.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129]),
        6 => usual + r.below(60),
        7 if r.pct(20) => *r.pick(&[255, 256, 257, 300]),
        8 if r.pct(20) => dict::size(r, 600),
        9 if r.pct(4) => long(r),
        _ => r.below(usual + 1),
    }
}

/// a very long list
fn long(r: &mut Rng) -> usize {
    if r.bool() {
        dict::size(r, 2500)
    } else {
        *r.pick(&[400, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500])
    }
}

/// like `some`, but for containers of containers
pub fn some_few(r: &mut Rng, usual: usize) -> usize {
    match r.below(400) {
        0 | 1 => dict::size(r, 40),
        2 => *r.pick(&[15, 16, 17, 31, 32, 33]),
        3 => usual + r.below(20),
        _ => r.below(usual + 1),
    }
}

/// Make things alike: values that occur twice, items that are repeated. Independent random values
/// are almost never equal, but many real documents repeat themselves.
pub fn alike(r: &mut Rng, v: &mut V) {
    if r.pct(70) {
        return;
    }
    for _ in 0..1 + r.below(3) {
        if r.bool() {
            let mut lists = vec![];
            list_paths(v, &mut vec![], &mut lists);
            if let Some(p) = choose(r, &lists) {
                let l = at_path(v, p).lm();
                let i = r.below(l.len());
                let x = l[i].clone();
                let j = match r.below(3) {
                    0 => i + 1,
                    1 => l.len(),
                    _ => r.below(l.len() + 1),
                };
                if x.leaves() < 600 {
                    l.insert(j, x)
                }
            }
        } else {
            let mut leaves = vec![];
            leaf_paths(v, "", &mut vec![], &mut leaves);
            if leaves.len() < 2 {
                continue;
            }
            let a = r.below(leaves.len());
            let like: Vec<usize> = (0..leaves.len()).filter(|b| *b != a && leaves[*b].1 == leaves[a].1).collect();
            if like.is_empty() {
                continue;
            }
            let b = like[r.below(like.len())];
            let x = at_path(v, &leaves[a].0).clone();
            *at_path(v, &leaves[b].0) = x
        }
    }
}

/// paths of the lists in a model that have items
pub fn lists(v: &V) -> Vec<Vec<usize>> {
    let mut o = vec![];
    list_paths(v, &mut vec![], &mut o);
    o
}

pub fn get_mut<'a>(v: &'a mut V, p: &[usize]) -> &'a mut V {
    at_path(v, p)
}

pub fn get<'a>(v: &'a V, p: &[usize]) -> &'a V {
    let mut v = v;
    for i in p {
        v = match *v {
            V::L(ref l) => &l[*i],
            V::R(_, ref f) => &f[*i].1,
            _ => unreachable!(),
        }
    }
    v
}

/// record and field that a path leads to
pub fn name_of(v: &V, p: &[usize]) -> String {
    let (mut v, mut s) = (v, String::new());
    for i in p {
        v = match *v {
            V::L(ref l) => &l[*i],
            V::R(k, ref f) => {
                s = format!("{}.{}", k, f[*i].0);
                &f[*i].1
            }
            _ => unreachable!(),
        }
    }
    s
}

fn choose<'a, T>(r: &mut Rng, v: &'a [T]) -> Option<&'a T> {
    if v.is_empty() {
        None
    } else {
        Some(&v[r.below(v.len())])
    }
}

fn at_path<'a>(v: &'a mut V, p: &[usize]) -> &'a mut V {
    let mut v = v;
    for i in p {
        v = match *v {
            V::L(ref mut l) => &mut l[*i],
            V::R(_, ref mut f) => &mut f[*i].1,
            _ => unreachable!(),
        }
    }
    v
}

fn list_paths(v: &V, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match *v {
        V::L(ref l) => {
            if !l.is_empty() {
                out.push(p.clone())
            }
            for (i, x) in l.iter().enumerate() {
                p.push(i);
                list_paths(x, p, out);
                p.pop();
            }
        }
        V::R(_, ref f) => for (i, x) in f.iter().enumerate() {
            // field numbers are unique, a rotation has four numbers
            if x.0 == "fields" || x.0 == "rot" {
                continue;
            }
            p.push(i);
            list_paths(&x.1, p, out);
            p.pop();
        },
        _ => (),
    }
}

fn leaf_paths(v: &V, name: &str, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    match *v {
        V::L(ref l) => for (i, x) in l.iter().enumerate() {
            p.push(i);
            leaf_paths(x, name, p, out);
            p.pop();
        },
        V::R(k, ref f) => for (i, x) in f.iter().enumerate() {
            // values that depend on each other
            let skip = match (k, x.0) {
                ("field", "i") | ("field", "name") | ("sfield", "i") | ("sfield", "name") => true,
                ("text", "t") | ("text", "shape") | ("drill", _) | ("font", _) | ("comp", "rot") => true,
                _ => false,
            };
            if skip {
                continue;
            }
            let point = (k == "xy" || k == "at") && x.0 != "rot";
            p.push(i);
            leaf_paths(&x.1, &if point { "xy".to_string() } else { format!("{}.{}", k, x.0) }, p, out);
            p.pop();
        },
        V::N(_) | V::I(_) | V::S(_) => out.push((p.clone(), name.to_string())),
        _ => (),
    }
}

/// numbers that the writer drops when they are not positive
fn fsize(r: &mut Rng) -> f64 {
    size(r)
}

pub fn effects(r: &mut Rng) -> V {
    let (x, y) = match r.below(100) {
        0..=7 => (0.0, 0.0),
        8 => (fsize(r), 0.0),
        9 => (0.0, fsize(r)),
        // one positive size is enough to be written
        10 => (fsize(r), -fsize(r)),
        11 => (-fsize(r), fsize(r)),
        _ => (fsize(r), fsize(r)),
    };
    let justify = match r.below(8) {
        0 => Some("left"),
        1 => Some("right"),
        2 => Some("mirror"),
        3 => Some("left mirror"),
        4 => Some("right mirror"),
        _ => None,
    };
    let th = if r.pct(10) { 0.0 } else { num(r) };
    r!("effects";
        font: r!("font"; x: x, y: y, thickness: th, italic: r.pct(20)),
        justify: justify)
}

pub fn effects0() -> V {
    r!("effects"; font: r!("font"; x: 0.0, y: 0.0, thickness: 0.0, italic: false), justify: V::Nil)
}

pub fn fp_text(r: &mut Rng, name: &str) -> V {
    let a = if r.pct(5) { at0() } else { at(r) };
    let e = if r.pct(5) { effects0() } else { effects(r) };
    r!("fp_text"; name: name, value: sstr(r), at: a, layer: layer(r), hide: r.pct(25), effects: e)
}

fn opt<T: Into<V>>(r: &mut Rng, p: usize, f: impl FnOnce(&mut Rng) -> T) -> V {
    if r.pct(p) {
        f(r).into()
    } else {
        V::Nil
    }
}

pub fn drill(r: &mut Rng) -> V {
    let oval = r.pct(40);
    let w = if r.pct(10) { 0.0 } else { size(r) };
    let h = if w > 0.0 && r.pct(40) { size(r) } else { w };
    let (ox, oy) = match r.below(4) {
        0 => (num(r), num(r)),
        1 => (num(r), 0.0),
        2 => (0.0, num(r)),
        _ => (0.0, 0.0),
    };
    r!("drill"; oval: oval, width: w, height: h, ox: ox, oy: oy)
}

pub fn pad_net(r: &mut Rng) -> V {
    r!("net"; num: nat(r, 500), name: sstr(r))
}

pub fn pad(r: &mut Rng) -> V {
    let t = *r.pick(&["smd", "thru_hole", "np_thru_hole", "smd"]);
    let n = if r.pct(5) { 0 } else { 1 + some_few(r, 3) };
    let layers: Vec<String> = (0..n).map(|_| layer(r)).collect();
    let a = if r.pct(5) { at0() } else { at(r) };
    let s = if r.pct(5) { xy0() } else { r!("xy"; x: size(r), y: size(r)) };
    let shape = *r.pick(&["rect", "circle", "oval", "trapezoid"]);
    r!("pad";
        name: sstr(r), type: t, shape: shape, at: a, size: s,
        rect_delta: opt(r, if shape == "trapezoid" { 70 } else { 8 }, xy),
        drill: opt(r, if t == "smd" { 8 } else { 85 }, drill),
        layers: layers,
        net: opt(r, 50, pad_net),
        zone_connect: opt(r, 20, |r| if r.pct(80) { r.range(-1, 3) } else { int(r) }),
        solder_paste_margin: opt(r, 20, num),
        solder_mask_margin: opt(r, 20, num),
        clearance: opt(r, 20, num),
        thermal_gap: opt(r, 20, num))
}

pub fn fp_line(r: &mut Rng) -> V {
    r!("fp_line"; start: xy(r), end: xy(r), layer: layer(r), width: num(r).abs())
}
pub fn fp_circle(r: &mut Rng) -> V {
    r!("fp_circle"; center: xy(r), end: xy(r), layer: layer(r), width: num(r).abs())
}
pub fn fp_arc(r: &mut Rng) -> V {
    r!("fp_arc"; start: xy(r), end: xy(r), angle: angle(r), layer: layer(r), width: num(r).abs())
}
pub fn fp_poly(r: &mut Rng) -> V {
    r!("fp_poly"; pts: pts(r, 8), layer: layer(r), width: num(r).abs())
}
pub fn model(r: &mut Rng) -> V {
    r!("model"; name: sstr(r), at: xyz(r), scale: xyz(r), rotate: xyz(r))
}
pub fn stamp(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => 0,
        1 => r.range(0, 0xFFFF_FFFF),
        2 => r.range(0, 255),
        3 => *r.pick(&[0xFFFF_FFFF, 0x7FFF_FFFF, 0xABCDEF, 0x5E2, 0x1_0000_0000, i64::MAX]),
        _ => r.range(0x5000_0000, 0x5FFF_FFFF),
    }
}

pub fn module_element(r: &mut Rng) -> V {
    match r.below(26) {
        0 => r!("solder_mask_margin"; v: num(r)),
        1 => r!("layer"; v: layer(r)),
        2 => r!("descr"; v: sstr(r)),
        3 => r!("tags"; v: sstr(r)),
        4 => r!("attr"; v: if r.bool() { "smd".to_string() } else { sstr(r) }),
        5 => r!("tedit"; v: stamp(r)),
        6 => r!("tstamp"; v: stamp(r)),
        7 => r!("path"; v: format!("/{:X}", r.range(0, 0xFFFF_FFFF))),
        8 => at(r),
        9 => model(r),
        10 => r!("clearance"; v: num(r)),
        11 => r!("locked"),
        12 => fp_text(r, "reference"),
        13 => fp_text(r, "value"),
        14 | 15 => {
            let n = if r.pct(80) { "user".to_string() } else { sstr(r) };
            fp_text(r, &n)
        }
        16 => fp_poly(r),
        17 | 18 => fp_line(r),
        19 => fp_circle(r),
        20 => fp_arc(r),
        _ => pad(r),
    }
}

fn count(r: &mut Rng) -> usize {
    if r.below(6000) == 0 {
        return long(r);
    }
    if r.below(250) == 0 {
        return match r.below(3) {
            0 => *r.pick(&[50, 63, 64, 65, 99, 100, 101, 127, 128, 129]),
            1 => 40 + r.below(120),
            _ => dict::size(r, 200),
        };
    }
    match r.below(10) {
        0 => 0,
        1 => 1,
        9 => 10 + r.below(30),
        _ => 1 + r.below(9),
    }
}

/// a footprint in the order KiCad writes it, or with elements in any order
pub fn module(r: &mut Rng) -> V {
    let n = count(r);
    let mut e: Vec<V> = vec![];
    if r.pct(60) {
        e.push(r!("layer"; v: *r.pick(&["F.Cu", "B.Cu"])));
        e.push(r!("tedit"; v: stamp(r)));
        if r.bool() {
            e.push(r!("tstamp"; v: stamp(r)))
        }
        if r.bool() {
            e.push(at(r))
        }
        e.push(fp_text(r, "reference"));
        e.push(fp_text(r, "value"));
    }
    for _ in 0..n {
        e.push(module_element(r))
    }
    if r.pct(20) {
        r.shuffle(&mut e)
    }
    let mut v = r!("module"; name: sstr(r), elements: V::L(e));
    alike(r, &mut v);
    v
}

// ---------------------------------------------------------------- board

pub fn opt_stamp(r: &mut Rng) -> V {
    opt(r, 40, |r| if r.pct(80) { format!("{:X}", stamp(r)) } else { sstr(r) })
}

pub fn net(r: &mut Rng) -> V {
    r!("net"; num: int(r), name: sstr(r))
}

pub fn net_class(r: &mut Rng) -> V {
    let n = some(r, 5);
    let nets: Vec<String> = (0..n).map(|_| sstr(r)).collect();
    // a value equal to the documented default may be left out of the file
    let mut d = |r: &mut Rng, def: f64| if r.pct(25) { def } else { num(r).abs() };
    r!("net_class"; name: sstr(r), desc: sstr(r),
        clearance: d(r, 0.1524), trace_width: d(r, 0.2032), via_dia: d(r, 0.675), via_drill: d(r, 0.25),
        uvia_dia: d(r, 0.508), uvia_drill: d(r, 0.127),
        diff_pair_gap: opt(r, 30, num), diff_pair_width: opt(r, 30, num), nets: nets)
}

pub fn gr_text(r: &mut Rng) -> V {
    r!("gr_text"; value: sstr(r), at: at(r), layer: layer(r), effects: effects(r), tstamp: opt_stamp(r))
}
pub fn gr_line(r: &mut Rng) -> V {
    r!("gr_line"; start: xy(r), end: xy(r), angle: angle(r), layer: layer(r), width: num(r).abs(), tstamp: opt_stamp(r))
}
pub fn gr_arc(r: &mut Rng) -> V {
    r!("gr_arc"; start: xy(r), end: xy(r), angle: angle(r), layer: layer(r), width: num(r).abs(), tstamp: opt_stamp(r))
}
pub fn gr_circle(r: &mut Rng) -> V {
    r!("gr_circle"; center: xy(r), end: xy(r), layer: layer(r), width: num(r).abs(), tstamp: opt_stamp(r))
}
pub fn dimension(r: &mut Rng) -> V {
    r!("dimension"; name: sstr(r), width: num(r).abs(), layer: layer(r), tstamp: opt_stamp(r), text: gr_text(r),
        feature1: pts(r, 2), feature2: pts(r, 2), crossbar: pts(r, 2), arrow1a: pts(r, 2), arrow1b: pts(r, 2),
        arrow2a: pts(r, 2), arrow2b: pts(r, 2))
}
pub fn segment(r: &mut Rng) -> V {
    r!("segment"; start: xy(r), end: xy(r), width: num(r).abs(), layer: layer(r), net: int(r), tstamp: opt_stamp(r),
        status: opt(r, 15, sstr))
}
pub fn via(r: &mut Rng) -> V {
    let d = if r.pct(30) { 0.0 } else { size(r) };
    let n = 1 + some_few(r, 2);
    let layers: Vec<String> = (0..n).map(|_| layer(r)).collect();
    let mut a = at(r);
    if r.pct(90) {
        a.set("rot", 0.0)
    }
    r!("via"; blind: r.pct(20), micro: r.pct(20), at: a, size: num(r).abs(), drill: d, layers: layers,
        net: if r.pct(20) { 0 } else { nat(r, 300) })
}

const KNOWN_BOARD: &[&str] = &[
    "version", "host", "general", "page", "layers", "module", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle",
    "dimension", "zone", "segment", "via", "setup", "kicad_pcb",
];

pub const KNOWN_ZONE: &[&str] = &[
    "zone", "net", "net_name", "layer", "tstamp", "hatch", "priority", "connect_pads", "min_thickness", "keepout", "fill", "polygon", "filled_polygon", "fill_segments",
];

const FOREIGN: &[&str] = &[
    "title_block", "target", "gr_poly", "gr_curve", "group", "embedded_files", "x", "generator", "net_tie", "property", "3d", "-", "zone_2", "Module",
];

pub fn foreign_tree(r: &mut Rng, depth: usize) -> Sx {
    let n = if r.pct(10) { 12 } else { r.below(5) };
    let mut v = vec![];
    for _ in 0..n {
        if depth > 0 && r.pct(40) {
            let mut t = foreign_tree(r, depth - 1);
            if let Sx::L(ref mut x) = t {
                let head = if r.pct(50) {
                    r.pick(&["at", "xy", "pts", "module", "net", "layer", "start", "end", "effects", "font", "fp_text", "gr_text", "polygon", "title", "a"]).to_string()
                } else {
                    sword(r)
                };
                if r.pct(92) {
                    x.insert(0, sx::q(head))
                }
            }
            v.push(t)
        } else {
            v.push(sx::q(if r.pct(30) { render_num_plain(num(r)) } else { sstr(r) }))
        }
    }
    Sx::L(v)
}

pub fn foreign(r: &mut Rng, known: &[&str]) -> V {
    let depth = r.below(5);
    let mut t = foreign_tree(r, depth);
    if r.pct(3) {
        // deeply nested
        for i in 0..60 {
            t = Sx::L(vec![sx::q(format!("n{}", i % 7)), t])
        }
    }
    loop {
        let head = if r.pct(70) { r.pick(FOREIGN).to_string() } else { sword(r) };
        if known.contains(&&head[..]) || head.is_empty() {
            continue;
        }
        if let Sx::L(ref mut x) = t {
            x.insert(0, sx::q(head));
        }
        return V::X(t);
    }
}

pub fn board_other(r: &mut Rng) -> V {
    r!("other"; v: foreign(r, KNOWN_BOARD))
}

pub fn zone(r: &mut Rng) -> V {
    let poly = |r: &mut Rng, max: usize| {
        let n = some_few(r, max - 1);
        V::L((0..n).map(|_| pts(r, 12)).collect())
    };
    let keepout = if r.pct(30) {
        r!("keepout"; tracks: r.bool(), vias: r.bool(), copperpour: r.bool())
    } else {
        V::Nil
    };
    let n = if r.pct(25) { 1 + some_few(r, 1) } else { 0 };
    let other: Vec<V> = (0..n).map(|_| foreign(r, KNOWN_ZONE)).collect();
    r!("zone"; net: nat(r, 300), net_name: sstr(r), layer: layer(r), tstamp: if r.pct(80) { format!("{:X}", stamp(r)) } else { sstr(r) },
        hatch_style: *r.pick(&["edge", "none", "full", "a b"]), hatch_pitch: num(r),
        priority: if r.bool() { 0 } else { nat(r, 100) },
        connection: opt(r, 50, |r| if r.pct(80) { r.pick(&["no", "yes", "thru_hole_only"]).to_string() } else { sstr(r) }),
        clearance: num(r), min_thickness: num(r), keepout: keepout,
        filled: r.bool(), segment: r.pct(30), arc_segments: nat(r, 64), thermal_gap: num(r), thermal_bridge_width: num(r),
        smoothing: opt(r, 30, |r| if r.pct(85) { r.pick(&["chamfer", "fillet"]).to_string() } else { sstr(r) }),
        radius: if r.bool() { 0.0 } else { num(r) },
        polygons: poly(r, 3), filled_polygons: poly(r, 3), fill_segments: opt(r, 20, |r| pts(r, 6)),
        other: V::L(other))
}

pub fn board_element(r: &mut Rng) -> V {
    match r.below(24) {
        0..=2 => {
            let mut m = module(r);
            if r.pct(80) {
                // boards have many small modules
                m.gm("elements").lm().truncate(8)
            }
            m
        }
        3..=5 => net(r),
        6 | 7 => net_class(r),
        8 | 9 => gr_text(r),
        10 | 11 => gr_line(r),
        12 => gr_arc(r),
        13 => gr_circle(r),
        14 => dimension(r),
        15..=17 => segment(r),
        18 | 19 => via(r),
        20 | 21 => zone(r),
        _ => board_other(r),
    }
}

pub fn setup_list(r: &mut Rng, plot: bool) -> V {
    let n = some(r, 7);
    let mut v = vec![];
    for _ in 0..n {
        let name = if r.pct(75) {
            if plot {
                r.pick(&["layerselection", "usegerberextensions", "hpglpennumber", "outputdirectory", "mode", "scaleselection"]).to_string()
            } else {
                r.pick(&["last_trace_width", "trace_clearance", "zone_45_only", "user_via", "pad_size", "aux_axis_origin", "grid_origin", "visible_elements"]).to_string()
            }
        } else {
            let w = sword(r);
            if w == "pcbplotparams" || w.is_empty() {
                continue;
            }
            w
        };
        let v1 = if r.bool() { render_num_plain(num(r)) } else { sstr(r) };
        v.push(r!("se"; name: name, v1: v1, v2: opt(r, 25, |r| if r.bool() { render_num_plain(num(r)) } else { sstr(r) })))
    }
    V::L(v)
}

pub fn general(r: &mut Rng) -> V {
    r!("general"; links: int(r), no_connects: int(r), x1: num(r), y1: num(r), x2: num(r), y2: num(r), thickness: num(r),
        drawings: int(r), tracks: int(r), zones: int(r), modules: int(r), nets: int(r))
}

pub fn board_layers(r: &mut Rng) -> V {
    let n = some_few(r, 9);
    V::L((0..n)
        .map(|_| r!("blayer"; num: nat(r, 50), name: layer(r), type: *r.pick(&["signal", "power", "mixed", "jumper", "user"]), hide: r.pct(25)))
        .collect())
}

pub fn board(r: &mut Rng) -> V {
    let n = count(r);
    let e: Vec<V> = (0..n).map(|_| board_element(r)).collect();
    let mut v = board_with(r, e);
    alike(r, &mut v);
    v
}

pub fn board_with(r: &mut Rng, e: Vec<V>) -> V {
    let header = r.pct(90);
    // parts left out come out as the documented defaults
    let d_general = r!("general"; links: 0i64, no_connects: 0i64, x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0, thickness: 1.6,
        drawings: 0i64, tracks: 0i64, zones: 0i64, modules: 0i64, nets: 0i64);
    let (ht, hb) = if header { (sstr(r), sstr(r)) } else { ("pcbnew".to_string(), "custom".to_string()) };
    r!("board"; version: if header { int(r) } else { 4 }, host_tool: ht, host_build: hb,
        general: if header { general(r) } else { d_general },
        page: if header && r.bool() { sstr(r) } else { "A4".to_string() },
        layers: if header { board_layers(r) } else { V::L(vec![]) },
        setup: if header { setup_list(r, false) } else { V::L(vec![]) },
        plot: if header { setup_list(r, true) } else { V::L(vec![]) },
        elements: V::L(e))
}

// ---------------------------------------------------------------- schematic

pub fn field_i(r: &mut Rng, i: i64) -> V {
    let name = match i {
        0 => "Reference".to_string(),
        1 => "Value".to_string(),
        2 => "Footprint".to_string(),
        3 => "UserDocLink".to_string(),
        _ => if r.bool() { r.pick(&["MPN", "Manufacturer", "Tolerance", "Supplier 1", "Value", "Reference"]).to_string() } else { lstr(r) },
    };
    r!("field"; i: i, value: lstr(r), orientation: *r.pick(&["H", "V"]), x: num(r), y: num(r), size: coord(r), visible: r.bool(),
        hjustify: *r.pick(&["L", "R", "C", "B", "T"]), vjustify: *r.pick(&["L", "R", "C", "B", "T"]),
        italic: r.bool(), bold: r.bool(), name: name)
}

pub fn component(r: &mut Rng) -> V {
    let mut fields = vec![];
    let mut reference = format!("{}{}", r.pick(&["R", "C", "U", "#PWR0", "J"]), r.below(30));
    if r.pct(15) {
        reference = lword(r)
    }
    let name = if r.pct(80) { r.pick(&["R", "C", "LM358", "GND", "device:R", "STM32F4"]).to_string() } else { lword(r) };
    let n = some_few(r, 6) as i64;
    for i in 0..n {
        let mut f = field_i(r, i);
        if r.pct(80) {
            if i == 0 {
                f.set("value", &reference)
            }
            if i == 1 {
                f.set("value", &name)
            }
        }
        fields.push(f)
    }
    if r.pct(15) {
        let k = nat(r, 30) % 0xFFFF_FFFF;
        fields.push(field_i(r, k));
        r.shuffle(&mut fields)
    }
    let u = if r.pct(97) {
        let gap = *r.pick(&[" ", " ", "    "]);
        format!("U {}{}{} {:08X}", 1 + r.below(4), gap, 1 + r.below(2), stamp(r))
    } else {
        String::new()
    };
    let n = if r.pct(20) { 1 + some_few(r, 2) } else { 0 };
    let ar: Vec<String> = (0..n)
        .map(|_| format!("AR Path=\"/{:08X}\" Ref=\"{}{}\"  Part=\"{}\" ", stamp(r), "R", r.below(50), 1 + r.below(3)))
        .collect();
    let rot: Vec<i64> = match r.below(3) {
        0 => vec![1, 0, 0, -1],
        1 => r.pick(&[vec![0, 1, 1, 0], vec![-1, 0, 0, 1], vec![0, -1, -1, 0], vec![0, 1, -1, 0]]).clone(),
        _ => (0..4).map(|_| coord(r)).collect(),
    };
    r!("comp"; name: name, reference: reference, u: u, x: int(r), y: int(r), ar: ar, fields: V::L(fields), rot: rot)
}

pub fn sheet(r: &mut Rng) -> V {
    let n = if r.pct(20) { r.below(14) } else { some_few(r, 3) };
    let labels: Vec<V> = (0..n)
        .map(|_| r!("label"; name: lstr(r), form: *r.pick(&["I", "O", "B", "T", "U"]), side: *r.pick(&["L", "R", "T", "B"]), x: int(r), y: int(r), size: coord(r)))
        .collect();
    r!("sheet"; x: int(r), y: int(r), dimx: int(r), dimy: int(r), unique: format!("{:X}", stamp(r)), name: lstr(r), name_size: coord(r),
        filename: lstr(r), filename_size: coord(r), labels: V::L(labels))
}

pub fn sch_text(r: &mut Rng) -> V {
    let t = *r.pick(&["Notes", "GLabel", "HLabel", "Label"]);
    let shape = if t == "GLabel" || t == "HLabel" {
        V::S(if r.pct(85) { r.pick(&["UnSpc", "3State", "Output", "Input", "BiDi"]).to_string() } else { lword(r) })
    } else {
        V::Nil
    };
    let text = match r.below(8) {
        0 => String::new(),
        1 => line(r),
        2 => "multi\\nline \\n text".to_string(),
        3 => format!("  {} ", sstr(r)),
        _ => sstr(r),
    };
    r!("text"; t: t, x: int(r), y: int(r), orientation: nat(r, 3), size: coord(r), shape: shape, italic: r.bool(), thickness: coord(r), text: text)
}

const KNOWN_SCH: &[&str] = &["$Descr", "$Comp", "$Sheet", "$EndSCHEMATC", "Wire", "Connection", "NoConn", "Text"];

/// a top level line that is no known item
pub fn sch_other(r: &mut Rng) -> V {
    loop {
        let s = match r.below(6) {
            0 => r.pick(&["Entry Wire Line", "Entry Bus Bus", "$Bitmap", "$EndBitmap", "Data", "EndData", "Kmarq B 1 2 \"x\" F=2"]).to_string(),
            1 => format!("\t{} {} {} {}", coord(r), coord(r), coord(r), coord(r)),
            2 => {
                let mut s = String::new();
                for _ in 0..r.below(32) + 1 {
                    s.push_str(&format!("{:02X} ", r.below(256)))
                }
                s
            }
            _ => line(r),
        };
        match s.split_whitespace().next() {
            None => continue,
            Some(x) if KNOWN_SCH.contains(&x) => continue,
            _ => (),
        }
        return r!("other"; v: s);
    }
}

pub fn sch_element(r: &mut Rng) -> V {
    match r.below(12) {
        0..=3 => component(r),
        4 | 5 => r!("wire"; t: *r.pick(&["Wire", "Notes", "Bus"]), x1: int(r), y1: int(r), x2: int(r), y2: int(r)),
        6 => r!("conn"; x: int(r), y: int(r)),
        7 => r!("noconn"; x: int(r), y: int(r)),
        8 | 9 => sch_text(r),
        _ => sch_other(r),
    }
}

pub fn description(r: &mut Rng) -> V {
    r!("descr"; size: if r.pct(80) { r.pick(&["A4", "A3", "User", "USLetter"]).to_string() } else { lword(r) }, dimx: int(r), dimy: int(r),
        portrait: r.pct(25), title: lstr(r), date: lstr(r), rev: lstr(r), comp: lstr(r), comment1: lstr(r), comment2: lstr(r),
        comment3: lstr(r), comment4: lstr(r), sheet: int(r), sheet_count: coord(r))
}

pub fn schematic(r: &mut Rng) -> V {
    let n = count(r);
    let elements: Vec<V> = (0..n).map(|_| sch_element(r)).collect();
    let n = if r.pct(40) { some_few(r, 3) } else { 0 };
    let sheets: Vec<V> = (0..n).map(|_| sheet(r)).collect();
    let n = some(r, 4);
    let libs: Vec<String> = (0..n).map(|_| sstr(r)).collect();
    let mut v = r!("sch"; libraries: libs, eelayer: format!("EELAYER {} {}", coord(r), coord(r)), descr: description(r), elements: V::L(elements), sheets: V::L(sheets));
    alike(r, &mut v);
    v
}

// ---------------------------------------------------------------- symbol library

pub fn pin(r: &mut Rng) -> V {
    r!("pin"; name: lword(r), number: lword(r), x: int(r), y: int(r), len: coord(r), orientation: *r.pick(&["U", "D", "L", "R"]),
        num_size: coord(r), name_size: coord(r), unit: nat(r, 4), convert: nat(r, 2),
        type: *r.pick(&["I", "O", "B", "T", "P", "U", "W", "w", "C", "E", "N"]), visible: r.pct(75),
        shape: *r.pick(&["", "", "", "I", "C", "CI", "L", "CL", "V", "F", "X"]))
}

pub fn rect(r: &mut Rng) -> V {
    r!("rect"; x1: int(r), y1: int(r), x2: int(r), y2: int(r), unit: nat(r, 4), convert: nat(r, 2), thickness: coord(r),
        fill: *r.pick(&["F", "f", "N"]))
}

pub fn draw_other(r: &mut Rng) -> V {
    loop {
        let s = match r.below(5) {
            0 => "A 0 0 150 1 1799 0 1 0 N 150 0 -150 0".to_string(),
            1 => format!("P 2 0 1 {} {} {} {} {} N", coord(r), coord(r), coord(r), coord(r), coord(r)),
            2 => format!("T 0 {} {} 60 0 0 0 {} Normal 0 C C", coord(r), coord(r), sword(r)),
            3 => format!("C 0 0 {} 0 1 {} {}", coord(r), coord(r), r.pick(&["N", "F", "f"])),
            _ => line(r),
        };
        if s == "ENDDRAW" || s.starts_with("X ") || s.starts_with("S ") {
            continue;
        }
        return r!("other"; v: s);
    }
}

pub fn sym_field_i(r: &mut Rng, i: i64) -> V {
    let f = field_i(r, i);
    r!("sfield"; i: i, value: f.fs("value"), x: f.fnum("x"), y: f.fnum("y"), dimension: coord(r), orientation: f.fs("orientation"),
        visible: f.fb("visible"), hjustify: f.fs("hjustify"), vjustify: f.fs("vjustify"), italic: f.fb("italic"), bold: f.fb("bold"), name: f.fs("name"))
}

pub fn symbol(r: &mut Rng) -> V {
    let n = if r.pct(80) { 4 + some_few(r, 2) } else { r.below(4) } as i64;
    let mut fields: Vec<V> = (0..n).map(|i| sym_field_i(r, i)).collect();
    if r.pct(15) {
        for _ in 0..1 + r.below(3) {
            let k = nat(r, 30) % 0xFFFF_FFFF;
            fields.push(sym_field_i(r, k))
        }
        if r.pct(30) {
            r.shuffle(&mut fields)
        }
    }
    let n = if r.pct(30) { 1 + some(r, 3) } else { 0 };
    let aliases: Vec<String> = (0..n).map(|_| lword(r)).collect();
    let n = if r.pct(30) { 1 + some(r, 3) } else { 0 };
    let fp: Vec<String> = (0..n)
        .map(|_| loop {
            let w = lword(r);
            if w != "$ENDFPLIST" && w.trim() == w {
                return w;
            }
        })
        .collect();
    let n = count(r);
    let draw: Vec<V> = (0..n)
        .map(|_| match r.below(8) {
            0..=3 => pin(r),
            4 | 5 => rect(r),
            _ => draw_other(r),
        })
        .collect();
    let name = if r.pct(15) { format!("~{}", lword(r)) } else { lword(r) };
    let reference = if r.pct(70) { r.pick(&["U", "R", "#PWR", "#SYM", "Q"]).to_string() } else { lword(r) };
    r!("symbol"; name: name, reference: reference, text_offset: num(r), pinnumber: r.bool(), pinname: r.bool(), unit_count: int(r),
        locked: r.bool(), power: r.bool(), fields: V::L(fields), aliases: aliases, fp: fp, draw: V::L(draw))
}

pub fn symbol_lib(r: &mut Rng) -> V {
    let n = if r.pct(10) { 0 } else { 1 + some_few(r, 3) };
    let v: Vec<V> = (0..n).map(|_| symbol(r)).collect();
    let mut v = r!("lib"; symbols: V::L(v));
    alike(r, &mut v);
    v
}

// ---------------------------------------------------------------- fp-lib-table

pub fn table(r: &mut Rng) -> V {
    let n = count(r);
    let v: Vec<V> = (0..n)
        .map(|_| {
            let uri = match r.below(4) {
                0 => format!("${{KISYSMOD}}/{}.pretty", sword(r)),
                1 => format!("~/kicad/{}", r.below(9)),
                _ => sstr(r),
            };
            r!("entry"; name: sstr(r), type: if r.pct(70) { r.pick(&["KiCad", "Github", "Legacy"]).to_string() } else { sstr(r) }, uri: uri, options: sstr(r), descr: sstr(r))
        })
        .collect();
    let mut v = r!("table"; libs: V::L(v));
    alike(r, &mut v);
    v
}

pub fn render_num_plain(x: f64) -> String {
    format!("{}", x)
}
