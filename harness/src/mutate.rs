//! Damages texts.

use crate::gen;
use crate::rng::Rng;

const TOKENS: &[&str] = &[
    "(", ")", "()", "(())", "\"", "\"\"", "\\", "\\\"", "\n", "\r", "\r\n", "\t", " ", "  ", "", "\0", "\u{feff}", "é", "\u{1F600}", "\u{2028}",
    "0", "-0", "-1", "1", "9223372036854775807", "-9223372036854775808", "99999999999999999999999", "1e308", "1e999", "-1e-400", "nan", "NaN", "inf", "-inf",
    "0x10", "1.", ".5", "+5", "--1", "1e", "abc", "~", "*", "%", "#", "$", "{", "}", "module", "kicad_pcb", "fp_lib_table", "pad", "at", "xy", "pts", "drill",
    "offset", "layers", "layer", "net", "effects", "font", "size", "justify", "mirror", "hide", "locked", "smd", "zone", "polygon", "fill", "keepout", "via", "segment",
    "dimension", "general", "setup", "pcbplotparams", "host", "$Comp", "$EndComp", "$Sheet", "$EndSheet", "$Descr", "$EndDescr", "$EndSCHEMATC", "EESchema",
    "EESchema Schematic File Version 2", "LIBS:", "EELAYER 26 0", "EELAYER END", "EELAYER", "Wire Wire Line", "Text Label", "Text", "Connection ~ 1 2", "NoConn ~", "F 0", "F",
    "F 0 \"\"", "F 0 \"R1\" H 1 2 60  0000 C CNN", "F0", "F1 \"", "S 1 2 3 4", "U 1 1 5", "U", "P", "P 1", "L", "L a", "AR", "DEF", "DEF A U 0 40 Y Y 1 F N", "ENDDEF", "DRAW", "ENDDRAW", "X",
    "X a 1 0 0 0 U 0 0 0 0", "S", "S 0 0", "ALIAS", "ALIAS A B", "$FPLIST", "$ENDFPLIST", "#", "#End Library", "EESchema-LIBRARY Version 2.3", "update=", "update=x\ny", "\"a", "a\"b\"c", "\"a\"b",
    "\t1    0    0    -1", "\t1", "encoding utf-8", "Sheet 1 1", "Title \"", "Comment1", "A4 portrait", "$Descr A4 1 2 portrait", "$Descr",
];

pub fn token(r: &mut Rng) -> String {
    if r.pct(85) {
        r.pick(TOKENS).to_string()
    } else if r.bool() {
        crate::dict::text(r)
    } else {
        gen::sstr(r)
    }
}

/// positions where something may begin: char boundaries, mostly next to separators
fn place(r: &mut Rng, s: &str) -> usize {
    if s.is_empty() {
        return 0;
    }
    let mut p = r.below(s.len() + 1);
    if r.pct(60) {
        let b = s.as_bytes();
        while p < s.len() && !matches!(b[p], b' ' | b'(' | b')' | b'\n' | b'"') {
            p += 1
        }
    }
    while !s.is_char_boundary(p) {
        p += 1
    }
    p
}

fn span(r: &mut Rng, s: &str, max: usize) -> (usize, usize) {
    let a = place(r, s);
    let mut b = (a + r.below(max) + 1).min(s.len());
    while !s.is_char_boundary(b) {
        b += 1
    }
    (a, b)
}

fn word(r: &mut Rng, s: &str) -> (usize, usize) {
    let a = place(r, s);
    let sep = |c: char| c == ' ' || c == '(' || c == ')' || c == '\n';
    let a = a + s[a..].find(|c| !sep(c)).unwrap_or(0);
    let b = a + s[a..].find(sep).unwrap_or(s.len() - a);
    (a, b)
}

fn line(r: &mut Rng, s: &str) -> (usize, usize) {
    let p = place(r, s);
    let a = s[..p].rfind('\n').map(|x| x + 1).unwrap_or(0);
    let b = s[p..].find('\n').map(|x| p + x + 1).unwrap_or(s.len());
    (a, b)
}

/// one random change
pub fn change(r: &mut Rng, s: &str, other: &str) -> String {
    let cut = |(a, b): (usize, usize), t: &str| format!("{}{}{}", &s[..a], t, &s[b..]);
    match r.below(22) {
        0 => s[..place(r, s)].to_string(),
        1 => s[place(r, s)..].to_string(),
        2 => cut(span(r, s, 3), ""),
        3 => cut(span(r, s, 200), ""),
        4 => {
            let p = place(r, s);
            let t = token(r);
            cut((p, p), &t)
        }
        5 | 6 => {
            let t = token(r);
            cut(word(r, s), &t)
        }
        7 => cut(word(r, s), ""),
        8 => cut(line(r, s), ""),
        9 => {
            let (a, b) = line(r, s);
            let t = s[a..b].to_string();
            let p = line(r, s).0;
            cut((p, p), &t)
        }
        10 => {
            let t = format!("{}\n", token(r));
            let p = line(r, s).0;
            cut((p, p), &t)
        }
        11 => {
            // shorten a line
            let (a, b) = line(r, s);
            let t = &s[a..b];
            let w: Vec<&str> = t.split(' ').collect();
            let n = r.below(w.len() + 1);
            let t = format!("{}\n", w[..n].join(" "));
            cut((a, b), &t)
        }
        12 => {
            let (a, b) = span(r, other, 300);
            let t = other[a..b].to_string();
            cut(span(r, s, 60), &t)
        }
        13 => {
            let (a, b) = span(r, s, 400);
            let t = s[a..b].to_string();
            let p = place(r, s);
            cut((p, p), &t)
        }
        14 => {
            let n = 1 + r.below(300);
            let t = r.pick(&["(", ")", "(a ", " ", "\n", "\"", "\\", "(at 1 ", "9"]).repeat(n);
            let p = place(r, s);
            cut((p, p), &t)
        }
        15..=19 => {
            // a number becomes an extreme one
            let mut w = word(r, s);
            for _ in 0..30 {
                if s[w.0..w.1].parse::<f64>().is_ok() {
                    break;
                }
                w = word(r, s)
            }
            let t = if s[w.0..w.1].parse::<i64>().is_ok() {
                *r.pick(&["9223372036854775807", "-9223372036854775808", "0", "-1", "4294967296", "9223372036854775708", "-9223372036854775709", "1"])
            } else {
                *r.pick(&["1e308", "-1e308", "nan", "inf", "-inf", "0", "-0", "1e-320", "360", "-360", "720.5", "9007199254740993"])
            };
            cut(w, t)
        }
        _ => {
            // two words trade places
            let (a, b) = word(r, s);
            let (x, y) = word(r, s);
            if b <= x {
                format!("{}{}{}{}{}", &s[..a], &s[x..y], &s[b..x], &s[a..b], &s[y..])
            } else if y <= a {
                format!("{}{}{}{}{}", &s[..x], &s[a..b], &s[y..a], &s[x..y], &s[b..])
            } else {
                cut((a, b), "")
            }
        }
    }
}

/// text made of tokens only
pub fn soup(r: &mut Rng) -> String {
    let n = r.below(60);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&token(r));
        s.push_str(*r.pick(&["", " ", " ", "\n", " ("]))
    }
    s
}

/// extreme texts: deep or wide or long
pub fn extreme(r: &mut Rng) -> String {
    let n = *r.pick(&[150usize, 198, 205, 260, 1_000, 5_000, 20_000, 100_000]);
    match r.below(12) {
        0 => "(".repeat(n),
        1 => format!("{}{}", "(".repeat(n), ")".repeat(n)),
        2 => format!("(kicad_pcb {}x{})", "(a ".repeat(n), ")".repeat(n)),
        3 => format!("(module a {}x{})", "(fp_text ".repeat(n), ")".repeat(n)),
        4 => format!("(kicad_pcb (zone (net 0) (net_name a) (layer F.Cu) (tstamp 0) (hatch edge 0.5) (connect_pads (clearance 1)) (min_thickness 1) (fill (arc_segments 16) (thermal_gap 1) (thermal_bridge_width 1)) {}x{}))", "(b ".repeat(n), ")".repeat(n)),
        5 => format!("(module {} (layer F.Cu))", "x".repeat(n)),
        6 => format!("(module a (fp_poly (pts {}) (layer F.Cu) (width 1)))", "(xy 1 2)".repeat(n / 8 + 1)),
        7 => format!("EESchema Schematic File Version 2\nEELAYER 26 0\nEELAYER END\n{}", "$Comp\n".repeat(n / 4)),
        8 => format!("EESchema-LIBRARY Version 2.3\n{}", "DEF A U 0 40 Y Y 1 F N\n".repeat(n / 8 + 1)),
        9 => format!("(fp_lib_table {})", "(lib (name a)".repeat(n / 4)),
        10 => format!("EESchema Schematic File Version 2\n{}\n", "\"".repeat(n)),
        _ => format!("(kicad_pcb \"{}\" {})", "\\".repeat(n), ")".repeat(n)),
    }
}
