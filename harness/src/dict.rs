//! Dictionary of the workload: the texts and numbers that the library's own source mentions, read
//! from the tree under test. They only feed the generators, no verdict depends on them.

use crate::rng::Rng;
use std::fs;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
struct Dict {
    strs: Vec<String>,
    ints: Vec<i64>,
    nums: Vec<f64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn files(dir: &Path, v: &mut Vec<std::path::PathBuf>) {
    if let Ok(d) = fs::read_dir(dir) {
        for e in d.flatten() {
            let p = e.path();
            if p.is_dir() {
                files(&p, v)
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                v.push(p)
            }
        }
    }
}

fn scan(s: &str, d: &mut Dict) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut word = false;
    while i < c.len() {
        let x = c[i];
        if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1
            }
            i += 2
        } else if x == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' && i + 1 < c.len() {
                    i += 1;
                    match c[i] {
                        'n' => t.push('\n'),
                        't' => t.push('\t'),
                        'r' => t.push('\r'),
                        'u' | 'x' | '\n' => t.push('\n'),
                        y => t.push(y),
                    }
                } else {
                    t.push(c[i])
                }
                i += 1
            }
            i += 1;
            // parts of format strings count by themselves
            for p in t.split(|c| c == '\n' || c == '\r' || c == '{' || c == '}' || c == '"') {
                if !p.is_empty() && p.chars().count() <= 24 {
                    d.strs.push(p.to_string())
                }
            }
        } else if x == '\'' {
            if c.get(i + 1) == Some(&'\\') && c.get(i + 3) == Some(&'\'') {
                i += 4
            } else if c.get(i + 2) == Some(&'\'') {
                if c[i + 1] != '"' {
                    d.strs.push(c[i + 1].to_string())
                }
                i += 3
            } else {
                i += 1
            }
        } else if x.is_ascii_digit() && !word {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] == '.' && c.get(i + 1).map(|x| x.is_ascii_digit()).unwrap_or(false))) {
                if c[i] != '_' {
                    t.push(c[i])
                }
                if (c[i] == 'e' || c[i] == 'E') && !t.starts_with("0x") && (c.get(i + 1) == Some(&'-') || c.get(i + 1) == Some(&'+')) {
                    i += 1;
                    t.push(c[i])
                }
                i += 1
            }
            for suffix in &["i64", "u64", "i32", "u32", "usize", "u8", "f64", "u16"] {
                if t.ends_with(suffix) {
                    t.truncate(t.len() - suffix.len())
                }
            }
            if t.starts_with("0x") {
                if let Ok(x) = i64::from_str_radix(&t[2..], 16) {
                    d.ints.push(x)
                }
            } else if let Ok(x) = t.parse::<i64>() {
                d.ints.push(x)
            } else if let Ok(x) = t.parse::<f64>() {
                if x.is_finite() {
                    d.nums.push(x)
                }
            }
            word = true;
            continue;
        } else {
            word = x.is_ascii_alphanumeric() || x == '_';
            i += 1;
            continue;
        }
        word = false
    }
}

fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut v = vec![];
        files(Path::new("/repo/src"), &mut v);
        v.sort();
        let mut d = Dict::default();
        for f in v {
            if let Ok(s) = fs::read_to_string(&f) {
                scan(&s, &mut d)
            }
        }
        d.strs.push("x".to_string());
        d.ints.push(0);
        d.strs.sort();
        d.strs.dedup();
        d.ints.sort();
        d.ints.dedup();
        let f: Vec<f64> = d.ints.iter().map(|x| *x as f64).collect();
        d.nums.extend(f);
        d.nums.sort_by(|a, b| a.partial_cmp(b).unwrap());
        d.nums.dedup();
        d
    })
}

/// a text that the source mentions
pub fn word(r: &mut Rng) -> &'static str {
    let d = dict();
    &d.strs[r.below(d.strs.len())]
}

/// a text made with one that the source mentions
pub fn text(r: &mut Rng) -> String {
    let w = word(r);
    match r.below(8) {
        0 => format!("{}{}", w, r.pick(&["1", "x", "_a", " ", "-2", "data"])),
        1 => format!("{}{}", r.pick(&["1", "x", "a_", " ", "-", "10"]), w),
        2 => w.to_uppercase(),
        3 => w.to_lowercase(),
        4 => format!("{}{}{}", r.pick(&["a", "R1", ""]), w, r.pick(&["b", "2", " c"])),
        _ => w.to_string(),
    }
}

/// an integer at or next to one that the source mentions
pub fn int(r: &mut Rng) -> i64 {
    let d = dict();
    let x = d.ints[r.below(d.ints.len())];
    let x = match r.below(6) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => x.wrapping_mul(2),
        _ => x,
    };
    if r.pct(20) {
        x.wrapping_neg()
    } else {
        x
    }
}

/// a number at or next to one that the source mentions
pub fn num(r: &mut Rng) -> f64 {
    let d = dict();
    let x = d.nums[r.below(d.nums.len())];
    let x = match r.below(8) {
        0 => x + 0.001,
        1 => x - 0.001,
        2 => x * 2.0,
        3 => x / 2.0,
        4 => x + 1.0,
        _ => x,
    };
    if r.pct(20) {
        -x
    } else {
        x
    }
}

/// a length or count at or next to a number that the source mentions
pub fn size(r: &mut Rng, cap: usize) -> usize {
    let d = dict();
    let v: Vec<i64> = d.ints.iter().cloned().filter(|x| *x > 1 && *x <= cap as i64).collect();
    if v.is_empty() {
        return r.below(cap);
    }
    let x = v[r.below(v.len())] as usize;
    match r.below(5) {
        0 => x + 1,
        1 => x - 1,
        _ => x,
    }
}

pub fn sizes() -> (usize, usize, usize) {
    let d = dict();
    (d.strs.len(), d.ints.len(), d.nums.len())
}
