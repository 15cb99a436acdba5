//! Own S-expression tree, tokenizer and renderer.

use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Sx {
    /// keyword or number: always written bare
    A(String),
    /// string value: may be written quoted
    Q(String),
    L(Vec<Sx>),
}

impl PartialEq for Sx {
    fn eq(&self, o: &Sx) -> bool {
        match (self, o) {
            (Sx::L(a), Sx::L(b)) => a == b,
            (Sx::L(_), _) | (_, Sx::L(_)) => false,
            (a, b) => a.text() == b.text(),
        }
    }
}

pub fn a<T: Into<String>>(s: T) -> Sx {
    Sx::A(s.into())
}
pub fn q<T: Into<String>>(s: T) -> Sx {
    Sx::Q(s.into())
}
pub fn l(name: &str, mut rest: Vec<Sx>) -> Sx {
    let mut v = vec![a(name)];
    v.append(&mut rest);
    Sx::L(v)
}

impl Sx {
    pub fn text(&self) -> &str {
        match *self {
            Sx::A(ref s) | Sx::Q(ref s) => s,
            Sx::L(_) => panic!("text of a list"),
        }
    }
    pub fn atom(&self) -> Option<&str> {
        match *self {
            Sx::A(ref s) | Sx::Q(ref s) => Some(s),
            Sx::L(_) => None,
        }
    }
    pub fn list(&self) -> Option<&Vec<Sx>> {
        match *self {
            Sx::L(ref v) => Some(v),
            _ => None,
        }
    }
    pub fn head(&self) -> &str {
        match *self {
            Sx::L(ref v) => v.first().and_then(|x| x.atom()).unwrap_or(""),
            _ => "",
        }
    }
    /// unambiguous flat text, for hashing and messages
    pub fn flat(&self) -> String {
        let mut s = String::new();
        self.flat_in(&mut s);
        s
    }
    fn flat_in(&self, o: &mut String) {
        match *self {
            Sx::A(ref s) | Sx::Q(ref s) => o.push_str(&format!("{:?}", s)),
            Sx::L(ref v) => {
                o.push('(');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(' ')
                    }
                    x.flat_in(o)
                }
                o.push(')')
            }
        }
    }
}

/// a token of the text, with whether it was quoted
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Open,
    Close,
    Atom(String, bool),
}

/// split a text into tokens; whitespace separates
pub fn tokens(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let mut sep = true;
    while i < c.len() {
        match c[i] {
            ' ' | '\n' | '\r' | '\t' => {
                sep = true;
                i += 1
            }
            '(' => {
                v.push(Tok::Open);
                sep = true;
                i += 1
            }
            ')' => {
                v.push(Tok::Close);
                sep = true;
                i += 1
            }
            '"' => {
                if !sep {
                    return Err(format!("values run together at char {}", i));
                }
                let mut t = String::new();
                let mut esc = false;
                i += 1;
                loop {
                    if i >= c.len() {
                        return Err("unterminated string".into());
                    }
                    if c[i] == '"' && !esc {
                        break;
                    }
                    esc = c[i] == '\\';
                    t.push(c[i]);
                    i += 1
                }
                i += 1;
                v.push(Tok::Atom(t, true));
                sep = false
            }
            _ => {
                if !sep {
                    return Err(format!("values run together at char {}", i));
                }
                let mut t = String::new();
                while i < c.len() && !matches!(c[i], ' ' | '(' | ')' | '\r' | '\n' | '\t') {
                    t.push(c[i]);
                    i += 1
                }
                v.push(Tok::Atom(t, false));
                sep = false
            }
        }
    }
    Ok(v)
}

/// read a text that must consist of exactly one expression
pub fn read(s: &str) -> Result<Sx, String> {
    let t = tokens(s)?;
    let mut stack: Vec<Vec<Sx>> = vec![];
    let mut done: Option<Sx> = None;
    for x in t {
        if done.is_some() {
            return Err("text after the expression".into());
        }
        match x {
            Tok::Open => stack.push(vec![]),
            Tok::Close => match stack.pop() {
                None => return Err("closing parenthesis without opening one".into()),
                Some(v) => {
                    let e = Sx::L(v);
                    match stack.last_mut() {
                        Some(p) => p.push(e),
                        None => done = Some(e),
                    }
                }
            },
            Tok::Atom(t, quoted) => {
                let e = if quoted { Sx::Q(t) } else { Sx::A(t) };
                match stack.last_mut() {
                    Some(p) => p.push(e),
                    None => return Err("atom outside of the expression".into()),
                }
            }
        }
    }
    match done {
        Some(e) => Ok(e),
        None => Err("unclosed expression".into()),
    }
}

pub fn must_quote(s: &str) -> bool {
    s.is_empty() || s.starts_with('"') || s.chars().any(|c| matches!(c, ' ' | '(' | ')' | '\t'))
}

pub fn can_quote(s: &str) -> bool {
    if s.ends_with('\\') {
        return false;
    }
    let mut esc = false;
    for c in s.chars() {
        if c == '"' && !esc {
            return false;
        }
        esc = c == '\\';
    }
    true
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Compact,
    Kicad,
    Loose,
    Crlf,
}

pub fn any_style(r: &mut Rng) -> Style {
    *r.pick(&[Style::Compact, Style::Kicad, Style::Loose, Style::Loose, Style::Crlf])
}

pub fn emit(sx: &Sx, r: &mut Rng, style: Style) -> String {
    let mut o = String::new();
    emit_in(sx, r, style, 0, &mut o);
    match style {
        Style::Compact => (),
        Style::Crlf => o.push_str("\r\n"),
        Style::Kicad => o.push('\n'),
        Style::Loose => for _ in 0..r.below(3) {
            o.push_str(*r.pick(&["\n", " ", "\r\n", "\t"]))
        },
    }
    o
}

/// white space before the next item; `tab` when a tab may come first
fn ws(r: &mut Rng, style: Style, depth: usize, tab: bool, o: &mut String) {
    match style {
        Style::Compact => o.push(' '),
        Style::Kicad => if depth <= 2 && r.pct(70) {
            o.push('\n');
            for _ in 0..depth {
                o.push_str("  ")
            }
        } else {
            o.push(' ')
        },
        Style::Crlf => if r.pct(30) {
            o.push_str("\r\n  ")
        } else {
            o.push(' ')
        },
        Style::Loose => {
            let first: &[&str] = if tab { &[" ", "\t", "\n", "  ", " \t "] } else { &[" ", "\n", "\n\t", "  ", "\r\n"] };
            o.push_str(*r.pick(first));
            while r.pct(15) {
                o.push_str(*r.pick(&[" ", "\n", "  "]))
            }
        }
    }
}

fn emit_in(sx: &Sx, r: &mut Rng, style: Style, depth: usize, o: &mut String) {
    match *sx {
        Sx::A(ref s) => o.push_str(s),
        Sx::Q(ref s) => {
            let quote = must_quote(s) || (can_quote(s) && r.pct(30));
            if quote {
                assert!(can_quote(s), "generator produced an unrepresentable string {:?}", s);
                o.push('"');
                o.push_str(s);
                o.push('"')
            } else {
                o.push_str(s)
            }
        }
        Sx::L(ref v) => {
            o.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    let prev_list = matches!(v[i - 1], Sx::L(_));
                    let this_list = matches!(*x, Sx::L(_));
                    if prev_list && this_list && style != Style::Kicad && r.pct(15) {
                        // lists may touch
                    } else {
                        ws(r, style, depth + 1, prev_list, o)
                    }
                }
                emit_in(x, r, style, depth + 1, o)
            }
            if style == Style::Loose && r.pct(8) {
                o.push_str(if matches!(v.last(), Some(&Sx::L(_))) { *r.pick(&[" ", "\n", "\t"]) } else { *r.pick(&[" ", "\n"]) })
            } else if style == Style::Kicad && depth <= 1 && matches!(v.last(), Some(&Sx::L(_))) && r.bool() {
                o.push('\n');
                for _ in 0..depth {
                    o.push_str("  ")
                }
            }
            o.push(')')
        }
    }
}
