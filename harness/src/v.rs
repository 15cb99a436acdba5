//! The reference model: a plain tree of records, independent of the library.

use crate::sx::Sx;

#[derive(Clone, Debug)]
pub enum V {
    Nil,
    N(f64),
    I(i64),
    S(String),
    B(bool),
    L(Vec<V>),
    R(&'static str, Vec<(&'static str, V)>),
    X(Sx),
}

#[macro_export]
macro_rules! r {
    ($name:expr $(; $($f:ident : $v:expr),* $(,)?)?) => {
        $crate::v::V::R($name, vec![$($((stringify!($f), $crate::v::V::from($v))),*)?])
    };
}

impl From<f64> for V {
    fn from(x: f64) -> V {
        V::N(x)
    }
}
impl From<i64> for V {
    fn from(x: i64) -> V {
        V::I(x)
    }
}
impl From<bool> for V {
    fn from(x: bool) -> V {
        V::B(x)
    }
}
impl From<String> for V {
    fn from(x: String) -> V {
        V::S(x)
    }
}
impl<'a> From<&'a String> for V {
    fn from(x: &'a String) -> V {
        V::S(x.clone())
    }
}
impl<'a> From<&'a str> for V {
    fn from(x: &'a str) -> V {
        V::S(x.to_string())
    }
}
impl<T: Into<V>> From<Vec<T>> for V {
    fn from(x: Vec<T>) -> V {
        V::L(x.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<V>> From<Option<T>> for V {
    fn from(x: Option<T>) -> V {
        match x {
            Some(x) => x.into(),
            None => V::Nil,
        }
    }
}
impl From<Sx> for V {
    fn from(x: Sx) -> V {
        V::X(x)
    }
}

fn same_num(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if tol == 0.0 || !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs()).max(1.0)
}

impl V {
    pub fn kind(&self) -> &'static str {
        match *self {
            V::R(n, _) => n,
            _ => "",
        }
    }
    pub fn has(&self, f: &str) -> bool {
        match *self {
            V::R(_, ref v) => v.iter().any(|x| x.0 == f),
            _ => false,
        }
    }
    pub fn g(&self, f: &str) -> &V {
        match *self {
            V::R(n, ref v) => match v.iter().find(|x| x.0 == f) {
                Some(x) => &x.1,
                None => panic!("no field {} in {}", f, n),
            },
            _ => panic!("field {} of non record {:?}", f, self),
        }
    }
    pub fn gm(&mut self, f: &str) -> &mut V {
        match *self {
            V::R(n, ref mut v) => match v.iter_mut().find(|x| x.0 == f) {
                Some(x) => &mut x.1,
                None => panic!("no field {} in {}", f, n),
            },
            _ => panic!("field {} of non record", f),
        }
    }
    pub fn set<T: Into<V>>(&mut self, f: &str, v: T) {
        *self.gm(f) = v.into()
    }
    pub fn n(&self) -> f64 {
        match *self {
            V::N(x) => x,
            _ => panic!("not a number: {:?}", self),
        }
    }
    pub fn i(&self) -> i64 {
        match *self {
            V::I(x) => x,
            _ => panic!("not an integer: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match *self {
            V::S(ref x) => x,
            _ => panic!("not a string: {:?}", self),
        }
    }
    pub fn b(&self) -> bool {
        match *self {
            V::B(x) => x,
            _ => panic!("not a bool: {:?}", self),
        }
    }
    pub fn l(&self) -> &Vec<V> {
        match *self {
            V::L(ref x) => x,
            _ => panic!("not a list: {:?}", self),
        }
    }
    pub fn lm(&mut self) -> &mut Vec<V> {
        match *self {
            V::L(ref mut x) => x,
            _ => panic!("not a list"),
        }
    }
    pub fn is_nil(&self) -> bool {
        matches!(*self, V::Nil)
    }
    pub fn fs(&self, f: &str) -> &str {
        self.g(f).s()
    }
    pub fn fnum(&self, f: &str) -> f64 {
        self.g(f).n()
    }
    pub fn fb(&self, f: &str) -> bool {
        self.g(f).b()
    }
    pub fn fi(&self, f: &str) -> i64 {
        self.g(f).i()
    }

    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        self.hash_in(&mut h);
        h
    }
    fn hash_in(&self, h: &mut u64) {
        fn add(h: &mut u64, b: &[u8]) {
            for x in b {
                *h ^= u64::from(*x);
                *h = h.wrapping_mul(0x100000001b3);
            }
            *h = h.rotate_left(5).wrapping_mul(0x9E3779B97F4A7C15)
        }
        match *self {
            V::Nil => add(h, b"nil"),
            V::N(x) => add(h, &x.to_bits().to_le_bytes()),
            V::I(x) => add(h, &x.to_le_bytes()),
            V::S(ref s) => add(h, s.as_bytes()),
            V::B(b) => add(h, &[b as u8]),
            V::L(ref v) => {
                add(h, b"[");
                for x in v {
                    x.hash_in(h)
                }
                add(h, b"]")
            }
            V::R(n, ref v) => {
                add(h, n.as_bytes());
                for x in v {
                    x.1.hash_in(h)
                }
                add(h, b"}")
            }
            V::X(ref s) => add(h, s.flat().as_bytes()),
        }
    }

    /// the number of leaf values
    pub fn leaves(&self) -> usize {
        match *self {
            V::L(ref v) => v.iter().map(V::leaves).sum(),
            V::R(_, ref v) => v.iter().map(|x| x.1.leaves()).sum::<usize>() + 1,
            _ => 1,
        }
    }
}

/// first difference between an expected and an observed value
pub fn diff(exp: &V, got: &V, tol: f64) -> Option<String> {
    diff_at(exp, got, tol, &mut String::new())
}

pub fn brief(v: &V) -> String {
    let s = format!("{:?}", v);
    clip(&s, 300)
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        let t: String = s.chars().take(n).collect();
        format!("{}…", t)
    } else {
        s.to_string()
    }
}

fn diff_at(exp: &V, got: &V, tol: f64, path: &mut String) -> Option<String> {
    let bad = |path: &String| Some(format!("at {}: expected {} observed {}", path, brief(exp), brief(got)));
    match (exp, got) {
        (V::Nil, V::Nil) => None,
        (V::N(a), V::N(b)) => if same_num(*a, *b, tol) {
            None
        } else {
            bad(path)
        },
        (V::I(a), V::I(b)) if a == b => None,
        (V::S(a), V::S(b)) if a == b => None,
        (V::B(a), V::B(b)) if a == b => None,
        (V::X(a), V::X(b)) if a == b => None,
        (V::L(a), V::L(b)) => {
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                let n = path.len();
                path.push_str(&format!("[{}]", i));
                if let Some(d) = diff_at(x, y, tol, path) {
                    return Some(d);
                }
                path.truncate(n);
            }
            if a.len() != b.len() {
                return Some(format!("at {}: expected {} items, observed {}", path, a.len(), b.len()));
            }
            None
        }
        (V::R(n1, a), V::R(n2, b)) => {
            if n1 != n2 || a.len() != b.len() {
                return bad(path);
            }
            for (x, y) in a.iter().zip(b.iter()) {
                if x.0 != y.0 {
                    panic!("field order {} {} in {}", x.0, y.0, n1)
                }
                let n = path.len();
                path.push_str(&format!("/{}.{}", n1, x.0));
                if let Some(d) = diff_at(&x.1, &y.1, tol, path) {
                    return Some(d);
                }
                path.truncate(n);
            }
            None
        }
        _ => bad(path),
    }
}
