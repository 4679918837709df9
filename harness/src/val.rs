//! Library-independent observed or expected values.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    /// Unspecified: matches everything.
    Any,
    /// One of several is right, whichever.
    OneOf(Vec<Val>),
    None,
    S(String),
    B(Vec<u8>),
    N(i64),
    L(Vec<Val>),
    T(&'static str, Vec<Val>),
    M(BTreeMap<String, Val>),
    Rec(Vec<(&'static str, Val)>),
}
use Val::*;

impl Val {
    pub fn s(s: &str) -> Val {
        S(s.to_string())
    }
    pub fn strs(v: &[String]) -> Val {
        L(v.iter().map(|s| Val::s(s)).collect())
    }
    pub fn opt(v: Option<Val>) -> Val {
        match v {
            Some(v) => T("Some", vec![v]),
            Option::None => None,
        }
    }
    pub fn has_any(&self) -> bool {
        match self {
            Any => true,
            L(v) | T(_, v) | OneOf(v) => v.iter().any(|v| v.has_any()),
            M(m) => m.values().any(|v| v.has_any()),
            Rec(m) => m.iter().any(|v| v.1.has_any()),
            _ => false,
        }
    }
    pub fn get(&self, name: &str) -> Option<&Val> {
        match self {
            Rec(m) => m.iter().find(|(n, _)| *n == name).map(|(_, v)| v),
            _ => Option::None,
        }
    }
    pub fn tag(&self) -> &'static str {
        match self {
            T(t, _) => t,
            _ => "",
        }
    }
    pub fn items(&self) -> &[Val] {
        match self {
            T(_, v) | L(v) => v,
            _ => &[],
        }
    }
    pub fn short(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            let l = s.len();
            s.truncate(n);
            let _ = write!(s, "...({} bytes)", l);
        }
        s
    }
    pub fn full(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, o: &mut String) {
        match self {
            Any => o.push_str("<any>"),
            OneOf(v) => {
                o.push_str("one of ");
                L(v.clone()).write(o);
            }
            None => o.push_str("-"),
            S(s) => {
                let _ = write!(o, "{:?}", s);
            }
            B(b) => {
                o.push_str("b\"");
                for c in b {
                    for c in std::ascii::escape_default(*c) {
                        o.push(c as char);
                    }
                }
                o.push('"');
            }
            N(n) => {
                let _ = write!(o, "{}", n);
            }
            L(v) => {
                o.push('[');
                for (i, v) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    v.write(o);
                }
                o.push(']');
            }
            T(t, v) => {
                o.push_str(t);
                o.push('(');
                for (i, v) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    v.write(o);
                }
                o.push(')');
            }
            M(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    let _ = write!(o, "{:?}: ", k);
                    v.write(o);
                }
                o.push('}');
            }
            Rec(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    let _ = write!(o, "{}: ", k);
                    v.write(o);
                }
                o.push('}');
            }
        }
    }
}

/// First difference between an expected and an observed value: (path, expected, observed).
pub fn diff(expected: &Val, got: &Val) -> Option<(String, String, String)> {
    let mut path = String::new();
    diff_at(expected, got, &mut path)
}

fn diff_at(e: &Val, g: &Val, path: &mut String) -> Option<(String, String, String)> {
    let here = |path: &String| Some((path.clone(), e.short(), g.short()));
    match (e, g) {
        (Any, _) | (_, Any) => Option::None,
        (OneOf(v), g) => {
            if v.iter().any(|e| diff(e, g).is_none()) {
                Option::None
            } else {
                here(path)
            }
        }
        (e, OneOf(v)) => {
            if v.iter().any(|g| diff(e, g).is_none()) {
                Option::None
            } else {
                here(path)
            }
        }
        (L(a), L(b)) => {
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                let l = path.len();
                let _ = write!(path, "[{}]", i);
                if let Some(d) = diff_at(x, y, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            if a.len() != b.len() {
                return Some((format!("{}.len", path), format!("{} in {}", a.len(), e.short()), format!("{} in {}", b.len(), g.short())));
            }
            Option::None
        }
        (T(t, a), T(u, b)) => {
            if t != u || a.len() != b.len() {
                return here(path);
            }
            for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
                let l = path.len();
                let _ = write!(path, "/{}.{}", t, i);
                if let Some(d) = diff_at(x, y, path) {
                    return Some(d);
                }
                path.truncate(l);
            }
            Option::None
        }
        (M(a), M(b)) => {
            for (k, x) in a {
                match b.get(k) {
                    Some(y) => {
                        let l = path.len();
                        let _ = write!(path, "{{{}}}", k);
                        if let Some(d) = diff_at(x, y, path) {
                            return Some(d);
                        }
                        path.truncate(l);
                    }
                    Option::None => return here(path),
                }
            }
            if a.len() != b.len() {
                return here(path);
            }
            Option::None
        }
        (Rec(a), Rec(b)) => {
            for (k, x) in a {
                if let Some((_, y)) = b.iter().find(|(n, _)| n == k) {
                    let l = path.len();
                    let _ = write!(path, ".{}", k);
                    if let Some(d) = diff_at(x, y, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                } else {
                    return here(path);
                }
            }
            if a.len() != b.len() {
                return here(path);
            }
            Option::None
        }
        (S(a), S(b)) => {
            if a == b {
                return Option::None;
            }
            if a.len() < 300 && b.len() < 300 {
                return here(path);
            }
            let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
            let w = |v: &String| v.chars().skip(i.saturating_sub(30)).take(120).collect::<String>();
            Some((format!("{}@{}", path, i), format!("len {} ..{:?}", a.len(), w(a)), format!("len {} ..{:?}", b.len(), w(b))))
        }
        (B(a), B(b)) => {
            if a == b {
                return Option::None;
            }
            let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
            let lo = i.saturating_sub(20);
            let w = |v: &Vec<u8>| B(v[lo..v.len().min(i + 60)].to_vec()).short();
            Some((format!("{}@{}", path, i), format!("len {} ..{}", a.len(), w(a)), format!("len {} ..{}", b.len(), w(b))))
        }
        _ => {
            if e == g {
                Option::None
            } else {
                here(path)
            }
        }
    }
}
