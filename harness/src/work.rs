//! Shared pieces of the workloads.
use crate::ctx::*;
use crate::gen::{Case, G};
use crate::obs::Cx;
use crate::refp::{self, Cfg};
use crate::val::{Val, Val::*};

pub fn real_email(b: &[u8]) -> Val {
    guard_val(|| Cx::new().parse(b))
}
pub fn real_message(b: &[u8]) -> Val {
    guard_val(|| Cx::new().message(b))
}

pub const DATE: &str = "Date: Thu, 1 Jan 2015 10:20:30 -0545\r\n";
pub const FROM: &str = "From: author@example.org\r\n";

pub fn date_val() -> Val {
    T("Date", vec![refp::Dt { weekday: Some(4), day: 1, month: 1, year: 2015, hour: 10, minute: 20, second: 30, sign: false, zone: (5, 45) }.val()])
}
pub fn addr_val(l: &str, d: &str) -> Val {
    T("Addr", vec![Val::s(l), Val::s(d)])
}
pub fn mbox_val(name: Option<&[&str]>, l: &str, d: &str) -> Val {
    let n = Val::opt(name.map(|n| L(n.iter().map(|w| Val::s(w)).collect())));
    T("Mailbox", vec![n, addr_val(l, d)])
}
pub fn from_val() -> Val {
    T("From", vec![L(vec![mbox_val(Option::None, "author", "example.org")])])
}
pub type Line = (Vec<u8>, Val);

/// A message made of the given header lines plus what a message needs.
pub fn frame(g: &mut G, test: Vec<Line>, body: Option<Vec<u8>>) -> Case {
    frame_with(g, Vec::new(), Vec::new(), test, body)
}
pub fn frame_with(g: &mut G, head: Vec<u8>, blocks: Vec<Val>, test: Vec<Line>, body: Option<Vec<u8>>) -> Case {
    let mut lines = test;
    let authors = match lines.iter().find(|l| l.1.tag() == "From") {
        Some(l) => l.1.items()[0].items().len(),
        Option::None => {
            lines.push((FROM.into(), from_val()));
            1
        }
    };
    if authors != 1 && !lines.iter().any(|l| l.1.tag() == "Sender") {
        lines.push((b"Sender: s@t\r\n".to_vec(), T("Sender", vec![mbox_val(Option::None, "s", "t")])));
    }
    if !lines.iter().any(|l| l.1.tag() == "Date") {
        lines.push((DATE.into(), date_val()));
    }
    for _ in 0..g.r.below(5).saturating_sub(2) {
        let mut o = Vec::new();
        let v = g.other_header(&mut o, false);
        lines.push((o, v));
    }
    g.r.shuffle(&mut lines);
    let mut bytes = head.clone();
    let mut fields = blocks;
    for (l, f) in &lines {
        bytes.extend_from_slice(l);
        fields.push(f.clone());
    }
    if let Some(b) = &body {
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(b);
    }
    Case { bytes, fields, body, head, lines, parsed: Option::None }
}

/// Compares both entry points with the model (and the reference).
pub fn check_case(c: &mut Ctx, case: &Case) -> bool {
    let cfg = c.cfg.clone();
    c.eval(&case.bytes, true);
    let m = case.message_val(&cfg);
    let got = real_message(&case.bytes);
    let a = c.expect_model("parse_message", &case.bytes, &m, || refp::message(&case.bytes, &cfg), &got);
    let m = case.email_val(&cfg);
    let got = real_email(&case.bytes);
    a && c.expect_model("Email::parse", &case.bytes, &m, || refp::email(&case.bytes, &cfg), &got)
}

/// The part of an observation that concerns some fields: what does not is erased.
pub fn project_message(v: &Val, tags: &[&str]) -> Val {
    match v {
        T("Message", p) => T("Message", vec![L(p[0].items().iter().filter(|f| tags.contains(&f.tag())).cloned().collect()), Any]),
        v => v.clone(),
    }
}
pub fn project_email(v: &Val, names: &[&str]) -> Val {
    match v {
        T("Email", p) => match &p[0] {
            Rec(r) => {
                let mut out = Vec::new();
                for (n, x) in r {
                    if names.contains(n) {
                        out.push((*n, x.clone()));
                    } else if *n == "entity" {
                        if let Rec(e) = x {
                            for n in names.iter().filter_map(|n| n.strip_prefix("entity.")) {
                                out.extend(e.iter().filter(|(m, _)| *m == n).cloned());
                            }
                        } else {
                            out.push((*n, x.clone()));
                        }
                    }
                }
                T("Email", vec![Rec(out)])
            }
            x => x.clone(),
        },
        v => v.clone(),
    }
}
/// A complete message, of which only some fields are compared.
pub fn check_projected(c: &mut Ctx, case: &Case, tags: &[&str], names: &[&str]) {
    let cfg = c.cfg.clone();
    c.eval(&case.bytes, true);
    let m = project_message(&case.message_val(&cfg), tags);
    let got = project_message(&real_message(&case.bytes), tags);
    c.expect_model("parse_message", &case.bytes, &m, || project_message(&refp::message(&case.bytes, &cfg), tags), &got);
    let m = project_email(&case.email_val(&cfg), names);
    let got = project_email(&real_email(&case.bytes), names);
    c.expect_model("Email::parse", &case.bytes, &m, || project_email(&refp::email(&case.bytes, &cfg), names), &got);
}

/// Compares the library with the reference alone.
pub fn check_reference(c: &mut Ctx, bytes: &[u8]) -> bool {
    let cfg = c.cfg.clone();
    let m = refp::message(bytes, &cfg);
    c.eval(bytes, m != Any);
    if m == Any {
        c.event("unspecified", 1);
    }
    let got = real_message(bytes);
    if !c.expect("parse_message", bytes, &m, &got) || is_panic(c, "parse_message", bytes, &got) {
        return false;
    }
    let m = refp::email(bytes, &cfg);
    let got = real_email(bytes);
    c.expect("Email::parse", bytes, &m, &got) && !is_panic(c, "Email::parse", bytes, &got)
}

/// A panic is never an answer, even where the result is not specified.
pub fn is_panic(c: &mut Ctx, what: &str, bytes: &[u8], v: &Val) -> bool {
    if let T("Panic", p) = v {
        c.violation(format!("{}: panic: {}", what, p[0].short()), bytes);
        return true;
    }
    false
}

pub fn header_lines(g: &mut G, name: &'static str) -> Line {
    let mut o = Vec::new();
    let v = g.header(&mut o, name);
    (o, v)
}

/// Sizes worth trying, up to a maximum: every small one, then around limits.
pub fn sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=90).collect();
    for c in [100usize, 128, 200, 255, 256, 257, 300, 512, 766, 767, 768, 998, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536] {
        v.extend([c - 1, c, c + 1]);
    }
    v.extend(crate::dict::numbers());
    v.sort_unstable();
    v.dedup();
    v.retain(|n| *n <= max);
    v
}

pub fn cfg_full() -> Cfg {
    Cfg::built()
}
