//! Memory, termination, cost, borrowing and purity (C01, C02, C03, C19, C21), and behaviour of configurations (C18).
use crate::ctx::*;
use crate::dims;
use crate::gen::{Case, G};
use crate::mon;
use crate::obs::{Cx, Rec};
use crate::p1;
use crate::rng::Rng;
use crate::shapes::{Shape, NAMES, PREFIXES, UNITS};
use crate::val::{diff, Val, Val::*};
use crate::work::*;
use email_parser::prelude::*;
use std::cell::RefCell;

// ---------------------------------------------------------------------------------------------------------------------
// C01: memory

#[cfg(not(miri))]
thread_local! {
    static PAGES: RefCell<Option<mon::Guarded>> = const { RefCell::new(Option::None) };
}
#[cfg(not(miri))]
const GUARDED: usize = 16;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What<'a> {
    Message,
    Email,
    /// value of an entity of this type with these parameters, and an encoding
    #[allow(dead_code)]
    Entity(&'a str, &'a [(&'a str, &'a str)]),
    #[allow(dead_code)]
    Base64,
    #[allow(dead_code)]
    Qp,
}

fn observe(cx: &mut Cx, w: What, b: &[u8]) -> Val {
    match w {
        What::Message => cx.message(b),
        What::Email => cx.parse(b),
        #[cfg(feature = "mime")]
        What::Entity(t, p) => {
            let kind = match t {
                "text" => email_parser::mime::ContentType::Text,
                "multipart" => email_parser::mime::ContentType::Multipart,
                _ => email_parser::mime::ContentType::Unknown(t.into()),
            };
            let r = crate::p2::raw_entity(kind, p, b);
            cx.entity(&r, 8)
        }
        #[cfg(feature = "benchmarking")]
        What::Base64 => match decode_base64(b.to_vec()) {
            Ok(v) => B(v),
            Err(e) => crate::obs::error(&e),
        },
        #[cfg(feature = "benchmarking")]
        What::Qp => B(decode_qp(b.to_vec())),
        #[allow(unreachable_patterns)]
        _ => Any,
    }
}

/// What every returned string and slice must satisfy.
fn check_recs(c: &mut Ctx, what: What, recs: &[Rec], b: &[u8]) {
    let (lo, hi) = (b.as_ptr() as usize, b.as_ptr() as usize + b.len());
    #[cfg(not(miri))]
    let (ilo, ihi) = mon::image();
    let mut owned: Vec<(usize, usize)> = recs.iter().filter(|r| !r.borrowed && r.len > 0).map(|r| (r.ptr, r.ptr + r.len)).collect();
    owned.sort_unstable();
    let (mut inside, mut constant, mut nested) = (0, 0, 0);
    for r in recs {
        if !r.utf8 {
            c.violation(format!("{:?}: a returned string is not valid UTF-8", what), b);
            return;
        }
        if !r.borrowed || r.len == 0 {
            continue;
        }
        let (a, z) = (r.ptr, r.ptr + r.len);
        if a >= lo && z <= hi {
            inside += 1;
            continue;
        }
        #[cfg(not(miri))]
        if a >= ilo && z <= ihi {
            constant += 1;
            continue;
        }
        // inside a buffer that the library allocated, and that is returned as well
        if owned.iter().any(|(x, y)| *x <= a && z <= *y) {
            nested += 1;
            continue;
        }
        #[cfg(miri)]
        {
            constant += 1;
            continue;
        }
        #[allow(unreachable_code)]
        {
            c.violation(format!("{:?}: a borrowed value of {} bytes lies outside the input ({} bytes from its start, input of {} bytes)", what, r.len, a as i64 - lo as i64, b.len()), b);
            return;
        }
    }
    c.event("borrowed values inside the input", inside);
    c.event("borrowed values that are constants", constant);
    c.event("borrowed values inside a decoded body", nested);
    c.event("owned values", owned.len() as u64);
}

fn observe_at(c: &mut Ctx, what: What, b: &[u8], fill: u8) -> Val {
    let mut cx = Cx::new();
    let v = if fill == 0 { guard_val(|| observe(&mut cx, what, b)) } else { mon::with_fill(fill, || guard_val(|| observe(&mut cx, what, b))) };
    check_recs(c, what, &cx.recs, b);
    v
}

fn examine(c: &mut Ctx, what: What, bytes: &[u8]) {
    c.eval(bytes, true);
    let mut last: Option<Val> = Option::None;
    let mut judge = |c: &mut Ctx, v: Val, place: &str| {
        if v.tag() == "Panic" {
            c.event("panics (left to C02)", 1);
            return;
        }
        c.event(if v.tag() == "Error" { "refused" } else { "accepted" }, 1);
        if let Some(l) = &last {
            if let Some((path, e, g)) = diff(l, &v) {
                c.violation(format!("{:?}: the result depends on memory that is not part of the input ({}): at {}: {} then {}", what, place, path, e, g), bytes);
            }
        }
        last = Some(v);
    };
    #[cfg(not(miri))]
    if bytes.len() <= GUARDED * mon::PAGE {
        let mut pages = PAGES.with(|p| p.borrow_mut().take()).unwrap_or_else(|| mon::Guarded::new(GUARDED));
        // the bytes that do not belong to the input differ from one placement to the other
        let junk: u8 = if c.case % 2 == 0 { b'a' } else { b'\n' };
        let n = bytes.len();
        let all = pages.all();
        let keep = all.len().saturating_sub(n + 256);
        let k = all.len().min(keep + 256);
        all[keep..k].fill(junk);
        let at = pages.put(bytes, true);
        let v = observe_at(c, what, at, 0xA5);
        judge(c, v, "at the end of a mapping");
        let all = pages.all();
        let k = all.len().min(n + 256);
        all[n.min(k)..k].fill(b' ');
        let at = pages.put(bytes, false);
        let v = observe_at(c, what, at, 0x5A);
        judge(c, v, "at the start of a mapping");
        PAGES.with(|p| *p.borrow_mut() = Some(pages));
    }
    if c.case % 4 == 0 || cfg!(miri) || bytes.len() > 60_000 || boxed() {
        let copy: Box<[u8]> = bytes.to_vec().into_boxed_slice();
        let v = observe_at(c, what, &copy, 0);
        judge(c, v, "in an allocation of its exact size");
    }
}
fn boxed() -> bool {
    static B: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *B.get_or_init(|| std::env::var("VH_BOX").is_ok())
}

// ---------------------------------------------------------------------------------------------------------------------
// C02: every input gets an answer

fn answer(c: &mut Ctx, what: What, bytes: &[u8]) {
    c.eval(bytes, true);
    let mut cx = Cx::new();
    let v = guard_val(|| observe(&mut cx, what, bytes));
    if is_panic(c, &format!("{:?}", what), bytes, &v) {
        return;
    }
    c.event(if v.tag() == "Error" { "refused" } else { "accepted" }, 1);
}

fn feed(c: &mut Ctx, bytes: &[u8]) {
    if c.violations.len() >= 5 {
        return;
    }
    for w in [What::Message, What::Email] {
        feed_as(c, w, bytes);
    }
}
fn feed_as(c: &mut Ctx, w: What, bytes: &[u8]) {
    if c.prop == "CORPUS" {
        collect(c, w, bytes);
        return;
    }
    if c.prop == "C01" {
        examine(c, w, bytes);
    } else {
        answer(c, w, bytes);
    }
}
/// Recursion that follows the input does not fit in this stack.
const STACK: usize = 1 << 20;
fn stacked(c: &mut Ctx, f: fn(&mut Ctx)) {
    if c.prop == "C02" && !cfg!(miri) {
        mon::small_stack(STACK, || f(c));
    } else {
        f(c);
    }
}
/// Larger inputs where only an answer is needed.
fn large(c: &Ctx) -> usize {
    if cfg!(miri) {
        200
    } else if c.prop == "C01" {
        3000
    } else {
        200_000
    }
}

fn edited(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3, 5, 10, 20]) {
        p1::edit(r, &mut b, 0);
    }
    b
}
fn in_generated(c: &mut Ctx) {
    stacked(c, |c| {
        let mut g = G::new(c.rng(), &c.cfg);
        let case = g.message();
        feed(c, &case.bytes);
        c.sample(|| escape(&case.bytes, 500));
        for _ in 0..3 {
            let b = edited(&mut g.r, &case.bytes);
            feed(c, &b);
        }
    });
}
fn small_message(g: &mut G, c: &Ctx) -> Vec<u8> {
    if g.r.chance(1, 3) {
        let plan = p1::plan("DIMS");
        let k = g.r.below(plan.len().min(2500));
        let ((_, make), n) = plan[k];
        return make(g, n).case(g).bytes;
    }
    if g.r.chance(1, 4) {
        let s = Shape::pick(&mut g.r);
        let n = g.r.range(1, 120);
        return s.bytes(n);
    }
    for _ in 0..8 {
        let b = g.message().bytes;
        if b.len() < 1500 || c.case % 5 == 0 {
            return b;
        }
    }
    let n = *g.r.pick(NAMES);
    let mut h = header_lines(g, "Subject").0;
    if n != "X-Other" && n != "Received" && n != "Return-Path" && !n.starts_with("Resent") {
        h = header_lines(g, n).0;
    }
    h
}
/// Every prefix (and suffix) of a message.
fn in_truncated(c: &mut Ctx) {
    stacked(c, |c| {
        let mut g = G::new(c.rng(), &c.cfg);
        let mut b = small_message(&mut g, c);
        if g.r.chance(1, 4) {
            b = edited(&mut g.r, &b);
        }
        let n = b.len();
        let step = if cfg!(miri) { n / 8 + 1 } else { n / 600 + 1 };
        let mut k = g.r.below(step);
        c.sample(|| format!("every prefix of {}", escape(&b, 400)));
        while k <= n {
            feed(c, &b[..k]);
            if g.r.chance(1, 40) {
                feed(c, &b[k..]);
            }
            k += step;
        }
    });
}
/// Random sequences of tokens, words and bytes.
fn tokens(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    let style = r.below(4);
    for _ in 0..n {
        match r.below(if style == 0 { 9 } else { 7 }) {
            0 => {
                v.extend_from_slice(r.pick(NAMES).as_bytes());
                v.extend_from_slice(r.pick(&[&b": "[..], b":", b" :", b""]));
                v.extend_from_slice(r.pick(PREFIXES).as_bytes());
            }
            1 => v.extend_from_slice(b"\r\n"),
            2 => v.extend_from_slice(crate::dict::word(r)),
            3..=6 => v.extend_from_slice(r.pick(UNITS).as_bytes()),
            _ => v.push(r.byte()),
        }
    }
    v
}
fn in_tokens(c: &mut Ctx) {
    stacked(c, |c| {
        let mut r = c.rng();
        let n = r.size(0, 12, 300);
        let b = match r.below(6) {
            0 => {
                let n = r.size(0, 40, 2000);
                r.bytes(n)
            }
            _ => tokens(&mut r, n),
        };
        feed(c, &b);
        let mut m = format!("{}{}{}: ", FROM, DATE, r.pick(NAMES)).into_bytes();
        m.extend_from_slice(&b);
        feed(c, &m);
        if r.chance(1, 2) {
            m.extend_from_slice(b"\r\n\r\n");
            m.extend_from_slice(&b);
            feed(c, &m);
        }
    });
}
fn in_shapes(c: &mut Ctx) {
    stacked(c, |c| {
        let mut r = c.rng();
        let s = Shape::pick(&mut r);
        let max = large(c);
        let n = if r.chance(1, 12) { r.range(max / 20, max) } else { r.size(1, 200, 2000.min(max)) };
        let b = s.bytes(n);
        c.sample(|| s.describe());
        feed(c, &b);
        if r.chance(1, 3) {
            let k = r.below(b.len());
            feed(c, &b[..k]);
        }
    });
}
fn in_sizes(c: &mut Ctx) {
    stacked(c, |c| {
        let ((_, make), n) = p1::plan("DIMS")[c.case as usize];
        if n > large(c) {
            return;
        }
        let mut g = G::new(c.rng(), &c.cfg);
        let b = make(&mut g, n).case(&mut g).bytes;
        feed(c, &b);
        let b = edited(&mut g.r, &b);
        feed(c, &b);
    });
}
fn in_sizes_again(c: &mut Ctx) {
    stacked(c, |c| {
        let mut g = G::new(c.rng(), &c.cfg);
        let ((_, make), most) = *g.r.pick(p1::plan("DIMS"));
        let most = most.min(large(c)).min(3000);
        let n = if g.r.chance(1, 3) { most } else { g.r.size(0, 24, most) };
        let b = make(&mut g, n.min(most)).case(&mut g).bytes;
        feed(c, &b);
        let b = edited(&mut g.r, &b);
        feed(c, &b);
    });
}
/// Every header with every short sequence of pieces, with and without an end.
const PIECES: &[&str] = &[
    "a", "1", "+", ".", "\"", "(", ")", "<", ">", "@", "[", "]", ";", ":", ",", "=", "?", "*", "'", "%", "/", "\\", " ", "\r\n ", "\r\n", "\r", "\n", "\u{80}", "\0", "=?utf-8?Q?a?=", "text/plain", "a@b", "1 Jan 2015 10:20:30 +0000", "Mon,",
];
fn pieces_count() -> u64 {
    (NAMES.len() * (1 + PIECES.len() + PIECES.len() * PIECES.len())) as u64
}
fn in_pieces(c: &mut Ctx) {
    stacked(c, |c| {
        let k = c.case as usize;
        let name = NAMES[k % NAMES.len()];
        let k = k / NAMES.len();
        let p = PIECES.len();
        let start: String = if k == 0 {
            String::new()
        } else if k <= p {
            PIECES[k - 1].to_string()
        } else {
            format!("{}{}", PIECES[(k - p - 1) / p], PIECES[(k - p - 1) % p])
        };
        let r = &mut c.rng();
        let mut all: Vec<String> = vec![start.clone()];
        if k > p {
            if c.tier == "quick" {
                for _ in 0..6 {
                    all.push(format!("{}{}", start, r.pick(PIECES)));
                }
            } else {
                all.extend(PIECES.iter().map(|x| format!("{}{}", start, x)));
            }
        }
        for s in all {
            let mut m = format!("{}: {}", name, s).into_bytes();
            feed_as(c, What::Message, &m);
            m.extend_from_slice(b"\r\n");
            feed_as(c, What::Message, &m);
            m.extend_from_slice(b"From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n\r\nx");
            feed_as(c, What::Email, &m);
        }
    });
}
/// Sections of a parameter: every index alone, missing ones, repeated ones, plain or encoded.
#[cfg(feature = "mime")]
const SECTION_SETS: u64 = 262 * 8;
#[cfg(feature = "mime")]
fn in_sections(c: &mut Ctx) {
    stacked(c, |c| {
        // the greatest ones first
        let (n, pattern) = ((c.case as usize / 8 + 253) % 262, c.case as usize % 8);
        let mut r = c.rng();
        let indexes: Vec<usize> = match pattern {
            0 => vec![n],
            1 => vec![0, n],
            2 => vec![n, n + 1],
            3 => (0..=n).collect(),
            4 => (1..=n).collect(),
            5 => (0..=n).filter(|i| *i != n / 2).collect(),
            6 => (0..=n).rev().collect(),
            _ => vec![n, 255, n, 254],
        };
        for encoded in 0..3 {
            let mut m = String::from(*r.pick(&["Content-Type: text/plain", "Content-Disposition: inline"]));
            let name = *r.pick(&["a", "filename", "charset"]);
            for (k, i) in indexes.iter().enumerate() {
                match if encoded == 2 { r.below(2) } else { encoded } {
                    0 => m.push_str(&format!("; {}*{}=x", name, i)),
                    _ => m.push_str(&format!("; {}*{}*={}%41", name, i, if k == 0 || r.chance(1, 9) { "utf-8''" } else { "" })),
                }
            }
            m.push_str("\r\n");
            let n = m.len();
            m.push_str("From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n\r\nx");
            feed_as(c, What::Email, m.as_bytes());
            m.truncate(n);
            let m = format!("From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n{}\r\nx\r\n--b--\r\n", m);
            feed_as(c, What::Email, m.as_bytes());
        }
    });
}
/// Numbers replaced with extreme ones.
fn in_numbers(c: &mut Ctx) {
    stacked(c, |c| {
        let mut g = G::new(c.rng(), &c.cfg);
        let b = small_message(&mut g, c);
        let digits: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_digit() && (*i == 0 || !b[*i - 1].is_ascii_digit())).collect();
        if digits.is_empty() {
            return;
        }
        for _ in 0..4 {
            let mut v = Vec::new();
            let hits: Vec<usize> = (0..g.r.range(1, 4)).map(|_| *g.r.pick(&digits)).collect();
            let mut i = 0;
            while i < b.len() {
                if hits.contains(&i) {
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    match g.r.below(6) {
                        0 => v.extend(format!("{}", crate::dict::number(&mut g.r, 100_000)).bytes()),
                        1 => v.extend("9".repeat(g.r.range(1, 45)).bytes()),
                        2 => v.extend("0".repeat(g.r.range(1, 300)).bytes()),
                        3 => {
                            let k = *g.r.pick(&[8u32, 16, 31, 32, 63, 64, 127]);
                            let x = (1u128 << k).wrapping_add(g.r.below(3) as u128).wrapping_sub(1);
                            v.extend(x.to_string().bytes());
                        }
                        4 => v.extend(format!("{}{}", "0".repeat(g.r.range(1, 20)), u128::MAX).bytes()),
                        _ => v.extend(format!("{}{}", u128::MAX, g.r.below(10)).bytes()),
                    }
                } else {
                    v.push(b[i]);
                    i += 1;
                }
            }
            feed(c, &v);
        }
    });
}
/// Every number at every place for numbers.
fn in_every_number(c: &mut Ctx) {
    stacked(c, |c| {
        for m in crate::gen::numbered(c.case) {
            feed(c, &m);
        }
    });
}
/// Entities made by the user of the library.
#[cfg(feature = "mime")]
fn in_entities(c: &mut Ctx) {
    stacked(c, |c| {
        let mut g = G::new(c.rng(), &c.cfg);
        let r = &mut g.r;
        const CHARSETS: &[&str] = &[
            "utf-8", "us-ascii", "iso-8859-1", "iso-8859-2", "iso-8859-3", "iso-8859-5", "iso-8859-6", "iso-8859-7", "iso-8859-8", "iso-8859-9", "iso-8859-10", "iso-8859-11", "iso-8859-12", "iso-8859-13", "iso-8859-14", "iso-8859-15",
            "iso-8859-16", "iso-6937", "gb2312", "gb2312-80", "UTF-8", "", "x", "utf8", "iso-8859-", "iso8859-1", "Utf-8\u{e9}",
        ];
        let cs = if r.chance(1, 15) { String::from_utf8_lossy(crate::dict::word(r)).into_owned() } else { r.pick(CHARSETS).to_string() };
        let bound: String = match r.below(10) {
            0 => String::new(),
            1 => "-".repeat(r.range(1, 200)),
            2 => "\u{e9}\r\n".into(),
            3 => String::from_utf8_lossy(&tokens(r, 4)).into_owned(),
            4 => "B".repeat(r.range(1, 20)),
            _ => "B".into(),
        };
        let n = r.size(0, 30, large(c).min(3000));
        let mut v: Vec<u8> = match r.below(4) {
            0 => r.bytes(n),
            1 => tokens(r, n),
            2 => (0..n).map(|_| *r.pick(&[0x80u8, 0xa1, 0xc1, 0xc3, 0xa9, b'a', b' ', 0xff, 0xfe, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xb0])).collect(),
            _ => {
                let mut v = Vec::new();
                for _ in 0..n {
                    v.extend_from_slice(*r.pick(&[
                        &b"\r\n"[..], b"--", b"-", b"\n", b"\r", b" ", b"x", b"X: y\r\n", b"\r\n\r\n", b"Content-Type: text/plain; charset=utf-8\r\n", b"\r\n--", b"Content-Transfer-Encoding: base64\r\n", b"--\r\n", b"Content-Type: multipart/mixed; boundary=C\r\n",
                    ]));
                    if r.chance(1, 3) {
                        v.extend_from_slice(bound.as_bytes());
                    }
                }
                v
            }
        };
        if r.chance(1, 6) {
            v.truncate(r.below(v.len() + 1));
        }
        if r.chance(1, 2) {
            let mut w = format!("--{}", bound).into_bytes();
            w.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\r\n\r\n", b"", b"--"]));
            w.extend_from_slice(&v);
            v = w;
        }
        let p1 = [("charset", cs.as_str())];
        let p2 = [("boundary", bound.as_str())];
        let p3 = [("charset", cs.as_str()), ("boundary", bound.as_str())];
        let (t, p): (&str, &[(&str, &str)]) = match r.below(6) {
            0 | 1 => ("text", &p1),
            2 | 3 => ("multipart", &p2),
            4 => (*r.pick(&["text", "multipart", "x"]), &[]),
            _ => (*r.pick(&["text", "multipart", "x"]), &p3),
        };
        feed_as(c, What::Entity(t, p), &v);
        c.sample(|| format!("entity {} {:?}: {}", t, p, escape(&v, 200)));
        #[cfg(feature = "benchmarking")]
        {
            let n = g.r.size(0, 20, 3000);
            let b: Vec<u8> = match g.r.below(3) {
                0 => g.r.bytes(n),
                1 => (0..n).map(|_| *g.r.pick(b"=4AFGaf0\r\n \tz\x80")).collect(),
                _ => (0..n).map(|_| *g.r.pick(b"ABCDwxyz0189+/=\r\n A")).collect(),
            };
            feed_as(c, What::Base64, &b);
            feed_as(c, What::Qp, &b);
        }
    });
}

/// The stack used must not follow the size of the input.
#[cfg(not(miri))]
fn judge_stack(c: &mut Ctx, what: &str, make: &dyn Fn(usize) -> Vec<u8>, n: usize) {
    let used = |n: usize| {
        let b = make(n);
        (b.len(), mon::stack_used(|| vh_measured(&b)))
    };
    let (a, z) = (used(n / 16), used(n));
    c.event("stacks measured", 2);
    let kb = |x: usize| format!("deepest stack, up to {} KB", (x / 1024 + 1).next_power_of_two());
    c.event(&kb(z.1), 1);
    if z.1 < a.1 + 16384 {
        return;
    }
    let m = used(n / 4);
    c.event("stacks that grew, measured again", 1);
    let (d1, d2) = (m.1.saturating_sub(a.1), z.1.saturating_sub(m.1));
    if d1 > 2048 && d2 > 2 * d1 && d2 < 8 * d1 {
        let b = make(n);
        c.violation(format!("{}: the depth of the stack follows the input, so a larger input overflows it: (input size, stack): {:?} {:?} {:?}", what, a, m, z), &b[..b.len().min(3000)]);
    }
}
#[cfg(not(miri))]
fn stack_shapes(c: &mut Ctx) {
    let mut r = c.rng();
    let s = Shape::pick(&mut r);
    let n = *r.pick(&[8000, 16000, 60000]);
    let b = s.bytes(n / 16);
    c.eval(&b, true);
    judge_stack(c, &s.describe(), &|n| s.bytes(n), n);
}
#[cfg(not(miri))]
fn stack_dims(c: &mut Ctx) {
    let (name, f, n) = cost_dim(c);
    c.eval(&f(n), true);
    judge_stack(c, name, &|n| f(n), 16 * n);
}
#[cfg(not(miri))]
fn stack_dims_count() -> u64 {
    let cfg = crate::refp::Cfg::built();
    dims::dims().into_iter().filter(|d| d.max >= 1000 && (cfg.mime || !d.needs_mime())).count() as u64
}

/// Parts and multiparts in multiparts, from every short sequence of their pieces.
#[cfg(feature = "mime")]
const NEST: &[&str] = &[
    "--b", "--b--", "--c", "--c--", "\r\n", "--b\r\n", "\r\n--b\r\n", "\r\n--c\r\n", "\r\n--b--", "\r\n--c--\r\n", "\r\n\r\n", "Content-Type: multipart/mixed; boundary=c", "Content-Type: multipart/x; boundary=b\r\n", "Content-Type: text/plain\r\n",
    "Content-Type: multipart/mixed", "Content-Transfer-Encoding: base64", "Content-Transfer-Encoding: quoted-printable\r\n", "X: y", "QQ==", "=\r\n", " ", "\u{e9}", "Content-Disposition: inline", "Content-Type: image/png",
];
#[cfg(feature = "mime")]
fn nest_count() -> u64 {
    let n = NEST.len() as u64;
    1 + n + n * n + n * n * n
}
#[cfg(feature = "mime")]
fn in_nests(c: &mut Ctx) {
    stacked(c, |c| {
        let n = NEST.len() as u64;
        let mut k = c.case;
        let mut s = String::new();
        let mut len = 0;
        for l in 0..4u32 {
            if k < n.pow(l) {
                len = l;
                break;
            }
            k -= n.pow(l);
        }
        for _ in 0..len {
            s.push_str(NEST[(k % n) as usize]);
            k /= n;
        }
        let mut r = c.rng();
        let mut all = vec![format!("Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n{}\r\n--b--\r\n", s), format!("Content-Type: multipart/mixed; boundary=b\r\n\r\n{}", s), s.clone()];
        for _ in 0..if c.tier == "quick" { 1 } else { 6 } {
            let mut t = s.clone();
            for _ in 0..r.range(1, 6) {
                t.push_str(r.pick(NEST));
            }
            all.push(format!("Content-Type: multipart/mixed; boundary=b\r\n\r\n--b\r\n{}{}", t, r.pick(&["", "\r\n", "\r\n--b--", "--b--"])));
        }
        for s in all {
            feed_as(c, What::Email, format!("{}{}{}", FROM, DATE, s).as_bytes());
        }
    });
}
/// A byte that is not ASCII far inside of something long.
fn in_spoiled(c: &mut Ctx) {
    let plan = p1::plan("DIMS");
    // the largest first
    let ((_, make), n) = plan[plan.len() - 1 - c.case as usize];
    if cfg!(miri) || boxed() && n > 3000 {
        return;
    }
    let mut g = G::new(c.rng(), &c.cfg);
    let b = make(&mut g, n).case(&mut g).bytes;
    for bad in [&b"\xC3"[..], b"\x80\xFF", b"\xE2\x82"] {
        let at = match g.r.below(4) {
            0 => b.len() - g.r.below(b.len().min(40)),
            1 => b.len() / 2,
            _ => g.r.below(b.len() + 1),
        };
        let mut v = b[..at].to_vec();
        v.extend_from_slice(bad);
        v.extend_from_slice(&b[at..]);
        feed(c, &v);
    }
}

/// Keeps the inputs that take an edge of the library that was not taken before, or a different number of times.
#[cfg(all(feature = "cov", not(miri)))]
fn collect(c: &mut Ctx, w: What, bytes: &[u8]) {
    thread_local! {
        static SEEN: RefCell<(Vec<u64>, Vec<u8>)> = const { RefCell::new((Vec::new(), Vec::new())) };
    }
    if bytes.len() > 700 {
        return;
    }
    c.eval(bytes, true);
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let (before, seen) = &mut *s;
        let t = mon::edge_table();
        if seen.is_empty() {
            seen.resize(t.len(), 0);
        }
        before.clear();
        before.extend_from_slice(t);
        let v = guard_val(|| observe(&mut Cx::new(), w, bytes));
        let mut new = false;
        for i in 0..t.len() {
            let d = t[i] - before[i];
            if d > 0 {
                let bit = match d {
                    _ if feeding() => 1u8,
                    1 => 1,
                    2 => 2,
                    3..=7 => 4,
                    8..=31 => 8,
                    _ => 16u8,
                };
                if seen[i] & bit == 0 {
                    seen[i] |= bit;
                    new = true;
                }
            }
        }
        if new {
            c.event(if v.tag() == "Error" { "kept, refused" } else { "kept, accepted" }, 1);
            let (k, mut b) = code(w);
            b.extend_from_slice(bytes);
            c.corpus.push((k, b));
        }
        let n = seen.iter().filter(|s| **s > 0).count() as u64;
        c.events.insert("edges reached".into(), n);
        c.events.insert("edges in all".into(), t.len() as u64 - 1);
    });
}
#[cfg(not(all(feature = "cov", not(miri))))]
fn collect(_c: &mut Ctx, w: What, _bytes: &[u8]) {
    let _ = code(w);
}
/// An operation in a file: its number, and what precedes the input (the parameters of an entity).
fn code(w: What) -> (u8, Vec<u8>) {
    match w {
        What::Message => (0, Vec::new()),
        What::Email => (1, Vec::new()),
        What::Base64 => (2, Vec::new()),
        What::Qp => (3, Vec::new()),
        What::Entity(t, p) => {
            let mut s = t.to_string();
            for (k, v) in p {
                s.push('\u{1}');
                s.push_str(k);
                s.push('\u{1}');
                s.push_str(v);
            }
            let mut b = (s.len() as u32).to_le_bytes().to_vec();
            b.extend(s.bytes());
            (4, b)
        }
    }
}
static FEED: std::sync::OnceLock<Vec<(u8, Vec<u8>)>> = std::sync::OnceLock::new();
pub fn load_feed(f: &str) {
    let b = std::fs::read(f).expect("feed");
    let mut v = Vec::new();
    let mut i = 0;
    while i + 5 <= b.len() {
        let n = u32::from_le_bytes([b[i + 1], b[i + 2], b[i + 3], b[i + 4]]) as usize;
        v.push((b[i], b[i + 5..i + 5 + n].to_vec()));
        i += 5 + n;
    }
    let _ = FEED.set(v);
}
pub fn feeding() -> bool {
    FEED.get().is_some()
}
fn in_feed(c: &mut Ctx) {
    stacked(c, |c| {
        let (k, b) = &FEED.get().unwrap()[c.case as usize];
        match k {
            0 => feed_as(c, What::Message, b),
            1 => feed_as(c, What::Email, b),
            2 => feed_as(c, What::Base64, b),
            3 => feed_as(c, What::Qp, b),
            _ => {
                let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
                let s = String::from_utf8_lossy(&b[4..4 + n]).into_owned();
                let mut f = s.split('\u{1}');
                let t = f.next().unwrap_or("");
                let mut p: Vec<(&str, &str)> = Vec::new();
                while let (Some(k), Some(v)) = (f.next(), f.next()) {
                    p.push((k, v));
                }
                feed_as(c, What::Entity(t, &p), &b[4 + n..]);
            }
        }
    });
}
pub fn c01_feed() -> Vec<Sub> {
    vec![subn("feed", 1, FEED.get().unwrap().len() as u64, in_feed)]
}
pub fn c01() -> Vec<Sub> {
    let mut v = vec![
        sub("generated", 2, in_generated),
        sub("truncated", 1, in_truncated),
        sub("tokens", 30, in_tokens),
        sub("shapes", 20, in_shapes),
        sub("numbers", 4, in_numbers),
        subn("sizes", 8, p1::sizes_count("DIMS"), in_sizes),
        sub("sizes again", 8, in_sizes_again),
        subn("pieces", 40, pieces_count(), in_pieces),
    ];
    v.push(subn("spoiled", 8, p1::sizes_count("DIMS"), in_spoiled));
    #[cfg(feature = "mime")]
    v.push(sub("entities", 30, in_entities));
    #[cfg(feature = "mime")]
    v.push(subn("sections", 12, SECTION_SETS, in_sections));
    #[cfg(feature = "mime")]
    v.push(subn("nests", 30, nest_count(), in_nests));
    v
}
pub fn c02() -> Vec<Sub> {
    #[allow(unused_mut)]
    let mut v = c01();
    v.push(subn("every number", 20, crate::gen::numbered_count(), in_every_number));
    #[cfg(not(miri))]
    {
        v.push(subn("stack of dims", 2, stack_dims_count(), stack_dims));
        v.push(sub("stack of shapes", 10, stack_shapes));
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------------
// C03: cost

#[cfg(feature = "mime")]
fn tree(e: &email_parser::mime::RawEntity, depth: usize) {
    if let Ok(email_parser::mime::Entity::Multipart { content, .. }) = e.parse() {
        if depth > 0 {
            for p in &content {
                tree(p, depth - 1);
            }
        }
    }
}
/// What is measured.
#[no_mangle]
#[inline(never)]
pub fn vh_measured(b: &[u8]) {
    let m = parse_message(std::hint::black_box(b));
    let _ = std::hint::black_box(&m);
    drop(m);
    if let Ok(e) = Email::parse(std::hint::black_box(b)) {
        #[cfg(feature = "mime")]
        tree(&e.mime_entity, 3);
        let _ = std::hint::black_box(&e);
    }
}
#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    len: u64,
    edges: u64,
    bytes: u64,
    nanos: u64,
}
#[cfg(not(miri))]
fn cost(b: &[u8]) -> Cost {
    let e = mon::edges();
    let t = mon::cpu();
    let (_, bytes, _) = mon::allocations(|| vh_measured(b));
    let nanos = mon::cpu() - t;
    Cost { len: b.len() as u64, edges: mon::edges() - e, bytes, nanos }
}
/// The cost per byte grows from each size to the next, far beyond what a linear cost explains.
fn superlinear(p: [(u64, u64); 3], unit: u64) -> Option<String> {
    let per = |x: (u64, u64)| (x.1 + unit * x.0) as f64 / x.0.max(1) as f64;
    let (a, b, c) = (per(p[0]), per(p[1]), per(p[2]));
    if c > 2.2 * a && b > 1.2 * a && c > 1.5 * b {
        return Some(format!("{:?} (input size, cost): {:.1}, {:.1} then {:.1} per byte", p, a, b, c));
    }
    Option::None
}
#[cfg(not(miri))]
fn judge_cost(c: &mut Ctx, what: &str, make: &dyn Fn(usize) -> Vec<u8>, n: usize) {
    let (i1, i3) = (make(n), make(16 * n));
    let (c1, c3) = (cost(&i1), cost(&i3));
    c.eval(&i1, true);
    c.event("bytes parsed", c1.len + c3.len);
    c.event("edges counted", c1.edges + c3.edges);
    c.event("bytes allocated", c1.bytes + c3.bytes);
    let ratio = |x1: u64, x3: u64, unit: u64| ((x3 + unit * c3.len) as f64 / c3.len as f64) / ((x1 + unit * c1.len) as f64 / c1.len as f64);
    let (re, ra) = (ratio(c1.edges, c3.edges, 1), ratio(c1.bytes, c3.bytes, 1));
    for (r, name) in [(re, "edges"), (ra, "bytes allocated")] {
        c.event(&format!("{} per byte, 16 times larger: {}", name, if r < 0.9 { "less" } else if r < 1.1 { "same" } else if r < 1.5 { "up to 1.5 times" } else if r < 2.2 { "up to 2.2 times" } else { "more" }), 1);
    }
    if re > 1.5 || ra > 1.5 {
        // all three sizes again, larger
        let sizes = [2 * n, 8 * n, 32 * n];
        let m: Vec<Cost> = sizes.iter().map(|k| cost(&make(*k))).collect();
        if let Some(w) = superlinear([(m[0].len, m[0].edges), (m[1].len, m[1].edges), (m[2].len, m[2].edges)], 1) {
            c.violation(format!("{}: the number of steps is not linear: {}", what, w), &i1);
            return;
        }
        if let Some(w) = superlinear([(m[0].len, m[0].bytes), (m[1].len, m[1].bytes), (m[2].len, m[2].bytes)], 1) {
            c.violation(format!("{}: the memory allocated is not linear: {}", what, w), &i1);
            return;
        }
        c.event("growth not confirmed at larger sizes", 1);
    }
    // costs that are not in the instrumented code (copies, comparisons): the time is a hint, another tool decides
    let slow = |c1: &Cost, c3: &Cost| c3.nanos > 700_000 && (c3.nanos as f64 / c3.len as f64) > 2.2 * (c1.nanos.max(1) as f64 / c1.len as f64);
    if slow(&c1, &c3) {
        let a = (0..3).map(|_| cost(&i1)).min_by_key(|c| c.nanos).unwrap();
        let b = (0..3).map(|_| cost(&i3)).min_by_key(|c| c.nanos).unwrap();
        c.event("slow for its size: measured again", 1);
        if slow(&a, &b) {
            c.event("suspects", 1);
            if c.suspects.len() < 6 {
                c.suspects.push(format!("{}:{}", c.sub, c.case));
            }
            c.inconclusive(format!("{}: {} ns for {} bytes, {} ns for {} bytes", what, a.nanos, a.len, b.nanos, b.len), &i1);
        }
    }
}
#[cfg(not(miri))]
fn base_size(c: &Ctx) -> usize {
    if c.tier == "quick" {
        2000
    } else {
        *c.rng().pick(&[1000, 2000, 2000, 4000, 8000])
    }
}
#[cfg(not(miri))]
fn cost_shapes(c: &mut Ctx) {
    let mut r = c.rng();
    r.next();
    let s = Shape::pick(&mut r);
    c.sample(|| s.describe());
    let n = base_size(c);
    judge_cost(c, &s.describe(), &|n| s.bytes(n), n);
}
/// The dimensions that can grow far: (name, generator, a size that gives about 2 KB).
#[cfg(not(miri))]
fn cost_dim(c: &Ctx) -> (&'static str, Box<dyn Fn(usize) -> Vec<u8>>, usize) {
    let list: Vec<dims::Dim> = dims::dims().into_iter().filter(|d| d.max >= 1000 && (c.cfg.mime || !d.needs_mime())).collect();
    let d = &list[c.case as usize % list.len()];
    let (make, seed, cfg, max) = (d.make, c.rng(), c.cfg.clone(), d.max);
    let f = move |n: usize| {
        let mut g = G::new(seed.clone(), &cfg);
        // nothing else than what grows
        let m = make(&mut g, n);
        let mut b = m.head.clone();
        for (l, _) in &m.lines {
            b.extend_from_slice(l);
        }
        for (tag, line) in [("From", FROM), ("Date", DATE), ("Sender", "Sender: s@t\r\n")] {
            if !m.lines.iter().any(|l| l.1.tag() == tag) {
                b.extend_from_slice(line.as_bytes());
            }
        }
        if let Some(body) = &m.body {
            b.extend_from_slice(b"\r\n");
            b.extend_from_slice(body);
        }
        b
    };
    // 32 times the size is used to confirm
    let mut n = (max / 32).max(1).min(60);
    while n * 2 * 32 <= max && f(n * 2).len() < 3000 {
        n *= 2;
    }
    (d.name, Box::new(f), n)
}
#[cfg(not(miri))]
fn cost_dims(c: &mut Ctx) {
    let (name, f, n) = cost_dim(c);
    c.event(&format!("dimension {}", name), 1);
    judge_cost(c, name, &*f, n);
}
/// Entities: text in all character sets and encodings, boundaries.
#[cfg(not(miri))]
pub fn c03() -> Vec<Sub> {
    vec![sub("shapes", 6, cost_shapes), sub("dims", 1, cost_dims)]
}

/// Used by check.py: `one C03 <sub>:<case> <seed> <scale> <tier>` measures one suspect under valgrind.
#[cfg(not(miri))]
pub fn measure_one(c: &mut Ctx, scale: usize) {
    let b = if c.sub == "dims" {
        let (_, f, n) = cost_dim(c);
        f(n * scale)
    } else {
        let mut r = c.rng();
        r.next();
        let s = Shape::pick(&mut r);
        println!("shape {}", s.describe());
        s.bytes(base_size(c) * scale)
    };
    println!("length {}", b.len());
    vh_measured(&b);
}

// ---------------------------------------------------------------------------------------------------------------------
// C19: borrowed text

/// A header of which a part (between the marks) must be returned as it is in the message. '$' stands for the text.
struct Site {
    name: &'static str,
    line: &'static str,
    /// a: atom, q: words and punctuation allowed in quoted strings, t: any text, d: dot-atom, w: token
    class: char,
    /// the address of the value can be observed
    seen: bool,
    ok: fn(&crate::refp::Cfg) -> bool,
}
const fn site(name: &'static str, line: &'static str, class: char, seen: bool, ok: fn(&crate::refp::Cfg) -> bool) -> Site {
    Site { name, line, class, seen, ok }
}
const SITES: &[Site] = &[
    site("From", "From: <{$}@b>", 'd', true, |c| c.from),
    site("From", "From: {$}@b", 'd', true, |c| c.from),
    site("From", "From: a@{$}", 'd', true, |c| c.from),
    site("From", "From: <a@{$}>", 'd', true, |c| c.from),
    site("From", "From: {$} <a@b>", 'a', true, |c| c.from),
    site("From", "From: x {$} y <a@b>", 'a', true, |c| c.from),
    site("From", "From: \"{$}\" <a@b>", 'q', true, |c| c.from),
    site("From", "From: x \"{$}\" y <a@b>", 'q', true, |c| c.from),
    site("From", "From: (c) {$} (d) <a@b> (e)", 'a', true, |c| c.from),
    site("From", "From:\r\n\t{$}\r\n <a@b>", 'a', true, |c| c.from),
    site("From", "From: \"{$}\"@b", 'q', true, |c| c.from),
    site("From", "From: (c) \"{$}\" (d) <a@b>", 'q', true, |c| c.from),
    site("From", "From: (c) {$} (d) @ b", 'd', true, |c| c.from),
    site("From", "From: a @ (c) {$} (d)", 'd', true, |c| c.from),
    // next to what has to be decoded
    site("From", "From: =?utf-8?Q?=C3=A9?= {$} <a@b>", 'a', true, |c| c.from),
    site("From", "From: \"a\\\"b\" {$} \"c\r\n d\" <a@b>", 'a', true, |c| c.from),
    site("From", "From: \"a\\\"b\" \"{$}\" =?utf-8?B?w6k=?= <a@b>", 'q', true, |c| c.from),
    site("From", "From: \"a\\\"b\"@{$}", 'd', true, |c| c.from),
    site("From", "From: =?utf-8?Q?=C3=A9?= <{$}@[1 2]>", 'd', true, |c| c.from),
    site("To", "To: \"a\\b\"@c, {$}@[1 2], =?utf-8?Q?x?= <z@t>", 'd', true, |c| c.to),
    site("To", "To: =?utf-8?Q?=C3=A9?=: {$}@b, \"a\\b\"@c;", 'd', true, |c| c.to),
    site("References", "References: <a@[12]>\r\n (c)<{$}@b>", 'd', true, |c| c.references),
    site("Keywords", "Keywords: =?utf-8?Q?=C3=A9?= {$} \"a\\b\", c", 'a', true, |c| c.keywords),
    site("Sender", "Sender: {$} <a@b>", 'a', true, |c| c.sender),
    site("Sender", "Sender: {$}@b", 'd', true, |c| c.sender),
    site("Sender", "Sender: a <a@{$}>", 'd', true, |c| c.sender),
    site("Sender", "Sender: a@[{$}]", 'a', true, |c| c.sender),
    site("To", "To: {$} <a@b>", 'a', true, |c| c.to),
    site("To", "To: a@b, {$}@b, c@d", 'd', true, |c| c.to),
    site("To", "To: {$}: a@b;", 'a', true, |c| c.to),
    site("To", "To: \"{$}\": a@b;", 'q', true, |c| c.to),
    site("To", "To: g: x@y, {$}@b;", 'd', true, |c| c.to),
    site("To", "To: g: x@y, {$} <a@b>; , z@t", 'a', true, |c| c.to),
    site("Cc", "Cc: a@{$}", 'd', true, |c| c.cc),
    site("Cc", "Cc: g: \"{$}\" <a@b>;", 'q', true, |c| c.cc),
    site("Bcc", "Bcc: {$}@b", 'd', true, |c| c.bcc),
    site("Reply-To", "Reply-To: {$} <a@b>", 'a', true, |c| c.reply_to),
    site("Message-ID", "Message-ID: <{$}@b>", 'd', true, |c| c.message_id),
    site("Message-ID", "Message-ID: <a@{$}>", 'd', true, |c| c.message_id),
    site("Message-ID", "Message-ID: <a@[{$}]>", 'a', true, |c| c.message_id),
    site("In-Reply-To", "In-Reply-To: <a@b> <{$}@b> <c@d>", 'd', true, |c| c.in_reply_to),
    site("References", "References: <a@b>\r\n <a@{$}>", 'd', true, |c| c.references),
    site("Subject", "Subject:{ $}", 't', true, |c| c.subject),
    site("Comments", "Comments:{ $}", 't', true, |c| c.comments),
    site("Keywords", "Keywords: a, {$}, b", 'a', true, |c| c.keywords),
    site("Keywords", "Keywords: \"{$}\"", 'q', true, |c| c.keywords),
    site("Keywords", "Keywords: a {$} c,d", 'a', true, |c| c.keywords),
    site("X-A", "{X-$}: v", 'w', true, |_| true),
    site("X-B", "X-B:{ $}", 't', true, |_| true),
    site("Content-Type", "Content-Type: text/{$}", 'w', true, |c| c.mime),
    site("Content-Type", "Content-Type: {$}/x", 'w', true, |c| c.mime),
    site("Content-Type", "Content-Type: text/plain; x={$}", 'w', true, |c| c.mime),
    site("Content-Type", "Content-Type: text/plain; x=\"{$}\"", 'q', true, |c| c.mime),
    site("Content-Type", "Content-Type: text/plain; {$}=x", 'w', true, |c| c.mime),
    site("Content-Type", "Content-Type: image/png; a=b; x=\"{$}\"; c=d", 'q', true, |c| c.mime),
    site("Content-Type", "Content-Type: image/png;\r\n name={$};\r\n c=d", 'w', true, |c| c.mime),
    site("Content-Transfer-Encoding", "Content-Transfer-Encoding: {$}", 'w', true, |c| c.mime),
    site("Content-ID", "Content-ID: <{$}@b>", 'd', true, |c| c.mime),
    site("Content-ID", "Content-ID: <a@{$}>", 'd', true, |c| c.mime),
    site("Content-Description", "Content-Description:{ $}", 't', true, |c| c.mime),
    site("Content-Disposition", "Content-Disposition: attachment; filename={$}", 'w', true, |c| c.disposition),
    site("Content-Disposition", "Content-Disposition: attachment; filename=\"{$}\"; x=y", 'q', true, |c| c.disposition),
    site("Content-Disposition", "Content-Disposition: {$}; x=y", 'w', true, |c| c.disposition),
    site("Content-Disposition", "Content-Disposition: inline; x={$}", 'w', true, |c| c.disposition),
    site("Content-Disposition", "Content-Disposition: inline; size=1; x=\"{$}\"", 'q', true, |c| c.disposition),
    site("Return-Path", "Return-Path: <{$}@b>", 'd', true, |c| c.trace),
    site("Return-Path", "Return-Path: <a@{$}>", 'd', true, |c| c.trace),
    site("Received", "Received: from {$} by b; 1 Jan 2015 10:20:30 +0000", 'd', false, |c| c.trace),
    site("Received", "Received: from <{$}@b> by \"c\"; 1 Jan 2015 10:20:30 +0000", 'd', false, |c| c.trace),
    site("Resent-To", "Received: a; 1 Jan 2015 10:20:30 +0000\r\nResent-Date: 1 Jan 2015 10:20:30 +0000\r\nResent-From: a@b\r\nResent-To: {$} <a@b>", 'a', false, |c| c.trace),
    site("Resent-To", "Received: a; 1 Jan 2015 10:20:30 +0000\r\nResent-Date: 1 Jan 2015 10:20:30 +0000\r\nResent-From: {$}@b", 'd', false, |c| c.trace),
];

fn plain(r: &mut Rng, class: char, n: usize) -> String {
    const LOWER: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";
    let mut s: Vec<u8> = Vec::with_capacity(n);
    let words = matches!(class, 'q' | 't') && r.chance(2, 3);
    // what else may stand in the text
    let extra: &[u8] = match class {
        'a' => b"!#$%&'*+-/^_`{|}~",
        'd' => b"!#$&*+-/^_`{|}~.",
        'w' => b"!#$&+-^_`{|}~.",
        'q' => b" !#$%&'()*+,-./:;<>@[]^_`{|}~",
        _ => b" !#$%&'()*+,-./:;<>@[]^_`{|}~\"\\",
    };
    let extra = if r.chance(1, 2) { extra } else { b"a" };
    // now and then the first piece has a remarkable length
    let cut = if r.chance(1, 4) { crate::dict::number(r, n) } else { 0 };
    // pieces of what is not there after all
    const NEARLY: [&[&str]; 3] = [&["=?", "=?utf-8?", "=?utf-8?Q?", "=?utf-8*en?b?", "=?x", "=", "=3D"], &["?=", "?x?=", "Q?a?=", "?Q?", "?"], &["%41", "%C3%A9", "''", "us-ascii''", "&lt", "+AGE-", "--", "{}", "$1", "~", "=C3=A9", "==", "*0*", "x*=", "``", "__"]];
    let nearly: &[&str] = if matches!(class, 'a' | 'q' | 't') && r.chance(1, 6) { *r.pick(&NEARLY) } else { &[] };
    while s.len() < n {
        let k = s.len();
        if cut > 0 && k <= cut && k + 1 < n {
            s.push(match class {
                _ if k < cut => *r.pick(LOWER),
                'd' => b'.',
                'q' | 't' if words => b' ',
                _ => b'-',
            });
            continue;
        }
        let edge = k == 0 || k + 1 == n || !s[k - 1].is_ascii_alphanumeric();
        if !edge && !nearly.is_empty() && k + 20 < n && r.chance(1, 12) {
            s.extend(r.pick(nearly).bytes());
        } else if !edge && words && r.chance(1, 6) {
            s.push(b' ');
        } else if !edge && r.chance(1, 10) {
            s.push(*r.pick(extra));
        } else {
            s.push(*r.pick(LOWER));
        }
    }
    String::from_utf8(s).unwrap()
}

struct Built {
    bytes: Vec<u8>,
    /// where each text is, whether it can be seen, and what it is
    spots: Vec<(usize, usize, bool, String)>,
}

/// One message out of the sites; the text of the n-th one has the length given.
fn build_sites(r: &mut Rng, cfg: &crate::refp::Cfg, len: &mut dyn FnMut(usize, &mut Rng) -> usize, part: bool) -> Built {
    let mut chosen: Vec<&Site> = Vec::new();
    let pool: Vec<&Site> = SITES.iter().filter(|s| (s.ok)(cfg)).collect();
    for _ in 0..r.range(1, 9) {
        let s = *r.pick(&pool);
        let repeated = matches!(s.name, "Comments" | "Keywords" | "X-A" | "X-B");
        if repeated || !chosen.iter().any(|c| c.name == s.name) {
            for _ in 0..if repeated && r.chance(1, 2) { r.range(1, 4) } else { 1 } {
                chosen.push(s);
            }
        }
    }
    r.shuffle(&mut chosen);
    chosen.sort_by_key(|s| !matches!(s.name, "Received" | "Return-Path" | "Resent-To"));
    // one trace block: the return path comes first
    if let Some(p) = chosen.iter().position(|s| s.name == "Return-Path") {
        let s = chosen.remove(p);
        chosen.insert(0, s);
        if !chosen.iter().any(|s| s.name == "Received" || s.name == "Resent-To") {
            chosen.insert(1, &SITES[SITES.iter().position(|s| s.name == "Received").unwrap()]);
        }
    }
    if part {
        chosen.retain(|s| s.name.starts_with("Content-") || s.name.starts_with("X-"));
    }
    let mut b = Built { bytes: Vec::new(), spots: Vec::new() };
    if !part {
        if chosen.iter().all(|s| s.name != "From") {
            chosen.push(&site_from);
        }
    }
    let mut k = 0;
    for s in &chosen {
        let mut start = 0;
        // other parameters, which have to be decoded
        const EXTRA: [&str; 6] = ["k*0=a; k*1=\"b\\\"c\"", "l*=utf-8''%C3%A9", "m=\"a\\\\b\"", "o*0*=iso-8859-1''%E9; o*1=b", "p=\"\"", "q=r"];
        let list = matches!(s.name, "Content-Type" | "Content-Disposition");
        let mut extras: Vec<&str> = if list && r.chance(1, 2) { EXTRA.iter().copied().filter(|_| r.chance(1, 3)).collect() } else { vec![] };
        r.shuffle(&mut extras);
        // others before it in the list, or the same header before
        let author = chosen.iter().any(|s| s.name == "Sender");
        let filler = match s.name {
            "To" | "Cc" | "Bcc" | "Reply-To" => " f@g,",
            "Resent-To" if r.chance(1, 2) => "Received: f; 1 Jan 2015 10:20:30 +0000\r\n",
            "Resent-To" => " f",
            "From" if author => " f@g,",
            "References" | "In-Reply-To" => " <f@g>",
            "Keywords" => " f,",
            "Received" => " f",
            "X-A" | "X-B" | "Comments" => "f\r\n",
            _ if list => "f",
            _ => "",
        };
        let mut filler_count = 0;
        if !filler.is_empty() && r.chance(1, 5) {
            filler_count = *r.pick(&[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]);
            if filler.ends_with('\n') {
                for _ in 0..filler_count {
                    if filler.len() < 4 {
                        b.bytes.extend(format!("{}: ", s.name).bytes());
                    }
                    b.bytes.extend(filler.bytes());
                }
                filler_count = 0;
            }
        }
        let after = extras.split_off(r.below(extras.len() + 1));
        for ch in s.line.chars() {
            if ch == ';' {
                for e in extras.drain(..) {
                    b.bytes.extend(format!("; {}", e).bytes());
                }
            }
            if ch == ';' && list {
                for i in 0..std::mem::take(&mut filler_count) {
                    b.bytes.extend(format!("; f{}=g", i).bytes());
                }
            }
            match ch {
                ':' if filler_count > 0 && !list => {
                    b.bytes.push(b':');
                    for _ in 0..std::mem::take(&mut filler_count) {
                        b.bytes.extend(filler.bytes());
                    }
                }
                '{' => start = b.bytes.len(),
                '}' => {
                    let e = b.bytes.len();
                    b.spots.push((start, e - start, s.seen, s.line.to_string()));
                }
                '$' => {
                    let n = len(k, r).max(12);
                    k += 1;
                    let v = plain(r, s.class, n);
                    b.bytes.extend(v.bytes());
                }
                c => b.bytes.push(c as u8),
            }
        }
        for e in extras.into_iter().chain(after) {
            b.bytes.extend(format!("; {}", e).bytes());
        }
        b.bytes.extend(b"\r\n");
    }
    if !part {
        b.bytes.extend(b"Date: 1 Jan 2015 10:20:30 +0000\r\n");
    }
    // the body
    let typed = chosen.iter().any(|s| s.name == "Content-Type");
    let encoded = chosen.iter().any(|s| s.name == "Content-Transfer-Encoding");
    if !typed && cfg.mime && !part && r.chance(1, 2) {
        let bound = plain(r, 'a', 30).replace(|c: char| !c.is_ascii_alphanumeric(), "x");
        b.bytes.extend(format!("Content-Type: multipart/mixed; boundary={}\r\n\r\n", bound).bytes());
        for _ in 0..r.range(1, 4) {
            b.bytes.extend(format!("--{}\r\n", bound).bytes());
            let base = b.bytes.len();
            let mut more = |i: usize, r: &mut Rng| len(1000 + i, r);
            let p = build_sites(r, cfg, &mut more, true);
            b.bytes.extend(&p.bytes);
            b.spots.extend(p.spots.into_iter().map(|(s, n, x, w)| (s + base, n, x, format!("{} (in a part)", w))));
            b.bytes.extend(b"\r\n");
        }
        b.bytes.extend(format!("--{}--\r\n", bound).bytes());
    } else {
        if cfg.mime && !typed && r.chance(1, 2) {
            b.bytes.extend(r.pick(&["Content-Type: text/plain; charset=us-ascii\r\n", "Content-Type: text/html; charset=\"US-ASCII\"\r\n", "Content-Type: text/plain\r\n", "Content-Type: image/png\r\n"]).bytes());
        }
        if cfg.mime && !encoded && r.chance(1, 2) {
            b.bytes.extend(format!("Content-Transfer-Encoding: {}\r\n", r.pick(&["7bit", "8bit", "binary", "7BIT", "Binary", "(c) 8bit"])).bytes());
        }
        b.bytes.extend(b"\r\n");
        let start = b.bytes.len();
        let n = len(999, r).max(12);
        let lines = r.chance(1, 2);
        let v = plain(r, 't', n).into_bytes();
        for (i, ch) in v.chunks(if cfg.mime { 3000 } else { 70 }).enumerate() {
            if i > 0 && (lines || !cfg.mime) {
                b.bytes.extend(b"\r\n");
            }
            b.bytes.extend(ch);
        }
        let e = b.bytes.len();
        if !(part && encoded) || true {
            b.spots.push((start, e - start, true, "body".to_string()));
        }
    }
    b
}
#[allow(non_upper_case_globals)]
static site_from: Site = site("From", "From: <author@b>", 'd', true, |_| true);

fn borrowed(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = c.cfg.clone();
    let b = build_sites(&mut r, &cfg, &mut |_, r| if r.chance(1, 8) { crate::dict::number(r, 10_000) + 12 + r.below(60) } else { r.size(12, 20, 300) }, false);
    c.eval(&b.bytes, true);
    let base = b.bytes.as_ptr() as usize;
    let (mut m, mut e) = (Cx::new(), Cx::new());
    let vm = guard_val(|| m.message(&b.bytes));
    let ve = guard_val(|| e.parse(&b.bytes));
    c.sample(|| escape(&b.bytes, 600));
    // an entity with an unknown transfer encoding is refused
    let refused = b.spots.iter().any(|s| s.3.starts_with("Content-Transfer-Encoding"));
    for (v, cx, what) in [(vm, &m, "parse_message"), (ve, &e, "Email::parse")] {
        if refused && what == "Email::parse" {
            continue;
        }
        if v.tag() == "Error" || v.tag() == "Panic" {
            c.inconclusive(format!("{}: {}", what, v.short()), &b.bytes);
            continue;
        }
        for (p, n, seen, w) in &b.spots {
            if !*seen || (what == "parse_message" && w.contains("(in a part)")) || (what == "parse_message" && w == "body" && false) {
                continue;
            }
            // the body of a multipart part is only visible in the entity
            let text = &b.bytes[*p..*p + *n];
            c.event(&format!("borrowed: {}", w), 1);
            if !cx.recs.iter().any(|r| r.borrowed && r.ptr == base + p && r.len == *n) {
                let near = cx.recs.iter().filter(|r| r.ptr < base + p + n && r.ptr + r.len > base + p).map(|r| format!("{}+{}", r.ptr as i64 - base as i64, r.len)).collect::<Vec<_>>();
                c.violation(format!("{}: {:?} ({}) is not returned as a reference to its place {}+{} (references nearby: {:?})", what, escape(text, 60), w, p, n, near), &b.bytes);
            }
            if let Some(r) = cx.copies.iter().find(|(len, h)| *len == *n && *h == crate::rng::fnv(text)) {
                c.violation(format!("{}: {:?} ({}) is also returned as a copy of {} bytes", what, escape(text, 60), w, r.0), &b.bytes);
            }
        }
    }
}
/// The memory allocated does not depend on the length of one text.
fn growth(c: &mut Ctx) {
    let r = c.rng();
    let cfg = c.cfg.clone();
    let target = r.clone().below(40);
    let mut sizes = Vec::new();
    let refused = grown(&r, &cfg, target, 0).windows(25).any(|w| w.eq_ignore_ascii_case(b"content-transfer-encoding")) && Email::parse(&grown(&r, &cfg, target, 0)).is_err();
    for extra in [0usize, 50_000] {
        let b = grown(&r, &cfg, target, extra);
        c.eval(&b, true);
        let (ok, bytes, _) = mon::allocations(|| {
            let a = parse_message(&b).is_ok();
            let e = Email::parse(&b);
            #[cfg(feature = "mime")]
            if let Ok(e) = &e {
                tree(&e.mime_entity, 3);
            }
            a && (refused || e.is_ok())
        });
        if !ok {
            c.inconclusive("refused".into(), &b);
            return;
        }
        sizes.push((b.len(), bytes));
    }
    c.event("pairs of sizes compared", 1);
    if sizes[1].1 > sizes[0].1 + 256 {
        let b = grown(&r, &cfg, target, 60);
        c.violation(format!("the memory allocated depends on the length of a text that needs no decoding: {} bytes for a message of {} bytes, {} for {}", sizes[0].1, sizes[0].0, sizes[1].1, sizes[1].0), &b);
    }
}
fn grown(r: &Rng, cfg: &crate::refp::Cfg, target: usize, extra: usize) -> Vec<u8> {
    // built with short texts, then one of them is made longer in place
    let mut r = r.clone();
    let b = build_sites(&mut r, cfg, &mut |_, _| 40, false);
    let spots: Vec<_> = b.spots.iter().filter(|s| s.1 >= 12).collect();
    let s = spots[target % spots.len()];
    // a place inside a run of letters
    let mut at = s.0 + 6;
    while at < s.0 + s.1 - 1 && !(b.bytes[at].is_ascii_alphanumeric() && b.bytes[at - 1].is_ascii_alphanumeric()) {
        at += 1;
    }
    let mut v = b.bytes[..at].to_vec();
    if cfg.mime || s.3 != "body" {
        v.resize(at + extra, b'k');
    } else {
        for _ in 0..extra / 60 {
            v.extend(b"\r\nkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk");
        }
    }
    v.extend_from_slice(&b.bytes[at..]);
    v
}
pub fn c19() -> Vec<Sub> {
    vec![sub("places", 6, borrowed), sub("memory", 1, growth)]
}

// ---------------------------------------------------------------------------------------------------------------------
// C21: purity

fn some_input(g: &mut G, c: &Ctx) -> Vec<u8> {
    match g.r.below(6) {
        0 => {
            let b = small_message(g, c);
            edited(&mut g.r, &b)
        }
        1 => {
            let s = Shape::pick(&mut g.r);
            let n = g.r.range(1, 400);
            s.bytes(n)
        }
        2 => small_message(g, c),
        // many of something
        3 => {
            let list = p1::plan("DIMS");
            let ((_, make), most) = list[g.r.below(list.len())];
            let n = g.r.size(0, 24, most.min(400));
            make(g, n).case(g).bytes
        }
        _ => g.message().bytes,
    }
}
fn both(b: &[u8]) -> Val {
    T("Both", vec![real_message(b), real_email(b)])
}
fn same(c: &mut Ctx, what: &str, input: &[u8], first: &Val, now: &Val) -> bool {
    c.event(what, 1);
    if first == now {
        return true;
    }
    let d = diff(first, now).map(|(p, e, g)| format!("at {}: {} then {}", p, e, g)).unwrap_or_else(|| "differ".into());
    c.violation(format!("the result depends on something else than the message ({}): {}", what, d), input);
    false
}
thread_local! {
    /// messages parsed at the start, and what they gave
    static CANARIES: RefCell<Vec<(Vec<u8>, Val)>> = const { RefCell::new(Vec::new()) };
}
fn canary(c: &mut Ctx, k: usize) {
    let empty = CANARIES.with(|v| v.borrow().is_empty());
    if empty {
        let mut list = Vec::new();
        for i in 0..12 {
            let mut g = G::new(Rng::derive(c.seed, "canary", i), &c.cfg);
            let b = g.message().bytes;
            let v = both(&b);
            list.push((b, v));
        }
        CANARIES.with(|v| *v.borrow_mut() = list);
    }
    let (b, v) = CANARIES.with(|l| {
        let l = l.borrow();
        l[k % l.len()].clone()
    });
    let now = both(&b);
    same(c, "after many other messages", &b, &v, &now);
}
fn pure(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    canary(c, c.case as usize);
    let a = some_input(&mut g, c);
    c.eval(&a, true);
    c.sample(|| escape(&a, 300));
    let first = both(&a);
    c.event(if first.items()[1].tag() == "Email" { "accepted" } else { "refused" }, 1);
    if !same(c, "repeated", &a, &first, &both(&a)) {
        return;
    }
    // other places
    let junk: [&[u8]; 6] = [b"\0\0\0\0", b"\r\n\r\n", b"aaaaa", b"\xff\xfe", b" \t ", b"=\")>;"];
    for _ in 0..3 {
        let off = g.r.below(17);
        let mut buf = Vec::new();
        while buf.len() < off {
            buf.extend_from_slice(*g.r.pick(&junk));
        }
        buf.truncate(off);
        buf.extend_from_slice(&a);
        for _ in 0..20 {
            buf.extend_from_slice(*g.r.pick(&junk));
        }
        let before = buf.clone();
        if !same(c, "another place", &a, &first, &both(&buf[off..off + a.len()])) {
            return;
        }
        if buf != before {
            c.violation("the input or the bytes around it were modified".into(), &a);
            return;
        }
    }
    #[cfg(not(miri))]
    if a.len() <= GUARDED * mon::PAGE {
        let mut pages = PAGES.with(|p| p.borrow_mut().take()).unwrap_or_else(|| mon::Guarded::new(GUARDED));
        let at = pages.put(&a, g.r.chance(1, 2));
        pages.writable(false);
        let v = both(at);
        pages.writable(true);
        PAGES.with(|p| *p.borrow_mut() = Some(pages));
        if !same(c, "in memory that cannot be written", &a, &first, &v) {
            return;
        }
    }
    // conversion
    let conv = guard_val(|| {
        use std::convert::TryFrom;
        match Email::try_from(&a[..]) {
            Ok(e) => T("Email", vec![Cx::new().email(&e)]),
            Err(e) => crate::obs::error(&e),
        }
    });
    if !same(c, "conversion from bytes", &a, &first.items()[1], &conv) {
        return;
    }
    let conv = guard_val(|| {
        use std::convert::TryInto;
        let r: Result<Email, _> = a[..].try_into();
        match r {
            Ok(e) => T("Email", vec![Cx::new().email(&e)]),
            Err(e) => crate::obs::error(&e),
        }
    });
    same(c, "conversion into an email", &a, &first.items()[1], &conv);
    #[cfg(all(feature = "world", not(miri)))]
    for _ in 0..2 {
        let w = g.r.next() | 1;
        let (v, asked) = mon::world::within(w, || both(&a));
        c.event("questions about the environment, the clock, the process or files", asked);
        if !same(c, "with another environment, clock, process and files", &a, &first, &v) {
            return;
        }
    }
    // the same buffer, with other contents
    let mut buf = a.clone();
    let mut variants: Vec<Vec<u8>> = Vec::new();
    for _ in 0..4 {
        let mut v = a.clone();
        for _ in 0..g.r.range(1, 3) {
            if v.is_empty() {
                break;
            }
            let p = g.r.below(v.len());
            v[p] = match v[p] {
                b'0'..=b'9' => b'0' + g.r.below(10) as u8,
                b'a'..=b'z' | b'A'..=b'Z' => *g.r.pick(b"abcxyzABC"),
                _ if g.r.chance(1, 2) => *g.r.pick(b"a \r\n()\"<>@;="),
                x => x,
            };
        }
        variants.push(v);
    }
    let fresh: Vec<Val> = variants.iter().map(|v| both(&v.clone().into_boxed_slice())).collect();
    for (v, f) in variants.iter().zip(&fresh) {
        buf.copy_from_slice(v);
        if !same(c, "in a buffer that held another message", v, f, &both(&buf)) {
            return;
        }
    }
    buf.copy_from_slice(&a);
    same(c, "in a buffer that held another message", &a, &first, &both(&buf));
    // held while others are parsed
    let held = guard_val(|| {
        let r = Email::parse(&a);
        let f = parse_message(&a);
        for v in &variants {
            let _ = std::hint::black_box(both(v));
        }
        let x = match &r {
            Ok(e) => T("Email", vec![Cx::new().email(e)]),
            Err(e) => crate::obs::error(e),
        };
        let y = match &f {
            Ok((fields, body)) => {
                let mut cx = Cx::new();
                T("Message", vec![L(fields.iter().map(|f| cx.field(f)).collect()), cx.body(body)])
            }
            Err(e) => crate::obs::error(e),
        };
        T("Both", vec![y, x])
    });
    same(c, "observed after other messages", &a, &first, &held);
}
fn concurrent(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let n = g.r.range(2, 5);
    let inputs: Vec<Vec<u8>> = (0..n).map(|_| some_input(&mut g, c)).collect();
    for i in &inputs {
        c.eval(i, true);
    }
    let alone: Vec<Val> = inputs.iter().map(|i| both(i)).collect();
    let shared: Vec<Option<Email>> = inputs.iter().map(|i| guard(|| Email::parse(i).ok()).ok().flatten()).collect();
    let barrier = std::sync::Barrier::new(4);
    let results: Vec<(usize, Val, Val)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let (inputs, shared, barrier) = (&inputs, &shared, &barrier);
                let mut r = Rng::derive(c.seed ^ c.case, "thread", t);
                // threads are told apart by their names and the sizes of their stacks
                const NAMES: [&str; 10] = ["main", "worker", "worker-1", "tokio-runtime-worker", "rayon", "pool 3", "test", "parser", "0", "\u{e9}"];
                let mut b = std::thread::Builder::new().stack_size(*r.pick(&[1 << 21, 1 << 22, 8 << 20]));
                if r.chance(2, 3) {
                    b = b.name(r.pick(&NAMES).to_string());
                }
                let run = move || {
                    let mut out = Vec::new();
                    barrier.wait();
                    for _ in 0..inputs.len() * 2 {
                        let k = r.below(inputs.len());
                        let v = both(&inputs[k]);
                        let e = match &shared[k] {
                            Some(e) => guard_val(|| T("Email", vec![Cx::new().email(e)])),
                            Option::None => Any,
                        };
                        out.push((k, v, e));
                        if r.chance(1, 3) {
                            std::thread::yield_now();
                        }
                    }
                    out
                };
                b.spawn_scoped(s, run).expect("a thread")
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("thread")).collect()
    });
    for (k, v, e) in results {
        if !same(c, "in several threads", &inputs[k], &alone[k], &v) {
            return;
        }
        if e != Any && alone[k].items()[1].tag() == "Email" && !same(c, "a message shared by several threads", &inputs[k], &alone[k].items()[1], &e) {
            return;
        }
    }
}
pub fn c21() -> Vec<Sub> {
    vec![sub("places", 4, pure), sub("threads", 1, concurrent)]
}

// ---------------------------------------------------------------------------------------------------------------------
// C18: configurations

/// Messages made for all the features, judged by the reference for the features of this build.
fn config_messages(c: &mut Ctx) {
    let all = crate::refp::Cfg::all();
    let mut g = G::new(c.rng(), &all);
    let case: Case = g.message();
    check_reference(c, &case.bytes);
    c.sample(|| escape(&case.bytes, 500));
    for _ in 0..2 {
        let b = edited(&mut g.r, &case.bytes);
        check_reference(c, &b);
    }
}
fn config_headers(c: &mut Ctx) {
    let all = crate::refp::Cfg::all();
    let mut g = G::new(c.rng(), &all);
    let mut lines: Vec<Vec<u8>> = Vec::new();
    for n in NAMES.iter().filter(|n| !n.starts_with('R') || **n == "Reply-To" || **n == "References") {
        if *n != "X-Other" && g.r.chance(1, 3) {
            lines.push(header_lines(&mut g, n).0);
        }
    }
    if g.r.chance(1, 8) && !lines.is_empty() {
        let k = g.r.below(lines.len());
        let l = lines[k].clone();
        lines.push(l);
    }
    g.r.shuffle(&mut lines);
    let mut m = lines.concat();
    if g.r.chance(2, 3) {
        m.extend(b"\r\n");
        m.extend(g.text_body());
    }
    check_reference(c, &m);
    let b = edited(&mut g.r, &m);
    check_reference(c, &b);
}
/// Two bodies, absent headers, and the simplest message.
fn config_minimal(c: &mut Ctx) {
    const LINES: &[&str] = &[
        "From: a@b\r\n", "From: a@b, c@d\r\n", "Sender: s@t\r\n", "Date: 1 Jan 2015 10:20:30 +0000\r\n", "To: a@b\r\n", "To: bad bad\r\n", "Subject: x\r\n", "Message-ID: <a@b>\r\n", "Return-Path: <a@b>\r\nReceived: a; 1 Jan 2015 10:20:30 +0000\r\n",
        "Cc: a@b\r\n", "Bcc: \r\n", "Reply-To: a@b\r\n", "In-Reply-To: <a@b>\r\n", "References: <a@b>\r\n", "Comments: x\r\n", "Keywords: x, y\r\n", "MIME-Version: 1.0\r\n", "Content-Type: text/plain; charset=utf-8\r\n",
        "Content-Transfer-Encoding: base64\r\n", "Content-ID: <a@b>\r\n", "Content-Description: x\r\n", "Content-Disposition: inline; filename=x\r\n", "X-Y: z\r\n", "Received: a; 1 Jan 2015 10:20:30 +0000\r\nResent-Date: 1 Jan 2015 10:20:30 +0000\r\nResent-From: a@b\r\n",
        "Resent-From: a@b\r\n", "Date: never\r\n", "Subject: =?utf-8?Q?a?= \r\n b\r\n", "Keywords: ,\r\n", "MIME-Version: x\r\n", "Content-ID: x\r\n", "Return-Path: x\r\n", "Received: x\r\n",
    ];
    // every pair, after nothing or after what a message needs
    let n = LINES.len() as u64;
    let k = c.case;
    let (i, j, w) = (k % n, (k / n) % (n + 1), k / (n * (n + 1)));
    let mut m: Vec<u8> = Vec::new();
    m.extend(LINES[i as usize].bytes());
    if j > 0 {
        m.extend(LINES[j as usize - 1].bytes());
    }
    if w % 2 == 1 {
        m.extend(b"From: author@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n");
    }
    if w / 2 == 1 {
        m.extend(b"\r\nYm9keQ==");
    } else if w / 2 == 2 {
        m.extend(b"\r\n\r\n\x80");
    }
    check_reference(c, &m);
}
/// Every number at every place for numbers, in this configuration.
fn config_numbers(c: &mut Ctx) {
    for m in crate::gen::numbered(c.case) {
        check_reference(c, &m);
    }
}
fn minimal_count() -> u64 {
    32 * 33 * 6
}
/// A case of another check, in this configuration. The checks whose expectations are about headers that a configuration
/// may not know are not among them.
fn config_others(c: &mut Ctx) {
    if c.cfg.sender && !c.cfg.from {
        // the other messages are refused: there is nobody to take for their sender
        return;
    }
    static SUBS: std::sync::OnceLock<Vec<(&'static str, Sub)>> = std::sync::OnceLock::new();
    let subs = SUBS.get_or_init(|| {
        // for all the properties, the first time
        p1::sizes_count("DIMS");
        p1::sweep_count("C20");
        let mut v = Vec::new();
        for p in ["C04", "C06", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C20", "C23"] {
            for s in crate::props::subs(p).unwrap_or_default() {
                // these ones are the same for all, or slow
                if s.name != "sizes" && (s.name != "sizes again" || p == "C06") && (s.name != "sweep" || p == "C06") && s.name != "sequences" && s.name != "control characters" && s.limit != Some(0) {
                    v.push((p, s));
                }
            }
        }
        v
    });
    let mut r = c.rng();
    let (p, s) = r.pick(subs);
    let (case, prop, violations, known) = (c.case, c.prop.clone(), c.violations.len(), c.known.clone());
    c.case = match s.limit {
        Some(n) => r.below(n as usize) as u64,
        Option::None => r.next() >> 32,
    };
    c.prop = p.to_string();
    c.event(&format!("cases of {} ({})", p, s.name), 1);
    (s.run)(c);
    c.case = case;
    c.prop = prop;
    c.known = known;
    for v in &mut c.violations[violations..] {
        v.case = case;
    }
}
pub fn c18() -> Vec<Sub> {
    vec![subn("pairs", 200, minimal_count(), config_minimal), sub("messages", 4, config_messages), sub("headers", 8, config_headers), sub("others", 4, config_others), subn("numbers", 16, crate::gen::numbered_count(), config_numbers), subn("sequences", 2, p1::toks_count("C18"), p1::toks)]
}
