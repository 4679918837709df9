//! Bodies, transfer encodings, multiparts, character sets, parts and owned copies.
use crate::ctx::*;
use crate::gen::{Case, G};
use crate::p1;
use crate::refp::{self, Bad};
use crate::rng::Rng;
use crate::val::{diff, Val, Val::*};
use crate::work::*;
#[cfg(feature = "mime")]
use crate::{gen, obs::Cx, tables};
#[cfg(feature = "mime")]
use email_parser::mime::*;

// ---------------------------------------------------------------------------------------------------------------------
// C11: the body

fn only_body(v: &Val) -> Val {
    match v {
        T("Message", p) => T("Message", vec![Any, p[1].clone()]),
        v => v.clone(),
    }
}

/// The body of a message against the reference, which only splits the message.
fn check_body(c: &mut Ctx, bytes: &[u8], known: Option<Option<&[u8]>>) {
    let cfg = c.cfg.clone();
    let r = only_body(&refp::message(bytes, &cfg));
    c.eval(bytes, r != Any);
    match &r {
        T("Message", p) if p[1] == None => c.event("absent", 1),
        T("Message", _) => c.event("present", 1),
        T("Error", _) => c.event("refused", 1),
        _ => c.event("unspecified", 1),
    }
    let m = match known {
        Some(b) if b.map_or(true, |b| cfg.mime || refp::text_body_ok(b)) => T("Message", vec![Any, refp::body_val(b, &cfg)]),
        Some(_) => refp::syntax_error(),
        Option::None => r.clone(),
    };
    let got = only_body(&real_message(bytes));
    if is_panic(c, "parse_message", bytes, &got) {
        return;
    }
    c.expect_model("parse_message", bytes, &m, || r, &got);
    // the same through Email::parse: only its body, when it has no other reason to refuse
    let r = refp::email(bytes, &cfg);
    if r.tag() == "Error" && r != refp::syntax_error() {
        return;
    }
    let names: &[&str] = &["body", "entity.value"];
    let r = project_email(&r, names);
    let got = project_email(&real_email(bytes), names);
    if !is_panic(c, "Email::parse", bytes, &got) {
        c.expect("Email::parse", bytes, &r, &got);
    }
}

/// Any body after any headers.
fn bodies(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut lines = Vec::new();
    if c.cfg.mime && g.r.chance(1, 3) {
        let e = *g.r.pick(&["7bit", "8bit", "binary"]);
        let mut o = Vec::new();
        g.name(&mut o, "Content-Transfer-Encoding");
        g.lead(&mut o);
        o.extend(g.case(e));
        g.end_gap(&mut o);
        o.extend_from_slice(b"\r\n");
        lines.push((o, T("Content-Transfer-Encoding", vec![Val::s(e)])));
    }
    if c.cfg.mime && g.r.chance(1, 4) {
        lines.push(header_lines(&mut g, "Content-Type"));
    }
    for n in ["Subject", "To", "Comments", "Keywords", "Message-ID"] {
        if g.r.chance(1, 6) {
            lines.push(header_lines(&mut g, n));
        }
    }
    let body = match g.r.below(12) {
        0 => Option::None,
        1 => Some(vec![]),
        _ => Some(body_bytes(&mut g)),
    };
    let case = frame(&mut g, lines, body);
    check_body(c, &case.bytes, Some(case.body.as_deref()));
    c.sample(|| escape(&case.bytes, 300));
}
fn body_bytes(g: &mut G) -> Vec<u8> {
    if g.cfg.mime {
        let mut v = g.content();
        match g.r.below(8) {
            0 => v.splice(0..0, b"\r\n".iter().copied()).count(),
            1 => v.splice(0..0, b" folded?".iter().copied()).count(),
            2 => v.splice(0..0, b"Subject: no header\r\n".iter().copied()).count(),
            3 => v.splice(0..0, crate::dict::word(&mut g.r).iter().copied()).count(),
            4 => {
                v.extend_from_slice(crate::dict::word(&mut g.r));
                0
            }
            _ => 0,
        };
        return v;
    }
    let mut v = g.text_body();
    match g.r.below(6) {
        0 | 1 | 2 => (),
        3 => {
            // a defect somewhere
            let p = g.r.below(v.len() + 1);
            let x = *g.r.pick(&[b'\r', b'\n', 0, 0x80, 0xff, 0xc3]);
            v.insert(p, x);
        }
        4 => {
            // a line at the limit
            let n = g.r.range(996, 1001);
            let p = v.windows(2).position(|w| w == b"\r\n").map_or(0, |p| p + 2);
            let mut l = vec![b'x'; n];
            l.extend_from_slice(b"\r\n");
            v.splice(p..p, l);
        }
        _ => {
            let p = g.r.below(v.len() + 1);
            v.truncate(p);
        }
    }
    v
}

const BODY_ALPHABET: [u8; 7] = [b'\r', b'\n', b'a', b' ', 0, 0x80, b':'];
/// The k-th string over an alphabet, by length.
fn nth<T: Clone>(alphabet: &[T], mut k: u64) -> Vec<T> {
    let n = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while k >= count {
        k -= count;
        count *= n;
        len += 1;
    }
    let mut out = Vec::new();
    for _ in 0..len {
        out.push(alphabet[(k % n) as usize].clone());
        k /= n;
    }
    out
}
fn strings_upto(n: u64, len: u32) -> u64 {
    (0..=len).map(|i| n.pow(i)).sum()
}
/// Every short body.
fn body_enum(c: &mut Ctx) {
    let s = nth(&BODY_ALPHABET, c.case);
    let mut b = format!("{}{}\r\n", FROM, DATE).into_bytes();
    b.extend_from_slice(&s);
    check_body(c, &b, Some(Some(&s)));
}
/// Every short end of a header section.
fn tail_enum(c: &mut Ctx) {
    let s = nth(&[b'\r', b'\n', b'a', b' ', b':', 0x80], c.case);
    let mut b = format!("{}{}", FROM, DATE).into_bytes();
    b.extend_from_slice(&s);
    check_body(c, &b, Option::None);
}
/// Every byte at the places that matter.
fn body_byte_sites(c: &mut Ctx) {
    let x = (c.case & 255) as u8;
    let (pre, post): (&[u8], &[u8]) = [
        (&b""[..], &b""[..]),
        (b"", b"\r\n"),
        (b"abc", b""),
        (b"abc", b"def\r\n"),
        (b"\r\n", b""),
        (b"line\r\n", b"\r\nline"),
        (b"line\r", b"\n"),
        (b"\r\n\r\n", b"\r\n\r\n"),
    ][(c.case >> 8) as usize];
    let mut s = pre.to_vec();
    s.push(x);
    s.extend_from_slice(post);
    let mut b = format!("{}{}\r\n", FROM, DATE).into_bytes();
    b.extend_from_slice(&s);
    check_body(c, &b, Some(Some(&s)));
}
/// Lines of every length around the limit, at every place.
fn long_lines(c: &mut Ctx) {
    let n = 980 + (c.case % 40) as usize;
    let place = c.case / 40;
    let l = "x".repeat(n);
    let s = match place {
        0 => l.clone(),
        1 => format!("{}\r\n", l),
        2 => format!("a\r\n{}\r\nb", l),
        3 => format!("{}\r\n{}\r\n{}", l, l, l),
        _ => format!("\r\n{}", l),
    };
    let b = format!("{}{}\r\n{}", FROM, DATE, s).into_bytes();
    check_body(c, &b, Some(Some(s.as_bytes())));
}
/// Whole messages, everything included.
fn body_messages(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message();
    check_body(c, &case.bytes, Some(case.body.as_deref()));
    // and without some bytes
    let mut b = case.bytes.clone();
    if b.len() < 5000 {
        p1::edit(&mut g.r, &mut b, 0);
        check_body(c, &b, Option::None);
    }
}
pub fn c11() -> Vec<Sub> {
    vec![
        sub("bodies", 6, bodies),
        sub("messages", 1, body_messages),
        subn("sizes", 1, p1::sizes_count("C11"), p1::sizes_run),
        sub("sizes again", 1, p1::sizes_more),
        subn("every short body", 4, strings_upto(7, 5), body_enum),
        subn("every short end of headers", 4, strings_upto(6, 6), tail_enum),
        subn("every byte", 1, 8 * 256, body_byte_sites),
        subn("long lines", 1, 200, long_lines),
    ]
}

// ---------------------------------------------------------------------------------------------------------------------
// C13: transfer encodings

#[cfg(feature = "mime")]
const BOUND: &str = "yPq7_vh0Wm=_3s";
#[cfg(feature = "mime")]
fn bytes_or_error(r: Result<Vec<u8>, email_parser::error::Error>) -> Val {
    match r {
        Ok(v) => B(v),
        Err(_) => refp::syntax_error(),
    }
}
#[cfg(feature = "mime")]
const ENC_SITES: usize = 3;
/// Decodes content somewhere.
#[cfg(feature = "mime")]
fn decoded_at(site: usize, enc: &str, content: &[u8]) -> Val {
    use email_parser::prelude::*;
    guard_val(|| match site {
        #[cfg(feature = "benchmarking")]
        0 => {
            if enc == "base64" {
                bytes_or_error(decode_base64(content.to_vec()))
            } else {
                B(decode_qp(content.to_vec()))
            }
        }
        2 => {
            let mut b = format!(
                "{}{}Content-Type: multipart/mixed; boundary=\"{}\"\r\n\r\n--{}\r\nContent-Type: image/x\r\nContent-Transfer-Encoding: {}\r\n\r\n",
                FROM, DATE, BOUND, BOUND, enc
            )
            .into_bytes();
            b.extend_from_slice(content);
            b.extend(format!("\r\n--{}--", BOUND).bytes());
            match Email::parse(&b) {
                Ok(e) => match e.mime_entity.parse() {
                    Ok(Entity::Multipart { content, .. }) if content.len() == 1 => B(content[0].value.to_vec()),
                    Ok(_) => T("Other", vec![]),
                    Err(_) => refp::syntax_error(),
                },
                Err(_) => refp::syntax_error(),
            }
        }
        _ => {
            let mut b = format!("{}{}Content-Type: image/x\r\nContent-Transfer-Encoding: {}\r\n\r\n", FROM, DATE, enc).into_bytes();
            b.extend_from_slice(content);
            bytes_or_error(Email::parse(&b).map(|e| e.mime_entity.value.to_vec()))
        }
    })
}
#[cfg(feature = "mime")]
fn enc_reference(enc: &str, content: &[u8]) -> Val {
    if enc == "base64" {
        match refp::base64(content) {
            Ok(v) => B(v),
            Err(Bad::Invalid) => refp::syntax_error(),
            Err(_) => Any,
        }
    } else {
        let v = refp::quoted_printable(content);
        if refp::is_unspecified(&v) {
            Any
        } else {
            B(v)
        }
    }
}
#[cfg(feature = "mime")]
fn check_encoded(c: &mut Ctx, enc: &str, content: &[u8], expected: Option<&[u8]>, site: usize) {
    let mut key = content.to_vec();
    key.push(site as u8);
    let m = match expected {
        Some(e) => B(e.to_vec()),
        Option::None => enc_reference(enc, content),
    };
    c.eval(&key, m != Any);
    c.event(["through the exported function", "in a message", "in a part"][site], 1);
    let got = decoded_at(site, enc, content);
    if is_panic(c, enc, content, &got) {
        return;
    }
    c.expect_model(&format!("{} {}", enc, ["exported function", "message", "part"][site]), content, &m, || enc_reference(enc, content), &got);
}
/// A base64 text for some data, with everything a decoder must accept.
#[cfg(feature = "mime")]
pub fn b64_any(r: &mut Rng, data: &[u8]) -> Vec<u8> {
    let eol: &[u8] = *r.pick(&[&b"\r\n"[..], b"\r\n", b"\n", b"\r", b" ", b"\t\r\n", b"\r\n\r\n"]);
    let line = *r.pick(&[0usize, 76, 76, 64, 72, 4, 1, 3, 998]);
    let mut v = gen::b64(data, line, eol);
    if r.chance(1, 3) {
        let k = r.range(1, 6);
        for _ in 0..k {
            let p = r.below(v.len() + 1);
            let n = r.range(1, 5);
            for _ in 0..n {
                let x = loop {
                    let x = r.byte();
                    if !(x.is_ascii_alphanumeric() || x == b'+' || x == b'/' || x == b'=') {
                        break x;
                    }
                };
                v.insert(p, x);
            }
        }
    }
    if r.chance(1, 2) {
        v.extend_from_slice(eol);
    }
    v
}
#[cfg(feature = "mime")]
fn transfer_roundtrip(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut data = g.content();
    if g.r.chance(1, 2) {
        let n = g.r.below(40);
        data.truncate(n);
    }
    let site = g.r.below(ENC_SITES);
    if g.r.chance(1, 2) {
        let e = b64_any(&mut g.r, &data);
        check_encoded(c, "base64", &e, Some(&data), site);
    } else {
        let e = g.qp_encode(&data);
        check_encoded(c, "quoted-printable", &e, Some(&data), site);
        c.sample(|| format!("quoted-printable {} for {}", escape(&e, 200), escape(&data, 100)));
    }
}
/// Damage: what surrounds it is still decoded.
#[cfg(feature = "mime")]
fn transfer_damaged(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let site = g.r.below(ENC_SITES);
    if g.r.chance(1, 2) {
        // truncated base64
        let n = g.r.range(1, 60);
        let data = g.r.bytes(n);
        let mut e = gen::b64(&data, 0, b"");
        let cut = g.r.below(e.len());
        e.truncate(cut);
        let k = e.iter().position(|c| *c == b'=').unwrap_or(e.len());
        let lost = e.len() % 4 != 0;
        let e = {
            // noise does not matter
            let mut v = e.clone();
            if g.r.chance(1, 2) {
                for _ in 0..g.r.below(4) {
                    let p = g.r.below(v.len() + 1);
                    v.insert(p, *g.r.pick(b" \r\n-*"));
                }
            }
            v
        };
        if lost {
            c.event("truncated base64", 1);
            check_encoded(c, "base64", &e, Option::None, site);
        } else if k == cut {
            check_encoded(c, "base64", &e, Some(&data[..cut / 4 * 3]), site);
        }
        return;
    }
    let word = |g: &mut G, first: bool| {
        let n = g.r.below(20);
        let mut v: Vec<u8> = Vec::new();
        for _ in 0..n {
            match g.r.below(8) {
                0 => v.extend_from_slice(b"=41"),
                1 => v.extend_from_slice(b"=C3=A9"),
                2 => v.extend_from_slice(b"=\r\n"),
                3 => v.extend_from_slice(b"\r\n"),
                4 => v.extend_from_slice(b"a b"),
                _ => v.push(g.r.range(33, 126) as u8),
            }
            if v.last() == Some(&b'=') {
                v.pop();
            }
        }
        if first {
            v.push(b'<');
        } else {
            v.insert(0, b'>');
        }
        v
    };
    let a = word(&mut g, true);
    let b = word(&mut g, false);
    let damage = match g.r.below(4) {
        0 => vec![b'=', *g.r.pick(b"GZgz!_ "), *g.r.pick(b"0AaG!")],
        1 => vec![b'=', *g.r.pick(b"09AFaf"), *g.r.pick(b"GZgz!_")],
        2 => vec![*g.r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc3])],
        _ => vec![b'=', *g.r.pick(b"GZ!"), *g.r.pick(b"GZ!"), b'=', b'X', b'Y'],
    };
    let mut all = a.clone();
    all.extend_from_slice(&damage);
    all.extend_from_slice(&b);
    c.eval(&all, true);
    c.event("damaged quoted-printable", 1);
    let got = decoded_at(site, "quoted-printable", &all);
    if is_panic(c, "quoted-printable", &all, &got) {
        return;
    }
    let (ea, eb) = (refp::quoted_printable(&a), refp::quoted_printable(&b));
    let ok = match &got {
        B(v) => v.len() >= ea.len() + eb.len() && v.starts_with(&ea) && v.ends_with(&eb),
        _ => false,
    };
    if !ok {
        c.violation(format!("a damaged sequence affects what surrounds it: expected {} ... {}, observed {}", B(ea).short(), B(eb).short(), got.short()), &all);
    }
}
/// Every byte at every place of a group of base64.
#[cfg(feature = "mime")]
fn base64_bytes(c: &mut Ctx) {
    let x = (c.case & 255) as u8;
    let p = (c.case >> 8) as usize % 9;
    let site = (c.case >> 8) as usize / 9;
    let mut v = b"QUJDREVG".to_vec();
    v.insert(p, x);
    if x.is_ascii_alphanumeric() || b"+/".contains(&x) {
        // one more character: a truncated group
        check_encoded(c, "base64", &v, Option::None, site);
        v[p.max(1) - (p == 8) as usize] = x;
    } else if x != b'=' {
        check_encoded(c, "base64", &v, Some(b"ABCDEF"), site);
        let mut w = b"QQ==".to_vec();
        w.insert(p.min(4), x);
        check_encoded(c, "base64", &w, Some(b"A"), site);
        let mut w = b"QUI=".to_vec();
        w.insert(p.min(4), x);
        check_encoded(c, "base64", &w, Some(b"AB"), site);
    }
}
/// Every pair of bytes in base64.
#[cfg(feature = "mime")]
fn base64_pairs(c: &mut Ctx) {
    let (x, y) = ((c.case & 255) as u8, (c.case >> 8 & 255) as u8);
    let pads: [&[u8]; 3] = [&[], &[7], &[7, 9]];
    for pad in pads {
        let mut d = pad.to_vec();
        d.push(x);
        d.push(y);
        let e = gen::b64(&d, 0, b"");
        check_encoded(c, "base64", &e, Some(&d), (x as usize + y as usize) % ENC_SITES);
    }
}
/// Every pair of characters after an equals sign.
#[cfg(feature = "mime")]
fn qp_pairs(c: &mut Ctx) {
    let (x, y) = ((c.case & 255) as u8, (c.case >> 8 & 255) as u8);
    let h = |c: u8| (c as char).to_digit(16);
    let site = (x as usize + y as usize) % ENC_SITES;
    let v = vec![b'a', b'=', x, y, b'b'];
    match (h(x), h(y)) {
        (Some(i), Some(j)) => check_encoded(c, "quoted-printable", &v, Some(&[b'a', (i * 16 + j) as u8, b'b']), site),
        _ => {
            c.eval(&v, true);
            let got = decoded_at(site, "quoted-printable", &v);
            if is_panic(c, "quoted-printable", &v, &got) {
                return;
            }
            let ok = match &got {
                B(o) => o.starts_with(b"a"),
                _ => false,
            };
            if !ok {
                c.violation(format!("a damaged sequence affects what surrounds it: observed {}", got.short()), &v);
            }
        }
    }
    // literal characters
    let v = [b'<', x, y, b'>'];
    let lit = |c: u8| (32..127).contains(&c) && c != b'=' || c == b'\t';
    if lit(x) && lit(y) {
        check_encoded(c, "quoted-printable", &v, Some(&v), site);
    }
}
/// Every short text over the characters that matter to quoted-printable.
#[cfg(feature = "mime")]
fn qp_enum(c: &mut Ctx) {
    let s = nth(&[&b"="[..], b"\r\n", b" ", b"\t", b"4", b"a", b"=3D"], c.case).concat();
    check_encoded(c, "quoted-printable", &s, Option::None, (c.case % 3) as usize);
}
/// Every short text over the kinds of characters that matter to base64.
#[cfg(feature = "mime")]
fn b64_enum(c: &mut Ctx) {
    let s = nth(&[&b"T"[..], b"=", b"\r\n", b"/", b"\xff"], c.case).concat();
    check_encoded(c, "base64", &s, Option::None, (c.case % 3) as usize);
}
#[cfg(feature = "mime")]
pub fn c13() -> Vec<Sub> {
    vec![
        sub("roundtrip", 8, transfer_roundtrip),
        sub("damaged", 4, transfer_damaged),
        subn("sizes", 1, p1::sizes_count("C13"), p1::sizes_run),
        sub("sizes again", 1, p1::sizes_more),
        subn("every byte of base64", 2, 256 * 9 * 3, base64_bytes),
        subn("every pair of base64", 6, 65536, base64_pairs),
        subn("every pair of quoted-printable", 6, 65536, qp_pairs),
        subn("every short quoted-printable", 6, strings_upto(7, 6), qp_enum),
        subn("every short base64", 4, strings_upto(5, 8), b64_enum),
    ]
}

// ---------------------------------------------------------------------------------------------------------------------
// C16: multiparts

#[cfg(feature = "mime")]
pub fn raw_entity<'a>(kind: ContentType<'a>, params: &[(&'a str, &'a str)], value: &'a [u8]) -> RawEntity<'a> {
    RawEntity {
        mime_type: kind,
        subtype: "x".into(),
        description: Option::None,
        id: Option::None,
        parameters: params.iter().map(|(k, v)| ((*k).into(), (*v).into())).collect(),
        #[cfg(feature = "content-disposition")]
        disposition: Option::None,
        value: value.into(),
        additional_headers: vec![],
    }
}
#[cfg(feature = "mime")]
fn ref_entity(kind: Val, params: &[(&str, &str)], value: &[u8]) -> refp::Entity {
    let mut e = refp::Entity::default_text();
    e.kind = kind;
    e.subtype = Val::s("x");
    e.params = M(params.iter().map(|(k, v)| (k.to_string(), Val::s(v))).collect());
    e.value = B(value.to_vec());
    e
}
#[cfg(feature = "mime")]
fn check_multipart(c: &mut Ctx, boundary: &str, value: &[u8]) {
    let p = [("boundary", boundary)];
    let cfg = c.cfg.clone();
    let expected = ref_entity(Val::s("multipart"), &p, value).parse(&cfg, 8);
    c.eval(value, expected != Any);
    match &expected {
        T("Multipart", l) => c.event(&format!("{} parts", l[1].items().len().min(9)), 1),
        Any => c.event("unspecified", 1),
        _ => c.event("refused", 1),
    }
    let got = guard_val(|| Cx::new().entity(&raw_entity(ContentType::Multipart, &p, value), 8));
    if !is_panic(c, "RawEntity::parse", value, &got) {
        c.expect(&format!("multipart with boundary {:?}", boundary), value, &expected, &got);
    }
}
/// Every short sequence of pieces of delimiters.
#[cfg(feature = "mime")]
fn pieces(c: &mut Ctx) {
    let s = nth(&[&b"--b"[..], b"\r\n", b"--", b"x", b" ", b"\n", b"\r"], c.case).concat();
    let mut v = b"--b\r\n\r\n".to_vec();
    v.extend_from_slice(&s);
    check_multipart(c, "b", &v);
    if c.case < 20_000 {
        v.extend_from_slice(b"\r\n--b--");
        check_multipart(c, "b", &v);
        // before the first part
        let mut v = s;
        v.extend_from_slice(b"\r\n--b\r\n\r\nx\r\n--b--");
        check_multipart(c, "b", &v);
    }
}
#[cfg(feature = "mime")]
fn parsed_only(c: &mut Ctx, case: &Case) {
    check_projected(c, case, &[], &["parsed"]);
}
/// Multiparts made by the generator, at the top and nested.
#[cfg(feature = "mime")]
fn multiparts(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let depth = g.r.range(1, 3);
    let (mut h, b, _, p) = loop {
        let e = g.entity(depth, &[]);
        if e.3.tag() == "Multipart" {
            break e;
        }
    };
    c.event(&format!("{} parts", p.items()[1].items().len().min(9)), 1);
    if g.r.chance(1, 2) {
        h.push(header_lines(&mut g, "MIME-Version"));
    }
    let mut case = frame(&mut g, h, Some(b));
    case.parsed = Some(p);
    parsed_only(c, &case);
    c.sample(|| escape(&case.bytes, 600));
}
/// Multiparts with small defects, judged by the reference.
#[cfg(feature = "mime")]
fn near_multiparts(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.max_len = 6;
    g.max_count = 3;
    let b = g.boundary();
    let (mut v, _) = g.multipart_body(1, &b, &[b.clone()]);
    let pieces: Vec<Vec<u8>> = vec![
        format!("--{}", b).into_bytes(),
        format!("\r\n--{}", b).into_bytes(),
        format!("\r\n--{}\r\n", b).into_bytes(),
        format!("\r\n--{}--", b).into_bytes(),
        format!("\r\n--{}--\r\n", b).into_bytes(),
        format!("\r\n--{} \t\r\n\r\n", b).into_bytes(),
        format!("\r\n--{}x\r\n", b).into_bytes(),
        format!("\r\n--{}\r\n", b.to_ascii_uppercase()).into_bytes(),
        format!("\r\n--{}\r\n", b.to_ascii_lowercase()).into_bytes(),
        format!("\r\n--{}{}\r\n", b, b).into_bytes(),
        format!("\n--{}\n", b).into_bytes(),
        b"--".to_vec(),
        b"\r\n".to_vec(),
        b"\r\n\r\n".to_vec(),
        b.clone().into_bytes(),
        crate::dict::word(&mut g.r).to_vec(),
    ];
    for _ in 0..g.r.range(1, 3) {
        let at = if g.r.chance(1, 2) && v.len() > 4 {
            // near a line break
            let p = g.r.below(v.len());
            let q = v[p..].windows(2).position(|w| w == b"\r\n").map_or(p, |q| p + q);
            (q + g.r.below(3)).min(v.len())
        } else {
            g.r.below(v.len() + 1)
        };
        if g.r.chance(1, 3) {
            let lo = at.min(v.len().saturating_sub(1));
            p1::edit(&mut g.r, &mut v, lo);
        } else {
            let p = g.r.pick(&pieces).clone();
            v.splice(at..at, p);
        }
    }
    check_multipart(c, &b, &v);
}
/// Without its boundary or its end.
#[cfg(feature = "mime")]
fn incomplete(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let b = g.boundary();
    let (v, _) = g.multipart_body(1, &b, &[b.clone()]);
    let other = format!("{}x", b);
    let params: Vec<(&str, &str)> = match g.r.below(3) {
        0 => vec![],
        1 => vec![("x-boundary", &b), ("boundar", &b)],
        _ => vec![("boundary", &other)],
    };
    c.eval(&v, true);
    let cfg = c.cfg.clone();
    let expected = ref_entity(Val::s("multipart"), &params, &v).parse(&cfg, 8);
    let got = guard_val(|| Cx::new().entity(&raw_entity(ContentType::Multipart, &params, &v), 8));
    if !is_panic(c, "RawEntity::parse", &v, &got) {
        c.expect("multipart without its boundary", &v, &expected, &got);
    }
    // every truncation
    let end = v.windows(b.len() + 4).rposition(|w| w == format!("--{}--", b).as_bytes()).unwrap_or(0);
    let cut = g.r.below(end + 1);
    check_multipart(c, &b, &v[..cut]);
    check_multipart(c, &b, &v[..g.r.below(v.len() + 1)]);
}
/// Every character a boundary may contain, at every place.
#[cfg(feature = "mime")]
fn boundaries(c: &mut Ctx) {
    const CH: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'()+_,-./:=? ";
    let x = CH[(c.case % CH.len() as u64) as usize] as char;
    let (pre, post) = [("", ""), ("a", ""), ("", "a"), ("a", "b"), ("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), ("-", "-")][(c.case / CH.len() as u64) as usize];
    let b = format!("{}{}{}", pre, x, post);
    if b.ends_with(' ') {
        return;
    }
    let v = format!("preamble\r\n--{b}\r\n\r\none\r\n--{b}x\r\n --{b}\r\n--{b}\r\nContent-Type: text/html; charset=utf-8\r\n\r\ntwo\r\n--{b}--\r\nepilogue");
    check_multipart(c, &b, v.as_bytes());
    let m = format!("{}{}Content-Type: multipart/mixed; boundary=\"{}\"\r\n\r\n{}", FROM, DATE, b, v).into_bytes();
    let cfg = c.cfg.clone();
    c.eval(&m, true);
    let r = project_email(&refp::email(&m, &cfg), &["parsed"]);
    let got = project_email(&real_email(&m), &["parsed"]);
    c.expect("Email::parse and RawEntity::parse", &m, &r, &got);
}
#[cfg(feature = "mime")]
pub fn c16() -> Vec<Sub> {
    vec![
        sub("multiparts", 3, multiparts),
        sub("near", 6, near_multiparts),
        sub("incomplete", 2, incomplete),
        subn("sizes", 1, p1::sizes_count("C16"), p1::sizes_run),
        sub("sizes again", 1, p1::sizes_more),
        subn("boundary characters", 1, 6 * 75, boundaries),
        subn("every short sequence of delimiter pieces", 20, strings_upto(7, 7), pieces),
    ]
}

// ---------------------------------------------------------------------------------------------------------------------
// C17: character sets

#[cfg(feature = "mime")]
#[derive(Clone, Copy, PartialEq)]
enum Site {
    Text,
    Base64,
    Part,
    WordQ,
    WordB,
    Param,
    Filename,
}
#[cfg(feature = "mime")]
const SITES: [Site; 7] = [Site::Text, Site::Base64, Site::Part, Site::WordQ, Site::WordB, Site::Param, Site::Filename];
#[cfg(feature = "mime")]
fn site_name(s: Site) -> &'static str {
    match s {
        Site::Text => "text",
        Site::Base64 => "base64 text",
        Site::Part => "text of a part",
        Site::WordQ | Site::WordB => "encoded word",
        Site::Param => "parameter",
        Site::Filename => "filename",
    }
}
/// Where a text is decoded.
#[cfg(feature = "mime")]
fn decoded_text(s: Site, charset: &str, data: &[u8]) -> Val {
    use email_parser::prelude::*;
    let head = format!("{}{}", FROM, DATE);
    let mut b = head.clone().into_bytes();
    let pct = |d: &[u8]| d.iter().map(|b| format!("%{:02X}", b)).collect::<String>();
    match s {
        Site::Text => {
            b.extend(format!("Content-Type: text/plain; charset={}\r\n\r\n", charset).bytes());
            b.extend_from_slice(data);
        }
        Site::Base64 => {
            b.extend(format!("Content-Type: text/plain; charset=\"{}\"\r\nContent-Transfer-Encoding: base64\r\n\r\n", charset).bytes());
            b.extend(gen::b64(data, 76, b"\r\n"));
        }
        Site::Part => {
            b.extend(format!("Content-Type: multipart/x; boundary=\"{}\"\r\n\r\n--{}\r\nContent-Type: text/plain; charset={}\r\n\r\n", BOUND, BOUND, charset).bytes());
            b.extend_from_slice(data);
            b.extend(format!("\r\n--{}--", BOUND).bytes());
        }
        Site::WordQ => b.extend(format!("Subject: =?{}?Q?{}?=\r\n\r\n", charset, data.iter().map(|b| format!("={:02X}", b)).collect::<String>()).bytes()),
        Site::WordB => b.extend(format!("Subject: =?{}?b?{}?=\r\n\r\n", charset, String::from_utf8(gen::b64(data, 0, b"")).unwrap()).bytes()),
        Site::Param => b.extend(format!("Content-Type: application/x; n*={}''{}\r\n\r\n", charset, pct(data)).bytes()),
        Site::Filename => b.extend(format!("Content-Disposition: inline; filename*={}''{}\r\n\r\n", charset, pct(data)).bytes()),
    }
    guard_val(|| match Email::parse(&b) {
        Err(e) => T("Error", vec![S(format!("{:?}", e))]),
        Ok(e) => {
            let txt = |r: &RawEntity| match r.parse() {
                Ok(Entity::Text { value, .. }) => S(value.to_string()),
                Ok(Entity::Unknown) => T("Unknown", vec![]),
                Ok(_) => T("Other", vec![]),
                Err(_) => refp::syntax_error(),
            };
            match s {
                Site::Text | Site::Base64 => txt(&e.mime_entity),
                Site::Part => match e.mime_entity.parse() {
                    Ok(Entity::Multipart { content, .. }) if content.len() == 1 => txt(&content[0]),
                    _ => T("Other", vec![]),
                },
                #[cfg(not(feature = "subject"))]
                Site::WordQ | Site::WordB => Any,
                #[cfg(feature = "subject")]
                Site::WordQ | Site::WordB => e.subject.map_or(None, |s| Val::s(s.strip_prefix(' ').unwrap_or("?"))),
                Site::Param => e.mime_entity.parameters.get("n").map_or(None, |s| Val::s(s)),
                #[cfg(feature = "content-disposition")]
                Site::Filename => e.mime_entity.disposition.and_then(|d| d.filename).map_or(None, |s| Val::s(&s)),
                #[cfg(not(feature = "content-disposition"))]
                Site::Filename => Any,
            }
        }
    })
}
#[cfg(feature = "mime")]
fn check_text(c: &mut Ctx, s: Site, charset: &str, data: &[u8], text: &str) {
    let mut key = data.to_vec();
    key.extend_from_slice(charset.as_bytes());
    key.push(s as u8);
    c.eval(&key, true);
    c.event(site_name(s), 1);
    let got = decoded_text(s, charset, data);
    c.expect(&format!("{} in {}", site_name(s), charset), data, &Val::s(text), &got);
}
/// A letter case for the name of a charset.
#[cfg(feature = "mime")]
fn charset_case(n: u64, name: &str) -> String {
    match n % 3 {
        0 => name.to_string(),
        1 => name.to_uppercase(),
        _ => name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
/// All the codes of all the charsets: (charset, bytes, character)
#[cfg(feature = "mime")]
fn codes() -> &'static Vec<(String, Vec<u8>, char)> {
    static P: std::sync::OnceLock<Vec<(String, Vec<u8>, char)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        for b in 0..0x80u8 {
            for cs in crate::gen::CHARSETS {
                v.push((cs.to_string(), vec![b], b as char));
            }
        }
        for (i, t) in tables::ISO8859.iter() {
            for (k, e) in t.iter().enumerate() {
                if *e != 0 {
                    v.push((format!("iso-8859-{}", i), vec![k as u8 + 0xa0], char::from_u32(*e).unwrap()));
                }
            }
        }
        for (h, l, e) in tables::ISO6937.iter() {
            v.push(("iso-6937".into(), if *l == 0 { vec![*h] } else { vec![*h, *l] }, char::from_u32(*e).unwrap()));
        }
        for (i, t) in tables::GB2312.iter().enumerate() {
            for (k, e) in t.iter().enumerate() {
                if *e != 0 {
                    v.push(("gb2312".into(), vec![i as u8 + 0xa1, k as u8 + 0xa1], char::from_u32(*e as u32).unwrap()));
                }
            }
        }
        v
    })
}
/// Every code of every table, at every site, alone and between others.
#[cfg(feature = "mime")]
fn every_code(c: &mut Ctx) {
    let all = codes();
    let s = SITES[(c.case / all.len() as u64) as usize];
    let (cs, b, e) = &all[(c.case % all.len() as u64) as usize];
    if b[0] < 0x20 || b[0] == 0x7f {
        if s == Site::WordQ || s == Site::WordB {
            return; // control characters do not belong in an encoded word
        }
    }
    let name = charset_case(c.case, cs);
    check_text(c, s, &name, b, &e.to_string());
    let mut d = b"A".to_vec();
    d.extend_from_slice(b);
    d.extend_from_slice(b);
    d.push(b'z');
    check_text(c, s, &name, &d, &format!("A{}{}z", e, e));
}
#[cfg(feature = "mime")]
fn every_code_count() -> u64 {
    codes().len() as u64 * SITES.len() as u64
}
/// Random texts.
#[cfg(feature = "mime")]
fn texts(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let cs = *g.r.pick(&crate::gen::CHARSETS);
    let s = *g.r.pick(&SITES);
    let word = s == Site::WordQ || s == Site::WordB;
    let n = if word { g.r.range(1, 6) } else { g.r.size(1, 60, 5000) };
    let (b, t) = g.charset_text(cs, n);
    if s == Site::WordQ && b.len() * 3 + cs.len() + 7 > 75 || s == Site::WordB && (b.len() + 2) / 3 * 4 + cs.len() + 7 > 75 {
        return;
    }
    let name = charset_case(c.case, cs);
    check_text(c, s, &name, &b, &t);
    c.sample(|| format!("{} {} {} -> {:?}", site_name(s), name, escape(&b, 60), t.chars().take(40).collect::<String>()));
    // line breaks and controls in entities
    if s == Site::Text || s == Site::Base64 {
        let (b2, t2) = g.charset_text(cs, n);
        let mut b = b;
        let brk: &[u8] = *g.r.pick(&[&b"\r\n"[..], b"\n", b"\r", b"\0", b"\x1b", b"\x7f", b"\t"]);
        b.extend_from_slice(brk);
        b.extend_from_slice(&b2);
        check_text(c, s, &name, &b, &format!("{}{}{}", t, std::str::from_utf8(brk).unwrap(), t2));
    }
}
/// Texts that say, in their own syntax, what their charset is: the parameter of the header decides.
#[cfg(feature = "mime")]
fn announcing(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let cs = *g.r.pick(&crate::gen::CHARSETS);
    let named = if g.r.chance(1, 3) { *g.r.pick(&["UTF-8", "utf8", "utf-16", "windows-1252", "koi8-r", "none", "us-ascii", "gbk", "gb18030", "iso-8859-1", "latin1", "x-user-defined"]) } else { *g.r.pick(&crate::gen::CHARSETS) };
    const FORMS: &[&str] = &[
        "<meta charset=@>", "<meta charset=\"@\">", "<META CHARSET='@'>", "<meta charset=\"@\"/>", "<html><head><meta charset=\"@\">", "<!DOCTYPE html><meta charset=@>", "<!doctype html>\r\n<html>\r\n<meta charset=\"@\">",
        "<meta http-equiv=\"Content-Type\" content=\"text/html; charset=@\">", "<meta http-equiv=Content-Type content='text/html;charset=@'>", "<?xml version=\"1.0\" encoding=\"@\"?>", "<?xml version='1.0' encoding='@'?>", "<?xml encoding=@?>",
        "@charset \"@\";", "# -*- coding: @ -*-", "# coding: @", "# coding=@", "# vim: set fileencoding=@ :", "\\usepackage[@]{inputenc}", "Content-Type: text/plain; charset=@\r\n\r\n", "Content-Type: text/plain; charset=@", "charset=@", "charset=@;", "@''", "@'en'", "@", "@:",
        "=?@?Q?", "=?@?Q?x?=", "=?@?B?eA==?=", "\u{1b}%G", "\u{1b}$A", "\u{1b}(B", "~{", "+/v8-", "BEGIN:VCARD\r\nVERSION:2.1\r\nN;CHARSET=@:", "{\"charset\":\"@\"}", "%PDF-1.4", "{\\rtf1\\ansi", "-----BEGIN PGP MESSAGE-----\r\nCharset: @\r\n\r\n", "begin 644 a\r\n", "<svg>", "<html>", "<html lang=en>", "<body>", "<!--", "<p>",
        "From a", "--", ">", ">From ",
    ];
    const TYPES: &[&str] = &["plain", "html", "xml", "css", "csv", "calendar", "enriched", "richtext", "vcard", "x-vcard", "directory", "javascript", "markdown", "x-python", "rtf", "rfc822-headers", "sgml", "tab-separated-values", "x-unknown", "html+x", "dns", "troff"];
    let subtype = { let t = *g.r.pick(TYPES); g.case(t) };
    let subtype = String::from_utf8(subtype).unwrap();
    let form = g.r.pick(FORMS).replace('@', named);
    let (n, m) = (g.r.below(3), g.r.range(1, 30));
    let (mut b, mut t) = if g.r.chance(2, 3) { (vec![], String::new()) } else { g.charset_text(cs, n) };
    b.extend_from_slice(form.as_bytes());
    t.push_str(&form);
    let (b2, t2) = g.charset_text(cs, m);
    b.extend(b2);
    t.push_str(&t2);
    let enc = g.r.below(4);
    let name = charset_case(c.case, cs);
    let mut head = format!("Content-Type: text/{}; charset={}\r\n", subtype, name);
    let data = match enc {
        0 => {
            head.push_str("Content-Transfer-Encoding: base64\r\n");
            gen::b64(&b, 76, b"\r\n")
        }
        1 => {
            head.push_str("Content-Transfer-Encoding: quoted-printable\r\n");
            b.iter().map(|b| format!("={:02X}", b)).collect::<Vec<_>>().chunks(25).map(|l| l.concat()).collect::<Vec<_>>().join("=\r\n").into_bytes()
        }
        2 => {
            head.push_str("Content-Transfer-Encoding: 8bit\r\n");
            b.clone()
        }
        _ => b.clone(),
    };
    let part = g.r.chance(1, 3);
    let mut msg = format!("{}{}", FROM, DATE).into_bytes();
    if part {
        msg.extend(format!("Content-Type: multipart/x; boundary=\"{}\"\r\n\r\n--{}\r\n", BOUND, BOUND).bytes());
    }
    msg.extend(head.bytes());
    msg.extend_from_slice(b"\r\n");
    msg.extend_from_slice(&data);
    if part {
        msg.extend(format!("\r\n--{}--", BOUND).bytes());
    }
    use email_parser::prelude::*;
    let got = guard_val(|| match Email::parse(&msg) {
        Err(e) => T("Error", vec![S(format!("{:?}", e))]),
        Ok(e) => {
            let txt = |r: &RawEntity| match r.parse() {
                Ok(Entity::Text { value, .. }) => S(value.to_string()),
                Ok(_) => T("Other", vec![]),
                Err(_) => refp::syntax_error(),
            };
            match (part, e.mime_entity.parse()) {
                (false, _) => txt(&e.mime_entity),
                (true, Ok(Entity::Multipart { content, .. })) if content.len() == 1 => txt(&content[0]),
                _ => T("Other", vec![]),
            }
        }
    });
    c.eval(&msg, true);
    c.event("text that names a charset", 1);
    c.expect(&format!("text/{} in {}", subtype, cs), &msg, &Val::s(&t), &got);
}
/// All the scalar values in UTF-8.
#[cfg(feature = "mime")]
const UTF8_BATCH: u32 = 256;
#[cfg(feature = "mime")]
fn utf8_all(c: &mut Ctx) {
    let lo = c.case as u32 * UTF8_BATCH;
    let t: String = (lo..lo + UTF8_BATCH).filter_map(char::from_u32).collect();
    if t.is_empty() {
        return;
    }
    let s = [Site::Text, Site::Base64, Site::Param, Site::Filename][(c.case % 4) as usize];
    check_text(c, s, "utf-8", t.as_bytes(), &t);
    // each one alone
    for (i, ch) in t.chars().enumerate() {
        if c.violations.len() > 3 || ch < ' ' || ch == '\u{7f}' {
            continue;
        }
        let t = ch.to_string();
        let more = if lo < 0x10000 { 2 } else { 1 };
        for k in 0..more {
            let s = SITES[(c.seed as usize + i + i / 7 + 3 * k) % SITES.len()];
            check_text(c, s, "utf-8", t.as_bytes(), &t);
        }
        if lo >= 0x2000 && lo < 0x3100 || lo >= 0xfb00 && lo < 0x10000 || lo < 0x800 {
            for s in SITES {
                check_text(c, s, "utf-8", t.as_bytes(), &t);
            }
        }
    }
}
/// Bytes that are not UTF-8.
#[cfg(feature = "mime")]
fn utf8_bad(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut b: Vec<u8> = Vec::new();
    let n = g.r.below(20);
    let (pre, _) = g.charset_text("utf-8", n);
    b.extend(&pre);
    let seqs: [&[u8]; 20] = [
        b"\x80",
        b"\xbf",
        b"\xc0\x80",
        b"\xc1\xbf",
        b"\xc2",
        b"\xc2\x41",
        b"\xe0\x80\x80",
        b"\xe0\x9f\xbf",
        b"\xed\xa0\x80",
        b"\xed\xbf\xbf",
        b"\xe2\x82",
        b"\xe2\x28\xa1",
        b"\xf0\x80\x80\x80",
        b"\xf0\x8f\xbf\xbf",
        b"\xf4\x90\x80\x80",
        b"\xf5\x80\x80\x80",
        b"\xf0\x9f\x92",
        b"\xff",
        b"\xfe",
        b"\xc3\x28",
    ];
    if g.r.chance(1, 2) {
        b.extend_from_slice(*g.r.pick(&seqs));
    } else {
        let k = g.r.range(1, 4);
        for _ in 0..k {
            let x = *g.r.pick(&[0x80u8, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x41, 0x7f]);
            b.push(x);
        }
    }
    if g.r.chance(1, 2) {
        let n = g.r.below(20);
        b.extend(g.charset_text("utf-8", n).0);
    }
    let cs = *g.r.pick(&["utf-8", "UTF-8", "us-ascii"]);
    let expected = match refp::decode_charset(cs, &b) {
        Some(Ok(t)) => S(t),
        Some(Err(Bad::Invalid)) => refp::syntax_error(),
        _ => return,
    };
    let s = *g.r.pick(&[Site::Text, Site::Base64, Site::Part]);
    c.eval(&b, true);
    c.event(if expected.tag() == "Error" { "invalid UTF-8" } else { "valid UTF-8" }, 1);
    let got = decoded_text(s, cs, &b);
    c.expect(&format!("{} in {}", site_name(s), cs), &b, &expected, &got);
}
/// Names of charsets: supported or not, and types that are not text.
#[cfg(feature = "mime")]
fn charset_names(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut name = match g.r.below(4) {
        0 => format!("iso-8859-{}", g.r.below(40)),
        1 => g.r.pick(&["utf8", "utf-7", "utf-16", "ascii", "latin1", "windows-1252", "iso8859-1", "iso-8859", "iso-8859-", "iso_8859-1", "gbk", "gb18030", "gb-2312", "iso-69370", "iso-693", "us-asci", "koi8-r", "x", "iso-8859-01", "iso-8859-1-i", "cp936"]).to_string(),
        2 => String::from_utf8_lossy(crate::dict::word(&mut g.r)).chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect(),
        _ => {
            let mut n = g.r.pick(&crate::gen::CHARSETS).to_string().into_bytes();
            p1::edit(&mut g.r, &mut n, 0);
            n.into_iter().filter(|c| c.is_ascii_alphanumeric() || b"-_.+".contains(c)).map(|c| c as char).collect()
        }
    };
    if g.r.chance(1, 2) {
        name = String::from_utf8(g.case(&name)).unwrap();
    }
    if name.is_empty() {
        return;
    }
    let data: Vec<u8> = match g.r.below(3) {
        0 => (32..127).collect(),
        1 => b"caf\xc3\xa9".to_vec(),
        _ => g.content(),
    };
    let kinds = ["text", "image", "application", "message", "audio", "video", "x-odd"];
    let kind = if g.r.chance(3, 4) { "text" } else { *g.r.pick(&kinds) };
    let mut missing = g.r.chance(1, 6);
    let mut m = format!("{}{}", FROM, DATE).into_bytes();
    if missing && g.r.chance(1, 3) {
        m.extend(format!("Content-Type: {}/plain; x-charset={}\r\n\r\n", kind, name).bytes());
    } else if missing {
        m.extend(format!("Content-Type: {}/plain\r\n\r\n", kind).bytes());
    } else {
        missing = false;
        m.extend(format!("Content-Type: {}/plain; charset={}\r\n\r\n", kind, name).bytes());
    }
    m.extend_from_slice(&data);
    let expected = if kind != "text" || missing {
        T("Unknown", vec![])
    } else {
        match refp::decode_charset(&name, &data) {
            Option::None => T("Unknown", vec![]),
            Some(Ok(t)) => T("Text", vec![Val::s("plain"), S(t)]),
            Some(Err(Bad::Invalid)) => refp::syntax_error(),
            Some(Err(_)) => return,
        }
    };
    c.eval(&m, true);
    c.event(if expected.tag() == "Unknown" { "reported as unknown" } else { "known name" }, 1);
    let got = project_email(&real_email(&m), &["parsed", "entity.value"]);
    let e = T("Email", vec![Rec(vec![("value", B(data)), ("parsed", expected)])]);
    c.expect(&format!("charset {:?} of a {}", name, kind), &m, &e, &got);
}
/// The control characters of the ISO 8859 charsets (known finding: textcode drops them).
#[cfg(feature = "mime")]
fn c1_controls(c: &mut Ctx) {
    let t = &tables::ISO8859[(c.case / 32) as usize];
    let b = 0x80 + (c.case % 32) as u8;
    let cs = format!("iso-8859-{}", t.0);
    for s in SITES {
        let data = [b'a', b, b'z'];
        c.eval(&[t.0, b, s as u8], true);
        let got = decoded_text(s, &cs, &data);
        if got == S(format!("a{}z", b as char)) {
            continue;
        }
        if got == Val::s("az") {
            let k = match s {
                Site::Text | Site::Base64 | Site::Part => "c1-dropped-in-text",
                Site::WordQ | Site::WordB => "c1-dropped-in-encoded-word",
                _ => "c1-dropped-in-parameter",
            };
            *c.known.entry(k.to_string()).or_insert(0) += 1;
            continue;
        }
        c.violation(format!("{} in {}: byte {:02x} between a and z gives {}", site_name(s), cs, b, got.short()), &data);
    }
}
#[cfg(feature = "mime")]
pub fn c17() -> Vec<Sub> {
    vec![
        subn("every code of every charset", 12, every_code_count(), every_code),
        sub("texts", 6, texts),
        sub("texts that name a charset", 2, announcing),
        subn("every scalar value of UTF-8", 2, (0x110000 / UTF8_BATCH) as u64, utf8_all),
        sub("invalid UTF-8", 4, utf8_bad),
        sub("names", 4, charset_names),
        subn("sizes", 1, p1::sizes_count("C17"), p1::sizes_run),
        sub("sizes again", 1, p1::sizes_more),
        subn("control characters", 1, 15 * 32, c1_controls),
    ]
}

// ---------------------------------------------------------------------------------------------------------------------
// C22: the same headers on a message and on a part

#[cfg(feature = "mime")]
fn top_and_part(c: &mut Ctx, headers: &[Vec<u8>], body: Option<&[u8]>) {
    let mut part = Vec::new();
    for h in headers {
        part.extend_from_slice(h);
    }
    if let Some(b) = body {
        part.extend_from_slice(b"\r\n");
        part.extend_from_slice(b);
    }
    // what ends the headers must not depend on where they are
    let cfg = c.cfg.clone();
    match refp::split(&part) {
        refp::Split::Ok(h, b) if b == body => {
            let mut seen: Vec<String> = Vec::new();
            for x in &h {
                let n = String::from_utf8_lossy(x.name).to_ascii_lowercase();
                if n.starts_with("content-") {
                    if seen.contains(&n) {
                        return;
                    }
                    seen.push(n);
                } else if !n.starts_with("x-") {
                    return;
                }
            }
        }
        _ => return,
    }
    let boundary = "yPq7_vh0Wm=_3s.outer";
    let mut top = format!("{}{}", FROM, DATE).into_bytes();
    top.extend_from_slice(&part);
    let kind = crate::gen::MULTIPART_SUBTYPES[part.len() % crate::gen::MULTIPART_SUBTYPES.len()];
    let mut multi = format!("{}{}Content-Type: multipart/{}; boundary=\"{}\"\r\n\r\n--{}\r\n", FROM, DATE, kind, boundary, boundary).into_bytes();
    multi.extend_from_slice(&part);
    multi.extend(format!("\r\n--{}--", boundary).bytes());
    c.eval(&top, true);
    let unknown = |v: &Val| v.get("unknown").cloned().unwrap_or(Any);
    let (a, b) = (real_email(&top), real_email(&multi));
    if is_panic(c, "as a message", &top, &a) || is_panic(c, "as a part", &multi, &b) {
        return;
    }
    let b = match &b {
        T("Email", r) => match r[0].get("parsed") {
            Some(T("Multipart", p)) if p[1].items().len() == 1 => {
                let p = &p[1].items()[0];
                let mut raw = p.items()[0].clone();
                let mut add = Any;
                if let Rec(r) = &mut raw {
                    for (n, v) in r.iter_mut() {
                        if *n == "additional" {
                            add = v.clone();
                            *v = L(vec![]);
                        }
                    }
                }
                T("Entity", vec![raw, p.items()[1].clone(), add])
            }
            Some(T("Error", _)) => refp::syntax_error(),
            _ => T("Other", vec![]),
        },
        b => T("NotParsed", vec![b.clone()]),
    };
    let a = match &a {
        T("Email", r) => T("Entity", vec![r[0].get("entity").cloned().unwrap_or(Any), r[0].get("parsed").cloned().unwrap_or(Any), unknown(&r[0])]),
        T("Error", e) if e[0] == Val::s("syntax") => refp::syntax_error(),
        a => a.clone(),
    };
    match &a {
        T("Entity", l) => c.event(&format!("both decode: {}", l[1].tag()), 1),
        _ => c.event("both refuse", 1),
    }
    let _ = cfg;
    if let Some((p, x, y)) = diff(&a, &b) {
        c.violation(format!("at {}: {} on a message, {} on a part", p, x, y), &multi);
    }
}
#[cfg(feature = "mime")]
fn parts_alike(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let depth = g.r.below(3);
    let (h, body, _, _) = g.entity(depth, &[]);
    let mut headers: Vec<Vec<u8>> = h.into_iter().map(|h| h.0).collect();
    let others = if g.r.chance(1, 12) { g.r.range(3, 300) } else if g.r.chance(1, 6) { g.r.range(3, 8) } else { g.r.below(3) };
    for _ in 0..others {
        let w = c.cfg.unrecognized;
        let mut o = Vec::new();
        if others < 9 {
            g.other_header(&mut o, w);
        } else {
            o.extend_from_slice(b"X-");
            o.push(g.r.range(b'a' as usize, b'z' as usize) as u8);
            o.extend_from_slice(b": v\r\n");
        }
        let p = g.r.below(headers.len() + 1);
        headers.insert(p, o);
    }
    let no_body = body.is_empty() && g.r.chance(1, 2);
    top_and_part(c, &headers, if no_body { Option::None } else { Some(&body) });
    c.sample(|| escape(&headers.concat(), 400));
}
/// The texts of the headers of parts.
#[cfg(feature = "mime")]
pub fn part_texts(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let w = c.cfg.unrecognized;
    let kind = *g.r.pick(&crate::gen::MULTIPART_SUBTYPES);
    let mut m = format!("{}{}Content-Type: multipart/{}; boundary=\"o_=_o\"\r\n\r\n", FROM, DATE, kind).into_bytes();
    let mut want = Vec::new();
    for _ in 0..g.r.range(1, 4) {
        m.extend_from_slice(b"--o_=_o\r\n");
        let mut others = Vec::new();
        let mut description = None;
        for _ in 0..g.r.size(0, 5, 40) {
            if description == None && g.r.chance(1, 4) {
                let v = g.header(&mut m, "Content-Description");
                description = Val::opt(Some(v.items()[0].clone()));
            } else {
                others.push(g.other_header(&mut m, w));
            }
        }
        m.extend_from_slice(b"\r\nx\r\n");
        want.push((L(others), description));
    }
    m.extend_from_slice(b"--o_=_o--");
    c.eval(&m, true);
    c.sample(|| escape(&m, 600));
    let v = real_email(&m);
    if is_panic(c, "texts of parts", &m, &v) {
        return;
    }
    let parts = match &v {
        T("Email", r) => match r[0].get("parsed") {
            Some(T("Multipart", p)) => p[1].items().to_vec(),
            _ => vec![],
        },
        _ => vec![],
    };
    if parts.len() != want.len() {
        c.inconclusive(format!("not a multipart of {} parts: {}", want.len(), v.short()), &m);
        return;
    }
    for (p, (others, description)) in parts.iter().zip(&want) {
        let raw = &p.items()[0];
        for (name, want) in [("additional", others), ("description", description)] {
            c.event(name, 1);
            let got = raw.get(name).cloned().unwrap_or(Any);
            if let Some((at, x, y)) = diff(want, &got) {
                c.violation(format!("a part: {}{}: expected {}, observed {}", name, at, x, y), &m);
                return;
            }
        }
    }
}
/// Each MIME header alone, and with small defects.
#[cfg(feature = "mime")]
fn near_alike(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.max_len = 8;
    let names = ["Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description", "Content-Disposition"];
    let mut headers = Vec::new();
    for n in names {
        if g.r.chance(1, 3) {
            let mut o = header_lines(&mut g, n).0;
            if g.r.chance(2, 3) {
                o.truncate(o.len() - 2);
                let lo = n.len() + 1;
                for _ in 0..g.r.range(1, 3) {
                    let lo = lo.min(o.len() - 1);
                    p1::edit(&mut g.r, &mut o, lo);
                }
                o.extend_from_slice(b"\r\n");
            }
            headers.push(o);
        }
    }
    g.r.shuffle(&mut headers);
    let body: &[u8] = *g.r.pick(&[&b"body"[..], b"", b"QUJD\r\n", b"=41=\r\nb", b"QUJ", b"=4", b"\xff", b"--b\r\n\r\nx\r\n--b--"]);
    top_and_part(c, &headers, Some(body));
}
#[cfg(feature = "mime")]
pub fn c22() -> Vec<Sub> {
    vec![sub("entities", 3, parts_alike), sub("near", 6, near_alike), subn("sizes", 1, alike_count(), alike_sizes), sub("sizes again", 1, alike_more)]
}
/// The dimensions of the MIME headers, on a message and on a part.
#[cfg(feature = "mime")]
fn alike_plan() -> &'static Vec<(crate::dims::Dim2, usize)> {
    static P: std::sync::OnceLock<Vec<(crate::dims::Dim2, usize)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        for d in crate::dims::dims() {
            if d.props.iter().any(|p| ["C13", "C15", "C16", "C17", "C22"].contains(p)) {
                for n in sizes(d.max.min(3000)) {
                    v.push(((d.name, d.make), n));
                }
            }
        }
        v.sort_by_key(|x| x.1);
        v
    })
}
#[cfg(feature = "mime")]
fn alike_count() -> u64 {
    alike_plan().len() as u64
}
#[cfg(feature = "mime")]
fn alike_sizes(c: &mut Ctx) {
    let ((_, make), n) = alike_plan()[c.case as usize];
    alike_sized(c, make, n);
}
#[cfg(feature = "mime")]
fn alike_more(c: &mut Ctx) {
    let mut r = c.rng();
    let ((_, make), most) = *r.pick(alike_plan());
    let n = if r.chance(1, 3) { most } else { r.size(0, 24, most) };
    alike_sized(c, make, n.min(most));
}
#[cfg(feature = "mime")]
fn alike_sized(c: &mut Ctx, make: fn(&mut G, usize) -> crate::dims::Made, n: usize) {
    let mut g = G::new(c.rng(), &c.cfg);
    let m = make(&mut g, n);
    let headers: Vec<Vec<u8>> = m.lines.into_iter().filter(|l| l.1.tag().starts_with("Content-") || l.1.tag() == "Unknown").map(|l| l.0).collect();
    top_and_part(c, &headers, m.body.as_deref());
}

// ---------------------------------------------------------------------------------------------------------------------
// C23: owned copies

#[cfg(feature = "mime")]
fn outside(c: &mut Ctx, what: &str, cx: &Cx, lo: usize, len: usize, input: &[u8]) {
    for r in &cx.recs {
        if r.len > 0 && (r.ptr < lo + len && r.ptr + r.len > lo) {
            c.violation(format!("{}: an owned value still refers to the input", what), input);
            return;
        }
        if r.borrowed && r.len > 0 && what == "into_owned" {
            // a constant of the library is fine
            c.event("constant", 1);
        }
    }
}
#[cfg(feature = "mime")]
fn owned_case(c: &mut Ctx, bytes: &[u8]) {
    use email_parser::prelude::*;
    c.eval(bytes, true);
    let mut buffer: Box<[u8]> = bytes.to_vec().into_boxed_slice();
    let (lo, len) = (buffer.as_ptr() as usize, buffer.len());
    struct Kept {
        kind: Option<ContentType<'static>>,
        cte: Option<ContentTransferEncoding<'static>>,
        disp: Option<Disposition<'static>>,
        dt: Option<DispositionType<'static>>,
        before: Vec<Val>,
        debug: Vec<String>,
    }
    let mut kept: Vec<Kept> = Vec::new();
    let mut problem: Option<String> = Option::None;
    // of the fields of a message, of its entity and of the parts
    let r = guard(|| {
        if let Ok((fields, _)) = parse_message(&buffer) {
            for f in &fields {
                match f {
                    Field::ContentType { mime_type, .. } => {
                        let copy = mime_type.clone();
                        if copy != *mime_type || Cx::new().ctype(&copy) != Cx::new().ctype(mime_type) {
                            problem = Some("clone of a content type".into());
                        }
                        let o = copy.into_owned();
                        if o != *mime_type || o.is_composite_type() != mime_type.is_composite_type() {
                            problem = Some(format!("owned content type: {:?} from {:?}", o, mime_type));
                        }
                        kept.push(Kept { kind: Some(o), cte: Option::None, disp: Option::None, dt: Option::None, before: vec![Cx::new().ctype(mime_type)], debug: vec![format!("{:?}", mime_type)] });
                    }
                    Field::ContentTransferEncoding(e) => {
                        let copy = e.clone();
                        if copy != *e {
                            problem = Some("clone of a transfer encoding".into());
                        }
                        let o = copy.into_owned();
                        if o != *e {
                            problem = Some(format!("owned transfer encoding: {:?} from {:?}", o, e));
                        }
                        kept.push(Kept { kind: Option::None, cte: Some(o), disp: Option::None, dt: Option::None, before: vec![Cx::new().cte(e)], debug: vec![format!("{:?}", e)] });
                    }
                    #[cfg(feature = "content-disposition")]
                    Field::ContentDisposition(d) => {
                        let copy = d.clone();
                        if copy != *d || Cx::new().disp(&copy) != Cx::new().disp(d) {
                            problem = Some("clone of a disposition".into());
                        }
                        let o = copy.into_owned();
                        let t = d.disposition_type.clone().into_owned();
                        if o != *d || t != d.disposition_type {
                            problem = Some(format!("owned disposition: {:?} and {:?} from {:?}", o, t, d));
                        }
                        kept.push(Kept { kind: Option::None, cte: Option::None, disp: Some(o), dt: Some(t), before: vec![Cx::new().disp(d), Cx::new().disp_type(&d.disposition_type)], debug: vec![] });
                    }
                    _ => (),
                }
            }
        }
        if let Ok(e) = Email::parse(&buffer) {
            let copy = e.mime_entity.clone();
            if copy != e.mime_entity || Cx::new().raw(&copy) != Cx::new().raw(&e.mime_entity) {
                problem = Some("clone of an entity".into());
            }
            if let Ok(p) = e.mime_entity.parse() {
                if p.clone() != p {
                    problem = Some("clone of a decoded entity".into());
                }
                if let Entity::Multipart { content, .. } = &p {
                    for r in content {
                        kept.push(Kept {
                            kind: Some(r.mime_type.clone().into_owned()),
                            cte: Option::None,
                            disp: Option::None,
                            dt: Option::None,
                            before: vec![Cx::new().ctype(&r.mime_type)],
                            debug: vec![format!("{:?}", r.mime_type)],
                        });
                        #[cfg(feature = "content-disposition")]
                        if let Some(d) = &r.disposition {
                            kept.push(Kept { kind: Option::None, cte: Option::None, disp: Some(d.clone().into_owned()), dt: Option::None, before: vec![Cx::new().disp(d)], debug: vec![] });
                        }
                        if r.clone() != *r || Cx::new().raw(&r.clone()) != Cx::new().raw(r) {
                            problem = Some("clone of a part".into());
                        }
                    }
                }
            }
            if Cx::new().entity(&copy, 3) != Cx::new().entity(&e.mime_entity, 3) {
                problem = Some("a clone of an entity decodes to something else".into());
            }
        }
    });
    if let Err(m) = r {
        c.violation(format!("panic: {}", m), bytes);
        return;
    }
    if let Some(p) = problem {
        c.violation(p, bytes);
        return;
    }
    // the input goes away
    for b in buffer.iter_mut() {
        *b = 0xfe;
    }
    drop(buffer);
    let filler = vec![0xfdu8; len];
    for k in &kept {
        let mut cx = Cx::new();
        let mut after = Vec::new();
        let mut debug = Vec::new();
        if let Some(x) = &k.kind {
            after.push(cx.ctype(x));
            debug.push(format!("{:?}", x));
        }
        if let Some(x) = &k.cte {
            after.push(cx.cte(x));
            debug.push(format!("{:?}", x));
        }
        if let Some(x) = &k.disp {
            after.push(cx.disp(x));
        }
        if let Some(x) = &k.dt {
            after.push(cx.disp_type(x));
        }
        c.event("owned values compared", 1);
        c.event("strings of owned values", cx.recs.len() as u64);
        if let Some((p, e, g)) = diff(&L(k.before.clone()), &L(after)) {
            c.violation(format!("an owned copy is different once the input is gone: at {}: {} became {}", p, e, g), bytes);
            return;
        }
        if !debug.is_empty() && debug != k.debug {
            c.violation(format!("an owned copy prints {:?} instead of {:?}", debug, k.debug), bytes);
            return;
        }
        outside(c, "into_owned", &cx, lo, len, bytes);
    }
    drop(filler);
}
#[cfg(feature = "mime")]
fn owned_values(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut lines = Vec::new();
    lines.push(header_lines(&mut g, "Content-Type"));
    if c.cfg.disposition {
        lines.push(header_lines(&mut g, "Content-Disposition"));
    }
    let body = if g.r.chance(1, 2) {
        let e = g.r.pick(&["7bit", "base64", "quoted-printable", "binary", "8bit"]).to_string();
        lines.push((format!("Content-Transfer-Encoding: {}\r\n", e).into_bytes(), T("Content-Transfer-Encoding", vec![S(e)])));
        b"QUJD".to_vec()
    } else {
        b"x".to_vec()
    };
    let mut case = frame(&mut g, lines, Some(body));
    if g.r.chance(1, 4) {
        // an encoding that is not known: only the field
        case.bytes.splice(0..0, b"Content-Transfer-Encoding: X-Odd-Encoding\r\n".iter().copied());
    }
    owned_case(c, &case.bytes);
    c.sample(|| escape(&case.bytes, 400));
}
#[cfg(feature = "mime")]
fn owned_parts(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message_with(&["Content-Type", "Content-Disposition"]);
    owned_case(c, &case.bytes);
}
/// Values made by hand: every variant, borrowed and owned.
#[cfg(feature = "mime")]
fn owned_made(c: &mut Ctx) {
    use std::borrow::Cow;
    let mut g = G::new(c.rng(), &c.cfg);
    let n = g.r.size(0, 10, 5000);
    let text: String = (0..n).map(|_| *g.r.pick(&['a', '\u{e9}', 'Z', '-', '"', '\u{1f600}', ' '])).collect();
    let mut text = text;
    let keep = text.clone();
    let pick = g.r.below(8);
    let borrowed = g.r.chance(1, 2);
    let date = gen_date(&mut g);
    c.eval(format!("{} {} {}", pick, borrowed, keep).as_bytes(), true);
    let cow = |t: &'static str| -> Cow<'static, str> {
        if borrowed {
            Cow::Borrowed(t)
        } else {
            Cow::Owned(t.to_string())
        }
    };
    // a reference that ends before the text is overwritten
    let t: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(text.as_str()) };
    let kinds = [ContentType::Text, ContentType::Image, ContentType::Audio, ContentType::Video, ContentType::Application, ContentType::Message, ContentType::Multipart];
    let ctes = [ContentTransferEncoding::SevenBit, ContentTransferEncoding::HeightBit, ContentTransferEncoding::Binary, ContentTransferEncoding::QuotedPrintable, ContentTransferEncoding::Base64];
    for k in kinds.iter() {
        if k.clone().into_owned() != *k || k.is_composite_type() != (*k == ContentType::Message || *k == ContentType::Multipart) {
            c.violation(format!("owned copy of {:?}", k), keep.as_bytes());
        }
    }
    for k in ctes.iter() {
        if k.clone().into_owned() != *k {
            c.violation(format!("owned copy of {:?}", k), keep.as_bytes());
        }
    }
    for k in [DispositionType::Inline, DispositionType::Attachment] {
        if k.clone().into_owned() != k {
            c.violation(format!("owned copy of {:?}", k), keep.as_bytes());
        }
    }
    let a = ContentType::Unknown(cow(t)).into_owned();
    let b = ContentTransferEncoding::Unknown(cow(t)).into_owned();
    let d = DispositionType::Unknown(cow(t)).into_owned();
    let mut params = std::collections::HashMap::new();
    let np = g.r.size(0, 3, 200);
    for i in 0..np {
        params.insert(Cow::Owned(format!("p{}", i)), if i % 2 == 0 { cow(t) } else { Cow::Owned(format!("v{}", i)) });
    }
    let disp = Disposition {
        disposition_type: [DispositionType::Inline, DispositionType::Attachment, DispositionType::Unknown(cow(t))][pick % 3].clone(),
        filename: if pick & 1 == 0 { Some(cow(t)) } else { Option::None },
        creation_date: if pick & 2 == 0 { Some(date[0].clone()) } else { Option::None },
        modification_date: if pick & 4 == 0 { Some(date[1].clone()) } else { Option::None },
        read_date: if pick & 3 == 0 { Some(date[2].clone()) } else { Option::None },
        unstructured: params,
    };
    let v = Cx::new().disp(&disp);
    let o = disp.clone().into_owned();
    if o != disp {
        c.violation(format!("owned disposition {:?} from {:?}", o, disp), keep.as_bytes());
    }
    drop(disp);
    unsafe {
        for x in text.as_bytes_mut() {
            *x = b'!';
        }
    }
    let (lo, len) = (text.as_ptr() as usize, text.len());
    let mut cx = Cx::new();
    let after = vec![cx.ctype(&a), cx.cte(&b), cx.disp_type(&d), cx.disp(&o)];
    outside(c, "into_owned", &cx, lo, len, keep.as_bytes());
    drop(text);
    let unknown = T("Unknown", vec![S(keep.clone())]);
    c.event("owned values compared", 4);
    if let Some((p, e, g)) = diff(&L(vec![unknown.clone(), unknown.clone(), unknown, v]), &L(after)) {
        c.violation(format!("an owned copy is different once the text is gone: at {}: {} became {}", p, e, g), keep.as_bytes());
    }
}
#[cfg(feature = "mime")]
fn gen_date(g: &mut G) -> Vec<email_parser::time::DateTime> {
    (0..3)
        .map(|_| {
            let mut o = Vec::new();
            g.date_time(&mut o).lib()
        })
        .collect()
}
#[cfg(feature = "mime")]
pub fn c23() -> Vec<Sub> {
    vec![sub("headers", 3, owned_values), sub("messages", 1, owned_parts), sub("made by hand", 2, owned_made), subn("sizes", 1, owned_count(), owned_sizes), sub("sizes again", 1, owned_more)]
}
#[cfg(feature = "mime")]
fn owned_plan() -> &'static Vec<(crate::dims::Dim2, usize)> {
    static P: std::sync::OnceLock<Vec<(crate::dims::Dim2, usize)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        for d in crate::dims::dims() {
            if d.props.contains(&"C15") {
                for n in sizes(d.max) {
                    v.push(((d.name, d.make), n));
                }
            }
        }
        v.sort_by_key(|x| x.1);
        v
    })
}
#[cfg(feature = "mime")]
fn owned_count() -> u64 {
    owned_plan().len() as u64
}
#[cfg(feature = "mime")]
fn owned_sizes(c: &mut Ctx) {
    let ((_, make), n) = owned_plan()[c.case as usize];
    owned_sized(c, make, n);
}
#[cfg(feature = "mime")]
fn owned_more(c: &mut Ctx) {
    let mut r = c.rng();
    let ((_, make), most) = *r.pick(owned_plan());
    let n = if r.chance(1, 3) { most } else { r.size(0, 24, most.min(3000)) };
    owned_sized(c, make, n.min(most));
}
#[cfg(feature = "mime")]
fn owned_sized(c: &mut Ctx, make: fn(&mut G, usize) -> crate::dims::Made, n: usize) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = make(&mut g, n).case(&mut g);
    owned_case(c, &case.bytes);
}
