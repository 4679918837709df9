//! Hostile shapes: repeated, nested, unterminated and failing constructs, of any size.
use crate::gen::b64;
use crate::rng::Rng;

pub const NAMES: &[&str] = &[
    "Date", "From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Subject", "Comments", "Keywords", "MIME-Version", "Content-Type", "Content-Transfer-Encoding",
    "Content-ID", "Content-Description", "Content-Disposition", "Return-Path", "Received", "Resent-Date", "Resent-From", "Resent-Sender", "Resent-To", "Resent-Cc", "Resent-Bcc", "Resent-Message-ID", "X-Other",
];
pub const PREFIXES: &[&str] = &[
    "", " ", "a", "a@b", "a@b, ", "<", "a <", "a:", "a: b@c,", "\"", "(", "((", "=?utf-8?Q?", "=?utf-8?B?", "=?", "text/plain", "text/plain;", "text/plain; a=", "text/plain; a=\"", "text/plain; a*0=b", "text/plain; a*=utf-8''",
    "inline; filename=", "inline; filename*0*=utf-8''", "inline; creation-date=\"", "<a@", "<a@b>", "[", "a@[", "<a@[", "from a", "from a by b; ", "Mon, ", "1 Jan 2015 10:20:30", "1 Jan 2015 10:20:30 +0000", "1.0", "1", "a; 1 Jan 2015 10:20:30 +0000",
    "base64", "multipart/mixed; boundary=", "\"a\" ", "a. ", "(a) ",
];
pub const UNITS: &[&str] = &[
    "a", " ", "\t", "\r\n ", "\r\n\t", "(", ")", "()", "(a)", "( a ) ", "\"", "\"\"", "\"a\"", "\"a\" ", "\\", "\\\"", "\\(", "\\a", "<", ">", "<>", "@", "a@", "a@b,", "a@b, ", "<a@b>,", "a <a@b>, ", "\"a\" <a@b>,", "a:;", "a:;,", "a:b@c;,", "a:b@c,",
    ":", ";", ",", ", ", ".", "a.", "..", "=", "=?", "?=", "?", "=?utf-8?Q?a?=", "=?utf-8?Q?a?= ", "=?utf-8?B?YQ==?= ", "=?utf-8?Q?a", "=?a?", "=?a?b?c?= ", "[", "]", "[a]", "a ", "a,", "a b ", "; a=b", ";a=\"b\"", "; a*0=b", "; a*1=b", "; a{i}=b", "; a*{i}=b", "; a*{i}*=%41", "; a{i}*0=x; a{i}*1=y",
    "; a*=utf-8''b", "%41", "%", "%4", "'", "*", "0", "9", "1.", "/", "a/b", "<a@b>", "<a@b> ", "<a@b>(c)", "<a@[b]>", "a@[b] ", "\u{80}", "\u{e9}", "\0", "\x7f", "\r", "\n", "-", "--", "+", "+0000", " +0000", "Mon, ", "1 Jan 2015 ", "10:20:30 ", " (a\r\n )", "(\\()", "(\"", "\"(", "\"a\r\n b\" ", "\"\\\"",
    " =?iso-8859-1?B?6Q==?=\r\n", "; 1 Jan 2015 10:20:30 +0000", "a@b ", "a.b ", "a.b.c@d.e ", "from a ", "\r\nX: y", "\r\n\r\n", "_", "~", "=41", "=?us-ascii?q?=41?=\r\n ", "x:", "\r\nReceived: a; 1 Jan 2015 10:20:30 +0000", "\r\nResent-To: a@b", "\r\nKeywords: a", "\r\nReturn-Path: <>", "{i}",
];
pub const SUFFIXES: &[&str] = &["", "", "", "x", ">", ")", "\"", ";", ":", "?=", "@b", " <a@b>", ", ", "\u{80}", "\0", "]", "\\", " ", "a@b", "; 1 Jan 2015 10:20:30 +0000", "=", "%"];
const CLOSERS: &[(&str, &str)] = &[("(", ")"), ("(a", ")"), ("( ", " )"), ("<", ">"), ("[", "]"), ("\"", "\""), ("a:", ";"), ("(\r\n ", ")"), ("(\\(", "\\))"), ("(a b", "c) ")];
const BODY_UNITS: &[&[u8]] = &[
    b"a", b" ", b"\t", b"\r\n", b"\n", b"\r", b"=", b"=4", b"=41", b"=\r\n", b"= \r\n", b" \r\n", b"=\r", b"\x80", b"\xc3\xa9", b"\xc1\xf2", b"\xff", b"A", b"AA==", b"AAA=", b"A-", b"-", b"--", b"\r\n--", b"\r\n--B", b"\r\n--B--", b"--B", b"\r\n--B\r\n", b"\r\n--B\r\n\r\n", b"\r\n--B \t",
    b"\r\n--B\r\nX: y\r\n\r\n", b"\r\n--B\r\nContent-Type: text/html; charset=utf-8\r\n\r\nx", b"\r\n--B-", b"\r\n--Bx\r\n", b"\r\n-", b"\0", b"=G", b"==", b"=C3=A9", b"\xa1\xa1", b"\xb0\xa1", b"\xe9", b"QUJD\r\n", b"word and word\r\n", b"A\r", b"\xc1",
];
const BODY_KINDS: &[&str] = &["text/plain; charset=utf-8", "text/plain; charset=us-ascii", "text/plain; charset=iso-8859-1", "text/plain; charset=iso-8859-7", "text/plain; charset=gb2312", "text/plain; charset=iso-6937", "text/plain; charset=x", "image/png"];

#[derive(Clone, Debug)]
pub struct Shape {
    pub kind: usize,
    pub name: &'static str,
    pub prefix: &'static str,
    pub unit: Vec<u8>,
    pub close: Vec<u8>,
    pub suffix: &'static str,
    pub boundary: String,
    pub enc: &'static str,
    pub ctype: &'static str,
    pub in_part: bool,
    pub valid_frame: bool,
}

impl Shape {
    pub fn pick(r: &mut Rng) -> Shape {
        let mut s = Shape {
            kind: r.below(10),
            name: *r.pick(NAMES),
            prefix: *r.pick(PREFIXES),
            unit: Vec::new(),
            close: Vec::new(),
            suffix: *r.pick(SUFFIXES),
            boundary: String::new(),
            enc: *r.pick(&["7bit", "base64", "quoted-printable", "binary"]),
            ctype: *r.pick(BODY_KINDS),
            in_part: r.chance(1, 5),
            valid_frame: r.chance(2, 3),
        };
        if s.kind <= 6 {
            if r.chance(1, 8) {
                let (a, b) = *r.pick(CLOSERS);
                s.unit = a.as_bytes().to_vec();
                s.close = b.as_bytes().to_vec();
            } else {
                for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3]) {
                    if r.chance(1, 25) {
                        s.unit.extend_from_slice(crate::dict::word(r));
                    } else {
                        s.unit.extend_from_slice(r.pick(UNITS).as_bytes());
                    }
                }
            }
        } else {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 2, 3]) {
                if r.chance(1, 25) {
                    s.unit.extend_from_slice(crate::dict::word(r));
                } else {
                    s.unit.extend_from_slice(r.pick(BODY_UNITS));
                }
            }
        }
        if s.unit.is_empty() {
            s.unit.push(b'a');
        }
        s.boundary = match r.below(5) {
            0 => "-".repeat(r.range(1, 70)),
            1 => "a".repeat(70),
            2 => "B".into(),
            3 => "b b".into(),
            _ => {
                let n = r.range(1, 70);
                (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
        };
        // 'B' in a unit of a multipart stands for the boundary
        if s.kind == 9 {
            let mut u = Vec::new();
            for c in &s.unit {
                if *c == b'B' {
                    u.extend_from_slice(s.boundary.as_bytes());
                } else {
                    u.push(*c);
                }
            }
            s.unit = u;
        }
        s
    }
    fn repeated(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 100);
        let indexed = self.unit.windows(3).any(|w| w == b"{i}");
        let mut k = 0usize;
        let limit = if self.close.is_empty() { n } else { n / 2 };
        while v.len() < limit || k == 0 {
            if indexed {
                let u = String::from_utf8_lossy(&self.unit).replace("{i}", &k.to_string());
                v.extend_from_slice(u.as_bytes());
            } else {
                v.extend_from_slice(&self.unit);
            }
            k += 1;
        }
        if !self.close.is_empty() {
            for _ in 0..k {
                v.extend_from_slice(&self.close);
            }
        }
        v
    }
    /// A message of about n bytes.
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let frame: &[u8] = if self.valid_frame { b"From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n" } else { b"" };
        let mut h: Vec<u8> = Vec::new();
        let mut body: Vec<u8> = b"body".to_vec();
        match self.kind {
            // one header
            0..=4 => {
                h.extend(format!("{}: {}", self.name, self.prefix).bytes());
                h.extend(self.repeated(n));
                h.extend_from_slice(self.suffix.as_bytes());
                h.extend_from_slice(b"\r\n");
            }
            // many headers
            5 => {
                let mut one = format!("{}: {}", self.name, self.prefix).into_bytes();
                one.extend_from_slice(&self.unit);
                one.extend_from_slice(self.suffix.as_bytes());
                one.extend_from_slice(b"\r\n");
                while h.len() < n {
                    h.extend_from_slice(&one);
                }
            }
            // no header
            6 => {
                h.extend_from_slice(self.prefix.as_bytes());
                h.extend(self.repeated(n));
                h.extend_from_slice(self.suffix.as_bytes());
            }
            // body
            7 | 8 => {
                h.extend(format!("Content-Type: {}\r\nContent-Transfer-Encoding: {}\r\n", self.ctype, self.enc).bytes());
                body = self.repeated(n);
                if self.kind == 8 && self.enc == "base64" {
                    body = b64(&body, 76, b"\r\n");
                }
                body.extend_from_slice(self.suffix.as_bytes());
            }
            // multipart
            _ => {
                h.extend(format!("Content-Type: multipart/mixed; boundary=\"{}\"\r\n", self.boundary).bytes());
                body = format!("--{}\r\n\r\n", self.boundary).into_bytes();
                body.extend(self.repeated(n));
                body.extend_from_slice(self.suffix.as_bytes());
                if self.prefix.len() % 2 == 0 {
                    body.extend(format!("\r\n--{}--", self.boundary).bytes());
                }
            }
        }
        let mut v = frame.to_vec();
        if self.in_part {
            v.extend_from_slice(b"Content-Type: multipart/mixed; boundary=outer_boundary\r\n\r\n--outer_boundary\r\n");
            v.extend(h);
            v.extend_from_slice(b"\r\n");
            v.extend(body);
            v.extend_from_slice(b"\r\n--outer_boundary--\r\n");
        } else if self.valid_frame && self.prefix.len() % 3 == 0 && !self.name.starts_with('R') {
            let mut w = h;
            w.extend(v);
            v = w;
            v.extend_from_slice(b"\r\n");
            v.extend(body);
        } else {
            // trace fields come first
            let mut w = h;
            if self.name.starts_with('R') || self.prefix.len() % 3 == 1 {
                w.extend(v);
                v = w;
            } else {
                v.extend(w);
            }
            v.extend_from_slice(b"\r\n");
            v.extend(body);
        }
        v
    }
    pub fn describe(&self) -> String {
        format!("kind {} {}: prefix {:?} unit \"{}\" close \"{}\" suffix {:?} encoding {} type {} boundary {:?} in part {}", self.kind, self.name, self.prefix, crate::ctx::escape(&self.unit, 80), crate::ctx::escape(&self.close, 20), self.suffix, self.enc, self.ctype, self.boundary, self.in_part)
    }
}
