//! Generators of conforming text together with what it denotes. The expected values come from the choices of the
//! generator, never from parsing.
use crate::refp::{self, Adr, Block, Cfg, Dt, Mbox, Resent, Tok};
use crate::rng::Rng;
use crate::tables;
use crate::val::Val::{self, *};
use std::collections::BTreeMap;

pub type Out = Vec<u8>;

pub struct G {
    /// choices that matter for the meaning
    pub r: Rng,
    /// choices that do not: letter case, comments, folding
    d: Rng,
    deco: bool,
    pub cfg: Cfg,
    /// 0: canonical, 1: some, 2: a lot of comments, folding and odd spacing
    pub noise: usize,
    /// maximum length of atoms and other tokens, maximum count of list items
    pub max_len: usize,
    pub max_count: usize,
    /// what remains before everything becomes as small as possible
    pub budget: usize,
    /// with encoded words
    pub words: bool,
    /// Decides what repeats an earlier construct, one time out of `repeat`.
    a: Rng,
    repeat: usize,
    made: [Vec<Rng>; 12],
}

const ATEXT: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~";
const BCHARS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'()+_,-./:=? ";
pub const CHARSETS: [&str; 19] = [
    "utf-8",
    "us-ascii",
    "iso-8859-1",
    "iso-8859-2",
    "iso-8859-3",
    "iso-8859-4",
    "iso-8859-5",
    "iso-8859-6",
    "iso-8859-7",
    "iso-8859-8",
    "iso-8859-9",
    "iso-8859-10",
    "iso-8859-11",
    "iso-8859-13",
    "iso-8859-14",
    "iso-8859-15",
    "iso-8859-16",
    "iso-6937",
    "gb2312",
];
pub const KNOWN_NAMES: [&str; 26] = [
    "Date",
    "From",
    "Sender",
    "Reply-To",
    "To",
    "Cc",
    "Bcc",
    "Message-ID",
    "In-Reply-To",
    "References",
    "Subject",
    "Comments",
    "Keywords",
    "MIME-Version",
    "Content-Type",
    "Content-Transfer-Encoding",
    "Content-ID",
    "Content-Description",
    "Content-Disposition",
    "Return-Path",
    "Received",
    "Resent-Date",
    "Resent-From",
    "Resent-Sender",
    "Resent-To",
    "Resent-Cc",
];

/// Base64 with lines of a given length (0: a single line).
pub fn b64(data: &[u8], line: usize, eol: &[u8]) -> Vec<u8> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = Vec::new();
    let mut n = 0;
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        let q = [A[(v >> 18) as usize], A[(v >> 12 & 63) as usize], A[(v >> 6 & 63) as usize], A[(v & 63) as usize]];
        let keep = c.len() + 1;
        for (i, x) in q.iter().enumerate() {
            if line > 0 && n == line {
                out.extend_from_slice(eol);
                n = 0;
            }
            out.push(if i < keep { *x } else { b'=' });
            n += 1;
        }
    }
    out
}

impl G {
    pub fn new(r: Rng, cfg: &Cfg) -> G {
        let mut r = r;
        let d = Rng::new(r.next());
        let mut g = G { r, d, deco: false, cfg: cfg.clone(), noise: 0, max_len: 12, max_count: 4, budget: 60_000, words: true, a: Rng::new(0), repeat: 0, made: Default::default() };
        g.a = Rng::new(g.r.next());
        g.repeat = *g.a.pick(&[0, 0, 0, 20, 8, 2]);
        g.noise = *g.r.pick(&[0, 1, 1, 2]);
        match g.r.below(30) {
            0 => g.max_len = 300,
            1 => g.max_count = 40,
            _ => (),
        }
        g
    }
    /// Other choices that do not matter, the same meaning.
    pub fn redecorate(&mut self, seed: u64, noise: usize) {
        self.d = Rng::new(seed);
        self.noise = noise;
    }
    /// Runs with the choices that do not matter for the meaning.
    fn deco<T>(&mut self, f: impl FnOnce(&mut G) -> T) -> T {
        if self.deco {
            return f(self);
        }
        std::mem::swap(&mut self.r, &mut self.d);
        self.deco = true;
        let t = f(self);
        self.deco = false;
        std::mem::swap(&mut self.r, &mut self.d);
        t
    }
    /// Sometimes makes the same choices as an earlier construct of this kind, so that messages repeat things.
    fn again<T>(&mut self, kind: usize, f: impl FnOnce(&mut G) -> T) -> T {
        if self.repeat == 0 || self.deco {
            return f(self);
        }
        if self.made[kind].is_empty() || !self.a.chance(1, self.repeat) {
            if self.made[kind].len() < 6 {
                let r = self.r.clone();
                self.made[kind].push(r);
            }
            return f(self);
        }
        let k = self.a.below(self.made[kind].len());
        let again = self.made[kind][k].clone();
        let r = std::mem::replace(&mut self.r, again);
        let n = std::mem::replace(&mut self.repeat, 0);
        let t = f(self);
        self.repeat = n;
        self.r = r;
        t
    }
    pub fn len(&mut self, lo: usize) -> usize {
        let m = self.max_len;
        let n = if self.budget == 0 {
            lo
        } else if self.r.chance(1, 40) {
            (crate::dict::number(&mut self.r, 66000.min(self.budget))).max(lo)
        } else if self.r.chance(1, 200) {
            self.r.range(lo, 70000.min(m * 300).min(self.budget + lo))
        } else if self.r.chance(1, 20) {
            self.r.range(lo, m * 6 + lo)
        } else {
            self.r.range(lo, lo + m)
        };
        self.budget = self.budget.saturating_sub(n);
        n
    }
    pub fn count(&mut self, lo: usize) -> usize {
        let n = if self.budget == 0 {
            lo
        } else if self.r.chance(1, 150) {
            self.r.range(lo, self.max_count * 30)
        } else if self.r.chance(1, 80) {
            (crate::dict::number(&mut self.r, 300)).max(lo)
        } else if self.r.chance(1, 3) {
            lo
        } else {
            self.r.range(lo, self.max_count.max(lo))
        };
        self.budget = self.budget.saturating_sub(n);
        n
    }
    pub fn case(&mut self, s: &str) -> Vec<u8> {
        self.deco(|g| g.case_kept(s))
    }
    /// A letter case that is part of the value.
    pub fn case_kept(&mut self, s: &str) -> Vec<u8> {
        let mode = self.r.below(6);
        let at = self.r.below(s.len().max(1));
        s.bytes()
            .enumerate()
            .map(|(i, c)| match mode {
                0 => c,
                1 => c.to_ascii_lowercase(),
                2 => c.to_ascii_uppercase(),
                // a single letter stands out
                4 if i == at => c.to_ascii_uppercase(),
                4 => c.to_ascii_lowercase(),
                5 if i == at => c.to_ascii_lowercase(),
                5 => c.to_ascii_uppercase(),
                _ => {
                    if self.r.chance(1, 2) {
                        c.to_ascii_lowercase()
                    } else {
                        c.to_ascii_uppercase()
                    }
                }
            })
            .collect()
    }

    // ---- white space and comments

    /// The current line already has something else than white space (so that it can be folded).
    fn can_fold(o: &Out) -> bool {
        let mut i = o.len();
        while i > 0 && (o[i - 1] == b' ' || o[i - 1] == b'\t') {
            i -= 1;
        }
        i > 0 && o[i - 1] != b'\n'
    }
    fn wsp1(&mut self, o: &mut Out) {
        self.deco(|g| g.wsp1_d(o))
    }
    fn wsp1_d(&mut self, o: &mut Out) {
        let n = if self.noise == 2 && self.r.chance(1, 4) { self.r.range(1, 4) } else { 1 };
        for _ in 0..n {
            o.push(if self.noise > 0 && self.r.chance(1, 4) { b'\t' } else { b' ' });
        }
    }
    /// FWS: [*WSP CRLF] 1*WSP. Something that is not white space must follow.
    pub fn fws1(&mut self, o: &mut Out) {
        self.deco(|g| g.fws1_d(o))
    }
    fn fws1_d(&mut self, o: &mut Out) {
        if self.noise > 0 && self.r.chance(self.noise, 5) && Self::can_fold(o) {
            if self.r.chance(1, 3) {
                self.wsp1(o);
            }
            o.extend_from_slice(b"\r\n");
        }
        self.wsp1(o);
    }
    /// White space that is part of a value, possibly folded: returns it.
    fn content_ws(&mut self, o: &mut Out, plain: bool) -> String {
        let n = if plain || self.r.chance(3, 4) { 1 } else { self.r.range(1, 4) };
        let ws: Vec<u8> = (0..n).map(|_| if !plain && self.r.chance(1, 6) { b'\t' } else { b' ' }).collect();
        let fold = self.deco(|g| if g.noise > 0 && g.r.chance(g.noise, 5) && Self::can_fold(o) { g.r.below(n) } else { n });
        for (i, c) in ws.iter().enumerate() {
            if i == fold {
                o.extend_from_slice(b"\r\n");
            }
            o.push(*c);
        }
        String::from_utf8(ws).unwrap()
    }
    fn comment(&mut self, o: &mut Out, depth: usize) {
        self.deco(|g| g.comment_d(o, depth))
    }
    fn comment_d(&mut self, o: &mut Out, depth: usize) {
        o.push(b'(');
        let n = if self.r.chance(1, 60) { self.r.below(300) } else { self.r.below(5) };
        for _ in 0..n {
            match self.r.below(8) {
                0 if depth < 4 => self.comment(o, depth + 1),
                1 => {
                    o.push(b'\\');
                    let c = self.vchar_or_wsp();
                    o.push(c);
                }
                2 | 3 => {
                    // FWS must be followed by something: the closing parenthesis at least
                    self.fws1(o)
                }
                4 => o.extend_from_slice(self.r.pick(&[&b"\"<>"[..], b"a@b", b"=?utf-8?Q?x?=", b",;:", b"[x]"])),
                _ => {
                    let c = loop {
                        let c = self.r.range(33, 126) as u8;
                        if !b"()\\".contains(&c) {
                            break c;
                        }
                    };
                    o.push(c);
                }
            }
        }
        o.push(b')');
    }
    fn vchar_or_wsp(&mut self) -> u8 {
        match self.r.below(12) {
            0 => b' ',
            1 => b'\t',
            2 => *self.r.pick(b"\"\\()<>@,;:.[]"),
            _ => self.r.range(33, 126) as u8,
        }
    }
    /// [CFWS], followed by something that is not white space
    pub fn gap(&mut self, o: &mut Out) {
        self.deco(|g| g.gap_d(o))
    }
    fn gap_d(&mut self, o: &mut Out) {
        if self.noise > 0 && self.r.chance(self.noise, 4) {
            self.gap_some(o);
        }
    }
    fn gap_some(&mut self, o: &mut Out) {
        if self.noise == 0 {
            o.push(b' ');
            return;
        }
        let mut done = false;
        if self.r.chance(3, 4) {
            self.fws1(o);
            done = true;
        }
        while !done || self.r.chance(self.noise, 8) {
            if self.noise == 1 && self.r.chance(1, 2) && done {
                break;
            }
            self.comment(o, 0);
            done = true;
            if self.r.chance(1, 2) {
                self.fws1(o);
            }
        }
    }
    /// CFWS that is needed to separate two tokens
    pub fn gap1(&mut self, o: &mut Out) {
        self.deco(|g| g.gap1_d(o))
    }
    fn gap1_d(&mut self, o: &mut Out) {
        if self.noise == 0 || self.r.chance(1, 2) {
            o.push(b' ');
        } else {
            self.gap_some(o);
        }
    }
    /// [CFWS] at the start of a header value
    pub fn lead(&mut self, o: &mut Out) {
        self.deco(|g| g.lead_d(o))
    }
    fn lead_d(&mut self, o: &mut Out) {
        if self.r.chance(3, 4) {
            self.gap1(o)
        }
    }
    /// [CFWS] at the end of a header: the last line must not be only white space
    pub fn end_gap(&mut self, o: &mut Out) {
        self.deco(|g| g.end_gap_d(o))
    }
    fn end_gap_d(&mut self, o: &mut Out) {
        if self.noise > 0 && self.r.chance(self.noise, 6) {
            self.gap_some(o);
            if !Self::can_fold(o) {
                self.comment(o, 0);
            }
        }
    }

    // ---- words

    fn chars(&mut self, o: &mut Out, set: &[u8], n: usize) -> String {
        let mut s: Vec<u8> = (0..n).map(|_| *self.r.pick(set)).collect();
        if n > 0 && self.r.chance(1, 30) {
            let w = crate::dict::word(&mut self.r);
            if !w.is_empty() && w.iter().all(|c| set.contains(c)) {
                if self.r.chance(1, 3) {
                    let at = self.r.below(s.len() + 1);
                    s.splice(at..at, w.iter().copied());
                } else {
                    s = w.to_vec();
                }
            }
        }
        o.extend_from_slice(&s);
        String::from_utf8(s).unwrap()
    }
    pub fn atom(&mut self, o: &mut Out) -> String {
        self.again(0, |g| g.atom_1(o))
    }
    fn atom_1(&mut self, o: &mut Out) -> String {
        let s = o.len();
        let n = self.len(1);
        let set = if self.r.chance(1, 2) { &ATEXT[..62] } else { ATEXT };
        let mut t = self.chars(o, set, n);
        if t.starts_with("=?") {
            o[s] = b'a';
            t = format!("a{}", &t[1..]);
        }
        t
    }
    pub fn dot_atom(&mut self, o: &mut Out) -> String {
        self.again(1, |g| g.dot_atom_1(o))
    }
    fn dot_atom_1(&mut self, o: &mut Out) -> String {
        let n = self.count(1);
        let mut v = Vec::new();
        let odd = self.cfg.compat && self.r.chance(1, 3);
        for i in 0..n {
            if i > 0 {
                o.push(b'.');
            }
            v.push(self.atom(o));
            while odd && self.r.chance(1, 3) {
                o.push(b'.');
                v.push(String::new());
            }
        }
        v.join(".")
    }
    pub fn quoted(&mut self, o: &mut Out) -> String {
        self.again(2, |g| g.quoted_1(o))
    }
    fn quoted_1(&mut self, o: &mut Out) -> String {
        o.push(b'"');
        let n = self.len(0);
        let mut v: Vec<u8> = Vec::new();
        let plain = self.r.chance(1, 2);
        for _ in 0..n {
            match self.r.below(if plain { 6 } else { 10 }) {
                5 => {
                    v.extend(self.content_ws(o, plain).bytes());
                }
                8 | 9 => {
                    let c = self.vchar_or_wsp();
                    o.push(b'\\');
                    o.push(c);
                    v.push(c);
                }
                7 => {
                    let s = *self.r.pick(&[&b"=?utf-8?Q?x?="[..], b"(x)", b"<a@b>", b",", b";", b"//", b"'"]);
                    o.extend_from_slice(s);
                    v.extend_from_slice(s);
                }
                _ => {
                    let c = loop {
                        let c = self.r.range(33, 126) as u8;
                        if c != b'"' && c != b'\\' {
                            break c;
                        }
                    };
                    o.push(c);
                    v.push(c);
                }
            }
        }
        o.push(b'"');
        String::from_utf8(v).unwrap()
    }
    /// Random text that a charset can represent: (bytes, text)
    pub fn charset_text(&mut self, charset: &str, n: usize) -> (Vec<u8>, String) {
        let (mut b, mut s) = (Vec::new(), String::new());
        if n > 1 && self.r.chance(1, 8) {
            // a text that would mean something else if it was read once more, or somewhere else
            const META: &[&str] = &[
                "=?utf-8?Q?x?=", "=?utf-8?B?eHg=?=", "=?us-ascii?q?a_b?=", " =?utf-8?Q?x?= =?utf-8?Q?y?=", "=?", "?=", "%41", "%2541", "%C3%A9", "=41", "=3D41", "=C3=A9", "=\r\n", "utf-8''%41", "us-ascii''a", "''", "'", "QUJD", "QQ==",
                "(c)", "(", ")", "\"q\"", "\"", "\\\"", "\\", "a@b.c", "<a@b>", "<", ">", "g:;", "a;b=c", ";", ",", "\r\n", "\r\n ", "\r\nX: y", "\r", "\n", "\0", "../", "/", "C:\\", " ", "  ", "\t", " \t", "_", "&amp;", "\u{7f}", "\u{1b}",
                "--", ".", "..", "$", "%", "*", "*0*=", "+AGE-", "~",
            ];
            while s.len() < n {
                let t = *self.r.pick(META);
                if s.len() + t.len() <= n {
                    s.push_str(t);
                } else if self.r.chance(1, 2) {
                    s.push('x');
                }
            }
            return (s.clone().into_bytes(), s);
        }
        for _ in 0..n {
            let ascii = charset == "us-ascii" || self.r.chance(1, 3);
            if ascii {
                let c = if self.r.chance(1, 6) { *self.r.pick(b"'%*=?\"\\;_ ~.()<>@,:/[]\x7f\0\t") } else { self.r.range(32, 126) as u8 };
                let c = if self.r.chance(1, 6) || !(c as char).is_control() { c } else { b'\'' };
                b.push(c);
                s.push(c as char);
                continue;
            }
            if charset == "utf-8" {
                const SPECIAL: &str = "\u{feff}\u{fffe}\u{fffd}\u{ffff}\u{301}\u{308}\u{200d}\u{200b}\u{ad}\u{2028}\u{2029}\u{85}\u{80}\u{a0}\u{3000}\u{d7ff}\u{e000}\u{10ffff}\u{202e}\u{fb01}\u{130}\u{212a}\u{17f}\u{df}\u{1e9e}";
                let c = loop {
                    if self.r.chance(1, 8) {
                        let all: Vec<char> = SPECIAL.chars().collect();
                        break *self.r.pick(&all);
                    }
                    let m = *self.r.pick(&[0x7ff, 0xffff, 0x10ffff, 0x17f]);
                    if let Some(c) = char::from_u32(self.r.range(0x80, m) as u32) {
                        break c;
                    }
                };
                s.push(c);
                b.extend_from_slice(c.to_string().as_bytes());
            } else if charset == "gb2312" {
                let (h, l, c) = loop {
                    let (h, l) = (self.r.below(87), self.r.below(94));
                    if tables::GB2312[h][l] != 0 {
                        break (h, l, tables::GB2312[h][l]);
                    }
                };
                b.extend_from_slice(&[0xa1 + h as u8, 0xa1 + l as u8]);
                s.push(char::from_u32(c as u32).unwrap());
            } else if charset == "iso-6937" {
                let (h, l, c) = *self.r.pick(&tables::ISO6937);
                b.push(h);
                if l != 0 {
                    b.push(l);
                }
                s.push(char::from_u32(c).unwrap());
            } else {
                let n: u8 = charset["iso-8859-".len()..].parse().unwrap();
                let t = tables::ISO8859.iter().find(|(i, _)| *i == n).unwrap();
                let i = loop {
                    let i = self.r.below(96);
                    if t.1[i] != 0 {
                        break i;
                    }
                };
                b.push(0xa0 + i as u8);
                s.push(char::from_u32(t.1[i]).unwrap());
            }
        }
        (b, s)
    }
    fn q_encode(&mut self, o: &mut Out, data: &[u8], phrase: bool) {
        for b in data {
            let safe = b.is_ascii_alphanumeric() || (if phrase { b"!*+-/".contains(b) } else { (0x21..0x7f).contains(b) && !b"?=_".contains(b) });
            if *b == b' ' && self.r.chance(3, 4) {
                o.push(b'_');
            } else if safe && self.r.chance(7, 8) {
                o.push(*b);
            } else {
                let h = format!("{:02X}", b);
                let h = if self.r.chance(1, 4) { h.to_lowercase() } else { h };
                o.push(b'=');
                o.extend_from_slice(h.as_bytes());
            }
        }
    }
    /// A valid encoded word of at most 75 characters.
    pub fn encoded_word(&mut self, o: &mut Out, phrase: bool) -> String {
        let charset = *self.r.pick(&CHARSETS);
        let mut n = self.r.range(1, 20);
        loop {
            let (data, text) = self.charset_text(charset, n);
            let mut w = b"=?".to_vec();
            w.extend(self.case(charset));
            if self.r.chance(1, 6) {
                w.push(b'*');
                w.extend_from_slice(self.r.pick(&[&b"en"[..], b"fr-FR", b"x", b"EN"]));
            }
            w.push(b'?');
            if self.r.chance(1, 2) {
                w.push(*self.r.pick(b"bB"));
                w.push(b'?');
                w.extend(b64(&data, 0, b""));
            } else {
                w.push(*self.r.pick(b"qQ"));
                w.push(b'?');
                self.q_encode(&mut w, &data, phrase);
            }
            w.extend_from_slice(b"?=");
            if w.len() <= 75 {
                o.extend_from_slice(&w);
                return text;
            }
            n = n / 2 + (n == 1) as usize;
        }
    }
    /// Looks like an encoded word but must be kept verbatim.
    pub fn undecodable_word(&mut self, o: &mut Out, phrase: bool) -> String {
        let s: &str = if phrase {
            *self.r.pick(&["=?", "=??Q?a?=", "=?utf-8?Q?a?", "=?utf-9?Q?a?=", "=?utf-8?X?a?=", "=?utf-8?B?QQ?=", "=?utf-8?Q?=FF?=", "=?utf-8*?Q?a?=", "=?utf-8?Q??="])
        } else {
            *self.r.pick(&[
                "=?",
                "=??Q?a?=",
                "=?utf-8?Q?a?",
                "=?utf-8?Q?a",
                "=?utf-9?Q?a.b?=",
                "=?iso-8859-12?Q?a?=",
                "=?iso-8859-17?B?QUJD?=",
                "=?windows-1252?Q?caf=E9?=",
                "=?utf-8?X?a?=",
                "=?utf-8?BQ?a?=",
                "=?utf-8?B?QQ?=",
                "=?utf-8?B?QUJDR?=",
                "=?utf-8?B?/w==?=",
                "=?utf-8?Q?=FF=FE?=",
                "=?utf-8?q?=C3?=",
                "=?utf-8*?Q?a?=",
                "=?ut(f?Q?a?=",
                "=?utf-8?Q?a?b?=",
                "=?utf-8?Q??=",
                "=?utf-8?=",
                "=?=",
                "?=",
                "x=?utf-8?Q?a?=",
                "(=?utf-8?Q?a?=",
                "=?us-ascii?Q?=FF?=",
                "=?utf-8?Q?=ED=A0=80?=",
            ])
        };
        o.extend_from_slice(s.as_bytes());
        s.to_string()
    }
    pub fn phrase(&mut self, o: &mut Out) -> Vec<String> {
        self.again(5, |g| g.phrase_1(o))
    }
    fn phrase_1(&mut self, o: &mut Out) -> Vec<String> {
        let n = self.count(1);
        let mut v = Vec::new();
        let mut prev = 9;
        for _ in 0..n {
            let mut kind = self.r.below(4);
            if kind >= 2 && !self.words || kind == 2 && !self.cfg.mime {
                kind = 0;
            }
            if kind == 3 && !(self.cfg.mime && self.r.chance(1, 4)) {
                kind = 0;
            }
            if prev != 9 {
                if prev == kind && kind == 1 || (prev == 1) != (kind == 1) && prev < 2 && kind < 2 {
                    // a quoted string does not need a separation
                    self.deco(|g| if g.r.chance(1, 3) { g.gap(o) } else { g.gap1(o) })
                } else {
                    self.gap1(o);
                }
            }
            v.push(match kind {
                0 => self.atom(o),
                1 => self.quoted(o),
                2 => self.encoded_word(o, true),
                _ => self.undecodable_word(o, true),
            });
            prev = kind;
        }
        if prev >= 2 {
            // an encoded word is followed by white space
            self.gap1(o);
        }
        v
    }

    // ---- addresses

    fn domain_literal(&mut self, o: &mut Out) -> String {
        o.push(b'[');
        let mut v = Vec::new();
        for _ in 0..self.len(0) {
            self.deco(|g| {
                if g.noise > 0 && g.r.chance(1, 10) {
                    g.fws1(o);
                }
            });
            let c = loop {
                let c = self.r.range(33, 126) as u8;
                if !b"[]\\".contains(&c) {
                    break c;
                }
            };
            o.push(c);
            v.push(c);
        }
        self.deco(|g| {
            if g.noise > 0 && g.r.chance(1, 10) {
                g.fws1(o);
            }
        });
        o.push(b']');
        String::from_utf8(v).unwrap()
    }
    fn domain(&mut self, o: &mut Out) -> String {
        self.again(3, |g| g.domain_1(o))
    }
    fn domain_1(&mut self, o: &mut Out) -> String {
        if self.r.chance(1, 5) {
            self.domain_literal(o)
        } else {
            self.dot_atom(o)
        }
    }
    pub fn addr_spec(&mut self, o: &mut Out) -> (String, String) {
        self.again(4, |g| g.addr_spec_1(o))
    }
    fn addr_spec_1(&mut self, o: &mut Out) -> (String, String) {
        let l = if self.r.chance(1, 5) { self.quoted(o) } else { self.dot_atom(o) };
        self.gap(o);
        o.push(b'@');
        self.gap(o);
        let d = self.domain(o);
        (l, d)
    }
    pub fn angle(&mut self, o: &mut Out) -> (String, String) {
        o.push(b'<');
        self.gap(o);
        let a = self.addr_spec(o);
        self.gap(o);
        o.push(b'>');
        a
    }
    pub fn mailbox(&mut self, o: &mut Out) -> Mbox {
        self.again(6, |g| g.mailbox_1(o))
    }
    fn mailbox_1(&mut self, o: &mut Out) -> Mbox {
        let (name, (local, domain)) = match self.r.below(6) {
            0 | 1 => (Option::None, self.addr_spec(o)),
            2 => (Option::None, self.angle(o)),
            _ => {
                let n = self.phrase(o);
                self.gap(o);
                (Some(n), self.angle(o))
            }
        };
        Mbox { name, local, domain }
    }
    fn list<T>(&mut self, o: &mut Out, n: usize, f: impl Fn(&mut G, &mut Out) -> T) -> Vec<T> {
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.gap(o);
                o.push(b',');
                self.gap(o);
            }
            v.push(f(self, o));
        }
        v
    }
    pub fn mailbox_list(&mut self, o: &mut Out) -> Vec<Mbox> {
        let n = self.count(1);
        self.list(o, n, |g, o| g.mailbox(o))
    }
    pub fn address(&mut self, o: &mut Out) -> Adr {
        if self.r.chance(3, 4) {
            return Adr::Mailbox(self.mailbox(o));
        }
        let name = self.phrase(o);
        self.gap(o);
        o.push(b':');
        self.gap(o);
        let n = self.count(0);
        let l = self.list(o, n, |g, o| g.mailbox(o));
        self.gap(o);
        o.push(b';');
        Adr::Group(name, l)
    }
    pub fn address_list(&mut self, o: &mut Out) -> Vec<Adr> {
        let n = self.count(1);
        self.list(o, n, |g, o| g.address(o))
    }
    pub fn msg_id(&mut self, o: &mut Out) -> (String, String) {
        self.again(7, |g| g.msg_id_1(o))
    }
    fn msg_id_1(&mut self, o: &mut Out) -> (String, String) {
        o.push(b'<');
        let l = self.dot_atom(o);
        o.push(b'@');
        let r = if self.r.chance(1, 5) {
            o.push(b'[');
            let n = self.len(0);
            let s = self.chars(o, b"0123456789abcdefABCDEF:.!\"#$%&'()*+,-/;<=>?@^_`{|}~", n);
            o.push(b']');
            s
        } else {
            self.dot_atom(o)
        };
        o.push(b'>');
        (l, r)
    }
    pub fn msg_ids(&mut self, o: &mut Out) -> Vec<(String, String)> {
        let n = self.count(1);
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.deco(|g| if g.r.chance(1, 4) { g.gap(o) } else { g.gap1(o) })
            }
            v.push(self.msg_id(o));
        }
        v
    }

    // ---- dates

    pub fn date_time(&mut self, o: &mut Out) -> Dt {
        self.again(8, |g| g.date_time_1(o))
    }
    fn date_time_1(&mut self, o: &mut Out) -> Dt {
        let days = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
        let months = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        let weekday = if self.r.chance(2, 3) { Some(self.r.range(1, 7) as u8) } else { Option::None };
        let day = self.r.range(1, 31) as u8;
        let month = self.r.range(1, 12) as u8;
        let year = match self.r.below(8) {
            0 => self.r.range(1900, 2100) as u64,
            1 => *self.r.pick(&[1900, 1901, 1969, 1970, 1989, 1990, 1999, 2000, 2038, 9999, 10000, u32::MAX as u64, u64::MAX]),
            2 => 1900 + (self.r.next() >> self.r.range(12, 60)),
            _ => self.r.range(1990, 2030) as u64,
        };
        let edge = |g: &mut G, m: usize| -> u8 {
            if g.r.chance(1, 3) {
                *g.r.pick(&[0, m, 9, 10]) as u8
            } else {
                g.r.range(0, m) as u8
            }
        };
        let hour = edge(self, 23);
        let minute = edge(self, 59);
        let has_sec = self.r.chance(3, 4);
        let second = if has_sec { edge(self, 60) } else { 0 };
        let sign = self.r.chance(1, 2);
        let zone = (edge(self, 99), edge(self, 59));
        if let Some(d) = weekday {
            let n = self.case(days[d as usize - 1]);
            o.extend(n);
            o.push(b',');
            self.deco(|g| {
                if g.noise < 2 || g.r.chance(3, 4) {
                    g.fws1(o);
                }
            });
        }
        if self.r.chance(1, 2) {
            o.extend(format!("{:02}", day).bytes())
        } else {
            o.extend(day.to_string().bytes())
        }
        self.fws1(o);
        let n = self.case(months[month as usize - 1]);
        o.extend(n);
        self.fws1(o);
        if self.r.chance(1, 40) {
            let z = self.r.range(1, 30);
            o.extend(std::iter::repeat(b'0').take(z));
        }
        o.extend(year.to_string().bytes());
        self.fws1(o);
        o.extend(format!("{:02}:{:02}", hour, minute).bytes());
        if has_sec {
            o.extend(format!(":{:02}", second).bytes());
        }
        self.fws1(o);
        o.push(if sign { b'+' } else { b'-' });
        o.extend(format!("{:02}{:02}", zone.0, zone.1).bytes());
        Dt { weekday, day, month, year, hour, minute, second, sign, zone }
    }

    // ---- free text

    /// A run of visible characters that cannot be read as an encoded word.
    fn plain_run(&mut self, o: &mut Out) -> String {
        let s = o.len();
        let n = self.len(1);
        for _ in 0..n {
            let c = if self.r.chance(1, 8) { *self.r.pick(b"()<>@,;:\\\".[]=?") } else { self.r.range(33, 126) as u8 };
            o.push(c);
        }
        if o[s..].starts_with(b"=?") {
            o[s] = b'-';
        }
        String::from_utf8(o[s..].to_vec()).unwrap()
    }
    /// Free text: the value, including leading white space. `words`: with encoded words.
    pub fn free_text(&mut self, o: &mut Out, words: bool) -> String {
        self.again(9, |g| g.free_text_1(o, words))
    }
    fn free_text_1(&mut self, o: &mut Out, words: bool) -> String {
        let words = words && self.words;
        let mut out = String::new();
        let n = self.count(0);
        let mut prev_encoded = false;
        for i in 0..n {
            let ws = if i > 0 || self.r.chance(3, 4) { self.content_ws(o, false) } else { String::new() };
            let kind = if words && self.r.chance(1, 2) { self.r.range(0, 2) } else { 3 };
            if kind <= 1 {
                if !prev_encoded {
                    out.push_str(&ws);
                }
                out.push_str(&self.encoded_word(o, false));
                prev_encoded = true;
            } else {
                out.push_str(&ws);
                let t = if kind == 2 { self.undecodable_word(o, false) } else { self.plain_run(o) };
                out.push_str(&t);
                prev_encoded = false;
            }
        }
        self.deco(|g| {
            if g.noise > 0 && g.r.chance(1, 4) {
                g.wsp1(o);
            }
        });
        out
    }

    // ---- MIME

    pub fn token(&mut self, o: &mut Out, star: bool) -> String {
        self.again(10, |g| g.token_1(o, star))
    }
    fn token_1(&mut self, o: &mut Out, star: bool) -> String {
        let n = self.len(1);
        let set: &[u8] = if star { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`{|}~" } else { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'+-.^_`{|}~" };
        let set = if self.r.chance(1, 2) { &set[..62] } else { set };
        self.chars(o, set, n)
    }
    fn percent(&mut self, data: &[u8]) -> Vec<u8> {
        let mut o = Vec::new();
        // these do not have to be encoded for a reader to understand them
        let loose = self.r.chance(1, 4);
        for b in data {
            let safe = refp::is_token(*b) && *b != b'%' && (loose || !b"*'".contains(b));
            if safe && self.r.chance(4, 5) {
                o.push(*b);
            } else {
                let h = format!("%{:02X}", b);
                let h = if self.r.chance(1, 4) { h.to_lowercase() } else { h };
                o.extend_from_slice(h.as_bytes());
            }
        }
        o
    }
    /// Raw parameters ("name=value") denoting `name` with some value.
    fn param(&mut self, name: &str, force: Option<&str>) -> (Vec<Vec<u8>>, String) {
        let mut list = Vec::new();
        let named = |g: &mut G, suffix: String| {
            let mut o = g.case(name);
            o.extend(suffix.bytes());
            o.push(b'=');
            o
        };
        let kind = if force == Some("") { 0 } else { self.r.below(10) };
        let is_tok = |v: &str| !v.is_empty() && v.bytes().all(refp::is_token);
        let value;
        match kind {
            0..=4 => {
                let mut o = named(self, String::new());
                match force {
                    Some(v) => {
                        if is_tok(v) && self.r.chance(1, 2) {
                            o.extend(v.bytes());
                        } else {
                            self.quote_exact(&mut o, v);
                        }
                        value = v.to_string();
                    }
                    Option::None => {
                        value = if self.r.chance(1, 2) { self.token(&mut o, true) } else { self.quoted(&mut o) };
                    }
                }
                list.push(o);
            }
            5 | 6 => {
                // plain sections
                let n = if self.r.chance(1, 40) { self.r.range(2, 256) } else { self.r.range(1, 4) };
                let mut v = String::new();
                let mut rest = force;
                for i in 0..n {
                    let mut o = named(self, format!("*{}", i));
                    match rest {
                        Some(f) => {
                            let f = f.to_string();
                            let k = if i == n - 1 { f.len() } else { self.r.below(f.len() + 1) };
                            self.quote_exact(&mut o, &f[..k]);
                            v.push_str(&f[..k]);
                            rest = force.map(|x| &x[v.len()..]);
                        }
                        Option::None => v.push_str(&if self.r.chance(1, 2) { self.token(&mut o, true) } else { self.quoted(&mut o) }),
                    }
                    list.push(o);
                }
                value = v;
            }
            _ => {
                // extended, possibly with sections; some of the later sections may be plain
                let charset = *self.r.pick(&CHARSETS);
                let single = self.r.chance(1, 2);
                let n = if single { 1 } else { self.r.range(1, 5) };
                let n = n.min(force.map_or(n, str::len));
                let encs: Vec<bool> = (0..n).map(|i| i == 0 || self.r.chance(2, 3)).collect();
                let mut v = String::new();
                // bytes of an encoded section that are left to the next one
                let mut carry: Vec<u8> = Vec::new();
                for i in 0..n {
                    let mut o = named(self, if single { "*".to_string() } else { format!("*{}{}", i, if encs[i] { "*" } else { "" }) });
                    if encs[i] {
                        let charset = if force.is_some() { "us-ascii" } else { charset };
                        if i == 0 {
                            o.extend(self.case(charset));
                            o.extend_from_slice(self.r.pick(&[&b"''"[..], b"'en'", b"'fr-FR'"]));
                        }
                        let mut d = std::mem::take(&mut carry);
                        match force {
                            Some(f) => {
                                let last = i + 1 == n;
                                let left = f.len() - v.len();
                                // an encoded section is a token, which is never empty
                                let k = if last { left } else { self.r.range(1, left - (n - 1 - i)) };
                                let t = f[v.len()..v.len() + k].to_string();
                                d.extend(t.bytes());
                                v.push_str(&t);
                            }
                            Option::None => {
                                let k = self.r.range(1, 12);
                                let (more, t) = self.charset_text(charset, k);
                                d.extend(more);
                                v.push_str(&t);
                            }
                        }
                        if i + 1 < n && encs[i + 1] && d.len() > 1 && self.r.chance(1, 2) {
                            let at = self.r.range(1, d.len());
                            carry = d.split_off(at);
                        }
                        o.extend(self.percent(&d));
                    } else {
                        match force {
                            Some(f) => {
                                let left = f.len() - v.len();
                                let k = if i + 1 == n { left } else { self.r.below(left - (n - 1 - i) + 1) };
                                let t = f[v.len()..v.len() + k].to_string();
                                self.quote_exact(&mut o, &t);
                                v.push_str(&t);
                            }
                            Option::None => v.push_str(&if self.r.chance(1, 2) { self.token(&mut o, true) } else { self.quoted(&mut o) }),
                        }
                    }
                    list.push(o);
                }
                value = v;
            }
        }
        (list, value)
    }
    fn quote_exact(&mut self, o: &mut Out, v: &str) {
        o.push(b'"');
        for c in v.bytes() {
            if c == b'"' || c == b'\\' || self.r.chance(1, 30) {
                o.push(b'\\');
            }
            o.push(c);
        }
        o.push(b'"');
    }
    /// The parameters: `fixed` (name, value) and random ones.
    pub fn params(&mut self, o: &mut Out, fixed: &[(&str, &str)], random: usize, reserved: &[&str]) -> BTreeMap<String, Val> {
        let mut m = BTreeMap::new();
        let mut groups: Vec<Vec<Vec<u8>>> = Vec::new();
        for (n, v) in fixed {
            let (l, value) = self.param(n, Some(v));
            m.insert(n.to_string(), S(value));
            groups.push(l);
        }
        for _ in 0..random {
            let mut t = Vec::new();
            let n = self.token(&mut t, false);
            let key = n.to_ascii_lowercase();
            if m.contains_key(&key) || reserved.contains(&key.as_str()) {
                continue;
            }
            let (l, value) = self.param(&n, Option::None);
            m.insert(key, S(value));
            groups.push(l);
        }
        let mut all: Vec<Vec<u8>> = groups.into_iter().flatten().collect();
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut all);
        }
        for p in all {
            self.gap(o);
            o.push(b';');
            self.deco(|g| if g.noise == 0 || g.r.chance(1, 2) { g.fws1(o) } else { g.gap(o) });
            o.extend(p);
            if o.last() == Some(&b'"') {
                self.gap(o);
            }
        }
        m
    }
    pub fn disposition(&mut self, o: &mut Out) -> Val {
        let t = match self.r.below(4) {
            0 => {
                o.extend(self.case("inline"));
                Val::s("inline")
            }
            1 | 2 => {
                o.extend(self.case("attachment"));
                Val::s("attachment")
            }
            _ => {
                let s = *self.r.pick(&["form-data", "x-foo", "inlined", "attachments", "in", "inline-x", "attachment_"]);
                o.extend(self.case(s));
                T("Unknown", vec![Val::s(s)])
            }
        };
        let mut parts: Vec<Vec<u8>> = Vec::new();
        let mut filename = None;
        if self.r.chance(2, 3) {
            let (l, v) = self.param("filename", Option::None);
            parts.extend(l);
            filename = T("Some", vec![S(v)]);
        }
        let mut dates = [None, None, None];
        let mut others = BTreeMap::new();
        for (k, name) in ["creation-date", "modification-date", "read-date"].iter().enumerate() {
            match self.r.below(6) {
                0 | 1 => {
                    let mut p = self.case(name);
                    p.extend_from_slice(b"=\"");
                    let noise = self.noise;
                    self.noise = 0;
                    let d = self.date_time(&mut p);
                    self.noise = noise;
                    p.push(b'"');
                    dates[k] = T("Some", vec![d.val()]);
                    parts.push(p);
                }
                2 if self.r.chance(1, 3) => {
                    // not a date: stays a plain parameter
                    let mut p = self.case(name);
                    let v = *self.r.pick(&["yesterday", "32 Jan 2000 00:00:00 +0000", "1 Jan 2000", "1 Foo 2000 00:00 +0000", ""]);
                    p.extend(format!("=\"{}\"", v).bytes());
                    others.insert(name.to_string(), Val::s(v));
                    parts.push(p);
                }
                _ => (),
            }
        }
        let n = self.r.below(3);
        for _ in 0..n {
            let mut t = Vec::new();
            let n = if self.r.chance(1, 3) { self.r.pick(&["size", "name", "filename-x", "filenames", "file", "creation-dates", "date"]).to_string() } else { self.token(&mut t, false) };
            let key = n.to_ascii_lowercase();
            if others.contains_key(&key) || ["filename", "creation-date", "modification-date", "read-date"].contains(&key.as_str()) {
                continue;
            }
            let (l, v) = self.param(&n, Option::None);
            others.insert(key, S(v));
            parts.extend(l);
        }
        self.r.shuffle(&mut parts);
        for p in parts {
            self.gap(o);
            o.push(b';');
            self.fws1(o);
            o.extend(p);
        }
        let [c, m, r] = dates;
        T("Disp", vec![t, filename, c, m, r, M(others)])
    }

    // ---- headers

    pub fn name(&mut self, o: &mut Out, name: &str) {
        self.deco(|g| g.name_d(o, name))
    }
    fn name_d(&mut self, o: &mut Out, name: &str) {
        if self.r.chance(2, 3) {
            o.extend(name.bytes());
        } else {
            o.extend(self.case(name));
        }
        o.push(b':');
    }
    /// One complete header of the given name (canonical spelling) with valid content.
    pub fn header(&mut self, o: &mut Out, name: &'static str) -> Val {
        self.again(11, |g| g.header_1(o, name))
    }
    fn header_1(&mut self, o: &mut Out, name: &'static str) -> Val {
        self.name(o, name);
        let free = ["Subject", "Comments", "Content-Description"].contains(&name);
        if !free {
            if name == "Date" {
                self.deco(|g| {
                    if g.noise == 0 || g.r.chance(5, 6) {
                        g.fws1(o);
                    }
                });
            } else {
                self.lead(o);
            }
        }
        let adrs = |v: &Vec<Adr>| L(v.iter().map(|a| a.val()).collect());
        let v = match name {
            "Date" => self.date_time(o).val(),
            "From" => L(self.mailbox_list(o).iter().map(|m| m.val()).collect()),
            "Sender" => self.mailbox(o).val(),
            "Reply-To" | "To" | "Cc" => adrs(&self.address_list(o)),
            "Bcc" => {
                if self.r.chance(1, 4) {
                    L(vec![])
                } else {
                    adrs(&self.address_list(o))
                }
            }
            "Message-ID" | "Content-ID" => refp::id_val(&self.msg_id(o)),
            "In-Reply-To" | "References" => refp::ids_val(&self.msg_ids(o)),
            "Subject" | "Comments" => {
                let w = self.cfg.mime;
                S(self.free_text(o, w))
            }
            "Content-Description" => S(self.free_text(o, true)),
            "Keywords" => {
                let n = self.count(1);
                L(self.list(o, n, |g, o| g.phrase(o)).iter().map(|k| Val::strs(k)).collect())
            }
            "MIME-Version" => {
                let (a, b) = if self.r.chance(2, 3) { (1, 0) } else { (self.r.below(256), self.r.below(256)) };
                o.extend(a.to_string().bytes());
                self.gap(o);
                o.push(b'.');
                self.gap(o);
                o.extend(b.to_string().bytes());
                self.end_gap(o);
                o.extend_from_slice(b"\r\n");
                return T("MIME-Version", vec![N(a as i64), N(b as i64)]);
            }
            "Content-Transfer-Encoding" => {
                let e = *self.r.pick(&["7bit", "8bit", "binary", "base64", "quoted-printable"]);
                o.extend(self.case(e));
                Val::s(e)
            }
            "Content-Type" => {
                let (t, s, p) = self.content_type(o, Option::None, &[]);
                self.end_gap(o);
                o.extend_from_slice(b"\r\n");
                return T("Content-Type", vec![t, s, p]);
            }
            "Content-Disposition" => self.disposition(o),
            _ => unreachable!(),
        };
        if free {
        } else {
            self.end_gap(o);
        }
        // an empty Bcc may have a fold in `lead`
        if !Self::can_fold(o) {
            self.comment(o, 0);
        }
        o.extend_from_slice(b"\r\n");
        T(name, vec![v])
    }
    /// The content of a Content-Type header.
    pub fn content_type(&mut self, o: &mut Out, kind: Option<(&str, &str)>, fixed: &[(&str, &str)]) -> (Val, Val, Val) {
        let (t, s) = match kind {
            Some((t, s)) => (t.to_string(), s.to_string()),
            Option::None => {
                let t = if self.r.chance(3, 4) {
                    self.r.pick(&["text", "image", "audio", "video", "application", "message", "multipart"]).to_string()
                } else if self.r.chance(1, 2) {
                    self.r.pick(&["texts", "tex", "text-x", "multiparts", "multi", "font", "model", "applicationx", "x-text", "chemical", "imag", "messages"]).to_string()
                } else {
                    let mut x = Vec::new();
                    let t = self.token(&mut x, true).to_ascii_lowercase();
                    t
                };
                let mut x = Vec::new();
                let s = if self.r.chance(1, 2) { "plain".to_string() } else { self.token(&mut x, true).to_ascii_lowercase() };
                (t, s)
            }
        };
        o.extend(self.case(&t));
        o.push(b'/');
        o.extend(self.case(&s));
        let n = if self.r.chance(1, 2) { 0 } else { self.count(0) };
        let p = self.params(o, fixed, n, &["charset", "boundary"]);
        (refp::type_val(&t), S(s), M(p))
    }
    /// A header whose name is not one that the library knows.
    pub fn other_header(&mut self, o: &mut Out, words: bool) -> Val {
        let name = loop {
            let n = if self.r.chance(1, 3) {
                let k = *self.r.pick(&KNOWN_NAMES);
                match self.r.below(4) {
                    0 => format!("X-{}", k),
                    1 => format!("{}x", k),
                    2 => k[..k.len() - 1].to_string(),
                    _ => format!("{}-", k),
                }
            } else {
                let n = self.len(1);
                let set: Vec<u8> = (33..127).filter(|c| *c != b':').collect();
                let set = if self.r.chance(1, 2) { ATEXT[..62].to_vec() } else { set };
                let mut x = Vec::new();
                self.chars(&mut x, &set, n)
            };
            let l = n.to_ascii_lowercase();
            if n.is_empty() || KNOWN_NAMES.iter().any(|k| k.eq_ignore_ascii_case(&n)) || l.starts_with("resent-") {
                continue;
            }
            break n;
        };
        o.extend(name.bytes());
        o.push(b':');
        let v = self.free_text(o, words);
        o.extend_from_slice(b"\r\n");
        T("Unknown", vec![S(name), S(v)])
    }
    pub fn received(&mut self, o: &mut Out) -> (Vec<Tok>, Dt) {
        self.name(o, "Received");
        let n = self.count(0) * 2;
        let mut toks = Vec::new();
        for _ in 0..n {
            self.gap1(o);
            toks.push(match self.r.below(6) {
                0 => {
                    let (l, d) = self.addr_spec(o);
                    Tok::Addr(l, d)
                }
                1 => {
                    let (l, d) = self.angle(o);
                    Tok::Addr(l, d)
                }
                2 => Tok::Domain(self.domain_literal(o)),
                3 => Tok::Word(self.quoted(o)),
                4 => Tok::Word(self.atom(o)),
                _ => {
                    let d = self.dot_atom(o);
                    if d.contains('.') {
                        Tok::Domain(d)
                    } else {
                        Tok::Word(d)
                    }
                }
            });
        }
        if n > 0 {
            self.gap(o);
        }
        o.push(b';');
        self.deco(|g| {
            if g.noise == 0 || g.r.chance(7, 8) {
                g.fws1(o);
            }
        });
        let d = self.date_time(o);
        self.end_gap(o);
        o.extend_from_slice(b"\r\n");
        (toks, d)
    }
    pub fn trace_block(&mut self, o: &mut Out) -> Block {
        let mut b = Block { return_path: Option::None, received: Vec::new(), resent: Vec::new() };
        match self.r.below(4) {
            0 => {
                self.name(o, "Return-Path");
                self.lead(o);
                b.return_path = Some(Some(self.angle(o)));
                self.end_gap(o);
                o.extend_from_slice(b"\r\n");
            }
            1 => {
                self.name(o, "Return-Path");
                self.lead(o);
                o.push(b'<');
                self.gap(o);
                o.push(b'>');
                b.return_path = Some(Option::None);
                self.end_gap(o);
                o.extend_from_slice(b"\r\n");
            }
            _ => (),
        }
        for _ in 0..self.count(1) {
            b.received.push(self.received(o));
        }
        for _ in 0..self.count(0) {
            let f = self.resent(o);
            b.resent.push(f);
        }
        b
    }
    pub fn resent(&mut self, o: &mut Out) -> Resent {
        let k = self.r.below(7);
        let n = ["Date", "From", "Sender", "To", "Cc", "Bcc", "Message-ID"][k];
        self.name(o, &format!("Resent-{}", n));
        if k == 0 {
            self.fws1(o)
        } else {
            self.lead(o)
        }
        let f = match k {
            0 => Resent::Date(self.date_time(o)),
            1 => Resent::From(self.mailbox_list(o)),
            2 => Resent::Sender(self.mailbox(o)),
            3 => Resent::To(self.address_list(o)),
            4 => Resent::Cc(self.address_list(o)),
            5 => Resent::Bcc(if self.r.chance(1, 4) { vec![] } else { self.address_list(o) }),
            _ => {
                let (l, r) = self.msg_id(o);
                Resent::MessageId(l, r)
            }
        };
        self.end_gap(o);
        if !Self::can_fold(o) {
            self.comment(o, 0);
        }
        o.extend_from_slice(b"\r\n");
        f
    }

    // ---- entities

    pub fn boundary(&mut self) -> String {
        let n = if self.r.chance(1, 10) { 70 } else { self.r.range(1, 30) };
        loop {
            let mut o = Vec::new();
            let set = if self.r.chance(1, 2) { &BCHARS[..62] } else { BCHARS };
            let set = if self.r.chance(1, 5) { &b"-ab"[..] } else { set };
            let s = self.chars(&mut o, set, n);
            if !s.ends_with(' ') {
                return s;
            }
        }
    }
    pub fn qp_encode(&mut self, data: &[u8]) -> Vec<u8> {
        let mut o: Vec<u8> = Vec::new();
        let max = self.r.range(4, 76);
        let mut col = 0;
        let mut i = 0;
        let text = self.r.chance(2, 3);
        while i < data.len() {
            let b = data[i];
            if text && b == b'\r' && data.get(i + 1) == Some(&b'\n') {
                if o.last().map_or(false, |c| *c == b' ' || *c == b'\t') {
                    // white space at the end of a line must be encoded
                    let c = o.pop().unwrap();
                    o.extend(format!("={:02X}", c).bytes());
                }
                if self.r.chance(1, 10) {
                    self.blanks(&mut o); // added by the transport
                }
                o.extend_from_slice(b"\r\n");
                col = 0;
                i += 2;
                continue;
            }
            let lit = (33..=126).contains(&b) && b != b'=' || (b == b' ' || b == b'\t');
            let enc = if lit && self.r.chance(15, 16) {
                vec![b]
            } else {
                let h = format!("={:02X}", b);
                (if self.r.chance(1, 8) { h.to_lowercase() } else { h }).into_bytes()
            };
            if col + enc.len() > max - 1 {
                if self.r.chance(1, 8) {
                    o.push(b'=');
                    self.blanks(&mut o);
                    o.extend_from_slice(b"\r\n");
                } else {
                    o.extend_from_slice(b"=\r\n");
                }
                col = 0;
            }
            col += enc.len();
            o.extend(enc);
            i += 1;
        }
        if o.last().map_or(false, |c| *c == b' ' || *c == b'\t') {
            let c = o.pop().unwrap();
            o.extend(format!("={:02X}", c).bytes());
        }
        if self.r.chance(1, 10) {
            self.blanks(&mut o);
        }
        o
    }
    /// Spaces and tabs
    fn blanks(&mut self, o: &mut Vec<u8>) {
        let n = self.r.size(1, 5, 300);
        let t = self.r.below(4);
        for _ in 0..n {
            let tab = t == 1 || t > 1 && self.r.chance(1, 2);
            o.push(if tab { b'\t' } else { b' ' });
        }
    }
    /// Random content for a body: (bytes)
    pub fn content(&mut self) -> Vec<u8> {
        let n = if self.r.chance(1, 10) { self.r.below(4) } else { self.r.size(0, 120, 20000) };
        match self.r.below(4) {
            0 => self.r.bytes(n),
            1 => {
                let mut v = Vec::new();
                while v.len() < n {
                    match self.r.below(12) {
                        0 => v.extend_from_slice(b"\r\n"),
                        1 => v.extend_from_slice(b"\n"),
                        2 => v.extend_from_slice(b"\r"),
                        3 => v.extend_from_slice(b"\r\n\r\n"),
                        4 => v.extend_from_slice(b"--"),
                        5 => v.push(b' '),
                        6 => v.push(b'='),
                        _ => v.push(self.r.range(32, 126) as u8),
                    }
                }
                v
            }
            _ => {
                let mut v = Vec::new();
                while v.len() < n {
                    for _ in 0..self.r.below(70) {
                        v.push(self.r.range(32, 126) as u8);
                    }
                    v.extend_from_slice(b"\r\n");
                }
                v
            }
        }
    }
    /// Encodes a content: (name of the encoding, encoded bytes)
    pub fn transfer(&mut self, data: &[u8]) -> (&'static str, Vec<u8>) {
        match self.r.below(5) {
            0 => {
                let line = if self.r.chance(2, 3) { 76 } else { self.r.range(1, 200) };
                let mut v = b64(data, line, b"\r\n");
                if self.r.chance(1, 4) {
                    // characters outside the alphabet are ignored
                    for _ in 0..self.r.range(1, 4) {
                        let p = self.r.below(v.len() + 1);
                        v.insert(p, *self.r.pick(b" \t-!\r\n*\x80\xff\x00"));
                    }
                }
                if self.r.chance(1, 2) {
                    v.extend_from_slice(b"\r\n");
                }
                ("base64", v)
            }
            1 => ("quoted-printable", self.qp_encode(data)),
            2 => ("7bit", data.to_vec()),
            3 => ("8bit", data.to_vec()),
            _ => ("binary", data.to_vec()),
        }
    }
    /// An entity: its headers (in random order, as complete header lines with the field they denote), its encoded body,
    /// and what it denotes. `avoid`: boundaries of the enclosing multiparts.
    pub fn entity(&mut self, depth: usize, avoid: &[String]) -> (Vec<(Vec<u8>, Val)>, Vec<u8>, refp::Entity, Val) {
        let mut parts = Option::None;
        let mut e = refp::Entity::default_text();
        let mut headers: Vec<(Vec<u8>, Val)> = Vec::new();
        let mut data: Vec<u8>;
        let mut has_type = true;
        let mut fixed: Vec<(String, String)> = Vec::new();
        let kind: Option<(String, String)>;
        let multi = depth > 0 && self.r.chance(1, 2);
        if multi {
            let b = self.boundary();
            let mut all = avoid.to_vec();
            all.push(b.clone());
            let (d, p) = self.multipart_body(depth, &b, &all);
            data = d;
            parts = Some(p);
            fixed.push(("boundary".into(), b));
            kind = Some(("multipart".into(), self.r.pick(&MULTIPART_SUBTYPES).to_string()));
        } else {
            match self.r.below(5) {
                0 => {
                    // no Content-Type
                    has_type = false;
                    kind = Option::None;
                    data = self.content();
                    if self.r.chance(1, 2) {
                        data = data.iter().map(|b| b & 0x7f).collect();
                    }
                }
                1 | 2 => {
                    let cs = *self.r.pick(&CHARSETS);
                    let n = self.r.size(0, 60, 3000);
                    data = self.charset_text(cs, n).0;
                    if self.r.chance(1, 2) {
                        data.extend_from_slice(b"\r\nend\r\n");
                    }
                    if self.r.chance(1, 15) {
                        data.push(0xff);
                        data.push(0xfe);
                    }
                    let c = String::from_utf8(self.case_kept(cs)).unwrap();
                    fixed.push(("charset".into(), c));
                    kind = Some(("text".into(), self.r.pick(&["plain", "plain", "html", "html", "x", "css", "csv", "calendar", "enriched", "richtext", "markdown", "xml", "rtf", "rfc822-headers", "vcard", "x-amp-html", "plain2"]).to_string()));
                }
                3 => {
                    data = self.content();
                    if self.r.chance(1, 2) {
                        let c = *self.r.pick(&["utf-7", "windows-1252", "iso-8859-12", "iso-8859-17", "iso-8859", "x", "utf-88", "koi8-r", "big5", "gb18030"]);
                        fixed.push(("charset".into(), c.to_string()));
                    }
                    kind = Some(("text".into(), "plain".into()));
                }
                _ => {
                    data = self.content();
                    let (t, s) = *self.r.pick(&LEAVES);
                    kind = Some((t.to_string(), s.to_string()));
                }
            }
        }
        if has_type {
            let mut o = Vec::new();
            self.name(&mut o, "Content-Type");
            self.lead(&mut o);
            let fx: Vec<(&str, &str)> = fixed.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let (t, s, p) = self.content_type(&mut o, kind.as_ref().map(|(a, b)| (a.as_str(), b.as_str())), &fx);
            self.end_gap(&mut o);
            o.extend_from_slice(b"\r\n");
            e.kind = t.clone();
            e.subtype = s.clone();
            e.params = p.clone();
            headers.push((o, T("Content-Type", vec![t, s, p])));
        }
        // RFC 2045: a multipart is not encoded (but the library decodes it, so it sometimes is here)
        let (enc, body) = if multi && self.r.chance(3, 4) { ("7bit", data.clone()) } else { self.transfer(&data) };
        if enc != "7bit" || self.r.chance(1, 2) {
            let mut o = Vec::new();
            self.name(&mut o, "Content-Transfer-Encoding");
            self.lead(&mut o);
            o.extend(self.case(enc));
            self.end_gap(&mut o);
            o.extend_from_slice(b"\r\n");
            headers.push((o, T("Content-Transfer-Encoding", vec![Val::s(enc)])));
        }
        for n in ["Content-ID", "Content-Description", "Content-Disposition"] {
            if !self.r.chance(1, 4) || n == "Content-Disposition" && !self.cfg.disposition {
                continue;
            }
            let mut o = Vec::new();
            let v = self.header(&mut o, n);
            let inner = Val::opt(Some(v.items()[0].clone()));
            match n {
                "Content-ID" => e.id = inner,
                "Content-Description" => e.description = inner,
                _ => e.disposition = inner,
            }
            headers.push((o, v));
        }
        self.r.shuffle(&mut headers);
        e.value = B(data);
        let parsed = match parts {
            Some(p) => T("Multipart", vec![e.subtype.clone(), L(p)]),
            Option::None => e.parse(&self.cfg, 0),
        };
        (headers, body, e, parsed)
    }
    /// A multipart body: (bytes, expected parts)
    pub fn multipart_body(&mut self, depth: usize, b: &str, avoid: &[String]) -> (Vec<u8>, Vec<Val>) {
        let n = self.count(1);
        loop {
            let mut parts: Vec<Vec<u8>> = Vec::new();
            let mut expected = Vec::new();
            for _ in 0..n {
                let (headers, body, mut e, parsed) = self.entity(depth - 1, avoid);
                let mut p = Vec::new();
                let mut lines: Vec<(Vec<u8>, Option<Val>)> = headers.into_iter().map(|(h, _)| (h, Option::None)).collect();
                for _ in 0..if self.r.chance(1, 6) { self.r.range(3, 7) } else { self.r.below(3) } {
                    let mut o = Vec::new();
                    let w = self.cfg.unrecognized;
                    let v = self.other_header(&mut o, w);
                    let at = self.r.below(lines.len() + 1);
                    lines.insert(at, (o, Some(v)));
                }
                for (h, v) in lines {
                    p.extend(h);
                    e.additional.extend(v);
                }
                if !(body.is_empty() && e.value == B(vec![]) && self.r.chance(1, 2)) {
                    p.extend_from_slice(b"\r\n");
                    p.extend(body);
                }
                parts.push(p);
                expected.push(T("Part", vec![e.val(), parsed]));
            }
            let mut near = |g: &mut G, v: &mut Vec<u8>| {
                // lines that only look like delimiters
                let s = match g.r.below(8) {
                    0 => format!("--{}x\r\n", b),
                    1 => format!("-{}\r\n", b),
                    2 => format!(" --{}\r\n", b),
                    3 => format!("--{}-\r\n", b),
                    4 => format!("--{}--x\r\n", b),
                    5 => format!("--{}\n", b),
                    6 => format!("--{}\r", b),
                    _ => format!("--{}\r\n", &b[..b.len() - 1]),
                };
                v.extend_from_slice(b"text\r\n");
                v.extend(s.bytes());
                v.extend_from_slice(b"more");
            };
            let mut pre = Vec::new();
            if self.r.chance(1, 3) {
                pre = self.content();
                if self.r.chance(1, 2) {
                    near(self, &mut pre);
                }
            }
            let mut post = Vec::new();
            if self.r.chance(1, 3) {
                post = self.content();
                if self.r.chance(1, 3) {
                    post.extend(format!("\r\n--{}\r\nnot a part\r\n--{}--", b, b).bytes());
                }
            }
            // no part may contain a delimiter of this or an enclosing multipart
            let clash = |v: &[u8], own: bool| {
                let mut lines = vec![0];
                lines.extend(v.windows(2).enumerate().filter(|(_, w)| *w == b"\r\n").map(|(i, _)| i + 2));
                lines.iter().any(|i| {
                    avoid.iter().any(|a| {
                        if a == b && !own {
                            return false;
                        }
                        let l = &v[*i..];
                        let end = l.windows(2).position(|w| w == b"\r\n").unwrap_or(l.len());
                        let l = &l[..end];
                        l.starts_with(b"--") && l[2..].starts_with(a.as_bytes()) && {
                            let mut t = &l[2 + a.len()..];
                            while t.last().map_or(false, |c| *c == b' ' || *c == b'\t') {
                                t = &t[..t.len() - 1];
                            }
                            t.is_empty() || t == b"--"
                        }
                    })
                })
            };
            if parts.iter().any(|p| clash(p, true)) || clash(&pre, true) || clash(&post, false) {
                continue;
            }
            let mut v = Vec::new();
            if !pre.is_empty() {
                v.extend(pre);
                v.extend_from_slice(b"\r\n");
            }
            for (i, p) in parts.iter().enumerate() {
                if i > 0 {
                    v.extend_from_slice(b"\r\n");
                }
                v.extend(format!("--{}", b).bytes());
                if self.r.chance(1, 6) {
                    self.wsp1(&mut v);
                }
                v.extend_from_slice(b"\r\n");
                v.extend_from_slice(p);
            }
            v.extend(format!("\r\n--{}--", b).bytes());
            if self.r.chance(1, 6) {
                self.wsp1(&mut v);
            }
            if !post.is_empty() || self.r.chance(1, 2) {
                v.extend_from_slice(b"\r\n");
                v.extend(post);
            }
            return (v, expected);
        }
    }

    // ---- messages

    /// A valid message: bytes, the fields it denotes, its body.
    pub fn message(&mut self) -> Case {
        self.message_with(&[])
    }
    /// A valid message that contains at least the given ordinary headers.
    pub fn message_with(&mut self, want: &[&'static str]) -> Case {
        let mut lines: Vec<(Vec<u8>, Val)> = Vec::new();
        let mut o = Vec::new();
        let f = self.header(&mut o, "From");
        let authors = f.items()[0].items().len();
        lines.push((std::mem::take(&mut o), f));
        let f = self.header(&mut o, "Date");
        lines.push((std::mem::take(&mut o), f));
        if (authors != 1 || self.r.chance(1, 4)) && self.cfg.sender || want.contains(&"Sender") {
            let f = self.header(&mut o, "Sender");
            lines.push((std::mem::take(&mut o), f));
        }
        for n in ["Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Subject"] {
            if want.contains(&n) || self.r.chance(1, 3) {
                let f = self.header(&mut o, n);
                lines.push((std::mem::take(&mut o), f));
            }
        }
        for n in ["Comments", "Keywords"] {
            let k = if want.contains(&n) { self.r.range(1, 3) } else { self.r.below(6).saturating_sub(3) };
            for _ in 0..k {
                let f = self.header(&mut o, n);
                lines.push((std::mem::take(&mut o), f));
            }
        }
        for _ in 0..self.r.below(4) {
            let w = self.cfg.unrecognized;
            let f = self.other_header(&mut o, w);
            lines.push((std::mem::take(&mut o), f));
        }
        let mut body = Option::None;
        let mut parsed = Option::None;
        let mime = self.cfg.mime && (self.r.chance(2, 3) || want.iter().any(|w| w.starts_with("Content") || w.starts_with("MIME")));
        if mime {
            let depth = self.r.below(3);
            let (h, b, _, p) = self.entity(depth, &[]);
            parsed = Some(p);
            lines.extend(h);
            for n in want {
                if (n.starts_with("Content") || n.starts_with("MIME")) && !lines.iter().any(|(_, v)| v.tag() == *n) && *n != "Content-Transfer-Encoding" && *n != "Content-Type" {
                    let f = self.header(&mut o, n);
                    lines.push((std::mem::take(&mut o), f));
                }
            }
            if !lines.iter().any(|(_, v)| v.tag() == "MIME-Version") && self.r.chance(2, 3) {
                let f = self.header(&mut o, "MIME-Version");
                lines.push((std::mem::take(&mut o), f));
            }
            body = Some(b);
        } else if self.r.chance(5, 6) {
            body = Some(if self.cfg.mime { self.content() } else { self.text_body() });
        }
        self.r.shuffle(&mut lines);
        let (head, trace) = if self.cfg.trace && self.r.chance(1, 3) { self.trace_head() } else { (Vec::new(), Vec::new()) };
        let mut bytes = head.clone();
        let mut fields = trace;
        let mut spans = Vec::new();
        for (l, f) in &lines {
            spans.push((bytes.len(), bytes.len() + l.len()));
            bytes.extend(l);
            fields.push(f.clone());
        }
        if let Some(b) = &body {
            bytes.extend_from_slice(b"\r\n");
            bytes.extend(b);
        }
        Case { bytes, fields, body, head, lines, parsed }
    }
    /// The trace blocks of a message.
    pub fn trace_head(&mut self) -> (Vec<u8>, Vec<Val>) {
        let mut head = Vec::new();
        let mut blocks: Vec<Block> = Vec::new();
        for _ in 0..self.r.range(1, 3) {
            let b = self.trace_block(&mut head);
            match blocks.last_mut() {
                // nothing tells where the block begins
                Some(l) if b.return_path.is_none() && l.resent.is_empty() => {
                    l.received.extend(b.received);
                    l.resent = b.resent;
                }
                _ => blocks.push(b),
            }
        }
        (head, blocks.iter().map(|b| b.val()).collect())
    }
    pub fn text_body(&mut self) -> Vec<u8> {
        let mut v = Vec::new();
        for _ in 0..self.count(0) {
            let n = if self.r.chance(1, 12) { self.r.range(990, 998) } else { self.r.below(90) };
            for _ in 0..n {
                let c = loop {
                    let c = if self.r.chance(1, 20) { self.r.range(1, 127) as u8 } else { self.r.range(32, 126) as u8 };
                    if c != 10 && c != 13 {
                        break c;
                    }
                };
                v.push(c);
            }
            if self.r.chance(9, 10) {
                v.extend_from_slice(b"\r\n");
            } else {
                break;
            }
        }
        v
    }
}

#[derive(Clone)]
pub struct Case {
    pub bytes: Vec<u8>,
    pub fields: Vec<Val>,
    pub body: Option<Vec<u8>>,
    /// the trace blocks
    pub head: Vec<u8>,
    /// the ordinary headers
    pub lines: Vec<(Vec<u8>, Val)>,
    /// what the decoded entity gives, when the generator chose it
    pub parsed: Option<Val>,
}

impl Case {
    pub fn message_val(&self, cfg: &Cfg) -> Val {
        T("Message", vec![L(self.fields.clone()), refp::body_val(self.body.as_deref(), cfg)])
    }
    pub fn email_val(&self, cfg: &Cfg) -> Val {
        let mut v = refp::assemble(&self.fields, self.body.as_deref(), cfg);
        if let (T("Email", l), Some(p)) = (&mut v, &self.parsed) {
            if let Rec(r) = &mut l[0] {
                for (n, x) in r.iter_mut() {
                    if *n == "parsed" {
                        *x = p.clone();
                    }
                }
            }
        }
        v
    }
}
/// Not digest: its parts have another default type according to RFC 2046.
pub const MULTIPART_SUBTYPES: [&str; 14] = ["mixed", "mixed", "alternative", "alternative", "related", "parallel", "report", "signed", "encrypted", "form-data", "appledouble", "byteranges", "x-mixed-replace", "x-y"];
const LEAVES: [(&str, &str); 26] = [
    ("image", "octet-stream"), ("application", "octet-stream"), ("audio", "octet-stream"), ("video", "octet-stream"), ("message", "octet-stream"), ("x-unknown", "octet-stream"),
    ("message", "rfc822"), ("message", "partial"), ("message", "external-body"), ("message", "delivery-status"), ("message", "global"), ("message", "disposition-notification"),
    ("application", "pgp-signature"), ("application", "pgp-encrypted"), ("application", "pkcs7-mime"), ("application", "pdf"), ("application", "xml"), ("application", "json"),
    ("application", "ms-tnef"), ("application", "x-www-form-urlencoded"), ("image", "png"), ("image", "svg+xml"), ("audio", "mpeg"), ("video", "mp4"), ("model", "vrml"), ("font", "woff2"),
];

/// Headers whose numbers take every value.
const NUMBERED: [&str; 24] = [
    "From: a@b\r\nDate: Thu, #1 Jan 2015 10:20:30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan #2015 10:20:30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 #10:20:30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:#20:30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:#30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +#0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 -#0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:#20 EST\r\n",
    "From: a#1@[#2]\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nMessage-ID: <#1@2>\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nMIME-Version: #1.0\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nMIME-Version: 1.#0\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/plain; charset=iso-8859-#1\r\n\r\na\u{e9}",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/plain; charset=iso-#8859-1\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/plain; charset=utf-#8\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/x; name*0=a; name*#1=b; name*2=c\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/x; name*#0*=utf-8''a; name*1=b\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: text/x; charset=utf-8\r\nContent-Transfer-Encoding: #7bit\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Disposition: attachment; creation-date=\"#1 Jan 2015 10:20:30 +0000\"; size=#2\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Disposition: attachment; modification-date=\"1 Jan #2015 10:20:30 +0000\"\r\n\r\na",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Disposition: attachment; read-date=\"1 Jan 2015 10:20:#30 +#0000\"\r\n\r\na",
    "Received: from x by 1.2.3.#4 with id #5; 1 Jan 2015 #10:20:30 +0000\r\nFrom: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n",
    "Received: from x by y; #1 Jan 2015 10:20:30 +#0000\r\nResent-Date: #1 Jan 2015 10:20:30 +0000\r\nFrom: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nSubject: =?iso-8859-#1?q?a?= =?utf-#8?q?b?=\r\n",
    "From: a@b\r\nDate: 1 Jan 2015 10:20:30 +0000\r\nContent-Type: multipart/mixed; boundary*#0=x; boundary*1=#2\r\n\r\n--x2\r\n\r\n--x2--",
];
const NUMBER_BATCH: u64 = 32;
const SMALL_NUMBERS: u64 = 3104;
const BIG_NUMBERS: u64 = 15 * 8;
pub fn numbered_count() -> u64 {
    (SMALL_NUMBERS + BIG_NUMBERS) / NUMBER_BATCH * NUMBERED.len() as u64
}
/// Messages in which the marked numbers are replaced by the numbers of a batch, written in several ways.
pub fn numbered(case: u64) -> Vec<Vec<u8>> {
    let template = NUMBERED[(case % NUMBERED.len() as u64) as usize];
    let batch = case / NUMBERED.len() as u64;
    let mut all = Vec::new();
    for i in batch * NUMBER_BATCH..(batch + 1) * NUMBER_BATCH {
        let digits = if i < SMALL_NUMBERS {
            i.to_string()
        } else {
            let j = i - SMALL_NUMBERS;
            let near = [u8::MAX as u128, i16::MAX as u128, u16::MAX as u128, 0xff_ffff, i32::MAX as u128, u32::MAX as u128, i64::MAX as u128, u64::MAX as u128, i128::MAX as u128, 9_999, 99_999, 655_359, 4_294_967_295_0, 99_999_999_999, 2_559];
            (near[(j % 15) as usize] - 3 + (j / 15) as u128).to_string()
        };
        for zeros in [0usize, 1, 2, 3] {
            let written = format!("{}{}", "0".repeat(zeros), digits);
            let mut m = Vec::new();
            let mut skip = false;
            for b in template.chars() {
                if b == '#' {
                    m.extend(written.bytes());
                    skip = true;
                } else if skip && b.is_ascii_digit() {
                } else {
                    skip = false;
                    m.push(b as u32 as u8);
                }
            }
            all.push(m);
        }
    }
    all
}
