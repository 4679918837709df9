//! Reference semantics: an independent, strict reading of RFC 5322 (without the obsolete syntax), RFC 2045-2047, 2183
//! and 2231 plus the documented conventions of the library. Anything the specifications leave open (or that the library
//! may treat either way) evaluates to `Val::Any`.
use crate::tables;
use crate::val::Val::{self, *};
use std::collections::BTreeMap;

/// The features of the library that are modelled.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub mime: bool,
    pub disposition: bool,
    pub unrecognized: bool,
    pub compat: bool,
    pub to: bool,
    pub cc: bool,
    pub bcc: bool,
    pub date: bool,
    pub from: bool,
    pub sender: bool,
    pub reply_to: bool,
    pub message_id: bool,
    pub in_reply_to: bool,
    pub references: bool,
    pub subject: bool,
    pub comments: bool,
    pub keywords: bool,
    pub trace: bool,
}

impl Cfg {
    pub fn all() -> Cfg {
        Cfg {
            mime: true,
            disposition: true,
            unrecognized: true,
            compat: false,
            to: true,
            cc: true,
            bcc: true,
            date: true,
            from: true,
            sender: true,
            reply_to: true,
            message_id: true,
            in_reply_to: true,
            references: true,
            subject: true,
            comments: true,
            keywords: true,
            trace: true,
        }
    }
    /// The features this binary was built with.
    pub fn built() -> Cfg {
        Cfg {
            mime: cfg!(feature = "mime"),
            disposition: cfg!(feature = "content-disposition"),
            unrecognized: cfg!(feature = "unrecognized-headers"),
            compat: cfg!(feature = "compatibility-fixes"),
            to: cfg!(feature = "to"),
            cc: cfg!(feature = "cc"),
            bcc: cfg!(feature = "bcc"),
            date: cfg!(feature = "date"),
            from: cfg!(feature = "from"),
            sender: cfg!(feature = "sender"),
            reply_to: cfg!(feature = "reply-to"),
            message_id: cfg!(feature = "message-id"),
            in_reply_to: cfg!(feature = "in-reply-to"),
            references: cfg!(feature = "references"),
            subject: cfg!(feature = "subject"),
            comments: cfg!(feature = "comments"),
            keywords: cfg!(feature = "keywords"),
            trace: cfg!(feature = "trace"),
        }
    }
}

fn is_wsp(c: u8) -> bool {
    c == b' ' || c == b'\t'
}
fn is_vchar(c: u8) -> bool {
    (0x21..=0x7e).contains(&c)
}
pub fn is_atext(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(&c)
}
pub fn is_token(c: u8) -> bool {
    (0x21..0x7f).contains(&c) && !b"()<>@,;:\\\"/[]?=".contains(&c)
}
fn is_dtext(c: u8) -> bool {
    is_vchar(c) && !b"[]\\".contains(&c)
}
fn is_ctext(c: u8) -> bool {
    is_vchar(c) && !b"()\\".contains(&c)
}
fn is_qtext(c: u8) -> bool {
    is_vchar(c) && c != b'"' && c != b'\\'
}

// ---------------------------------------------------------------------------------------------------------------------
// Charsets

/// None: not a supported charset. Some(None): the bytes have no (specified) meaning. Some(Some(_)): the text.
pub fn decode_charset(name: &str, data: &[u8]) -> Option<Result<String, Bad>> {
    let name = name.to_ascii_lowercase();
    if name == "utf-8" {
        return Some(String::from_utf8(data.to_vec()).map_err(|_| Bad::Invalid));
    }
    if name == "us-ascii" {
        if data.iter().all(|b| *b < 0x80) {
            return Some(Ok(data.iter().map(|b| *b as char).collect()));
        }
        return Some(Err(if std::str::from_utf8(data).is_err() { Bad::Invalid } else { Bad::Unspecified }));
    }
    if let Some(n) = name.strip_prefix("iso-8859-") {
        let table = tables::ISO8859.iter().find(|(i, _)| i.to_string() == n)?;
        let mut out = String::new();
        for b in data {
            match b {
                0..=0x7f => out.push(*b as char),
                0x80..=0x9f => return Some(Err(Bad::Unspecified)),
                _ => match table.1[(*b - 0xa0) as usize] {
                    0 => return Some(Err(Bad::Unspecified)),
                    c => out.push(char::from_u32(c).unwrap()),
                },
            }
        }
        return Some(Ok(out));
    }
    if name == "gb2312" {
        let mut out = String::new();
        let mut i = 0;
        while i < data.len() {
            let b = data[i];
            if b < 0x80 {
                out.push(b as char);
                i += 1;
                continue;
            }
            let c = match data.get(i + 1) {
                Some(l) if (0xa1..=0xf7).contains(&b) && (0xa1..=0xfe).contains(l) => tables::GB2312[(b - 0xa1) as usize][(*l - 0xa1) as usize],
                _ => 0,
            };
            if c == 0 {
                return Some(Err(Bad::Unspecified));
            }
            out.push(char::from_u32(c as u32).unwrap());
            i += 2;
        }
        return Some(Ok(out));
    }
    if name == "iso-6937" {
        let mut out = String::new();
        let mut i = 0;
        while i < data.len() {
            let b = data[i];
            if b < 0x80 {
                out.push(b as char);
                i += 1;
                continue;
            }
            let single = tables::ISO6937.iter().find(|(h, l, _)| *h == b && *l == 0);
            if let Some((_, _, c)) = single {
                out.push(char::from_u32(*c).unwrap());
                i += 1;
                continue;
            }
            let pair = data.get(i + 1).and_then(|n| tables::ISO6937.iter().find(|(h, l, _)| *h == b && *l == *n && *l != 0));
            match pair {
                Some((_, _, c)) => out.push(char::from_u32(*c).unwrap()),
                Option::None => return Some(Err(Bad::Unspecified)),
            }
            i += 2;
        }
        return Some(Ok(out));
    }
    Option::None
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bad {
    Invalid,
    Unspecified,
}

// ---------------------------------------------------------------------------------------------------------------------
// Transfer encodings

fn b64_value(c: u8) -> Option<u32> {
    b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == c).map(|i| i as u32)
}

/// Base64: characters outside the alphabet are ignored; padded groups may be concatenated.
pub fn base64(data: &[u8]) -> Result<Vec<u8>, Bad> {
    let mut out = Vec::new();
    let mut group: Vec<u8> = Vec::new();
    for c in data {
        if b64_value(*c).is_some() {
            if group.len() == 3 && group[2] == b'=' {
                return Err(Bad::Invalid);
            }
            group.push(*c);
        } else if *c == b'=' && group.len() >= 2 {
            group.push(*c);
        } else {
            continue;
        }
        if group.len() == 4 {
            let v: u32 = group.iter().fold(0, |a, c| (a << 6) | b64_value(*c).unwrap_or(0));
            let n = if group[2] == b'=' {
                1
            } else if group[3] == b'=' {
                2
            } else {
                3
            };
            out.extend_from_slice(&[(v >> 16) as u8, (v >> 8) as u8, v as u8][..n]);
            group.clear();
        }
    }
    if group.is_empty() {
        Ok(out)
    } else {
        Err(Bad::Invalid)
    }
}

fn hex(c: Option<&u8>) -> Option<u8> {
    (*c? as char).to_digit(16).map(|d| d as u8)
}

const REPLACEMENT: &[u8] = "\u{fffd}".as_bytes();

/// Quoted-printable, line by line.
pub fn quoted_printable(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut rest = data;
    loop {
        let end = rest.windows(2).position(|w| w == b"\r\n");
        let mut line = &rest[..end.unwrap_or(rest.len())];
        while let Some((l, h)) = line.split_last() {
            if is_wsp(*l) {
                line = h;
            } else {
                break;
            }
        }
        let mut soft = false;
        let mut i = 0;
        while i < line.len() {
            let c = line[i];
            if c == b'=' {
                let left = line.len() - i - 1;
                if left == 0 && end.is_some() {
                    soft = true;
                    i += 1;
                } else if let (Some(h), Some(l)) = (hex(line.get(i + 1)), hex(line.get(i + 2))) {
                    out.push(h * 16 + l);
                    i += 3;
                } else if left >= 2 {
                    out.extend_from_slice(REPLACEMENT);
                    i += 3;
                } else {
                    // a damaged sequence at the end of a line: how much it affects is not specified
                    return vec_unspecified();
                }
            } else if is_vchar(c) || is_wsp(c) {
                out.push(c);
                i += 1;
            } else {
                out.extend_from_slice(REPLACEMENT);
                i += 1;
            }
        }
        match end {
            Some(e) => {
                if !soft {
                    out.extend_from_slice(b"\r\n");
                }
                rest = &rest[e + 2..];
            }
            Option::None => return out,
        }
    }
}

const UNSPECIFIED: &[u8] = b"\x00\xff<unspecified>\xff\x00";
fn vec_unspecified() -> Vec<u8> {
    UNSPECIFIED.to_vec()
}
pub fn is_unspecified(v: &[u8]) -> bool {
    v == UNSPECIFIED
}

// ---------------------------------------------------------------------------------------------------------------------
// Encoded words (RFC 2047)

pub enum Word {
    /// Not an encoded word, or one to be kept verbatim.
    Literal,
    Unspecified,
    /// Text and length of the encoded word.
    Decoded(String, usize),
    /// The same, longer than allowed.
    Long(String, usize),
}

fn is_especial_token(c: u8) -> bool {
    (0x21..0x7f).contains(&c) && !b"()<>@,;:\\\"/[]?.=".contains(&c)
}

pub fn encoded_word(run: &[u8]) -> Word {
    let take = |from: usize, f: &dyn Fn(u8) -> bool| -> usize { from + run[from.min(run.len())..].iter().take_while(|c| f(**c)).count() };
    if !run.starts_with(b"=?") {
        return Word::Literal;
    }
    let e = take(2, &|c| is_especial_token(c) && c != b'*');
    if e == 2 {
        return Word::Literal;
    }
    let charset = String::from_utf8(run[2..e].to_vec()).unwrap();
    let mut i = e;
    if run.get(i) == Some(&b'*') {
        let e = take(i + 1, &is_especial_token);
        if e == i + 1 {
            return Word::Literal;
        }
        i = e;
    }
    if run.get(i) != Some(&b'?') {
        return Word::Literal;
    }
    let e = take(i + 1, &is_especial_token);
    let encoding = run[i + 1..e].to_ascii_lowercase();
    if encoding.is_empty() || run.get(e) != Some(&b'?') {
        return Word::Literal;
    }
    let t = e + 1;
    let e = take(t, &|c| is_vchar(c) && c != b'?');
    if e == t || !run[e..].starts_with(b"?=") {
        return Word::Literal;
    }
    let text = &run[t..e];
    let len = e + 2;
    let data = if encoding == b"b" {
        if text.iter().any(|c| b64_value(*c).is_none() && *c != b'=') {
            return Word::Unspecified;
        }
        let pad = text.iter().rev().take_while(|c| **c == b'=').count();
        if text[..text.len() - pad].contains(&b'=') || pad > 2 {
            return Word::Unspecified;
        }
        if pad > 0 && (text.len() % 4 != 0) {
            return Word::Unspecified;
        }
        match base64(text) {
            Ok(d) => d,
            Err(_) => return Word::Literal,
        }
    } else if encoding == b"q" {
        let mut d = Vec::new();
        let mut i = 0;
        while i < text.len() {
            match text[i] {
                b'_' => d.push(b' '),
                b'=' => match (hex(text.get(i + 1)), hex(text.get(i + 2))) {
                    (Some(h), Some(l)) => {
                        d.push(h * 16 + l);
                        i += 2;
                    }
                    _ => return Word::Unspecified,
                },
                c => d.push(c),
            }
            i += 1;
        }
        d
    } else {
        return Word::Literal;
    };
    match decode_charset(&charset, &data) {
        Option::None => Word::Literal,
        Some(Ok(s)) => {
            if len > 75 {
                Word::Long(s, len)
            } else {
                Word::Decoded(s, len)
            }
        }
        Some(Err(Bad::Invalid)) => Word::Literal,
        Some(Err(Bad::Unspecified)) => Word::Unspecified,
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Header values

#[derive(Clone, Debug, PartialEq)]
pub enum V<T> {
    Yes(T),
    No,
    Maybe,
}

/// Cursor on the raw value of one header (after the colon, without the final CRLF).
pub struct P<'a> {
    b: &'a [u8],
    i: usize,
    cfg: &'a Cfg,
    /// the current reading relies on something unspecified
    unspec: bool,
    /// some attempted reading did
    sticky: bool,
}

impl<'a> P<'a> {
    pub fn new(b: &'a [u8], cfg: &'a Cfg) -> P<'a> {
        P { b, i: 0, cfg, unspec: false, sticky: false }
    }
    pub fn run<T>(b: &'a [u8], cfg: &'a Cfg, f: impl Fn(&mut P<'a>) -> Option<T>) -> V<T> {
        let mut p = P::new(b, cfg);
        match f(&mut p) {
            Some(v) if p.i == p.b.len() => {
                if p.unspec {
                    V::Maybe
                } else {
                    V::Yes(v)
                }
            }
            _ => {
                if p.sticky {
                    V::Maybe
                } else {
                    V::No
                }
            }
        }
    }
    fn mark(&mut self) {
        self.unspec = true;
        self.sticky = true;
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            Option::None
        }
    }
    /// Alternative readings: the position and the marks of a failed one are undone.
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> Option<T>) -> Option<T> {
        let (i, u) = (self.i, self.unspec);
        let r = f(self);
        if r.is_none() {
            self.i = i;
            self.unspec = u;
        }
        r
    }
    fn take(&mut self, f: impl Fn(u8) -> bool) -> &'a [u8] {
        let s = self.i;
        while self.i < self.b.len() && f(self.b[self.i]) {
            self.i += 1;
        }
        &self.b[s..self.i]
    }
    fn take1(&mut self, f: impl Fn(u8) -> bool) -> Option<&'a [u8]> {
        let r = self.take(f);
        if r.is_empty() {
            Option::None
        } else {
            Some(r)
        }
    }
    /// Folding white space: returns its white space characters.
    fn fws(&mut self) -> Vec<u8> {
        let mut out = Vec::new();
        loop {
            match self.peek() {
                Some(c) if is_wsp(c) => {
                    out.push(c);
                    self.i += 1;
                }
                Some(b'\r') if self.b[self.i..].starts_with(b"\r\n") && self.b.get(self.i + 2).map_or(false, |c| is_wsp(*c)) => self.i += 2,
                _ => return out,
            }
        }
    }
    fn comment(&mut self) -> Option<()> {
        self.eat(b'(')?;
        let mut depth = 1usize;
        while depth > 0 {
            self.fws();
            match self.peek()? {
                b'(' => depth += 1,
                b')' => depth -= 1,
                b'\\' => {
                    self.i += 1;
                    let c = self.peek()?;
                    if !is_vchar(c) && !is_wsp(c) {
                        return Option::None;
                    }
                }
                c if is_ctext(c) => (),
                _ => return Option::None,
            }
            self.i += 1;
        }
        Some(())
    }
    /// [CFWS]
    fn gap(&mut self) -> bool {
        let s = self.i;
        loop {
            let before = self.i;
            self.fws();
            if self.attempt(|p| p.comment()).is_none() && self.i == before {
                return self.i > s;
            }
        }
    }
    fn quoted(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out = Vec::new();
        loop {
            out.extend(self.fws());
            match self.peek()? {
                b'"' => {
                    self.i += 1;
                    return String::from_utf8(out).ok();
                }
                b'\\' => {
                    self.i += 1;
                    let c = self.peek()?;
                    if !is_vchar(c) && !is_wsp(c) {
                        return Option::None;
                    }
                    out.push(c);
                }
                c if is_qtext(c) => out.push(c),
                _ => return Option::None,
            }
            self.i += 1;
        }
    }
    fn dot_atom_text(&mut self) -> Option<String> {
        let s = self.i;
        self.take1(is_atext)?;
        while self.peek() == Some(b'.') {
            // what the compatibility fixes are about: nothing has to follow a dot
            if self.cfg.compat || self.b.get(self.i + 1).map_or(false, |c| is_atext(*c)) {
                self.i += 1;
                self.take(is_atext);
            } else {
                break;
            }
        }
        Some(text(&self.b[s..self.i]))
    }
    fn phrase_word(&mut self) -> Option<String> {
        self.gap();
        if self.cfg.mime && self.b[self.i..].starts_with(b"=?") {
            let run_len = self.b[self.i..].iter().take_while(|c| is_vchar(**c)).count();
            let run = &self.b[self.i..self.i + run_len];
            match encoded_word(run) {
                Word::Decoded(s, len) => {
                    let raw = &run[..len];
                    let t = raw.iter().enumerate().filter(|(_, c)| **c == b'?').nth(2).unwrap().0;
                    if !raw[t + 1..len - 2].iter().all(|c| c.is_ascii_alphanumeric() || b"!*+-/=_".contains(c)) {
                        self.mark();
                    }
                    self.i += len;
                    match self.peek() {
                        Some(c) if !is_wsp(c) && !b"\r(,:;<".contains(&c) => self.mark(),
                        _ => (),
                    }
                    self.gap();
                    return Some(s);
                }
                Word::Unspecified | Word::Long(..) => self.mark(),
                Word::Literal => {
                    // an undecodable encoded word whose text is not an atom cannot be kept as a word
                    let e = run.windows(2).skip(2).position(|w| w == b"?=").map(|p| p + 4).unwrap_or(0);
                    if run[..e].iter().any(|c| !is_atext(*c)) {
                        self.mark();
                    }
                }
            }
        }
        let w = match self.peek()? {
            b'"' => self.quoted()?,
            _ => text(self.take1(is_atext)?),
        };
        self.gap();
        Some(w)
    }
    pub fn phrase(&mut self) -> Option<Vec<String>> {
        let mut v = vec![self.attempt(|p| p.phrase_word())?];
        while let Some(w) = self.attempt(|p| p.phrase_word()) {
            v.push(w);
        }
        Some(v)
    }
    fn domain_literal(&mut self) -> Option<String> {
        self.eat(b'[')?;
        let mut out = Vec::new();
        loop {
            self.fws();
            match self.peek()? {
                b']' => {
                    self.i += 1;
                    return Some(text(&out));
                }
                c if is_dtext(c) => {
                    out.push(c);
                    self.i += 1;
                }
                _ => return Option::None,
            }
        }
    }
    fn domain(&mut self) -> Option<String> {
        self.gap();
        let d = if self.peek() == Some(b'[') { self.domain_literal()? } else { self.dot_atom_text()? };
        self.gap();
        Some(d)
    }
    pub fn addr_spec(&mut self) -> Option<Val> {
        let (l, d) = self.addr_parts()?;
        Some(T("Addr", vec![S(l), S(d)]))
    }
    fn addr_parts(&mut self) -> Option<(String, String)> {
        self.gap();
        let l = if self.peek() == Some(b'"') { self.quoted()? } else { self.dot_atom_text()? };
        self.gap();
        self.eat(b'@')?;
        let d = self.domain()?;
        Some((l, d))
    }
    fn angle_addr(&mut self) -> Option<(String, String)> {
        self.gap();
        self.eat(b'<')?;
        let a = self.addr_parts()?;
        self.eat(b'>')?;
        self.gap();
        Some(a)
    }
    pub fn mailbox(&mut self) -> Option<Mbox> {
        if let Some(m) = self.attempt(|p| {
            let name = p.phrase();
            let (l, d) = p.angle_addr()?;
            Some(Mbox { name, local: l, domain: d })
        }) {
            return Some(m);
        }
        let (l, d) = self.addr_parts()?;
        Some(Mbox { name: Option::None, local: l, domain: d })
    }
    fn sep<T>(&mut self, sep: u8, f: impl Fn(&mut Self) -> Option<T>) -> Option<Vec<T>> {
        let mut v = vec![f(self)?];
        while self.peek() == Some(sep) {
            match self.attempt(|p| {
                p.eat(sep)?;
                f(p)
            }) {
                Some(x) => v.push(x),
                Option::None => break,
            }
        }
        Some(v)
    }
    pub fn mailbox_list(&mut self) -> Option<Vec<Mbox>> {
        self.sep(b',', |p| p.mailbox())
    }
    pub fn address(&mut self) -> Option<Adr> {
        if let Some(m) = self.attempt(|p| p.mailbox()) {
            return Some(Adr::Mailbox(m));
        }
        let name = self.phrase()?;
        self.eat(b':')?;
        let list = match self.attempt(|p| p.mailbox_list()) {
            Some(l) => l,
            Option::None => {
                self.gap();
                Vec::new()
            }
        };
        self.eat(b';')?;
        self.gap();
        Some(Adr::Group(name, list))
    }
    pub fn address_list(&mut self) -> Option<Vec<Adr>> {
        self.sep(b',', |p| p.address())
    }
    pub fn bcc(&mut self) -> Option<Vec<Adr>> {
        if let Some(l) = self.attempt(|p| p.address_list()) {
            return Some(l);
        }
        self.gap();
        Some(Vec::new())
    }
    pub fn msg_id(&mut self) -> Option<(String, String)> {
        self.gap();
        self.eat(b'<')?;
        let l = self.dot_atom_text()?;
        self.eat(b'@')?;
        let r = if self.peek() == Some(b'[') {
            self.i += 1;
            let t = text(self.take(is_dtext));
            self.eat(b']')?;
            t
        } else {
            self.dot_atom_text()?
        };
        self.eat(b'>')?;
        self.gap();
        Some((l, r))
    }
    pub fn msg_ids(&mut self) -> Option<Vec<(String, String)>> {
        let mut v = vec![self.msg_id()?];
        while let Some(i) = self.attempt(|p| p.msg_id()) {
            v.push(i);
        }
        Some(v)
    }
    pub fn keywords(&mut self) -> Option<Vec<Vec<String>>> {
        self.sep(b',', |p| p.phrase())
    }
    fn name3(&mut self, names: &[&str]) -> Option<usize> {
        let s = self.b.get(self.i..self.i + 3)?;
        let n = names.iter().position(|n| n.as_bytes().eq_ignore_ascii_case(s))?;
        self.i += 3;
        Some(n)
    }
    fn two(&mut self) -> Option<u8> {
        let s = self.b.get(self.i..self.i + 2)?;
        if !s.iter().all(|c| c.is_ascii_digit()) {
            return Option::None;
        }
        self.i += 2;
        Some((s[0] - b'0') * 10 + s[1] - b'0')
    }
    fn fws1(&mut self) -> Option<()> {
        if self.fws().is_empty() {
            Option::None
        } else {
            Some(())
        }
    }
    pub fn date_time(&mut self) -> Option<Dt> {
        self.fws();
        let weekday = match self.name3(&["mon", "tue", "wed", "thu", "fri", "sat", "sun"]) {
            Some(d) => {
                self.eat(b',')?;
                Some(d as u8 + 1)
            }
            Option::None => Option::None,
        };
        self.fws();
        let d = self.take1(|c| c.is_ascii_digit())?;
        if d.len() > 2 {
            return Option::None;
        }
        let day: u8 = text(d).parse().ok()?;
        if day < 1 || day > 31 {
            return Option::None;
        }
        self.fws1()?;
        let month = self.name3(&["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"])? as u8 + 1;
        self.fws1()?;
        let y = self.take1(|c| c.is_ascii_digit())?;
        if y.len() < 4 {
            return Option::None;
        }
        let year: u128 = match text(y).parse() {
            Ok(y) => y,
            Err(_) => {
                self.mark();
                0
            }
        };
        if year > u64::MAX as u128 {
            self.mark(); // cannot be represented
        }
        if year < 1900 && !self.unspec {
            return Option::None;
        }
        self.fws1()?;
        let hour = self.two()?;
        self.eat(b':')?;
        let minute = self.two()?;
        let mut second = 0;
        if self.eat(b':').is_some() {
            second = self.two()?;
        }
        if hour > 23 || minute > 59 || second > 60 {
            return Option::None;
        }
        self.fws1()?;
        let sign = match self.peek()? {
            b'+' => true,
            b'-' => false,
            _ => return Option::None,
        };
        self.i += 1;
        let zone = (self.two()?, self.two()?);
        if zone.1 > 59 {
            return Option::None;
        }
        self.gap();
        Some(Dt { weekday, day, month, year: year as u64, hour, minute, second, sign, zone })
    }
    fn token(&mut self) -> Option<String> {
        Some(text(self.take1(is_token)?).to_ascii_lowercase())
    }
    /// A gap that RFC 822 style grammars allow but that is not used in practice.
    fn odd_gap(&mut self) {
        if self.gap() {
            self.mark();
        }
    }
    fn version(&mut self) -> Option<Val> {
        self.gap();
        let a = self.take1(|c| c.is_ascii_digit())?;
        self.gap();
        self.eat(b'.')?;
        self.gap();
        let b = self.take1(|c| c.is_ascii_digit())?;
        self.gap();
        match (text(a).parse::<u8>(), text(b).parse::<u8>()) {
            (Ok(a), Ok(b)) => Some(T("MIME-Version", vec![N(a as i64), N(b as i64)])),
            _ => {
                self.mark();
                Some(Any)
            }
        }
    }
    fn parameters(&mut self) -> Option<Vec<Param>> {
        let mut v = Vec::new();
        while let Some(p) = self.attempt(|p| p.parameter()) {
            v.push(p);
        }
        self.gap();
        Some(v)
    }
    fn parameter(&mut self) -> Option<Param> {
        self.gap();
        self.eat(b';')?;
        self.gap();
        let name = self.token()?;
        self.odd_gap();
        self.eat(b'=')?;
        self.odd_gap();
        let start = self.i;
        if self.peek() == Some(b'"') {
            let value = self.quoted()?;
            let raw = self.b[start..self.i].to_vec();
            self.gap();
            return Some(Param { name, value, raw, quoted: true });
        }
        let value = text(self.take1(is_token)?);
        Some(Param { name, value, raw: self.b[start..self.i].to_vec(), quoted: false })
    }
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

#[derive(Clone, Debug)]
pub struct Mbox {
    pub name: Option<Vec<String>>,
    pub local: String,
    pub domain: String,
}
#[derive(Clone, Debug)]
pub enum Adr {
    Mailbox(Mbox),
    Group(Vec<String>, Vec<Mbox>),
}
#[derive(Clone, Debug)]
pub struct Dt {
    pub weekday: Option<u8>,
    pub day: u8,
    pub month: u8,
    pub year: u64,
    pub hour: u8,
    pub minute: u8,
    pub second: u8,
    pub sign: bool,
    pub zone: (u8, u8),
}
#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub value: String,
    pub raw: Vec<u8>,
    pub quoted: bool,
}
#[derive(Clone, Debug)]
pub enum Tok {
    Word(String),
    Addr(String, String),
    Domain(String),
}
#[derive(Clone, Debug)]
pub enum Resent {
    Date(Dt),
    From(Vec<Mbox>),
    Sender(Mbox),
    To(Vec<Adr>),
    Cc(Vec<Adr>),
    Bcc(Vec<Adr>),
    MessageId(String, String),
}

impl Mbox {
    pub fn val(&self) -> Val {
        T("Mailbox", vec![Val::opt(self.name.as_ref().map(|n| Val::strs(n))), T("Addr", vec![Val::s(&self.local), Val::s(&self.domain)])])
    }
    pub fn lib(&self) -> email_parser::address::Mailbox<'static> {
        email_parser::address::Mailbox {
            name: self.name.clone().map(|n| n.into_iter().map(|w| w.into()).collect()),
            address: email_parser::address::EmailAddress { local_part: self.local.clone().into(), domain: self.domain.clone().into() },
        }
    }
}
impl Adr {
    pub fn val(&self) -> Val {
        match self {
            Adr::Mailbox(m) => m.val(),
            Adr::Group(n, l) => T("Group", vec![Val::strs(n), L(l.iter().map(|m| m.val()).collect())]),
        }
    }
    pub fn lib(&self) -> email_parser::address::Address<'static> {
        match self {
            Adr::Mailbox(m) => email_parser::address::Address::Mailbox(m.lib()),
            Adr::Group(n, l) => email_parser::address::Address::Group((n.iter().map(|w| w.clone().into()).collect(), l.iter().map(|m| m.lib()).collect())),
        }
    }
}
impl Dt {
    pub fn val(&self) -> Val {
        T(
            "DateTime",
            vec![
                Val::opt(self.weekday.map(|d| N(d as i64))),
                N(self.day as i64),
                N(self.month as i64),
                S(self.year.to_string()),
                N(self.hour as i64),
                N(self.minute as i64),
                N(self.second as i64),
                T(if self.sign { "+" } else { "-" }, vec![N(self.zone.0 as i64), N(self.zone.1 as i64)]),
            ],
        )
    }
    pub fn lib(&self) -> email_parser::time::DateTime {
        use email_parser::time::*;
        DateTime {
            day_name: self.weekday.map(|d| match d {
                1 => Day::Monday,
                2 => Day::Tuesday,
                3 => Day::Wednesday,
                4 => Day::Thursday,
                5 => Day::Friday,
                6 => Day::Saturday,
                _ => Day::Sunday,
            }),
            date: Date {
                day: self.day,
                month: match self.month {
                    1 => Month::January,
                    2 => Month::February,
                    3 => Month::March,
                    4 => Month::April,
                    5 => Month::May,
                    6 => Month::June,
                    7 => Month::July,
                    8 => Month::August,
                    9 => Month::September,
                    10 => Month::October,
                    11 => Month::November,
                    _ => Month::December,
                },
                year: self.year as usize,
            },
            time: TimeWithZone {
                time: Time { hour: self.hour, minute: self.minute, second: self.second },
                zone: Zone { sign: self.sign, hour_offset: self.zone.0, minute_offset: self.zone.1 },
            },
        }
    }
}

/// The library does not export these types: they can only be observed through their derived `Debug` output.
mod mirror {
    use email_parser::address::*;
    #[derive(Debug)]
    #[allow(dead_code)]
    pub enum ReceivedToken {
        Word(String),
        Addr(EmailAddress<'static>),
        Domain(String),
    }
    #[derive(Debug)]
    #[allow(dead_code)]
    pub enum TraceField {
        Date(email_parser::time::DateTime),
        From(Vec<Mailbox<'static>>),
        Sender(Mailbox<'static>),
        To(Vec<Address<'static>>),
        Cc(Vec<Address<'static>>),
        Bcc(Vec<Address<'static>>),
        MessageId((String, String)),
    }
}
impl Tok {
    pub fn val(&self) -> Val {
        use mirror::ReceivedToken as R;
        let t = match self.clone() {
            Tok::Word(w) => R::Word(w),
            Tok::Domain(w) => R::Domain(w),
            Tok::Addr(l, d) => R::Addr(email_parser::address::EmailAddress { local_part: l.into(), domain: d.into() }),
        };
        S(format!("{:?}", t))
    }
}
impl Resent {
    pub fn val(&self) -> Val {
        use mirror::TraceField as R;
        let ml = |v: &Vec<Mbox>| v.iter().map(|m| m.lib()).collect();
        let al = |v: &Vec<Adr>| v.iter().map(|m| m.lib()).collect();
        let f = match self {
            Resent::Date(d) => R::Date(d.lib()),
            Resent::From(v) => R::From(ml(v)),
            Resent::Sender(m) => R::Sender(m.lib()),
            Resent::To(v) => R::To(al(v)),
            Resent::Cc(v) => R::Cc(al(v)),
            Resent::Bcc(v) => R::Bcc(al(v)),
            Resent::MessageId(l, r) => R::MessageId((l.clone(), r.clone())),
        };
        S(format!("{:?}", f))
    }
}

pub fn id_val(i: &(String, String)) -> Val {
    T("Id", vec![Val::s(&i.0), Val::s(&i.1)])
}
pub fn ids_val(v: &[(String, String)]) -> Val {
    L(v.iter().map(id_val).collect())
}

/// Free text without encoded words. The caller has excluded lines made of white space only.
pub fn unstructured(raw: &[u8]) -> String {
    let mut v: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < raw.len() {
        if raw[i..].starts_with(b"\r\n") {
            i += 2;
        } else {
            v.push(raw[i]);
            i += 1;
        }
    }
    while v.last().map_or(false, |c| is_wsp(*c)) {
        v.pop();
    }
    text(&v)
}

/// Free text with encoded words. One that is glued to something, or too long, may be decoded or not.
pub fn mime_unstructured(raw: &[u8]) -> Val {
    let flat = unstructured(raw);
    let b = flat.as_bytes();
    // what was read, and whether it ends with an encoded word
    let mut states: Vec<(String, bool)> = vec![(String::new(), false)];
    let mut i = 0;
    while i < b.len() {
        let ws = b[i..].iter().take_while(|c| is_wsp(**c)).count();
        let space = &flat[i..i + ws];
        i += ws;
        let n = b[i..].iter().take_while(|c| !is_wsp(**c)).count();
        let Some(ways) = read_run(&b[i..i + n]) else { return Any };
        let mut next = Vec::new();
        for (out, previous) in &states {
            for (first, last, t) in &ways {
                let s = if *previous && *first { format!("{}{}", out, t) } else { format!("{}{}{}", out, space, t) };
                if !next.contains(&(s.clone(), *last)) {
                    next.push((s, *last));
                }
            }
        }
        if next.len() > 32 {
            return Any;
        }
        states = next;
        i += n;
    }
    let mut v: Vec<Val> = Vec::new();
    for (s, _) in states {
        if !v.contains(&S(s.clone())) {
            v.push(S(s));
        }
    }
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        OneOf(v)
    }
}
/// The ways to read a text without spaces: whether it starts and ends with something that was decoded, and what it is.
fn read_run(run: &[u8]) -> Option<Vec<(bool, bool, String)>> {
    let verbatim = (false, false, text(run));
    Some(match encoded_word(run) {
        Word::Unspecified => return Option::None,
        Word::Literal => vec![verbatim],
        Word::Decoded(s, len) if len == run.len() => vec![(true, true, s)],
        Word::Long(s, len) if len == run.len() => vec![(true, true, s), verbatim],
        Word::Decoded(s, len) | Word::Long(s, len) => {
            let mut v = vec![verbatim];
            for (_, last, t) in read_run(&run[len..])? {
                v.push((true, last, format!("{}{}", s, t)));
            }
            if v.len() > 16 {
                return Option::None;
            }
            v
        }
    })
}

/// Parameters, following RFC 2231.
pub fn collect_params(list: &[Param]) -> V<BTreeMap<String, Val>> {
    let mut plain: BTreeMap<String, Val> = BTreeMap::new();
    let mut ext: BTreeMap<String, BTreeMap<u32, (bool, &Param)>> = BTreeMap::new();
    let mut any: Vec<String> = Vec::new();
    let mut maybe = false;
    for p in list {
        if !p.name.contains('*') {
            if plain.insert(p.name.clone(), Val::s(&p.value)).is_some() {
                any.push(p.name.clone());
            }
            continue;
        }
        let mut n = p.name.as_str();
        let mut encoded = false;
        if let Some(x) = n.strip_suffix('*') {
            n = x;
            encoded = true;
        }
        let (base, idx) = match n.find('*') {
            Some(i) => (&n[..i], Some(&n[i + 1..])),
            Option::None => (n, Option::None),
        };
        if base.is_empty() {
            maybe = true;
            continue;
        }
        let idx = match idx {
            Option::None => {
                if !encoded {
                    maybe = true;
                }
                0
            }
            Some(i) => match i.parse::<u32>() {
                Ok(v) if v <= 255 && v.to_string() == i => v,
                _ => {
                    maybe = true;
                    continue;
                }
            },
        };
        if encoded && p.quoted {
            maybe = true;
        }
        if ext.entry(base.to_string()).or_default().insert(idx, (encoded, p)).is_some() {
            any.push(base.to_string());
        }
    }
    if maybe {
        return V::Maybe;
    }
    for (name, sections) in ext {
        if plain.contains_key(&name) || any.contains(&name) {
            return V::Maybe;
        }
        // sections 0, 1, 2, ...
        if !sections.keys().copied().eq(0..sections.len() as u32) {
            return V::Maybe;
        }
        let mut charset: Option<String> = Option::None;
        let mut out = String::new();
        // a character can be split between adjacent encoded sections, which are decoded together
        let mut bytes: Vec<u8> = Vec::new();
        for (idx, (encoded, p)) in sections {
            let mut v = p.value.as_str();
            if idx == 0 && encoded {
                let mut it = v.splitn(3, '\'');
                let (cs, lang, rest) = (it.next(), it.next(), it.next());
                match (cs, lang, rest) {
                    (Some(cs), Some(_), Some(rest)) => {
                        charset = Some(cs.to_string());
                        v = rest;
                    }
                    _ => return V::No,
                }
            }
            if encoded {
                if charset.is_none() {
                    return V::Maybe;
                }
                let b = v.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'%' {
                        match (hex(b.get(i + 1)), hex(b.get(i + 2))) {
                            (Some(h), Some(l)) => bytes.push(h * 16 + l),
                            _ => return V::Maybe,
                        }
                        i += 3;
                    } else {
                        bytes.push(b[i]);
                        i += 1;
                    }
                }
            } else {
                if let Some(cs) = &charset {
                    match decode_charset(cs, &bytes) {
                        Some(Ok(s)) => out.push_str(&s),
                        _ => return V::Maybe,
                    }
                    bytes.clear();
                }
                out.push_str(v);
            }
        }
        if let Some(cs) = &charset {
            match decode_charset(cs, &bytes) {
                Some(Ok(s)) => out.push_str(&s),
                _ => return V::Maybe,
            }
        }
        plain.insert(name, S(out));
    }
    for n in any {
        plain.insert(n, Any);
    }
    V::Yes(plain)
}

#[derive(Clone, Debug)]
pub struct Ct {
    pub kind: Val,
    pub subtype: String,
    pub params: BTreeMap<String, Val>,
}

pub fn type_val(t: &str) -> Val {
    if ["text", "image", "audio", "video", "application", "message", "multipart"].contains(&t) {
        Val::s(t)
    } else {
        T("Unknown", vec![Val::s(t)])
    }
}

pub fn content_type(raw: &[u8], cfg: &Cfg) -> V<Ct> {
    match P::run(raw, cfg, |p| {
        p.gap();
        let t = p.token()?;
        p.odd_gap();
        p.eat(b'/')?;
        p.odd_gap();
        let s = p.token()?;
        let params = p.parameters()?;
        Some((t, s, params))
    }) {
        V::Yes((t, s, params)) => match collect_params(&params) {
            V::Yes(params) => V::Yes(Ct { kind: type_val(&t), subtype: s, params }),
            V::No => V::No,
            V::Maybe => V::Maybe,
        },
        V::No => V::No,
        V::Maybe => V::Maybe,
    }
}

pub fn disposition(raw: &[u8], cfg: &Cfg) -> V<Val> {
    let (t, params) = match P::run(raw, cfg, |p| {
        p.gap();
        let t = p.token()?;
        let params = p.parameters()?;
        Some((t, params))
    }) {
        V::Yes(r) => r,
        V::No => return V::No,
        V::Maybe => return V::Maybe,
    };
    let mut dates = [None, None, None];
    let mut others = Vec::new();
    for p in params {
        let k = ["creation-date", "modification-date", "read-date"].iter().position(|n| *n == p.name);
        if let Some(k) = k {
            if p.quoted {
                // The date is read from the raw text between the quotes
                match P::run(&p.raw[1..p.raw.len() - 1], cfg, |p| p.date_time()) {
                    V::Yes(d) => {
                        if !p.raw[1..p.raw.len() - 1].iter().all(|c| *c != b'\\' && *c != b'"' && *c != b'(') {
                            return V::Maybe;
                        }
                        if dates[k] != None {
                            return V::Maybe;
                        }
                        dates[k] = T("Some", vec![d.val()]);
                        continue;
                    }
                    V::Maybe => return V::Maybe,
                    V::No => {
                        // a valid date written with escapes
                        if p.raw.contains(&b'\\') || p.raw.contains(&b'(') {
                            return V::Maybe;
                        }
                    }
                }
            }
        }
        others.push(p);
    }
    match collect_params(&others) {
        V::Yes(mut params) => {
            let filename = match params.remove("filename") {
                Some(Any) => Any,
                f => Val::opt(f),
            };
            let t = if t == "inline" || t == "attachment" { Val::s(&t) } else { T("Unknown", vec![Val::s(&t)]) };
            let [c, m, r] = dates;
            V::Yes(T("Disp", vec![t, filename, c, m, r, M(params)]))
        }
        V::No => V::No,
        V::Maybe => V::Maybe,
    }
}

pub fn cte(raw: &[u8], cfg: &Cfg) -> V<Val> {
    let known = ["7bit", "8bit", "binary", "quoted-printable", "base64"];
    match P::run(raw, cfg, |p| {
        p.gap();
        let t = p.token()?;
        p.gap();
        Some(t)
    }) {
        V::Yes(t) => {
            if known.contains(&t.as_str()) {
                V::Yes(Val::s(&t))
            } else if known.iter().any(|k| t.starts_with(k)) {
                V::Maybe
            } else {
                V::Yes(T("Unknown", vec![Val::s(&t)]))
            }
        }
        V::No => V::No,
        V::Maybe => V::Maybe,
    }
}

pub fn received(raw: &[u8], cfg: &Cfg) -> V<(Vec<Tok>, Dt)> {
    P::run(raw, cfg, |p| {
        let mut toks = Vec::new();
        loop {
            if let Some((l, d)) = p.attempt(|p| p.addr_parts()) {
                toks.push(Tok::Addr(l, d));
                continue;
            }
            if let Some(t) = p.attempt(|p| {
                p.gap();
                let t = match p.peek()? {
                    b'"' => Tok::Word(p.quoted()?),
                    b'[' => Tok::Domain(p.domain_literal()?),
                    b'<' => {
                        let (l, d) = p.angle_addr()?;
                        return Some(Tok::Addr(l, d));
                    }
                    _ => {
                        let d = p.dot_atom_text()?;
                        if d.contains('.') {
                            Tok::Domain(d)
                        } else {
                            Tok::Word(d)
                        }
                    }
                };
                p.gap();
                Some(t)
            }) {
                toks.push(t);
                continue;
            }
            break;
        }
        if toks.is_empty() {
            p.odd_gap();
        }
        p.eat(b';')?;
        let d = p.date_time()?;
        Some((toks, d))
    })
}

pub fn return_path(raw: &[u8], cfg: &Cfg) -> V<Option<(String, String)>> {
    P::run(raw, cfg, |p| {
        if let Some(a) = p.attempt(|p| p.angle_addr()) {
            return Some(Some(a));
        }
        p.gap();
        p.eat(b'<')?;
        p.gap();
        p.eat(b'>')?;
        p.gap();
        Some(Option::None)
    })
}

// ---------------------------------------------------------------------------------------------------------------------
// Messages

pub struct Header<'a> {
    pub name: &'a [u8],
    pub raw: &'a [u8],
}

pub enum Split<'a> {
    Syntax,
    Unspecified,
    Ok(Vec<Header<'a>>, Option<&'a [u8]>),
}

/// Splits a message (or a part) into headers and body.
pub fn split(input: &[u8]) -> Split {
    let mut headers = Vec::new();
    let mut i = 0;
    let mut unspecified = false;
    loop {
        if i == input.len() {
            return if unspecified { Split::Unspecified } else { Split::Ok(headers, Option::None) };
        }
        if input[i..].starts_with(b"\r\n") {
            return if unspecified { Split::Unspecified } else { Split::Ok(headers, Some(&input[i + 2..])) };
        }
        let n = input[i..].iter().take_while(|c| is_vchar(**c) && **c != b':').count();
        if n == 0 || input.get(i + n) != Some(&b':') {
            return if unspecified { Split::Unspecified } else { Split::Syntax };
        }
        let name = &input[i..i + n];
        let start = i + n + 1;
        let mut j = start;
        let end;
        let mut line_start = j;
        let mut first = true;
        loop {
            match input.get(j) {
                Some(c) if is_wsp(*c) || is_vchar(*c) => j += 1,
                Some(b'\r') if input.get(j + 1) == Some(&b'\n') => {
                    if !first && input[line_start..j].iter().all(|c| is_wsp(*c)) {
                        unspecified = true;
                    }
                    if input.get(j + 2).map_or(false, |c| is_wsp(*c)) {
                        j += 2;
                        line_start = j;
                        first = false;
                    } else {
                        end = j;
                        break;
                    }
                }
                _ => return if unspecified { Split::Unspecified } else { Split::Syntax },
            }
        }
        headers.push(Header { name, raw: &input[start..end] });
        i = end + 2;
    }
}

pub fn unknown_value(raw: &[u8], cfg: &Cfg) -> Val {
    if cfg.unrecognized {
        mime_unstructured(raw)
    } else {
        S(unstructured(raw))
    }
}

fn tagged(tag: &'static str, v: V<Val>) -> V<Val> {
    match v {
        V::Yes(v) => V::Yes(T(tag, vec![v])),
        V::No => V::No,
        V::Maybe => V::Maybe,
    }
}

/// The structured reading of an ordinary header, when its name is one that is enabled.
fn structured(name: &str, raw: &[u8], cfg: &Cfg) -> V<Val> {
    let free = |raw| if cfg.mime { mime_unstructured(raw) } else { S(unstructured(raw)) };
    let adrs = |v: Vec<Adr>| L(v.iter().map(|a| a.val()).collect());
    match name {
        "date" if cfg.date => tagged("Date", P::run(raw, cfg, |p| Some(p.date_time()?.val()))),
        "from" if cfg.from => tagged("From", P::run(raw, cfg, |p| Some(L(p.mailbox_list()?.iter().map(|m| m.val()).collect())))),
        "sender" if cfg.sender => tagged("Sender", P::run(raw, cfg, |p| Some(p.mailbox()?.val()))),
        "reply-to" if cfg.reply_to => tagged("Reply-To", P::run(raw, cfg, |p| p.address_list().map(adrs))),
        "to" if cfg.to => tagged("To", P::run(raw, cfg, |p| p.address_list().map(adrs))),
        "cc" if cfg.cc => tagged("Cc", P::run(raw, cfg, |p| p.address_list().map(adrs))),
        "bcc" if cfg.bcc => tagged("Bcc", P::run(raw, cfg, |p| p.bcc().map(adrs))),
        "message-id" if cfg.message_id => tagged("Message-ID", P::run(raw, cfg, |p| Some(id_val(&p.msg_id()?)))),
        "in-reply-to" if cfg.in_reply_to => tagged("In-Reply-To", P::run(raw, cfg, |p| Some(ids_val(&p.msg_ids()?)))),
        "references" if cfg.references => tagged("References", P::run(raw, cfg, |p| Some(ids_val(&p.msg_ids()?)))),
        "subject" if cfg.subject => V::Yes(T("Subject", vec![free(raw)])),
        "comments" if cfg.comments => V::Yes(T("Comments", vec![free(raw)])),
        "keywords" if cfg.keywords => {
            tagged("Keywords", P::run(raw, cfg, |p| Some(L(p.keywords()?.iter().map(|k| Val::strs(k)).collect()))))
        }
        "mime-version" if cfg.mime => P::run(raw, cfg, |p| p.version()),
        "content-type" if cfg.mime => match content_type(raw, cfg) {
            V::Yes(ct) => V::Yes(T("Content-Type", vec![ct.kind, S(ct.subtype), M(ct.params)])),
            V::No => V::No,
            V::Maybe => V::Maybe,
        },
        "content-transfer-encoding" if cfg.mime => tagged("Content-Transfer-Encoding", cte(raw, cfg)),
        "content-id" if cfg.mime => tagged("Content-ID", P::run(raw, cfg, |p| Some(id_val(&p.msg_id()?)))),
        "content-description" if cfg.mime => V::Yes(T("Content-Description", vec![mime_unstructured(raw)])),
        "content-disposition" if cfg.disposition => tagged("Content-Disposition", disposition(raw, cfg)),
        _ => V::No,
    }
}

pub fn field(h: &Header, cfg: &Cfg) -> Val {
    match structured(&text(h.name).to_ascii_lowercase(), h.raw, cfg) {
        V::Yes(v) => v,
        V::No => T("Unknown", vec![Val::s(&text(h.name)), unknown_value(h.raw, cfg)]),
        V::Maybe => Any,
    }
}

fn resent(h: &Header, cfg: &Cfg) -> V<Resent> {
    match text(h.name).to_ascii_lowercase().as_str() {
        "resent-date" => P::run(h.raw, cfg, |p| p.date_time().map(Resent::Date)),
        "resent-from" => P::run(h.raw, cfg, |p| p.mailbox_list().map(Resent::From)),
        "resent-sender" => P::run(h.raw, cfg, |p| p.mailbox().map(Resent::Sender)),
        "resent-to" => P::run(h.raw, cfg, |p| p.address_list().map(Resent::To)),
        "resent-cc" => P::run(h.raw, cfg, |p| p.address_list().map(Resent::Cc)),
        "resent-bcc" => P::run(h.raw, cfg, |p| p.bcc().map(Resent::Bcc)),
        "resent-message-id" => P::run(h.raw, cfg, |p| p.msg_id().map(|(l, r)| Resent::MessageId(l, r))),
        _ => V::No,
    }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub return_path: Option<Option<(String, String)>>,
    pub received: Vec<(Vec<Tok>, Dt)>,
    pub resent: Vec<Resent>,
}

impl Block {
    pub fn val(&self) -> Val {
        let rp = |p: &Option<(String, String)>| Val::opt(p.as_ref().map(|(l, d)| T("Addr", vec![Val::s(l), Val::s(d)])));
        T(
            "Trace",
            vec![
                Val::opt(self.return_path.as_ref().map(rp)),
                L(self.received.iter().map(|(t, d)| T("Received", vec![L(t.iter().map(|t| t.val()).collect()), d.val()])).collect()),
                L(self.resent.iter().map(|f| f.val()).collect()),
            ],
        )
    }
}

/// The fields of a message. None: the grouping itself is not specified.
pub fn fields(headers: &[Header], cfg: &Cfg) -> Option<Vec<Val>> {
    let mut out = Vec::new();
    let mut i = 0;
    if cfg.trace {
        loop {
            let mut j = i;
            let mut block = Block { return_path: Option::None, received: Vec::new(), resent: Vec::new() };
            let is = |j: usize, n: &str| headers.get(j).map_or(false, |h: &Header| h.name.eq_ignore_ascii_case(n.as_bytes()));
            if is(j, "return-path") {
                match return_path(headers[j].raw, cfg) {
                    V::Yes(p) => {
                        block.return_path = Some(p);
                        j += 1;
                    }
                    V::Maybe => return Option::None,
                    V::No => break,
                }
            }
            while is(j, "received") {
                match received(headers[j].raw, cfg) {
                    V::Yes(r) => {
                        block.received.push(r);
                        j += 1;
                    }
                    V::Maybe => return Option::None,
                    V::No => break,
                }
            }
            if block.received.is_empty() {
                break;
            }
            while let Some(h) = headers.get(j) {
                match resent(h, cfg) {
                    V::Yes(r) => {
                        block.resent.push(r);
                        j += 1;
                    }
                    V::Maybe => return Option::None,
                    V::No => break,
                }
            }
            out.push(block.val());
            i = j;
        }
    }
    for h in &headers[i..] {
        out.push(field(h, cfg));
    }
    Some(out)
}

pub fn syntax_error() -> Val {
    T("Error", vec![Val::s("syntax")])
}

/// The body as text, without MIME support.
pub fn text_body_ok(body: &[u8]) -> bool {
    let mut rest = body;
    loop {
        let end = rest.windows(2).position(|w| w == b"\r\n");
        let line = &rest[..end.unwrap_or(rest.len())];
        if line.len() > 998 || line.iter().any(|c| *c == 0 || *c > 127 || *c == b'\r' || *c == b'\n') {
            return false;
        }
        match end {
            Some(e) => rest = &rest[e + 2..],
            Option::None => return true,
        }
    }
}

/// Expected result of `parse_message`.
pub fn message(input: &[u8], cfg: &Cfg) -> Val {
    match split(input) {
        Split::Syntax => syntax_error(),
        Split::Unspecified => Any,
        Split::Ok(headers, body) => {
            if !cfg.mime {
                if let Some(b) = body {
                    if !text_body_ok(b) {
                        return syntax_error();
                    }
                }
            }
            let fields = match fields(&headers, cfg) {
                Some(f) => L(f),
                Option::None => Any,
            };
            T("Message", vec![fields, body_val(body, cfg)])
        }
    }
}

pub fn body_val(body: Option<&[u8]>, cfg: &Cfg) -> Val {
    Val::opt(body.map(|b| if cfg.mime { B(b.to_vec()) } else { S(text(b)) }))
}

/// Expected result of `Email::parse`, with the entity decoded.
pub fn email(input: &[u8], cfg: &Cfg) -> Val {
    match split(input) {
        Split::Syntax => syntax_error(),
        Split::Unspecified => Any,
        Split::Ok(headers, body) => {
            if !cfg.mime {
                if let Some(b) = body {
                    if !text_body_ok(b) {
                        return syntax_error();
                    }
                }
            }
            match fields(&headers, cfg) {
                Some(f) => assemble(&f, body, cfg),
                Option::None => Any,
            }
        }
    }
}

/// `Email::parse` as a function of the fields and the body.
pub fn assemble(fields: &[Val], body: Option<&[u8]>, cfg: &Cfg) -> Val {
    let unique: [(&'static str, &'static str); 17] = [
        ("From", "From"),
        ("Sender", "Sender"),
        ("Subject", "Subject"),
        ("Date", "Date"),
        ("To", "To"),
        ("Cc", "Cc"),
        ("Bcc", "Bcc"),
        ("Message-ID", "Message-ID"),
        ("In-Reply-To", "In-Reply-To"),
        ("References", "References"),
        ("Reply-To", "Reply-To"),
        ("MIME-Version", "Mime-Version"),
        ("Content-Type", "Content-Type"),
        ("Content-Transfer-Encoding", "Content-Transfer-Encoding"),
        ("Content-ID", "Content-Id"),
        ("Content-Description", "Content-Description"),
        ("Content-Disposition", "Content-Disposition"),
    ];
    let mut one: BTreeMap<&'static str, &[Val]> = BTreeMap::new();
    let (mut comments, mut keywords, mut trace, mut unknown) = (vec![], vec![], vec![], vec![]);
    for f in fields {
        match f {
            Any => return Any,
            T("Comments", v) => comments.push(v[0].clone()),
            T("Keywords", v) => keywords.extend(v[0].items().iter().cloned()),
            T("Trace", _) => trace.push(f.clone()),
            T("Unknown", _) => unknown.push(f.clone()),
            T(t, v) => {
                let name = unique.iter().find(|(n, _)| n == t).expect("field").1;
                if one.insert(t, v).is_some() {
                    return T("Error", vec![S(format!("duplicate {}", name))]);
                }
            }
            _ => unreachable!(),
        }
    }
    let missing = |n: &str| T("Error", vec![S(format!("missing {}", n))]);
    if cfg.from && !one.contains_key("From") {
        return missing("From");
    }
    if cfg.date && !one.contains_key("Date") {
        return missing("Date");
    }
    let sender = match one.get("Sender") {
        Some(v) => v[0].clone(),
        Option::None if cfg.from && one["From"][0].items().len() == 1 => one["From"][0].items()[0].clone(),
        Option::None if cfg.sender => return missing("Sender"),
        Option::None => None,
    };
    let opt = |n: &str| Val::opt(one.get(n).map(|v| v[0].clone()));
    let mut r: Vec<(&'static str, Val)> = Vec::new();
    if !cfg.mime {
        r.push(("body", body_val(body, cfg)));
    }
    if cfg.from {
        r.push(("from", one["From"][0].clone()));
    }
    if cfg.sender {
        r.push(("sender", sender));
    }
    if cfg.subject {
        r.push(("subject", opt("Subject")));
    }
    if cfg.date {
        r.push(("date", one["Date"][0].clone()));
    }
    for (on, key, name) in [
        (cfg.to, "to", "To"),
        (cfg.cc, "cc", "Cc"),
        (cfg.bcc, "bcc", "Bcc"),
        (cfg.message_id, "message_id", "Message-ID"),
        (cfg.in_reply_to, "in_reply_to", "In-Reply-To"),
        (cfg.references, "references", "References"),
        (cfg.reply_to, "reply_to", "Reply-To"),
    ] {
        if on {
            r.push((key, opt(name)));
        }
    }
    if cfg.comments {
        r.push(("comments", L(comments)));
    }
    if cfg.keywords {
        r.push(("keywords", L(keywords)));
    }
    if cfg.trace {
        r.push(("trace", L(trace)));
    }
    if cfg.mime {
        let mut e = Entity::default_text();
        if let Some(v) = one.get("Content-Type") {
            e.kind = v[0].clone();
            e.subtype = v[1].clone();
            e.params = v[2].clone();
        }
        e.description = opt("Content-Description");
        e.id = opt("Content-ID");
        e.disposition = opt("Content-Disposition");
        let encoding = one.get("Content-Transfer-Encoding").map(|v| v[0].clone()).unwrap_or(Val::s("7bit"));
        e.value = match body {
            Option::None => B(Vec::new()),
            Some(b) => match decode_value(b, &encoding) {
                Ok(v) => v,
                Err(Bad::Invalid) => return syntax_error(),
                Err(Bad::Unspecified) => return Any,
            },
        };
        r.push(("entity", e.val()));
        r.push(("parsed", e.parse(cfg, 8)));
    }
    r.push(("unknown", L(unknown)));
    T("Email", vec![Rec(r)])
}

pub fn decode_value(b: &[u8], encoding: &Val) -> Result<Val, Bad> {
    match encoding {
        S(e) if e == "base64" => base64(b).map(B),
        S(e) if e == "quoted-printable" => {
            let v = quoted_printable(b);
            Ok(if is_unspecified(&v) { Any } else { B(v) })
        }
        S(_) => Ok(B(b.to_vec())),
        _ => Err(Bad::Unspecified),
    }
}

#[derive(Clone, Debug)]
pub struct Entity {
    pub kind: Val,
    pub subtype: Val,
    pub params: Val,
    pub description: Val,
    pub id: Val,
    pub disposition: Val,
    pub value: Val,
    pub additional: Vec<Val>,
}

impl Entity {
    pub fn default_text() -> Entity {
        Entity {
            kind: Val::s("text"),
            subtype: Val::s("plain"),
            params: M([("charset".to_string(), Val::s("us-ascii"))].into_iter().collect()),
            description: None,
            id: None,
            disposition: None,
            value: B(Vec::new()),
            additional: Vec::new(),
        }
    }
    pub fn val(&self) -> Val {
        Rec(vec![
            ("type", self.kind.clone()),
            ("subtype", self.subtype.clone()),
            ("params", self.params.clone()),
            ("description", self.description.clone()),
            ("id", self.id.clone()),
            ("disposition", self.disposition.clone()),
            ("value", self.value.clone()),
            ("additional", L(self.additional.clone())),
        ])
    }
    /// Expected result of `RawEntity::parse`, recursively.
    pub fn parse(&self, cfg: &Cfg, depth: usize) -> Val {
        let params = match &self.params {
            M(m) => m,
            _ => return Any,
        };
        let value = match &self.value {
            B(b) => b,
            _ => return Any,
        };
        let kind = match &self.kind {
            S(s) => s.as_str(),
            T(..) => return T("Unknown", vec![]),
            _ => return Any,
        };
        match kind {
            "text" => match params.get("charset") {
                Option::None => T("Unknown", vec![]),
                Some(S(c)) => match decode_charset(c, value) {
                    Option::None => T("Unknown", vec![]),
                    Some(Ok(s)) => T("Text", vec![self.subtype.clone(), S(s)]),
                    Some(Err(Bad::Invalid)) => syntax_error(),
                    Some(Err(Bad::Unspecified)) => Any,
                },
                Some(_) => Any,
            },
            "multipart" => match params.get("boundary") {
                Option::None => syntax_error(),
                Some(S(b)) => match split_multipart(value, b.as_bytes()) {
                    Err(Bad::Unspecified) => Any,
                    Err(Bad::Invalid) => syntax_error(),
                    Ok(parts) => {
                        let mut out = Vec::new();
                        let mut any = false;
                        for p in parts {
                            match part(p, cfg) {
                                Err(Bad::Invalid) => {
                                    if any {
                                        return Any;
                                    }
                                    return syntax_error();
                                }
                                Err(Bad::Unspecified) => any = true,
                                Ok(e) => {
                                    let parsed = if depth > 0 { e.parse(cfg, depth - 1) } else { Any };
                                    out.push(T("Part", vec![e.val(), parsed]))
                                }
                            }
                        }
                        if any {
                            return Any;
                        }
                        T("Multipart", vec![self.subtype.clone(), L(out)])
                    }
                },
                Some(_) => Any,
            },
            _ => T("Unknown", vec![]),
        }
    }
}

/// The bytes of the parts of a multipart value.
pub fn split_multipart<'a>(value: &'a [u8], boundary: &[u8]) -> Result<Vec<&'a [u8]>, Bad> {
    if boundary.is_empty() || boundary.last().map_or(false, |c| is_wsp(*c)) {
        return Err(Bad::Unspecified);
    }
    let mut parts = Vec::new();
    let mut start: Option<usize> = Option::None; // of the current part
    let mut line = 0;
    loop {
        let end = value[line..].windows(2).position(|w| w == b"\r\n").map(|p| line + p);
        let mut t = &value[line..end.unwrap_or(value.len())];
        while let Some((l, h)) = t.split_last() {
            if is_wsp(*l) {
                t = h;
            } else {
                break;
            }
        }
        let rest = if t.starts_with(b"--") && t[2..].starts_with(boundary) { Some(&t[2 + boundary.len()..]) } else { Option::None };
        if rest == Some(b"") && end.is_some() || rest == Some(b"--") {
            if let Some(s) = start {
                if line < s + 2 {
                    // two delimiters without a part in between
                    return Err(Bad::Unspecified);
                }
                parts.push(&value[s..line - 2]);
            } else if rest == Some(b"--") {
                return Err(Bad::Unspecified);
            }
            if rest == Some(b"--") {
                return Ok(parts);
            }
            start = Some(end.unwrap() + 2);
        }
        match end {
            Some(e) => line = e + 2,
            Option::None => return Err(Bad::Invalid),
        }
    }
}

/// One part of a multipart.
pub fn part(bytes: &[u8], cfg: &Cfg) -> Result<Entity, Bad> {
    let (headers, body) = match split(bytes) {
        Split::Syntax => return Err(Bad::Invalid),
        Split::Unspecified => return Err(Bad::Unspecified),
        Split::Ok(h, b) => (h, b.unwrap_or(b"")),
    };
    let mut e = Entity::default_text();
    let mut encoding = Val::s("7bit");
    let mut seen: Vec<&'static str> = Vec::new();
    for h in &headers {
        let name = text(h.name).to_ascii_lowercase();
        let name = match ["content-type", "content-transfer-encoding", "content-id", "content-description", "content-disposition"].iter().find(|n| **n == name) {
            Some(n) => *n,
            Option::None => {
                e.additional.push(T("Unknown", vec![Val::s(&text(h.name)), unknown_value(h.raw, cfg)]));
                continue;
            }
        };
        match structured(name, h.raw, cfg) {
            V::Maybe => return Err(Bad::Unspecified),
            V::No => e.additional.push(T("Unknown", vec![Val::s(&text(h.name)), unknown_value(h.raw, cfg)])),
            V::Yes(T(_, v)) => {
                if seen.contains(&name) {
                    return Err(Bad::Unspecified);
                }
                seen.push(name);
                match name {
                    "content-type" => {
                        e.kind = v[0].clone();
                        e.subtype = v[1].clone();
                        e.params = v[2].clone();
                    }
                    "content-transfer-encoding" => encoding = v[0].clone(),
                    "content-id" => e.id = Val::opt(Some(v[0].clone())),
                    "content-description" => e.description = Val::opt(Some(v[0].clone())),
                    _ => e.disposition = Val::opt(Some(v[0].clone())),
                }
            }
            V::Yes(_) => return Err(Bad::Unspecified),
        }
    }
    e.value = decode_value(body, &encoding)?;
    Ok(e)
}
