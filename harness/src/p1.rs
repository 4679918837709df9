//! Properties of headers.
use crate::ctx::*;
use crate::dims;
use crate::gen::{Case, G};
use crate::refp::{self, Cfg};
use crate::rng::Rng;
use crate::val::{Val, Val::*};
use crate::work::*;
use std::sync::OnceLock;

/// What a property looks at.
pub struct Spec {
    pub prop: &'static str,
    /// headers to generate
    pub headers: &'static [&'static str],
    /// fields of `parse_message` to compare
    pub tags: &'static [&'static str],
    /// fields of `Email` to compare
    pub email: &'static [&'static str],
    /// refusals are part of the property
    pub strict: bool,
}

pub const MIME_HEADERS: &[&str] = &["MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description", "Content-Disposition"];
const FREE: &[&str] = &["Subject", "Comments", "Content-Description"];
const PHRASES: &[&str] = &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Keywords"];

const C24: &[&str] = &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Content-ID"];
const C24_TAGS: &[&str] = &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Content-ID", "Trace", "Unknown"];

pub const SPECS: &[Spec] = &[
    Spec {
        prop: "C06",
        headers: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc"],
        tags: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc"],
        email: &["from", "sender", "reply_to", "to", "cc", "bcc"],
        strict: false,
    },
    Spec { prop: "C07", headers: &["Date"], tags: &["Date"], email: &["date"], strict: true },
    Spec {
        prop: "C08",
        headers: &["Message-ID", "In-Reply-To", "References", "Content-ID"],
        tags: &["Message-ID", "In-Reply-To", "References", "Content-ID"],
        email: &["message_id", "in_reply_to", "references", "entity.id"],
        strict: true,
    },
    Spec {
        prop: "C09",
        headers: &["Subject", "Comments", "Keywords"],
        tags: &["Subject", "Comments", "Keywords", "Unknown"],
        email: &["subject", "comments", "keywords", "unknown"],
        strict: false,
    },
    Spec { prop: "C12", headers: &[], tags: &["Trace"], email: &["trace"], strict: false },
    Spec {
        prop: "C14",
        headers: &["Subject", "Comments", "Content-Description", "From", "To", "Keywords"],
        tags: &["Subject", "Comments", "Content-Description", "Unknown", "From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Keywords"],
        email: &["subject", "comments", "keywords", "unknown", "entity.description", "from", "sender", "reply_to", "to", "cc", "bcc"],
        strict: false,
    },
    Spec {
        prop: "C15",
        headers: MIME_HEADERS,
        tags: MIME_HEADERS,
        email: &["entity.type", "entity.subtype", "entity.params", "entity.id", "entity.description", "entity.disposition"],
        strict: false,
    },
    Spec {
        prop: "C10",
        headers: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Date", "Message-ID", "In-Reply-To", "References", "Keywords", "MIME-Version", "Content-Type", "Content-ID", "Content-Disposition"],
        tags: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Date", "Message-ID", "In-Reply-To", "References", "Keywords", "MIME-Version", "Content-Type", "Content-ID", "Content-Disposition", "Trace"],
        email: &["from", "sender", "reply_to", "to", "cc", "bcc", "date", "message_id", "in_reply_to", "references", "keywords", "entity", "trace"],
        strict: false,
    },
    Spec {
        prop: "C04",
        headers: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Date", "Message-ID", "In-Reply-To", "References", "Keywords", "Subject", "Comments"],
        tags: &["Unknown", "Comments", "Keywords", "Trace"],
        email: &["unknown", "comments", "keywords", "trace"],
        strict: false,
    },
    Spec { prop: "C24", headers: C24, tags: C24_TAGS, email: &["from", "sender", "reply_to", "to", "cc", "bcc", "message_id", "in_reply_to", "references", "entity.id", "trace"], strict: true },
    Spec { prop: "C20", headers: &[], tags: &[], email: &[], strict: true },
];
pub fn spec(c: &Ctx) -> &'static Spec {
    SPECS.iter().find(|s| s.prop == c.prop).unwrap_or(&SPECS[0])
}
fn names(c: &Ctx) -> Vec<&'static str> {
    let cfg = &c.cfg;
    spec(c)
        .headers
        .iter()
        .filter(|n| (cfg.mime || !(n.starts_with("Content") || n.starts_with("MIME"))) && (cfg.disposition || **n != "Content-Disposition"))
        .copied()
        .collect()
}

pub fn header_subs(prop: &str) -> Vec<Sub> {
    let mut v = vec![sub("focus", 4, focus), sub("message", 2, message), subn("sizes", 1, sizes_count(prop), sizes_run), sub("sizes again", 1, sizes_more)];
    #[cfg(feature = "mime")]
    if prop == "C14" {
        v.push(sub("parts", 1, crate::p2::part_texts));
    }
    if prop != "C10" && prop != "C04" {
        v.push(sub("near", 4, near));
        v.push(subn("sweep", 1, sweep_count(prop), sweep));
        v.push(subn("sequences", 1, toks_count(prop), toks));
    }
    v
}

/// Some headers of interest, in an otherwise simple message.
fn focus(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    if c.prop == "C09" {
        g.words = false;
    }
    let case = focus_case(c, &mut g);
    check_spec(c, &case);
}
fn focus_case(c: &Ctx, g: &mut G) -> Case {
    let all = names(c);
    let mut lines = Vec::new();
    let mut n = g.r.range(1, 3);
    if all.is_empty() {
        n = 0;
    }
    let mut body = if g.r.chance(1, 2) { Some(b"body".to_vec()) } else { Option::None };
    for _ in 0..n {
        let name = *g.r.pick(&all);
        if !["Comments", "Keywords"].contains(&name) && lines.iter().any(|l: &Line| l.1.tag() == name) {
            continue;
        }
        if name == "Content-Transfer-Encoding" {
            body = Option::None;
        }
        lines.push(header_lines(g, name));
    }
    if ["C09", "C14", "C04"].contains(&c.prop.as_str()) {
        for _ in 0..g.r.below(3) {
            let mut o = Vec::new();
            let w = c.cfg.unrecognized && g.words;
            let v = g.other_header(&mut o, w);
            lines.push((o, v));
        }
    }
    let (mut head, mut blocks) = (Vec::new(), Vec::new());
    if c.cfg.trace && (c.prop == "C12" || ["C04", "C24"].contains(&c.prop.as_str()) && g.r.chance(1, 3)) {
        let (h, b) = g.trace_head();
        head = h;
        blocks = b;
    }
    frame_with(g, head, blocks, lines, body)
}
fn check_spec(c: &mut Ctx, case: &Case) {
    let s = spec(c);
    check_projected(c, case, s.tags, s.email);
}

/// A complete message: everything may interact with everything.
fn message(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    if c.prop == "C09" {
        g.words = false;
    }
    let all = names(c);
    let mut want = Vec::new();
    if !all.is_empty() {
        for _ in 0..g.r.range(1, 3) {
            want.push(*g.r.pick(&all));
        }
    }
    let case = g.message_with(&want);
    check_spec(c, &case);
}

/// The (dimension, size) pairs of a property, smallest first.
pub fn plan(prop: &str) -> &'static Vec<(dims::Dim2, usize)> {
    static P: OnceLock<Vec<(dims::Dim2, usize)>> = OnceLock::new();
    P.get_or_init(|| {
        let cfg = Cfg::built();
        let mut v: Vec<(dims::Dim2, usize)> = Vec::new();
        for d in dims::dims() {
            if (prop == "DIMS" || d.props.contains(&prop)) && (cfg.mime || !d.needs_mime()) {
                for n in sizes(d.max) {
                    v.push(((d.name, d.make), n));
                }
                // counters of 16 bits
                if prop != "DIMS" && d.max >= 2000 && d.max < 65537 && !cfg!(miri) {
                    for n in [4097, 8193, 10001, 16385, 32769, 65537] {
                        if n > d.max {
                            v.push(((d.name, d.make), n));
                        }
                    }
                }
            }
        }
        v.sort_by_key(|x| x.1);
        v
    })
}
pub fn sizes_count(prop: &str) -> u64 {
    plan(prop).len() as u64
}
pub fn sizes_run(c: &mut Ctx) {
    let ((name, make), n) = plan("")[c.case as usize];
    sized(c, name, make, n);
}
/// A dimension of the property, with any size.
pub fn sizes_more(c: &mut Ctx) {
    let p = plan("");
    if p.is_empty() {
        return;
    }
    let mut r = c.rng();
    let ((name, make), most) = p[r.below(p.len())];
    let n = if r.chance(1, 3) { most } else { r.size(0, 24, most.min(3000)) };
    sized(c, name, make, n.min(most));
}
fn sized(c: &mut Ctx, name: &'static str, make: fn(&mut G, usize) -> dims::Made, n: usize) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = make(&mut g, n).case(&mut g);
    c.event(&format!("size of {}", name), 1);
    let before = c.violations.len();
    match SPECS.iter().find(|s| s.prop == c.prop) {
        Some(s) => check_projected(c, &case, s.tags, s.email),
        Option::None => {
            check_case(c, &case);
        }
    }
    if c.violations.len() > before && c.verbose {
        println!("  dimension {} size {}", name, n);
    }
}

/// A small edit of a text.
pub fn edit(r: &mut Rng, b: &mut Vec<u8>, lo: usize) {
    const SNIPPETS: &[&[u8]] = &[
        b"()", b"\"\"", b"<", b">", b"..", b"@", b",", b";", b":", b"\\", b"\r\n", b"\r\n ", b"\r", b"\n", b"\0", b" ", b"\t", b"(", b")", b"\"", b"[", b"]", b".", b"=", b"*", b"'", b"%", b"?", b"/", b"+", b"-",
        b"\x7f", b"\x80", b"\xc3\xa9", b"\xff", b"a", b"0", b"  ", b"(a)", b"<>", b"[]", b"=?utf-8?Q?x?=", b"=?", b"?=", b"\x01", b"\\\"", b"\\\\", b" \r\n", b"\r\n\r\n", b"60", b"24", b":;", b"; ", b", ,", b"--", b"=\r\n", b"==", b"=20",
    ];
    if b.len() <= lo {
        return;
    }
    let p = r.range(lo, b.len());
    match r.below(10) {
        // a whole word replaced by one of another dialect, of the source or of the same text
        8 if p < b.len() => {
            const WORDS: &[&[u8]] = &[
                b"UT", b"GMT", b"UTC", b"EST", b"EDT", b"CST", b"CDT", b"MST", b"MDT", b"PST", b"PDT", b"Z", b"A", b"J", b"N", b"M", b"CET", b"+00:00", b"-1", b"+1", b"00", b"99", b"15", b"0", b"+0000", b"-0000", b"Sept", b"January", b"Monday", b"Thur", b"Tues", b"AM", b"PM", b"at", b"via", b"with",
                b"for", b"id", b"by", b"from", b"me", b"localhost", b"127.0.0.1", b"binary", b"8bit", b"uuencode", b"x-token", b"base64", b"quoted-printable", b"text", b"inline", b"1.0", b"1", b"*", b"nil", b"unknown", b"undisclosed-recipients",
            ];
            let word = |c: u8| c.is_ascii_alphanumeric() || b"+-_".contains(&c) || c > 127;
            let (mut i, mut j) = (p, p);
            while i > lo && word(b[i - 1]) && word(b[p]) {
                i -= 1;
            }
            while j < b.len() && word(b[j]) && word(b[p]) {
                j += 1;
            }
            let new: Vec<u8> = match r.below(4) {
                0 if !crate::dict::is_empty() => crate::dict::word(r).to_vec(),
                1 => {
                    let k = r.range(lo, b.len() - 1);
                    b[k..].iter().copied().take_while(|c| word(*c)).take(20).collect()
                }
                _ => r.pick(WORDS).to_vec(),
            };
            b.splice(i..j.max(i), new);
        }
        9 => {
            // forms of older grammars and frequent mistakes
            const FORMS: &[&[u8]] = &[
                b"<@a,@b:c@d>", b"<@a:c@d>", b"a.b.", b".a", b" . ", b" @ ", b" at ", b"a b@c", b"a@b c", b"<<a@b>>", b"mailto:a@b", b"a!b", b"a%b@c", b",,", b", ,", b":;", b"::", b";;", b";,", b"g:a@b", b"g:;;", b"(a)b", b"()()", b" (a) . (b) ", b"=?utf-8?Q?a@b?=", b"\"a\"\"b\"", b"\"a\".b", b"a.\"b\"", b"'a'", b"`",
                b"<a@b>", b"<a>", b"a@b@c", b"[a]", b"[", b"@[1.2.3.4]", b"a@[b]c", b"a=b", b"a =b", b"a= b", b";a=b", b";a*=b", b";a*0=b", b";a*0*=b", b";a*0*=utf-8''b", b";a=\"b", b";a", b";=b", b"/", b"a/b", b"//", b".0", b"1.", b" 1", b"-", b"--", b"+", b" \r\n\t", b"\r\n\t", b"\r\n\r\n ", b"\t",
            ];
            let f = *r.pick(FORMS);
            b.splice(p..p, f.iter().copied());
        }
        0 if p < b.len() => {
            b.remove(p);
        }
        1 if p < b.len() => b[p] = r.byte(),
        2 if p < b.len() => b[p] = *r.pick(b"()<>@,;:\\\".[]=*'%?/+- \t\r\n\0\x7f\x80a0Z"),
        3 if p + 1 < b.len() => b.swap(p, p + 1),
        4 => {
            let q = (p + r.range(1, 6)).min(b.len());
            b.drain(p..q);
        }
        5 => {
            let q = (p + r.range(1, 6)).min(b.len());
            let s = b[p..q].to_vec();
            for c in s.into_iter().rev() {
                b.insert(p, c);
            }
        }
        6 if !crate::dict::is_empty() => {
            for c in crate::dict::word(r).iter().rev() {
                b.insert(p, *c);
            }
        }
        _ => {
            for c in r.pick(SNIPPETS).iter().rev() {
                b.insert(p, *c);
            }
        }
    }
}

/// Headers with small defects, judged by the reference.
fn near(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.max_len = 8;
    g.max_count = 3;
    let mut case = if c.prop == "C20" { g.message() } else { focus_case(c, &mut g) };
    let edits = 1 + g.r.below(8) / 6;
    if g.r.chance(1, 12) && c.prop == "C20" {
        for _ in 0..edits {
            edit(&mut g.r, &mut case.bytes, 0);
        }
    } else {
        let mut head = case.head.clone();
        if !head.is_empty() && (g.r.chance(1, 3) || c.prop == "C12") {
            for _ in 0..edits {
                edit(&mut g.r, &mut head, 0);
            }
        } else {
            let all = names(c);
            let which: Vec<usize> = (0..case.lines.len()).filter(|i| all.is_empty() || all.contains(&case.lines[*i].1.tag())).collect();
            if which.is_empty() {
                return;
            }
            let k = *g.r.pick(&which);
            let lo = case.lines[k].0.iter().position(|b| *b == b':').unwrap() + if g.r.chance(1, 12) { 0 } else { 1 };
            let mut l = case.lines[k].0.clone();
            let mut end = l.split_off(l.len() - 2);
            for _ in 0..edits {
                edit(&mut g.r, &mut l, lo);
            }
            l.append(&mut end);
            case.lines[k].0 = l;
        }
        case.bytes = head;
        for l in &case.lines {
            case.bytes.extend_from_slice(&l.0);
        }
        if let Some(b) = &case.body {
            case.bytes.extend_from_slice(b"\r\n");
            case.bytes.extend_from_slice(b);
        }
    }
    judge(c, &case.bytes);
}

fn structured_counts(v: &Val) -> Option<std::collections::BTreeMap<String, usize>> {
    let mut m = std::collections::BTreeMap::new();
    if let T("Message", p) = v {
        if let L(fields) = &p[0] {
            for f in fields {
                match f {
                    Any => return Option::None,
                    T("Unknown", _) => (),
                    T("Trace", p) => {
                        *m.entry("Trace".to_string()).or_insert(0) += 1;
                        *m.entry("Return-Path".to_string()).or_insert(0) += (p[0] != None) as usize;
                        *m.entry("Received".to_string()).or_insert(0) += p[1].items().len();
                        *m.entry("Resent".to_string()).or_insert(0) += p[2].items().len();
                    }
                    f => *m.entry(f.tag().to_string()).or_insert(0) += 1,
                }
            }
            return Some(m);
        }
    }
    Option::None
}

/// Compares the library with the reference on what the property says: refusals, or the values of what is accepted.
pub fn judge(c: &mut Ctx, bytes: &[u8]) {
    let cfg = c.cfg.clone();
    let s = spec(c);
    let want = refp::message(bytes, &cfg);
    if want == Any {
        c.event("unspecified", 1);
        return;
    }
    c.eval(bytes, true);
    let got = real_message(bytes);
    if let T("Panic", _) = got {
        c.event("panic (left to C02)", 1);
        return;
    }
    let failed = |v: &Val| v.tag() == "Error";
    if s.strict {
        if failed(&want) {
            c.event("refused by the grammar", 1);
            // a failed message
            if !failed(&got) && c.prop == "C20" {
                c.violation(format!("accepted, although a line of it is not a header: {}", got.short()), bytes);
            }
            return;
        }
        if failed(&got) {
            c.event("refused by the library alone (left to C05)", 1);
            return;
        }
        if let (Some(w), Some(g)) = (structured_counts(&want), structured_counts(&got)) {
            let mine = |k: &str| c.prop == "C20" || s.tags.contains(&k);
            for (k, n) in &g {
                let m = *w.get(k).unwrap_or(&0);
                if mine(k) && *n > m {
                    let what = format!("{} structured {} field(s), the grammar allows {}: {}", n, k, m, got.short());
                    c.violation(what, bytes);
                    return;
                }
            }
        }
    }
    if c.prop == "C20" {
        return;
    }
    // values: only of the fields of interest that the grammar gives a meaning to
    let (T("Message", w), T("Message", x)) = (&want, &got) else {
        if want.tag() == "Message" && c.prop == "C15" {
            c.event("refused by the library alone (left to C05)", 1);
        }
        return;
    };
    let (L(w), L(x)) = (&w[0], &x[0]) else { return };
    if w.len() != x.len() {
        if c.prop == "C12" && !w.contains(&Any) {
            c.expect("parse_message", bytes, &project_message(&want, s.tags), &project_message(&got, s.tags));
        }
        c.event("other number of fields (left to C04 and C20)", 1);
        return;
    }
    let mut aligned = true;
    for (a, b) in w.iter().zip(x) {
        if *a == Any {
            c.event("unspecified field", 1);
            aligned = false;
            continue;
        }
        if a.tag() == "Unknown" && b.tag() != "Unknown" {
            aligned = false;
            continue;
        }
        if s.tags.contains(&a.tag()) {
            c.event("valid field of interest", 1);
            if !c.expect("parse_message", bytes, a, b) {
                return;
            }
        }
    }
    if !aligned {
        return;
    }
    let want = refp::email(bytes, &cfg);
    if want.tag() == "Email" {
        let got = real_email(bytes);
        if got.tag() == "Email" {
            c.expect("Email::parse", bytes, &project_email(&want, s.email), &project_email(&got, s.email));
        }
    }
}

/// Valid headers from which all one-byte edits are tried.
pub const SEEDS: &[(&str, &str)] = &[
    ("From", "a@b"),
    ("From", " A \"b c\" <d.e@f.g>"),
    ("From", "x@y,\r\n z@t (c)"),
    ("From", " (a(b)\\)c) \"q\\\"r\"@[1.2.3 4] "),
    ("Sender", " Jean <j@k.l>"),
    ("Sender", "\"a b\"@c"),
    ("Reply-To", " g: a@b, C <d@e>;"),
    ("Reply-To", " x@y"),
    ("To", " a@b, G h:;, \"i\" <j@k>"),
    ("To", "<a@b>"),
    ("To", " a.b@c.d.e"),
    ("To", " a@[1:2] , b@c"),
    ("To", " g: a@b ; , c@d"),
    ("To", " =?utf-8?Q?a?= b <c@d>"),
    ("Cc", " a@b\r\n\t(x)"),
    ("Cc", " \"\" <a@b>"),
    ("Bcc", ""),
    ("Bcc", " (a) "),
    ("Bcc", " a@b"),
    ("Date", " Thu, 1 Jan 2015 10:20:30 -0545"),
    ("Date", " 31 dec 1999 23:59 +0000"),
    ("Date", "\r\n Fri,\r\n 09 Oct\t20150 00:00:60 +1459 (x)"),
    ("Date", " Sun, 5 Feb 1900 00:01:02 +9959"),
    ("Message-ID", " <a.b@c.d>"),
    ("Message-ID", " (x) <a@[b c]>"),
    ("Message-ID", "<a@[]> (y)"),
    ("In-Reply-To", " <a@b> <c@d>"),
    ("In-Reply-To", "<a@b>"),
    ("References", " <a@b>\r\n <c.d@[e]> (x)"),
    ("References", "<a@b><c@d>"),
    ("Keywords", " a, \"b c\" d,\r\n e"),
    ("Keywords", "a"),
    ("Subject", " a b"),
    ("Subject", " =?utf-8?Q?=C3=A9_x?= =?utf-8?B?w6k=?= z"),
    ("Subject", " a\r\n b \r\n\tc "),
    ("Comments", " =?iso-8859-1*fr?q?=E9?="),
    ("Comments", "x"),
    ("Content-Description", " a =?us-ascii?Q?b?="),
    ("Subject", " =?utf-8?q?a?= =?utf-8?q?b?=c =?utf-8?b?ZA==?="),
    ("X-Other", " a\r\n b"),
    ("X-Other", " =?utf-8?Q?=C3=A9?= x"),
    ("MIME-Version", " 1.0"),
    ("MIME-Version", " (a) 1 . 25 (b)"),
    ("Content-Type", " text/plain"),
    ("Content-Type", " Text/Html; charset=utf-8"),
    ("Content-Type", " multipart/mixed; boundary=\"a b\"; x=y"),
    ("Content-Type", " image/x-y ; (c) a=\"b\\\"c\" (d)"),
    ("Content-Type", " x/y; a*=utf-8''%C3%A9"),
    ("Content-Type", " x/y; a*0=b; a*1=\"c\"; d=e"),
    ("Content-Type", " x/y; a*0*=utf-8'en'%c3%A9; a*1*=%41; a*2=z"),
    ("Content-Transfer-Encoding", " base64"),
    ("Content-Transfer-Encoding", " 7bit (x)"),
    ("Content-Transfer-Encoding", " quoted-printable"),
    ("Content-ID", " <a@b>"),
    ("Content-ID", " <a.b@[c]> (d)"),
    ("Content-Disposition", " inline"),
    ("Content-Disposition", " attachment; filename=a.b"),
    ("Content-Disposition", " attachment; filename=\"a b\"; size=12; x=y"),
    ("Content-Disposition", " x; creation-date=\"1 Jan 2015 10:20:30 +0000\""),
    ("Content-Disposition", " attachment; filename*=utf-8''%C3%A9"),
    ("Content-Disposition", " attachment; filename*0*=utf-8''%C3%A9; filename*1=b"),
    ("Received", " from a.b (c) by d; 1 Jan 2015 10:20:30 -0545"),
    ("Received", ";1 Jan 2015 10:20:30 -0545"),
    ("Received", " by [1.2] for <a@b> id c@d ; Thu, 1 Jan 2015 10:20 -0545 (x)"),
    ("Return-Path", " <a@b>"),
    ("Return-Path", " < >"),
    ("Return-Path", "<\"a b\"@c.d> (x)"),
    ("Resent-Date", " 1 Jan 2015 10:20:30 -0545"),
    ("Resent-From", " a@b, C <d@e>"),
    ("Resent-Sender", " a@b"),
    ("Resent-To", " g:a@b;, c@d"),
    ("Resent-Cc", " a@b"),
    ("Resent-Bcc", " "),
    ("Resent-Bcc", " a@b"),
    ("Resent-Message-ID", " <a@b>"),
    ("Resent-Message-ID", " <a.b@c.d>"),
    ("Received", " from a.b.c by d.e@f.g <h.i@j.k> ; 1 Jan 2015 10:20:30 -0545"),
    ("Return-Path", " <a.b@c.d>"),
];
const RECEIVED: &str = "Received: by x; 1 Jan 2015 10:20:30 -0545\r\n";

fn seeds(prop: &str) -> Vec<usize> {
    let s = SPECS.iter().find(|s| s.prop == prop);
    (0..SEEDS.len())
        .filter(|i| {
            let n = SEEDS[*i].0;
            let trace = n.starts_with("Re") && !["References", "Reply-To"].contains(&n);
            match s {
                _ if prop == "C20" => true,
                Some(s) if prop == "C12" => trace && s.prop == "C12",
                Some(_) if prop == "C24" && trace => true,
                Some(s) => s.headers.contains(&n) || n == "X-Other" && s.tags.contains(&"Unknown"),
                Option::None => true,
            }
        })
        .collect()
}
fn seed_message(i: usize, line: &[u8]) -> Vec<u8> {
    one_header(SEEDS[i].0, line)
}
/// A message with one header of interest.
fn one_header(n: &str, line: &[u8]) -> Vec<u8> {
    let mut m = Vec::new();
    match n {
        "Return-Path" => {
            m.extend_from_slice(line);
            m.extend_from_slice(RECEIVED.as_bytes());
        }
        "Received" => m.extend_from_slice(line),
        _ if n.starts_with("Resent-") => {
            m.extend_from_slice(RECEIVED.as_bytes());
            m.extend_from_slice(line);
        }
        _ => m.extend_from_slice(line),
    }
    if n != "From" {
        m.extend_from_slice(FROM.as_bytes());
    } else {
        m.extend_from_slice(b"Sender: s@t\r\n");
    }
    if n != "Date" {
        m.extend_from_slice(DATE.as_bytes());
    }
    m
}
/// (seed, position) pairs
fn sweep_plan(prop: &str) -> &'static Vec<(usize, usize)> {
    static P: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        for i in seeds(prop) {
            for p in 0..SEEDS[i].0.len() + 1 + SEEDS[i].1.len() + 2 {
                v.push((i, p));
            }
        }
        // spread
        let mut r = Rng::new(7);
        r.shuffle(&mut v);
        v
    })
}
pub fn sweep_count(prop: &str) -> u64 {
    sweep_plan(prop).len() as u64
}
pub fn sweep(c: &mut Ctx) {
    let (i, p) = sweep_plan("")[c.case as usize];
    let line = format!("{}:{}\r\n", SEEDS[i].0, SEEDS[i].1).into_bytes();
    c.event("one-byte edits swept (positions)", 1);
    let mut try_ = |c: &mut Ctx, l: &[u8]| {
        let m = seed_message(i, l);
        judge(c, &m);
    };
    for b in 0..=255u8 {
        let mut l = line.clone();
        l[p] = b;
        try_(c, &l);
        let mut l = line.clone();
        l.insert(p, b);
        try_(c, &l);
        if c.violations.len() >= 5 {
            return;
        }
    }
    let mut l = line.clone();
    l.remove(p);
    try_(c, &l);
    for q in p + 1..line.len() {
        let mut l = line.clone();
        l.drain(p..q);
        try_(c, &l);
    }
    if p + 1 < line.len() {
        let mut l = line.clone();
        l.swap(p, p + 1);
        try_(c, &l);
    }
    for s in [&b"\r\n "[..], b"\r\n\t", b" \r\n ", b"(x)", b"()", b"\"x\"", b"\r\n\r\n", b"=?utf-8?Q?x?=", b"\\\"", b"\\(", b"((x)", b"(x))", b"a b", b"..", b"<>", b"[x]", b",,", b";;"] {
        let mut l = line[..p].to_vec();
        l.extend_from_slice(s);
        l.extend_from_slice(&line[p..]);
        try_(c, &l);
    }
}

// ---------------------------------------------------------------- sequences of pieces of the grammar

struct Toks {
    headers: &'static [&'static str],
    /// pieces
    toks: &'static [&'static str],
    /// values cut in pieces by `|`
    bases: &'static [&'static str],
}
const DATE_TOKS: &[&str] = &["Thu", "Fri", ",", " ", "1", "31", "Jan", "Feb", "2015", "1899", "10", ":", "20", "59", "60", "+0000", "-1260", "EST", "(c)", "\r\n "];
const TOKS: &[Toks] = &[
    Toks {
        headers: &["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Resent-From", "Resent-Sender", "Resent-To", "Resent-Cc", "Resent-Bcc"],
        toks: &["a", "@", ".", "<", ">", ",", ";", ":", "\"q\"", "(c)", " ", "[1]", "=?utf-8?q?x?=", "a@b", "<c@d>", "g:", "\r\n "],
        bases: &["a|@|b", "x| |<|a|@|b|>", "g:|a@b|,|x <c@d>|;", "\"q\"|@|[1]", "a|.|b|@|c|.|d|,|e|<c@d>", "(c)|a|(c)|@|(c)|b|(c)", "a| |\"q\"| |=?utf-8?q?x?=| |<c@d>", "g|:|;|,|h|:|a@b|;"],
    },
    Toks {
        headers: &["Message-ID", "In-Reply-To", "References", "Content-ID", "Return-Path", "Resent-Message-ID"],
        toks: &["a", "@", ".", "<", ">", ",", "\"q\"", "(c)", " ", "[1]", "[", "]", "<a@b>", "\r\n "],
        bases: &["<|a|@|b|>", "<|a|.|b|@|c|.|d|>", "<a@b>| |<|c|@|[1]|>", " |(c)|<|a|@|b|>|(c)", "<|a|@|[|x|]|>", "<|>"],
    },
    Toks { headers: &["Date", "Resent-Date"], toks: DATE_TOKS, bases: &["Thu|,| |1| |Jan| |2015| |10|:|20|:|59| |+0000", "1| |Jan| |2015| |10|:|20| |-1200|(c)"] },
    Toks {
        headers: &["Content-Type"],
        toks: &["text", "/", "multipart", ";", " ", "charset", "a", "=", "utf-8", "\"q\"", "(c)", "*", "*0", "*1", "utf-8''%41", "'", "%C3%A9", "\r\n ", "boundary", ".", "\""],
        bases: &["text|/|plain|;| |charset|=|utf-8", "text|/|x|;|a|*0|=|b|;|a|*1|=|\"q\"", "text|/|x|;|a|*|=|utf-8''%41", "x|/|y|;|a|*0|*|=|utf-8''%41|;|a|*1|*|=|%C3%A9", "multipart|/|mixed|;|boundary|=|\"q\"|;|a|=|b"],
    },
    Toks {
        headers: &["Content-Disposition"],
        toks: &["inline", ";", " ", "filename", "size", "read-date", "=", "a", "12", "\"q\"", "(c)", "*", "*0", "utf-8''%41", "\"1 Jan 2015 10:20:30 +0000\"", "\"never\"", "\r\n "],
        bases: &["attachment|;| |filename|=|a", "inline|;|size|=|12|;|read-date|=|\"1 Jan 2015 10:20:30 +0000\"", "x|;|filename|*|=|utf-8''%41|;|a|=|\"q\"", "x|;|filename|*0|=|a|;|filename|*1|=|\"q\""],
    },
    Toks { headers: &["Content-Transfer-Encoding"], toks: &["7bit", "base64", "quoted-printable", "8BIT", "x", "-", " ", "(c)", ";", "\"q\"", "\r\n "], bases: &[" |base64|(c)"] },
    Toks { headers: &["MIME-Version"], toks: &["1", "0", "10", "255", "256", ".", " ", "(c)", "-", "\r\n ", "a"], bases: &[" |1|.|0", "(c)|1|(c)|.| |0| |(c)"] },
    Toks { headers: &["Keywords"], toks: &["a", "b c", ",", " ", "\"q\"", "(c)", "=?utf-8?q?x?=", "\r\n ", ".", ";", "\"\""], bases: &["a|,|b", "a| |\"q\"|,| |=?utf-8?q?x?=|(c)"] },
    Toks {
        headers: &["Subject", "Comments", "Content-Description", "X-Other"],
        toks: &["a", " ", "\t", "\r\n ", "\r\n\t", "=?utf-8?q?x?=", "=?utf-8?B?eQ==?=", "=?", "?=", "(c)", "\"", "\\", "\u{e9}", "=?iso-8859-1?Q?=E9?="],
        bases: &[" |a| |b", " |=?utf-8?q?x?=| |=?utf-8?B?eQ==?=", "a|\r\n |=?utf-8?q?x?=|\r\n |=?iso-8859-1?Q?=E9?=| |b"],
    },
    Toks {
        headers: &["Received"],
        toks: &["from", "by", " ", "a", "b.c", "a@b", "<a@b>", "(c)", ";", ",", "1 Jan 2015 10:20:30 +0000", "\"q\"", "[1]", "\r\n ", "<", ">"],
        bases: &["from| |a| |by| |b.c| |(c)|;| |1 Jan 2015 10:20:30 +0000", "for| |<a@b>|;|1 Jan 2015 10:20:30 +0000"],
    },
];
#[derive(Clone, Copy)]
enum Seq {
    /// every sequence that begins with these two
    Start(usize, usize, usize),
    /// every edit of a base edited there
    Edit(usize, usize, usize),
}
fn toks_edits(t: &Toks, l: usize) -> usize {
    let n = t.toks.len();
    (l + 1) * n + l * n + l + l.saturating_sub(1)
}
/// Inserts, replaces, removes or swaps pieces.
fn toks_edit(t: &Toks, v: &mut Vec<&'static str>, k: usize) {
    let (l, n) = (v.len(), t.toks.len());
    if k < (l + 1) * n {
        v.insert(k / n, t.toks[k % n]);
        return;
    }
    let k = k - (l + 1) * n;
    if k < l * n {
        v[k / n] = t.toks[k % n];
        return;
    }
    let k = k - l * n;
    if k < l {
        v.remove(k);
        return;
    }
    v.swap(k - l, k - l + 1);
}
fn toks_mine(prop: &str, t: &Toks) -> Vec<&'static str> {
    let s = SPECS.iter().find(|s| s.prop == prop);
    t.headers
        .iter()
        .filter(|n| {
            let trace = **n == "Received" || **n == "Return-Path" || n.starts_with("Resent-");
            match s {
                _ if prop == "C20" || prop == "C18" => **n != "X-Other",
                Some(_) if prop == "C12" => trace,
                Some(_) if prop == "C24" && trace => true,
                Some(s) => s.headers.contains(n) || **n == "X-Other" && s.tags.contains(&"Unknown"),
                Option::None => false,
            }
        })
        .copied()
        .collect()
}
fn toks_plan(prop: &str) -> &'static Vec<Seq> {
    static P: OnceLock<std::sync::Mutex<std::collections::HashMap<String, &'static Vec<Seq>>>> = OnceLock::new();
    let mut all = P.get_or_init(Default::default).lock().unwrap();
    if let Some(v) = all.get(prop) {
        return v;
    }
    let mut v = Vec::new();
    for (i, t) in TOKS.iter().enumerate() {
        if toks_mine(prop, t).is_empty() {
            continue;
        }
        for a in 0..t.toks.len() {
            for b in 0..t.toks.len() {
                v.push(Seq::Start(i, a, b));
            }
        }
        for (j, b) in t.bases.iter().enumerate() {
            for k in 0..toks_edits(t, b.split('|').count()) {
                v.push(Seq::Edit(i, j, k));
            }
        }
    }
    let mut r = Rng::new(11);
    r.shuffle(&mut v);
    let v: &'static Vec<Seq> = Box::leak(Box::new(v));
    all.insert(prop.to_string(), v);
    v
}
pub fn toks_count(prop: &str) -> u64 {
    toks_plan(prop).len() as u64
}
pub fn toks(c: &mut Ctx) {
    let prop = c.prop.clone();
    let seq = toks_plan(&prop)[c.case as usize];
    let i = match seq {
        Seq::Start(i, ..) | Seq::Edit(i, ..) => i,
    };
    let t = &TOKS[i];
    let mine = toks_mine(&prop, t);
    let mut n = c.case as usize;
    let mut try_ = |c: &mut Ctx, v: &[&str]| {
        if c.violations.len() >= 5 {
            return;
        }
        let name = mine[n % mine.len()];
        n += 1;
        let line = format!("{}:{}\r\n", name, v.concat());
        let m = one_header(name, line.as_bytes());
        if prop == "C18" {
            check_reference(c, &m);
        } else {
            judge(c, &m);
        }
    };
    match seq {
        Seq::Start(_, a, b) => {
            c.event("starts of sequences of pieces", 1);
            let (a, b) = (t.toks[a], t.toks[b]);
            for name in 0..mine.len() {
                let _ = name;
                try_(c, &[]);
                try_(c, &[a]);
                try_(c, &[a, b]);
            }
            for x in t.toks {
                try_(c, &[a, b, x]);
                for y in t.toks {
                    try_(c, &[a, b, x, y]);
                }
            }
        }
        Seq::Edit(_, j, k) => {
            c.event("edits of sequences of pieces", 1);
            let mut v: Vec<&'static str> = t.bases[j].split('|').collect();
            toks_edit(t, &mut v, k);
            for name in 0..mine.len() {
                let _ = name;
                try_(c, &v);
            }
            for k in 0..toks_edits(t, v.len()) {
                let mut v = v.clone();
                toks_edit(t, &mut v, k);
                try_(c, &v);
            }
        }
    }
}

// ---------------------------------------------------------------- C04

/// Structured fields reduced to their name; unrecognized and repeatable ones in full.
fn skeleton(v: &Val) -> Val {
    match v {
        T("Message", p) => {
            let f = p[0]
                .items()
                .iter()
                .map(|f| match f {
                    T(t @ ("Unknown" | "Comments" | "Keywords" | "Trace"), v) => T(t, v.clone()),
                    T(t, _) => T(t, vec![]),
                    x => x.clone(),
                })
                .collect();
            match &p[0] {
                L(_) => T("Message", vec![L(f), Any]),
                x => T("Message", vec![x.clone(), Any]),
            }
        }
        T("Error", _) => T("Error", vec![]),
        v => v.clone(),
    }
}
/// Invalid contents, that no reading of the grammar admits.
pub fn malformed(g: &mut G, name: &str) -> Option<Vec<u8>> {
    let t: &[&str] = match name {
        "Date" | "Resent-Date" => &[" never", " 32 Jan 2015 10:20:30 +0000", " 1 Jan 2015", " 1 Jan 2015 10:20:30", " 1 Jan 1899 10:20:30 +0000", " 1 Foo 2015 10:20:30 +0000", " 1 Jan 2015 24:00:00 +0000", " 1 Jan 2015 10:20:30 +0060", " Xyz, 1 Jan 2015 10:20:30 +0000", " 1 Jan 2015 10:20:30 +0000 x"],
        "From" | "To" | "Cc" | "Reply-To" | "Sender" => &[" @", " a", " a@", " @b", " <a@b", " a@b,", " a@b c", " a@b;", " \"a@b", " (a@b", " a@b)", " <a@b> x", "", " ,", " a..b@c", " a@b..c", " a@[b"],
        "Bcc" => &[" @", " a", " a@", " <a@b", " a@b,", " a@b c", " \"a@b", " (a@b", " ,", " a@b)", " a..b@c"],
        "Message-ID" | "Content-ID" | "In-Reply-To" | "References" => &[" a@b", " <a>", " <@>", " <a@>", " <@b>", " <a@b", " a@b>", " <a b@c>", " <a@b c>", " <a@b> x", "", " <a@(x)b>"],
        "Keywords" => &["", " ,", " a,", " ,a", " a,,b", " \"a", " (a", " a@b", " a;b"],
        "MIME-Version" => &["", " 1", " 1.", " .0", " a.b", " 1.0.0", " 1.0 x", " 256.0", " 1.1000"],
        "Content-Type" => &["", " text", " text/", " /plain", " text/plain;a", " text/plain a=b", " text/plain; =b", " text/plain; a=\"b", " te xt/plain"],
        "Content-Transfer-Encoding" => &["", " base64 x", " (base64", " ba se64"],
        "Content-Disposition" => &["", " ;", " attachment; a", " attachment a=b", " attachment; a=\"b", " (attachment"],
        "Received" => &["", " x", " x;", " x; never", " from a.b by c", " x 1 Jan 2015 10:20:30 +0000"],
        "Return-Path" => &["", " <", " <a>", " <a@b", " a b"],
        _ => return Option::None,
    };
    // the compatibility fixes accept some of them
    let t = loop {
        let t = g.r.pick(t);
        if !g.cfg.compat || !t.contains("..") {
            break t;
        }
    };
    Some(t.as_bytes().to_vec())
}

/// Valid, malformed, unknown and repeated headers in any order.
fn mixes(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.words = false;
    let mut lines: Vec<Line> = Vec::new();
    let cfg = c.cfg.clone();
    let mut all: Vec<&'static str> = vec!["From", "Sender", "Reply-To", "To", "Cc", "Bcc", "Date", "Message-ID", "In-Reply-To", "References", "Keywords", "Subject", "Comments", "Comments", "Keywords"];
    if cfg.mime {
        all.extend(["MIME-Version", "Content-Type", "Content-ID", "Content-Description"]);
    }
    if cfg.disposition {
        all.push("Content-Disposition");
    }
    let repeat = g.r.chance(1, 3);
    let n = if g.r.chance(1, 20) { g.r.range(1, 60) } else { g.r.range(1, 14) };
    for _ in 0..n {
        let name = *g.r.pick(&all);
        let k = g.r.below(10);
        if k < 4 {
            if !repeat && name != "Comments" && name != "Keywords" && lines.iter().any(|l| l.1.tag() == name) {
                continue;
            }
            lines.push(header_lines(&mut g, name));
        } else if k < 7 {
            let name = if g.r.chance(1, 6) { *g.r.pick(&["Received", "Return-Path", "Resent-Date", "Resent-To"]) } else { name };
            if let Some(v) = malformed(&mut g, if name == "Resent-To" { "To" } else { name }) {
                let shown = if g.r.chance(2, 3) { name.as_bytes().to_vec() } else { g.case(name) };
                let mut l = shown.clone();
                l.push(b':');
                l.extend_from_slice(&v);
                l.extend_from_slice(b"\r\n");
                lines.push((l, T("Unknown", vec![S(String::from_utf8(shown).unwrap()), refp::unknown_value(&v, &cfg)])));
            }
        } else {
            let mut o = Vec::new();
            let v = g.other_header(&mut o, false);
            lines.push((o, v));
        }
    }
    let (mut head, mut blocks) = (Vec::new(), Vec::new());
    if cfg.trace && g.r.chance(1, 3) {
        let (h, b) = g.trace_head();
        head = h;
        blocks = b;
    }
    let mut case = if g.r.chance(3, 4) && !repeat {
        frame_with(&mut g, head, blocks, lines, Some(b"x".to_vec()))
    } else {
        let mut bytes = head.clone();
        let mut fields = blocks;
        for (l, f) in &lines {
            bytes.extend_from_slice(l);
            fields.push(f.clone());
        }
        Case { bytes, fields, body: Option::None, head, lines, parsed: Option::None }
    };
    // a malformed resent or received header just after a block is ambiguous for nobody: it ends the block
    let orphan = g.r.chance(1, 10) && case.head.is_empty();
    if orphan {
        let v = b" x@y";
        let mut b = b"Resent-To: x@y\r\n".to_vec();
        b.extend_from_slice(&case.bytes);
        case.bytes = b;
        case.fields.insert(0, T("Unknown", vec![Val::s("Resent-To"), refp::unknown_value(v, &cfg)]));
    }
    c.eval(&case.bytes, true);
    c.event("headers", case.lines.len() as u64);
    c.event("blocks", (case.fields.len() - case.lines.len()) as u64);
    let m = skeleton(&case.message_val(&cfg));
    let got = skeleton(&real_message(&case.bytes));
    let b = case.bytes.clone();
    c.expect_model("parse_message", &b, &m, || skeleton(&refp::message(&b, &cfg)), &got);
    let m = case.email_val(&cfg);
    if m.tag() == "Email" {
        let names = spec(c).email;
        let got = project_email(&real_email(&b), names);
        c.expect_model("Email::parse", &b, &project_email(&m, names), || project_email(&refp::email(&b, &cfg), names), &got);
    }
}
/// A complete valid message: all its headers.
fn all_headers(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.words = false;
    let case = g.message();
    let cfg = c.cfg.clone();
    c.eval(&case.bytes, true);
    c.event("headers", case.lines.len() as u64);
    let m = skeleton(&case.message_val(&cfg));
    let got = skeleton(&real_message(&case.bytes));
    c.expect_model("parse_message", &case.bytes, &m, || skeleton(&refp::message(&case.bytes, &cfg)), &got);
    let names = spec(c).email;
    let m = project_email(&case.email_val(&cfg), names);
    let got = project_email(&real_email(&case.bytes), names);
    c.expect_model("Email::parse", &case.bytes, &m, || project_email(&refp::email(&case.bytes, &cfg), names), &got);
}
pub fn c04() -> Vec<Sub> {
    vec![sub("mixes", 6, mixes), sub("message", 2, all_headers), subn("sizes", 1, sizes_count("C04"), sizes_run), sub("sizes again", 1, sizes_more)]
}

// ---------------------------------------------------------------- C05

const UNIQUE: [&str; 17] = [
    "From", "Date", "Sender", "Reply-To", "To", "Cc", "Bcc", "Message-ID", "In-Reply-To", "References", "Subject", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Content-ID", "Content-Description",
    "Content-Disposition",
];
fn plain_name(s: &str) -> String {
    s.to_ascii_lowercase().replace('-', " ")
}
/// Builds a message with the given number of valid and malformed occurrences of each header.
fn cardinality_case(c: &Ctx, g: &mut G, counts: &[(&'static str, usize, usize)]) -> (Case, Vec<String>) {
    let cfg = c.cfg.clone();
    let mut lines: Vec<Line> = Vec::new();
    let mut errors = Vec::new();
    let (mut from, mut authors, mut sender, mut date) = (0, Vec::new(), 0, 0);
    let mut encoding = false;
    for (name, valid, bad) in counts {
        let mut copy: Option<Line> = Option::None;
        for _ in 0..*valid {
            // the same header again, or another
            let l = match copy.take() {
                Some(l) => l,
                Option::None => header_lines(g, name),
            };
            if g.r.chance(1, 3) {
                copy = Some(l.clone());
            }
            if *name == "From" {
                authors.push(l.1.items()[0].items().len());
            }
            lines.push(l);
        }
        for _ in 0..*bad {
            if let Some(v) = malformed(g, name) {
                let mut l = format!("{}:", name).into_bytes();
                l.extend_from_slice(&v);
                l.extend_from_slice(b"\r\n");
                lines.push((l, T("Unknown", vec![Val::s(name), refp::unknown_value(&v, &cfg)])));
            }
        }
        if *valid > 1 {
            errors.push(format!("duplicate {}", plain_name(name)));
        }
        match *name {
            "From" => from = *valid,
            "Sender" => sender = *valid,
            "Date" => date = *valid,
            "Content-Transfer-Encoding" => encoding = true,
            _ => (),
        }
    }
    if from == 0 {
        errors.push("missing from".into());
    }
    if date == 0 {
        errors.push("missing date".into());
    }
    if sender == 0 && (from == 0 || authors.iter().any(|n| *n != 1)) {
        errors.push("missing sender".into());
    }
    // repeatable headers never matter
    for _ in 0..g.r.below(3) {
        let mut o = Vec::new();
        let v = match g.r.below(3) {
            0 => g.header(&mut o, "Comments"),
            1 => g.header(&mut o, "Keywords"),
            _ => g.other_header(&mut o, c.cfg.unrecognized),
        };
        lines.push((o, v));
    }
    g.r.shuffle(&mut lines);
    let body = if encoding || g.r.chance(1, 2) { Option::None } else { Some(b"b".to_vec()) };
    let (mut head, mut blocks) = (Vec::new(), Vec::new());
    if cfg.trace && g.r.chance(1, 10) {
        // the resent fields are not occurrences of the headers
        let (h, b) = g.trace_head();
        head = h;
        blocks = b;
    }
    let mut bytes = head.clone();
    let mut fields = blocks;
    for (l, f) in &lines {
        bytes.extend_from_slice(l);
        fields.push(f.clone());
    }
    if let Some(b) = &body {
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(b);
    }
    (Case { bytes, fields, body, head, lines, parsed: Option::None }, errors)
}
fn check_cardinality(c: &mut Ctx, case: &Case, errors: &[String]) {
    c.eval(&case.bytes, true);
    let got = real_email(&case.bytes);
    let names: Vec<String> = case.lines.iter().map(|l| if l.1.tag() == "Unknown" { "unrecognized".to_string() } else { l.1.tag().to_string() }).collect();
    match &got {
        T("Panic", _) => c.event("panic (left to C02)", 1),
        T("Email", v) => {
            c.event("accepted", 1);
            if !errors.is_empty() {
                c.violation(format!("accepted, although {} (headers: {})", errors.join(", "), names.join(", ")), &case.bytes);
                return;
            }
            // the sender
            if c.cfg.from && c.cfg.sender {
                let explicit = case.lines.iter().find(|l| l.1.tag() == "Sender").map(|l| l.1.items()[0].clone());
                let expected = explicit.unwrap_or_else(|| case.lines.iter().find(|l| l.1.tag() == "From").unwrap().1.items()[0].items()[0].clone());
                let s = v[0].get("sender").cloned().unwrap_or(None);
                let b = case.bytes.clone();
                c.expect("sender", &b, &expected, &s);
            }
        }
        T("Error", v) => {
            let S(e) = &v[0] else { return };
            c.event("refused", 1);
            let e = plain_name(e);
            if errors.is_empty() {
                if matches!(refp::email(&case.bytes, &c.cfg), T("Email", _)) {
                    c.violation(format!("refused with the error {:?}, although nothing is missing or duplicated (headers: {})", e, names.join(", ")), &case.bytes);
                } else {
                    c.inconclusive(format!("refused: {}", e), &case.bytes);
                }
            } else if !errors.contains(&e) {
                c.violation(format!("refused with the error {:?}, expected one of: {} (headers: {})", e, errors.join(", "), names.join(", ")), &case.bytes);
            } else {
                c.event(&format!("error {}", e), 1);
            }
        }
        _ => (),
    }
}
fn usable(c: &Ctx) -> Vec<&'static str> {
    UNIQUE.iter().filter(|n| (c.cfg.mime || !(n.starts_with("Content") || n.starts_with("MIME"))) && (c.cfg.disposition || **n != "Content-Disposition")).copied().collect()
}
fn cardinality(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let all = usable(c);
    let k = g.r.below(4);
    let mut counts = Vec::new();
    for n in &all {
        let needed = ["From", "Date"].contains(n);
        let valid = match k {
            // valid, mostly
            0 => needed as usize + if !needed && g.r.chance(1, 3) { 1 } else { 0 },
            1 => {
                if needed {
                    *g.r.pick(&[1, 1, 1, 1, 0, 2])
                } else {
                    *g.r.pick(&[0, 0, 0, 0, 1, 1, 1, 2])
                }
            }
            _ => {
                if needed {
                    1
                } else {
                    g.r.below(2)
                }
            }
        };
        let bad = if g.r.chance(1, 8) { g.r.range(1, 2) } else { 0 };
        counts.push((*n, valid, bad));
    }
    if k == 3 {
        // exactly one defect
        let i = g.r.below(counts.len());
        let needed = i < 2;
        counts[i].1 = if needed && g.r.chance(1, 2) { 0 } else { g.r.range(2, 3) };
    }
    let (case, errors) = cardinality_case(c, &mut g, &counts);
    check_cardinality(c, &case, &errors);
}
/// Every pair of headers with every pair of counts.
fn pairs(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.max_len = 6;
    g.max_count = 2;
    let all = usable(c);
    let n = all.len() as u64;
    let mut k = c.case;
    let mut next = |m: u64| {
        let x = k % m;
        k /= m;
        x as usize
    };
    let (i, j, a, b, bad) = (next(n), next(n), next(3), next(3), next(2));
    let mut counts: Vec<(&'static str, usize, usize)> = all.iter().map(|n| (*n, ["From", "Date"].contains(n) as usize, 0)).collect();
    counts[i].1 = a;
    counts[i].2 = bad;
    if i != j {
        counts[j].1 = b;
    }
    let (case, errors) = cardinality_case(c, &mut g, &counts);
    check_cardinality(c, &case, &errors);
}
fn authors(c: &mut Ctx) {
    // number of authors × sender present or not
    let mut g = G::new(c.rng(), &c.cfg);
    let n = (c.case / 2 + 1) as usize;
    // different authors, or the same one repeated
    let who = |i: usize| if g.r.clone().chance(1, 4) { 0 } else { i };
    let l: Vec<String> = (0..n).map(|i| format!("u{}@d", who(i))).collect();
    let v = L((0..n).map(|i| mbox_val(Option::None, &format!("u{}", who(i)), "d")).collect());
    let mut lines = vec![(format!("From: {}\r\n", l.join(", ")).into_bytes(), T("From", vec![v])), (DATE.into(), date_val())];
    let with = c.case % 2 == 1;
    if with {
        lines.push((b"Sender: s@t\r\n".to_vec(), T("Sender", vec![mbox_val(Option::None, "s", "t")])));
    }
    g.r.shuffle(&mut lines);
    let bytes: Vec<u8> = lines.iter().flat_map(|l| l.0.clone()).collect();
    let case = Case { bytes, fields: lines.iter().map(|l| l.1.clone()).collect(), body: Option::None, head: vec![], lines, parsed: Option::None };
    let errors = if n > 1 && !with { vec!["missing sender".to_string()] } else { vec![] };
    check_cardinality(c, &case, &errors);
}
/// A valid message of any kind is accepted; with a repeated or a removed header it is refused.
fn valid_messages(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message();
    check_cardinality(c, &case, &[]);
    let cfg = c.cfg.clone();
    let uniq: Vec<usize> = (0..case.lines.len()).filter(|i| UNIQUE.contains(&case.lines[*i].1.tag())).collect();
    let i = *g.r.pick(&uniq);
    let mut d = case.clone();
    let l = d.lines[i].clone();
    let tag = l.1.tag();
    let p = g.r.below(d.lines.len() + 1);
    let mut errors = vec![format!("duplicate {}", plain_name(tag))];
    d.lines.insert(p, l);
    let rebuild = |d: &mut Case| {
        d.bytes = d.head.clone();
        for l in &d.lines {
            d.bytes.extend_from_slice(&l.0);
        }
        if let Some(b) = &d.body {
            d.bytes.extend_from_slice(b"\r\n");
            d.bytes.extend_from_slice(b);
        }
    };
    rebuild(&mut d);
    if refp::email(&d.bytes, &cfg).tag() == "Error" {
        check_cardinality(c, &d, &errors);
    }
    let mut d = case.clone();
    let tag = d.lines[i].1.tag();
    d.lines.remove(i);
    rebuild(&mut d);
    errors.clear();
    let has = |d: &Case, t: &str| d.lines.iter().any(|l| l.1.tag() == t);
    if !has(&d, "From") {
        errors.push("missing from".into());
    }
    if !has(&d, "Date") {
        errors.push("missing date".into());
    }
    let n = d.lines.iter().find(|l| l.1.tag() == "From").map(|l| l.1.items()[0].items().len());
    if !has(&d, "Sender") && n != Some(1) {
        errors.push("missing sender".into());
    }
    if errors.is_empty() && ["Content-Transfer-Encoding", "Content-Type"].contains(&tag) {
        // it is another message then
        if refp::email(&d.bytes, &cfg).tag() != "Email" {
            return;
        }
    }
    check_cardinality(c, &d, &errors);
}
pub fn c05() -> Vec<Sub> {
    let n = usable_count();
    vec![
        sub("cardinality", 6, cardinality),
        subn("pairs", 4, n * n * 18, pairs),
        subn("authors", 1, 600, authors),
        sub("message", 2, valid_messages),
    ]
}
fn usable_count() -> u64 {
    let cfg = Cfg::built();
    UNIQUE.iter().filter(|n| (cfg.mime || !(n.starts_with("Content") || n.starts_with("MIME"))) && (cfg.disposition || **n != "Content-Disposition")).count() as u64
}

// ---------------------------------------------------------------- C07

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAYS: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];

/// The place of a date in a message: (bytes, path to the date)
fn date_sites(c: &Ctx, text: &str) -> Vec<Vec<u8>> {
    let mut v = vec![format!("{}Date:{}\r\n", FROM, text)];
    if c.cfg.trace {
        v.push(format!("Received: by x;{}\r\n{}{}", text, FROM, DATE));
        v.push(format!("{}Resent-Date:{}\r\n{}{}", RECEIVED, text, FROM, DATE));
    }
    if c.cfg.disposition {
        for p in ["creation-date", "modification-date", "read-date"] {
            v.push(format!("{}{}Content-Disposition: attachment; {}=\"{}\"\r\n", FROM, DATE, p, text.trim_start()));
        }
    }
    v.into_iter().map(String::into_bytes).collect()
}
fn check_date_site(c: &mut Ctx, b: &[u8]) {
    let cfg = c.cfg.clone();
    let want = refp::message(b, &cfg);
    if want == Any {
        c.event("unspecified", 1);
        return;
    }
    c.eval(b, true);
    let got = real_message(b);
    if got.tag() == "Panic" {
        return;
    }
    c.expect("parse_message", b, &want, &got);
    let want = refp::email(b, &cfg);
    let got = real_email(b);
    if got.tag() == "Panic" {
        return;
    }
    c.expect("Email::parse", b, &want, &got);
}
/// Components of a date, exhaustively.
fn components(c: &mut Ctx) {
    let n = c.case;
    let text = component_text(n);
    let mut sites = date_sites(c, &text);
    if n >= COMMON {
        // the main site always, the others in turn
        let k = 1 + (n as usize) % (sites.len() - 1).max(1);
        let s = sites.get(k).cloned();
        sites.truncate(1);
        sites.extend(s);
    }
    for s in sites {
        check_date_site(c, &s);
    }
}
const COMMON: u64 = 1110 + 300 + 12 * 8 + 7 * 8 + 400;
const COMPONENTS: u64 = COMMON + 12000 + 20000 + 26 * 26 * 26 * 2;
fn component_text(n: u64) -> String {
    let mut n = n;
    let case3 = |s: &str, k: u64| -> String { s.bytes().enumerate().map(|(i, c)| if k >> i & 1 == 1 { (c as char).to_ascii_uppercase() } else { (c as char).to_ascii_lowercase() }).collect() };
    // days: 1 to 3 digits
    if n < 1110 {
        let d = if n < 10 {
            format!("{}", n)
        } else if n < 110 {
            format!("{:02}", n - 10)
        } else {
            format!("{:03}", n - 110)
        };
        return format!(" {} Jan 2015 10:20:30 -0545", d);
    }
    n -= 1110;
    if n < 300 {
        let (k, v) = (n / 100, n % 100);
        let mut t = ["10".to_string(), "20".to_string(), "30".to_string()];
        t[k as usize] = format!("{:02}", v);
        return format!(" 1 Jan 2015 {} +0000", t.join(":"));
    }
    n -= 300;
    if n < 12 * 8 {
        return format!(" 1 {} 2015 10:20:30 +0000", case3(MONTHS[(n / 8) as usize], n % 8));
    }
    n -= 12 * 8;
    if n < 7 * 8 {
        return format!(" {}, 1 Jan 2015 10:20:30 +0000", case3(DAYS[(n / 8) as usize], n % 8));
    }
    n -= 7 * 8;
    if n < 400 {
        // forms of the time and of the zone
        let times = ["1:20:30", "10:2:30", "10:20:3", "10:20", "10", "10:20:", "10:20:30:40", "010:20:30", "10:020:30", "10:20:030", "10.20.30", "10 :20:30", "10: 20:30", "10:20 :30", "", ":20:30", "1020", "-1:20:30", "+1:20:30", "10:20:30.5"];
        let zones = ["+0000", "-0000", "+000", "+00000", "0000", "+00:00", "GMT", "Z", "EST", "", "+", "+a000", "+000a", "- 0000", "--0000", "+0 000", "+0000x", "+0000 x", "+0000 (x)", "+0000()"];
        return format!(" 1 Jan 2015 {} {}", times[(n / 20) as usize], zones[(n % 20) as usize]);
    }
    n -= 400;
    if n < 12000 {
        // years: 4 digits, then other lengths
        let y = if n < 10000 {
            format!("{:04}", n)
        } else if n < 10010 {
            format!("{}", n - 10000)
        } else if n < 10110 {
            format!("{:02}", n - 10010)
        } else if n < 11110 {
            format!("{:03}", n - 10110)
        } else {
            let k = n - 11110;
            let mut r = Rng::new(k);
            let len = r.range(5, 24);
            let mut s: String = (0..len).map(|_| (b'0' + r.below(10) as u8) as char).collect();
            if k % 3 == 0 {
                s = format!("0000{}", &s[..s.len().min(5)]);
            }
            s
        };
        return format!(" 1 Jan {} 10:20:30 +0000", y);
    }
    n -= 12000;
    if n < 20000 {
        return format!(" 1 Jan 2015 10:20:30 {}{:04}", if n < 10000 { '+' } else { '-' }, n % 10000);
    }
    n -= 20000;
    let k = n % (26 * 26 * 26);
    let s: String = [k / 676, k / 26 % 26, k % 26].iter().map(|x| (b'a' + *x as u8) as char).collect();
    if n < 26 * 26 * 26 {
        format!(" 1 {} 2015 10:20:30 +0000", s)
    } else {
        format!(" {}, 1 Jan 2015 10:20:30 +0000", s)
    }
}
/// Random valid dates at every place where a date may be.
fn date_places(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let mut o = vec![b' '];
    let d = g.date_time(&mut o);
    g.end_gap(&mut o);
    let text = String::from_utf8(o).unwrap();
    let _ = d;
    for s in date_sites(c, &text).iter().take(3) {
        check_date_site(c, s);
    }
    // in a disposition the date is inside a quoted string
    let mut g = G::new(c.rng(), &c.cfg);
    g.noise = 0;
    let mut o = vec![b' '];
    g.date_time(&mut o);
    let text = String::from_utf8(o).unwrap();
    if !text.contains('"') && !text.contains('\\') {
        for s in date_sites(c, &text).iter().skip(3) {
            check_date_site(c, s);
        }
    }
}
pub fn c07() -> Vec<Sub> {
    let mut v = header_subs("C07");
    v.push(subn("components", 20, COMPONENTS, components));
    v.push(sub("places", 2, date_places));
    v
}

// ---------------------------------------------------------------- C10

/// The same message with other comments, folds and letter case, and its distinct headers permuted.
fn metamorphic(c: &mut Ctx) {
    compare_variants(c, &|c, seed, noise| {
        let mut g = G::new(c.rng(), &c.cfg);
        g.redecorate(seed, noise);
        g.message()
    });
}
fn metamorphic_focus(c: &mut Ctx) {
    compare_variants(c, &|c, seed, noise| {
        let mut g = G::new(c.rng(), &c.cfg);
        g.redecorate(seed, noise);
        focus_case(c, &mut g)
    });
}
fn compare_variants(c: &mut Ctx, make: &dyn Fn(&Ctx, u64, usize) -> Case) {
    let cfg = c.cfg.clone();
    let mut r = Rng::derive(c.seed, "decorations", c.case);
    let plain = make(c, 1, 0);
    let ma = model_of(&plain, &cfg);
    let a = structured(&real_email(&plain.bytes));
    let fa = structured(&real_message(&plain.bytes));
    for noise in [1, 2] {
        let other = make(c, r.next(), noise);
        if model_of(&other, &cfg) != ma {
            c.event("decoration changed the choices (skipped)", 1);
            continue;
        }
        c.eval(&other.bytes, other.bytes != plain.bytes);
        let b = structured(&real_email(&other.bytes));
        let fb = structured(&real_message(&other.bytes));
        pair(c, "Email::parse, other comments, folding or case", &plain.bytes, &other.bytes, &a, &b, &cfg);
        pair(c, "parse_message, other comments, folding or case", &plain.bytes, &other.bytes, &fa, &fb, &cfg);
    }
    // permutation: headers of the same name keep their order
    let mut lines = plain.lines.clone();
    r.shuffle(&mut lines);
    let key = |l: &Line| if l.1.tag() == "Unknown" { "Unknown" } else { l.1.tag() };
    let mut used = vec![false; plain.lines.len()];
    let mut perm = Vec::new();
    for l in &lines {
        let k = key(l);
        let i = (0..plain.lines.len()).find(|i| !used[*i] && key(&plain.lines[*i]) == k).unwrap();
        used[i] = true;
        perm.push(plain.lines[i].clone());
    }
    let mut bytes = plain.head.clone();
    for l in &perm {
        bytes.extend_from_slice(&l.0);
    }
    if let Some(b) = &plain.body {
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(b);
    }
    c.eval(&bytes, bytes != plain.bytes);
    let b = structured(&real_email(&bytes));
    pair(c, "Email::parse, headers permuted", &plain.bytes, &bytes, &a, &b, &cfg);
    c.event("permutations", 1);
}
fn model_of(case: &Case, cfg: &Cfg) -> Val {
    T("Both", vec![structured(&case.message_val(cfg)), structured(&case.email_val(cfg))])
}
/// White space of free texts is content; comments, folds and letter case of the rest are not.
fn structured(v: &Val) -> Val {
    v.clone()
}
fn pair(c: &mut Ctx, what: &str, a: &[u8], b: &[u8], va: &Val, vb: &Val, cfg: &Cfg) {
    if va.tag() == "Panic" || vb.tag() == "Panic" {
        c.event("panic (left to C02)", 1);
        return;
    }
    if let Some((path, x, y)) = crate::val::diff(va, vb) {
        // both unspecified for the reference?
        if refp::email(b, cfg) == Any || refp::email(a, cfg) == Any {
            c.inconclusive(format!("{}: differ at {}: {} / {}", what, path, x, y), b);
            return;
        }
        c.violation(format!("{}: at {}: {} became {} (before: {})", what, path, x, y, escape(a, 1500)), b);
    }
}
/// Names of which a single letter, at any place, or a random selection of letters, is in another case.
fn one_letter(c: &mut Ctx) {
    let mut r = c.rng();
    let cfg = c.cfg.clone();
    const SITES: &[&str] = &[
        "Content-Type: {}/x", "Content-Type: x/{}", "Content-Type: text/{}; a=b", "Content-Type: multipart/{}; boundary=b", "Content-Type: a/b; {}=v", "Content-Type: a/b; {}*=us-ascii''v", "Content-Type: a/b; c=d; {}*0=v; {}*1=w",
        "Content-Type: a/b; {}*0*=utf-8''v; {}*1=w", "Content-Disposition: {}", "Content-Disposition: {}; filename=f", "Content-Disposition: inline; {}=v", "Content-Disposition: inline; {}*=us-ascii''v",
    ];
    let site = *r.pick(SITES);
    let hi = *r.pick(&[8usize, 8, 70, 70, 70, 300]);
    let n = r.range(1, hi);
    let name: Vec<u8> = (0..n).map(|_| if r.chance(1, 8) { *r.pick(b"0123456789-_.+") } else { b'a' + r.below(26) as u8 }).collect();
    let mut other = name.clone();
    let up = r.chance(1, 2);
    let k = r.below(4);
    let (lo, hi) = (r.below(n), r.below(n + 1));
    for i in 0..n {
        let change = match k {
            0 => i == lo,
            1 => i >= lo,
            2 => i < hi,
            _ => r.chance(1, 2),
        };
        if change == up {
            other[i] = other[i].to_ascii_uppercase();
        }
    }
    let make = |name: &[u8]| format!("{}{}{}\r\n\r\nbody", FROM, DATE, site.replace("{}", std::str::from_utf8(name).unwrap())).into_bytes();
    let (a, b) = (make(&name), make(&other));
    c.eval(&b, a != b);
    c.event("letter case of a long name", 1);
    let (ea, eb) = (real_email(&a), real_email(&b));
    pair(c, "Email::parse, other letter case", &a, &b, &ea, &eb, &cfg);
    let (fa, fb) = (real_message(&a), real_message(&b));
    pair(c, "parse_message, other letter case", &a, &b, &fa, &fb, &cfg);
}
pub fn c10() -> Vec<Sub> {
    let mut v = header_subs("C10");
    v.push(sub("metamorphic", 3, metamorphic));
    v.push(sub("variants", 3, metamorphic_focus));
    v.push(sub("letter case of long names", 1, one_letter));
    v
}

// ---------------------------------------------------------------- C20

/// Lines that are not headers, and other line breaks, at any place of a message.
fn bad_lines(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message();
    let k = g.r.below(5);
    let mut bytes = case.head.clone();
    let n = case.lines.len();
    let at = g.r.below(n + 1);
    for i in 0..=n {
        if i == at && k > 0 {
            const BAD: &[&str] = &[
                "no colon\r\n", ": no name\r\n", "a b: c\r\n", "a : c\r\n", "name\r\n", "x\u{e9}y: z\r\n", "a: b\rc\r\n", "a: b\nc\r\n", "a: b\0c\r\n", "a: b\u{7f}c\r\n", "a: b\u{1}c\r\n", "a: b\n", "a: b\r", "\n", "\r",
                "a\r\n : b\r\n", "a\t: b\r\n", "\0: b\r\n", "a: \u{e9}\r\n", ".\r\n", "From a@b Thu Jan 1 10:20:30 2015\r\n",
            ];
            bytes.extend_from_slice(g.r.pick(BAD).as_bytes());
        }
        if i < n {
            let l = &case.lines[i].0;
            if k == 0 && i == at {
                bytes.extend_from_slice(&l[..l.len() - 2]);
                bytes.extend_from_slice(g.r.pick(&[&b"\n"[..], b"\r", b"\n\r", b"\r\r\n", b"\0", b"\x0b", b"\x85"]));
            } else {
                bytes.extend_from_slice(l);
            }
        }
    }
    if let Some(b) = &case.body {
        bytes.extend_from_slice(b"\r\n");
        bytes.extend_from_slice(b);
    }
    judge(c, &bytes);
}
/// Malformed contents of every header, at every site.
fn bad_headers(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    const NAMES: &[&str] = &["Date", "From", "To", "Cc", "Reply-To", "Sender", "Bcc", "Message-ID", "Content-ID", "In-Reply-To", "References", "Keywords", "MIME-Version", "Content-Type", "Content-Transfer-Encoding", "Content-Disposition", "Received", "Return-Path", "Resent-Date"];
    let name = *g.r.pick(NAMES);
    let v = malformed(&mut g, name).unwrap();
    let mut l = g.case(name);
    l.push(b':');
    l.extend_from_slice(&v);
    l.extend_from_slice(b"\r\n");
    let mut m = Vec::new();
    if name == "Resent-Date" {
        m.extend_from_slice(RECEIVED.as_bytes());
    }
    m.extend_from_slice(&l);
    if name == "Return-Path" {
        m.extend_from_slice(RECEIVED.as_bytes());
    }
    m.extend_from_slice(FROM.as_bytes());
    m.extend_from_slice(DATE.as_bytes());
    judge(c, &m);
}
/// Every number at every place for numbers.
fn numbers(c: &mut Ctx) {
    for m in crate::gen::numbered(c.case) {
        judge(c, &m);
    }
}
/// Comments that are not closed as many times as they are opened, and other openers without their closers.
fn depths(c: &mut Ctx) {
    const AT: &[&str] = &[
        "To: {}a@b", "To: a@b{}", "To: a{}@b", "To: a@{}b", "To: x{} <a@b>", "To: <{}a@b>", "To: <a@b>{}", "To: g:{}a@b;", "To: g:{};", "To: g:;{}", "To: a@b,{} c@d", "Cc: a@[1]{}", "Bcc: {}", "Sender: {}a@b", "Reply-To: a@b {}", "Date: 1 Jan 2015 10:20:30 +0000{}", "Message-ID: {}<a@b>",
        "In-Reply-To: <a@b>{}<c@d>", "References: <a@b>{}", "Keywords: {}a", "Keywords: a{},b", "MIME-Version: 1{}.0", "MIME-Version: {}1.0", "Content-Type: {}text/plain", "Content-Type: text/plain{}", "Content-Type: text/plain {}; a=b", "Content-Type: text/plain; a=b{}",
        "Content-Transfer-Encoding: {}7bit", "Content-Transfer-Encoding: 7bit{}", "Content-ID: <a@b>{}", "Content-Disposition: inline{}", "Content-Disposition: inline;{}a=b", "Received: a{};1 Jan 2015 10:20:30 +0000", "Received: a;1 Jan 2015 10:20:30 +0000{}", "Received: a;1 Jan 2015 10:20:30 +0000\r\nReturn-Path: {}<a@b>",
    ];
    let mut r = c.rng();
    let n = match r.below(4) {
        0 => r.range(1, 10),
        1 => *r.pick(&[15usize, 16, 17, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024]),
        2 if r.chance(1, 8) => *r.pick(&[32767usize, 32768, 65535, 65536, 65537]),
        2 => crate::dict::number(&mut r, 2000).max(1),
        _ => r.range(1, 600),
    };
    let k = match r.below(6) {
        0 => 0,
        1 => n + 1,
        2 => n.saturating_sub(256),
        3 => n.saturating_sub(r.range(1, 3)),
        4 => n + 256,
        _ => r.below(2 * n),
    };
    let text = match r.below(5) {
        0 => "(".repeat(n) + "c" + &")".repeat(k),
        1 => "(".repeat(n) + &")".repeat(k),
        2 => "(a".repeat(n) + &"b)".repeat(k),
        3 => "()(".repeat(n) + &")".repeat(k),
        _ => "(\\(\\)".repeat(n) + &")".repeat(k),
    };
    let b = format!("{}\r\n{}{}", r.pick(AT).replace("{}", &text), FROM, DATE);
    c.event("unbalanced comments", (n != k) as u64);
    judge(c, b.as_bytes());
}
/// Something large with a small edit.
fn large_edited(c: &mut Ctx) {
    let p = plan("DIMS");
    let mut g = G::new(c.rng(), &c.cfg);
    let ((_, make), most) = p[g.r.below(p.len())];
    let n = if g.r.chance(1, 2) { most.min(3000) } else { crate::dict::number(&mut g.r, most.min(1100)) };
    let mut b = make(&mut g, n).case(&mut g).bytes;
    if b.len() > 30000 {
        return;
    }
    let end = b.windows(4).position(|w| w == b"\r\n\r\n").map_or(b.len(), |i| i + 2);
    let tail = b.split_off(end);
    for _ in 0..g.r.range(1, 3) {
        edit(&mut g.r, &mut b, 0);
    }
    b.extend(tail);
    judge(c, &b);
}
/// A valid prefix followed by something, at every truncation point.
fn truncations(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    g.max_len = 6;
    g.max_count = 2;
    let case = g.message();
    for n in 0..case.bytes.len().min(600) {
        judge(c, &case.bytes[..n]);
        if c.violations.len() >= 5 {
            return;
        }
    }
}
// ---------------------------------------------------------------- C24

/// Places of dot-atoms
const DOT_SITES: &[(&str, &str)] = &[
    ("To", " {}@b"),
    ("Cc", "a@{}"),
    ("Bcc", " n <{}@b>, c@d"),
    ("Reply-To", " g: <a@{}> ;"),
    ("From", " {}@{}"),
    ("Sender", "<a@{}>"),
    ("Message-ID", " <{}@b>"),
    ("Message-ID", "<a@{}>"),
    ("In-Reply-To", " <a@b><{}@{}>"),
    ("References", " <a@{}> <c@d>"),
    ("Received", " from {} by x; 1 Jan 2015 10:20:30 -0545"),
    ("Received", " <a@{}>;1 Jan 2015 10:20:30 -0545"),
    ("Return-Path", " <{}@b>"),
    ("Resent-To", " a@{}"),
    ("Resent-Message-ID", "<{}@b>"),
    ("Keywords", " {}"),
    ("To", " {} <a@b>"),
];
const DOT_PIECES: &[&str] = &["a", ".", " ", "-"];
const DOT_LEN: u32 = 6;
fn dots_count() -> u64 {
    DOT_SITES.len() as u64 * (0..=DOT_LEN).map(|n| 4u64.pow(n)).sum::<u64>()
}
/// Every short text at every place of a dot-atom, judged by the reference.
fn dots(c: &mut Ctx) {
    let (name, t) = DOT_SITES[(c.case % DOT_SITES.len() as u64) as usize];
    let mut k = c.case / DOT_SITES.len() as u64;
    let mut n = 0;
    while k >= 4u64.pow(n) {
        k -= 4u64.pow(n);
        n += 1;
    }
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(DOT_PIECES[(k % 4) as usize]);
        k /= 4;
    }
    let m = one_header(name, format!("{}:{}\r\n", name, t.replace("{}", &s)).as_bytes());
    judge(c, &m);
}
/// A longer text of dots and other pieces at several places.
fn dots_random(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let (name, t) = *g.r.pick(DOT_SITES);
    let mut v = t.to_string();
    while let Some(p) = v.find("{}") {
        let n = g.r.range(1, 12);
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(g.r.pick(&["a", "b-c", "1", ".", ".", "..", "...", "é", "\"", "(x)", "\r\n ", "@", "<", "_", "=", "\0", "\\", ",", "[", "~"][..if c.case % 3 == 0 { 20 } else { 7 }]));
        }
        if g.r.chance(1, 60) {
            let n = g.r.range(1, 400);
            s.push_str(&".".repeat(n));
        }
        v.replace_range(p..p + 2, &s);
    }
    let m = one_header(name, format!("{}:{}\r\n", name, v).as_bytes());
    judge(c, &m);
}

fn flat(v: &Val, out: &mut Vec<(String, String)>) {
    match v {
        T("Trace", p) => {
            if let T("Some", _) = p[0] {
                out.push(("Return-Path".into(), format!("{:?}", p[0])));
            }
            for k in 1..p.len() {
                for r in p[k].items() {
                    out.push((["", "Received", "Resent"][k.min(2)].into(), format!("{:?}", r)));
                }
            }
        }
        v => out.push((v.tag().into(), format!("{:?}", v))),
    }
}
fn no_odd_dot(b: &[u8]) -> bool {
    (0..b.len()).all(|i| b[i] != b'.' || b.get(i + 1).map_or(false, |c| c.is_ascii_alphanumeric() || b"!#$%&'*+-/=?^_`{|}~".contains(c)))
}
/// Records what this build reads; a checker compares the records of two builds.
fn build_pairs(c: &mut Ctx) {
    let mut r = c.rng();
    let mut cfg = Cfg::all();
    cfg.compat = r.chance(1, 2);
    let mut g = G::new(Rng::new(r.next()), &cfg);
    let mut case = if r.chance(1, 3) { g.message() } else { focus_case(c, &mut g) };
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            edit(&mut r, &mut case.bytes, 0);
        }
    }
    // dots where they are not expected
    if r.chance(1, 4) {
        let at: Vec<usize> = case.bytes.iter().enumerate().filter(|(_, b)| **b == b'.' || **b == b'@' || **b == b'>').map(|x| x.0).collect();
        if !at.is_empty() {
            for _ in 0..r.range(1, 3) {
                let p = (*r.pick(&at) + r.below(2)).min(case.bytes.len());
                case.bytes.insert(p, b'.');
            }
        }
    }
    let b = &case.bytes;
    let plain = no_odd_dot(b);
    c.eval(b, true);
    let mut fields = Vec::new();
    let mut status = 0u8;
    match real_message(b) {
        T("Message", p) => {
            for f in p[0].items() {
                flat(f, &mut fields);
            }
            fields.push(("Body".into(), format!("{:?}", &p[1..])));
            status = 1;
        }
        v => fields.push(("".into(), format!("{:?}", v))),
    }
    let mut email = format!("{:?}", real_email(b));
    if !no_odd_dot(email.as_bytes()) {
        // in a decoded part
        email.clear();
    }
    if c.verbose {
        c.sample(|| format!("{} plain {} fields {:?} email {}", escape(b, show()), plain, fields, email));
    }
    let mut o: Vec<u8> = Vec::new();
    o.extend(c.case.to_le_bytes());
    o.push(plain as u8);
    o.push(status);
    o.extend(crate::rng::fnv(b).to_le_bytes());
    o.extend(crate::rng::fnv(email.as_bytes()).to_le_bytes());
    for (t, v) in fields {
        o.push((t == "Unknown") as u8);
        o.extend((crate::rng::fnv(v.as_bytes()) ^ crate::rng::fnv(t.as_bytes()).rotate_left(9)).to_le_bytes());
    }
    c.event(if plain { "messages without odd dots compared" } else { "messages with odd dots compared" }, 1);
    c.corpus.push((0, o));
}
pub fn c24() -> Vec<Sub> {
    let mut v = header_subs("C24");
    v.push(subn("dots", 40, dots_count(), dots));
    v.push(sub("odd", 8, dots_random));
    v
}
pub fn pairs_subs() -> Vec<Sub> {
    vec![sub("pairs", 1, build_pairs)]
}

pub fn c20() -> Vec<Sub> {
    vec![
        subn("sweep", 2, sweep_count("C20"), sweep),
        subn("sequences", 2, toks_count("C20"), toks),
        subn("numbers", 2, crate::gen::numbered_count(), numbers),
        sub("near", 30, near),
        sub("lines", 8, bad_lines),
        sub("malformed", 4, bad_headers),
        sub("truncations", 1, truncations),
        sub("depths", 1, depths),
        sub("large, edited", 2, large_edited),
    ]
}
