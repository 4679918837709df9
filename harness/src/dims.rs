//! Dimensions along which a message can grow: each gives a message of a chosen size, with what it denotes.
use crate::gen::{b64, Case, G};
use crate::refp::{self, id_val};
use crate::val::{Val, Val::*};
use crate::work::*;

pub struct Dim {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub max: usize,
    pub make: fn(&mut G, usize) -> Made,
}

impl Dim {
    pub fn needs_mime(&self) -> bool {
        self.props.iter().any(|p| ["C13", "C14", "C15", "C16", "C17", "C22"].contains(p))
    }
}

pub type Dim2 = (&'static str, fn(&mut G, usize) -> Made);

#[derive(Default)]
pub struct Made {
    pub lines: Vec<Line>,
    pub head: Vec<u8>,
    pub blocks: Vec<Val>,
    pub body: Option<Vec<u8>>,
}

impl Made {
    pub fn case(self, g: &mut G) -> Case {
        frame_with(g, self.head, self.blocks, self.lines, self.body)
    }
}

const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";

fn word(g: &mut G, n: usize) -> String {
    (0..n).map(|_| *g.r.pick(LETTERS) as char).collect()
}
/// Letters, or any printable character but these; one out of three times, some of the latter rather often.
fn among(g: &mut G, n: usize, but: &[u8], more: &[u8]) -> String {
    match g.r.below(3) {
        0 => word(g, n),
        k => {
            let all: Vec<u8> = (33..127u8).chain(more.iter().copied()).filter(|c| !but.contains(c)).collect();
            let few: Vec<u8> = (0..4).map(|_| *g.r.pick(&all)).collect();
            let s: String = (0..n).map(|_| if k == 1 && g.r.chance(1, 4) { *g.r.pick(&few) } else { *g.r.pick(&all) } as char).collect();
            // nothing that looks like an encoded word
            s.replace("=?", "=x")
        }
    }
}
fn atext(g: &mut G, n: usize) -> String {
    among(g, n, b"()<>[]:;@\\,.\"", b"")
}
fn qtext(g: &mut G, n: usize) -> String {
    among(g, n, b"\\\"", b" ")
}
fn dtext(g: &mut G, n: usize) -> String {
    among(g, n, b"[]\\", b"")
}
fn ctext(g: &mut G, n: usize) -> String {
    among(g, n, b"()\\", b" ")
}
fn vtext(g: &mut G, n: usize) -> String {
    among(g, n, b"", b"")
}
fn tchars(g: &mut G, n: usize) -> String {
    among(g, n, b"()<>@,;:\\\"/[]?=", b"")
}
/// A text of n characters that a charset can represent, and its percent-encoded form
fn percented(g: &mut G, cs: &str, n: usize) -> (String, String) {
    let (b, v) = g.charset_text(cs, n);
    let all = g.r.chance(1, 3);
    let t = b.iter().map(|c| if !all && c.is_ascii_alphanumeric() { (*c as char).to_string() } else { format!("%{:02X}", c) }).collect();
    (t, v)
}
fn rep(n: usize, f: impl FnMut(usize) -> String) -> Vec<String> {
    (0..n).map(f).collect()
}
fn line(text: String, v: Val) -> Made {
    Made { lines: vec![(text.into_bytes(), v)], ..Made::default() }
}
/// A header with an address list, with a random name among those that hold one
fn adr(g: &mut G, text: &str, items: Vec<Val>) -> Made {
    let n = *g.r.pick(&["To", "Cc", "Bcc", "Reply-To"]);
    line(format!("{}: {}\r\n", n, text), T(n, vec![L(items)]))
}
/// A header with a mailbox
fn mbx(g: &mut G, text: &str, item: Val) -> Made {
    match g.r.below(6) {
        0 => line(format!("From: {}\r\n", text), T("From", vec![L(vec![item])])),
        1 => line(format!("Sender: {}\r\n", text), T("Sender", vec![item])),
        2 => line(format!("From: x@y, {}\r\nSender: s@t\r\n", text), Any).with(
            vec![
                (format!("From: x@y, {}\r\n", text).into_bytes(), T("From", vec![L(vec![mbox_val(Option::None, "x", "y"), item])])),
                (b"Sender: s@t\r\n".to_vec(), T("Sender", vec![mbox_val(Option::None, "s", "t")])),
            ],
        ),
        _ => adr(g, text, vec![item]),
    }
}
impl Made {
    fn with(mut self, lines: Vec<Line>) -> Made {
        self.lines = lines;
        self
    }
}
fn free(g: &mut G, text: &str, value: &str) -> Made {
    match g.r.below(4) {
        0 => line(format!("Comments:{}\r\n", text), T("Comments", vec![Val::s(value)])),
        1 => line(format!("X-Other:{}\r\n", text), T("Unknown", vec![Val::s("X-Other"), Val::s(value)])),
        2 if g.cfg.mime => line(format!("Content-Description:{}\r\n", text), T("Content-Description", vec![Val::s(value)])),
        _ => line(format!("Subject:{}\r\n", text), T("Subject", vec![Val::s(value)])),
    }
}
/// A free text with encoded words: not an unrecognized header, unless these are decoded.
fn free_enc(g: &mut G, text: &str, value: &str) -> Made {
    match g.r.below(4) {
        0 => line(format!("Comments:{}\r\n", text), T("Comments", vec![Val::s(value)])),
        1 if g.cfg.unrecognized => line(format!("X-Other:{}\r\n", text), T("Unknown", vec![Val::s("X-Other"), Val::s(value)])),
        2 => line(format!("Content-Description:{}\r\n", text), T("Content-Description", vec![Val::s(value)])),
        _ => line(format!("Subject:{}\r\n", text), T("Subject", vec![Val::s(value)])),
    }
}
fn ctype(text: &str, kind: Val, subtype: &str, params: Vec<(String, String)>) -> Made {
    line(
        format!("Content-Type: {}\r\n", text),
        T("Content-Type", vec![kind, Val::s(subtype), M(params.into_iter().map(|(k, v)| (k, S(v))).collect())]),
    )
}
fn app(params: &str, v: Vec<(String, String)>) -> Made {
    ctype(&format!("application/x{}", params), Val::s("application"), "x", v)
}
fn disp(params: &str, filename: Option<String>, other: Vec<(String, String)>) -> Made {
    line(
        format!("Content-Disposition: attachment{}\r\n", params),
        T(
            "Content-Disposition",
            vec![T("Disp", vec![Val::s("attachment"), Val::opt(filename.map(S)), None, None, None, M(other.into_iter().map(|(k, v)| (k, S(v))).collect())])],
        ),
    )
}
const RDATE: &str = "1 Jan 2015 10:20:30 -0545";
fn rdate() -> Val {
    refp::Dt { weekday: Option::None, day: 1, month: 1, year: 2015, hour: 10, minute: 20, second: 30, sign: false, zone: (5, 45) }.val()
}
fn trace(head: String, blocks: Vec<Val>) -> Made {
    Made { head: head.into_bytes(), blocks, ..Made::default() }
}
fn block(rp: Val, received: Vec<Vec<refp::Tok>>, resent: Vec<refp::Resent>) -> Val {
    T(
        "Trace",
        vec![
            rp,
            L(received.iter().map(|t| T("Received", vec![L(t.iter().map(|t| t.val()).collect()), rdate()])).collect()),
            L(resent.iter().map(|r| r.val()).collect()),
        ],
    )
}
fn mime(headers: Vec<Line>, body: Vec<u8>) -> Made {
    Made { lines: headers, body: Some(body), ..Made::default() }
}
fn ct_line(text: &str, kind: &str, subtype: &str, params: &[(&str, &str)]) -> Line {
    let m = params.iter().map(|(k, v)| (k.to_string(), Val::s(v))).collect();
    (format!("Content-Type: {}\r\n", text).into_bytes(), T("Content-Type", vec![Val::s(kind), Val::s(subtype), M(m)]))
}
fn cte_line(e: &str) -> Line {
    (format!("Content-Transfer-Encoding: {}\r\n", e).into_bytes(), T("Content-Transfer-Encoding", vec![Val::s(e)]))
}
fn blanks(g: &mut G, n: usize) -> String {
    let t = g.r.below(3);
    (0..n).map(|_| if t == 0 || t == 2 && g.r.chance(1, 2) { ' ' } else { '\t' }).collect()
}
fn folded(g: &mut G, n: usize) -> String {
    let t = *g.r.pick(&["\r\n ", " \r\n\t", "\t\r\n  "]);
    t.repeat(n)
}

// a fold must be followed by something else than white space: `x` after each of them keeps every line non-empty
fn comments(g: &mut G, n: usize) -> String {
    let t = *g.r.pick(&["()", "(a) ", "(\\))", "(a\r\n b)", "((x)y)"]);
    t.repeat(n)
}

pub fn dims() -> Vec<Dim> {
    let mut v: Vec<Dim> = Vec::new();
    let mut d = |name, props, max, make| v.push(Dim { name, props, max, make });
    // ---- addresses
    const A: &[&str] = &["C06"];
    d("local atom", A, 70000, |g, n| {
        let w = atext(g, n.max(1));
        let f = *g.r.pick(&["@b.c", "@[1.2]"]);
        let dom = if f == "@b.c" { "b.c" } else { "1.2" };
        mbx(g, &format!("{}{}", w, f), mbox_val(Option::None, &w, dom))
    });
    d("local segments", &["C06", "C24"], 20000, |g, n| {
        let w = rep(n.max(1), |i| if i % 3 == 0 { "a".into() } else { "bc".into() }).join(".");
        mbx(g, &format!("<{}@d>", w), mbox_val(Option::None, &w, "d"))
    });
    d("local quoted", A, 70000, |g, n| {
        let w = qtext(g, n);
        mbx(g, &format!("\"{}\"@d", w), mbox_val(Option::None, &w, "d"))
    });
    d("local quoted escapes", A, 20000, |g, n| {
        let w = among(g, n, b"", b" \t");
        let e: String = w.chars().flat_map(|c| ['\\', c]).collect();
        mbx(g, &format!("\"{}\"@d", e), mbox_val(Option::None, &w, "d"))
    });
    d("local quoted escape position", A, 3000, |g, n| {
        let (a, b) = (qtext(g, n), qtext(g, 3));
        mbx(g, &format!("\"{}\\\"{}\"@d", a, b), mbox_val(Option::None, &format!("{}\"{}", a, b), "d"))
    });
    d("local quoted fold position", A, 3000, |g, n| {
        let (a, b) = (word(g, n), word(g, 3));
        mbx(g, &format!("\"{}\r\n {}\"@d", a, b), mbox_val(Option::None, &format!("{} {}", a, b), "d"))
    });
    d("local quoted spaces", A, 20000, |g, n| {
        let s = " ".repeat(n);
        mbx(g, &format!("\"a{}b\"@d", s), mbox_val(Option::None, &format!("a{}b", s), "d"))
    });
    d("domain atom", A, 70000, |g, n| {
        let w = atext(g, n.max(1));
        mbx(g, &format!("<a@{}>", w), mbox_val(Option::None, "a", &w))
    });
    d("domain segments", &["C06", "C24"], 20000, |g, n| {
        let w = rep(n.max(1), |i| if i % 3 == 0 { "a".into() } else { "bc".into() }).join(".");
        mbx(g, &format!("a@{}", w), mbox_val(Option::None, "a", &w))
    });
    d("domain literal", A, 70000, |g, n| {
        let w = dtext(g, n);
        mbx(g, &format!("a@[{}]", w), mbox_val(Option::None, "a", &w))
    });
    d("domain literal pieces", A, 20000, |g, n| {
        let w = dtext(g, n);
        let t: String = w.chars().flat_map(|c| [c, ' ']).collect();
        mbx(g, &format!("a@[{}]", t), mbox_val(Option::None, "a", &w))
    });
    if cfg!(feature = "compatibility-fixes") {
        d("local dots", &["C24"], 20000, |g, n| {
            let w = format!("a{}{}", ".".repeat(n), g.r.pick(&["", "b", "b.", "b..c"]));
            mbx(g, &format!("{}@d", w), mbox_val(Option::None, &w, "d"))
        });
        d("domain dots", &["C24"], 20000, |g, n| {
            let w = format!("a{}{}", ".".repeat(n), g.r.pick(&["", "b", "b.", "b..c"]));
            mbx(g, &format!("<a@{}>", w), mbox_val(Option::None, "a", &w))
        });
        d("segments and dots", &["C24"], 20000, |g, n| {
            let w = rep(n.max(1), |i| if i % 3 == 0 { "a.".into() } else { "bc".into() }).join(".");
            let x = rep(n.max(1), |i| if i % 5 == 4 { "-..".into() } else { "d".into() }).join(".");
            mbx(g, &format!("{}@{}", w, x), mbox_val(Option::None, &w, &x))
        });
        d("identifier dots", &["C24"], 20000, |g, n| {
            let w = format!("a{}{}", ".".repeat(n), g.r.pick(&["", "b", "b.", "b..c"]));
            if g.r.chance(1, 2) {
                line(format!("References: <{}@b>\r\n", w), T("References", vec![L(vec![id_val(&(w.clone(), "b".into()))])]))
            } else {
                line(format!("Message-ID: <a@{}>\r\n", w), T("Message-ID", vec![id_val(&("a".into(), w))]))
            }
        });
    }
    d("name atom", A, 70000, |g, n| {
        let w = atext(g, n.max(1));
        mbx(g, &format!("{} <a@b>", w), mbox_val(Some(&[&w]), "a", "b"))
    });
    d("name words", A, 10000, |g, n| {
        let w = rep(n.max(1), |i| format!("w{}", i));
        let r: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
        mbx(g, &format!("{} <a@b>", w.join(" ")), mbox_val(Some(&r), "a", "b"))
    });
    d("name quoted words", A, 10000, |g, n| {
        let w = rep(n.max(1), |i| format!("w {}", i));
        let r: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
        let t = w.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(" ");
        mbx(g, &format!("{}<a@b>", t), mbox_val(Some(&r), "a", "b"))
    });
    d("name mixed words", A, 5000, |g, n| {
        let w = rep(n.max(1), |i| if i % 3 == 1 { format!("w, \\{}", i) } else { format!("w{}", i) });
        let v = rep(n.max(1), |i| if i % 3 == 1 { format!("w, {}", i) } else { format!("w{}", i) });
        let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        let t = w.iter().enumerate().map(|(i, s)| if i % 3 == 1 { format!("\"{}\"", s) } else { s.clone() }).collect::<Vec<_>>().join(" ");
        mbx(g, &format!("{}<a@b>", t), mbox_val(Some(&r), "a", "b"))
    });
    d("name quoted", A, 70000, |g, n| {
        let w = qtext(g, n);
        mbx(g, &format!("\"{}\" <a@b>", w), mbox_val(Some(&[&w]), "a", "b"))
    });
    d("mailboxes", &["C06", "C05"], 10000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| format!("u{}@d{}", i, i % 7)).join(",");
        let l = L((0..n).map(|i| mbox_val(Option::None, &format!("u{}", i), &format!("d{}", i % 7))).collect());
        match g.r.below(3) {
            0 => {
                let mut m = line(format!("From: {}\r\n", t), T("From", vec![l]));
                m.lines.push((b"Sender: s@t\r\n".to_vec(), T("Sender", vec![mbox_val(Option::None, "s", "t")])));
                m
            }
            _ => adr(g, &t, l.items().to_vec()),
        }
    });
    d("named mailboxes", A, 5000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| format!("N{} \"M\" <u{}@d>", i, i)).join(" , ");
        let l = (0..n).map(|i| mbox_val(Some(&[&format!("N{}", i), "M"]), &format!("u{}", i), "d")).collect();
        adr(g, &t, l)
    });
    d("group members", A, 10000, |g, n| {
        let t = rep(n, |i| format!("u{}@d", i)).join(", ");
        let l = (0..n).map(|i| mbox_val(Option::None, &format!("u{}", i), "d")).collect();
        adr(g, &format!("G h: {};, z@z", t), vec![T("Group", vec![L(vec![Val::s("G"), Val::s("h")]), L(l)]), mbox_val(Option::None, "z", "z")])
    });
    d("groups", A, 10000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| format!("g{}:{};", i, if i % 3 == 0 { "x@y" } else { "" })).join(", ");
        let l = (0..n)
            .map(|i| {
                let m = if i % 3 == 0 { vec![mbox_val(Option::None, "x", "y")] } else { vec![] };
                T("Group", vec![L(vec![S(format!("g{}", i))]), L(m)])
            })
            .collect();
        adr(g, &t, l)
    });
    d("group name words", A, 5000, |g, n| {
        let n = n.max(1);
        let w = rep(n, |i| format!("w{}", i));
        adr(g, &format!("{}: a@b;", w.join(" ")), vec![T("Group", vec![Val::strs(&w), L(vec![mbox_val(Option::None, "a", "b")])])])
    });
    d("address comments", &["C06", "C10"], 5000, |g, n| {
        let (a, b, e, f) = (comments(g, n), comments(g, n), comments(g, n), comments(g, n));
        mbx(g, &format!("{}x{}<{}a@b{}>", a, b, e, f), mbox_val(Some(&["x"]), "a", "b"))
    });
    d("address comment length", &["C06", "C10"], 70000, |g, n| {
        let w = ctext(g, n);
        mbx(g, &format!("({}) a@b ({})", w, w), mbox_val(Option::None, "a", "b"))
    });
    d("address comment depth", &["C06", "C10"], 70000, |g, n| {
        let n = n.max(1);
        mbx(g, &format!("{}x{}a@b", "(".repeat(n), ")".repeat(n)), mbox_val(Option::None, "a", "b"))
    });
    d("address comment folds", &["C06", "C10"], 5000, |g, n| {
        let w = "\r\n x".repeat(n);
        mbx(g, &format!("a@b (c{})", w), mbox_val(Option::None, "a", "b"))
    });
    d("address spaces", &["C06", "C10"], 20000, |g, n| {
        let s = " ".repeat(n);
        mbx(g, &format!("{}x{} <{}a@b{}>{}", s, s, s, s, s), mbox_val(Some(&["x"]), "a", "b"))
    });
    d("address list folds", &["C06", "C10"], 5000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| format!("u{}@d", i)).join(",\r\n ");
        let l = (0..n).map(|i| mbox_val(Option::None, &format!("u{}", i), "d")).collect();
        adr(g, &t, l)
    });
    // ---- dates
    d("year zeros", &["C07"], 20000, |_, n| {
        line(format!("Date: 1 Jan {}2015 10:20:30 -0545\r\n", "0".repeat(n)), T("Date", vec![rdate()]))
    });
    d("date spaces", &["C07", "C10"], 20000, |g, n| {
        let s = |g: &mut G| if g.r.chance(1, 2) { " ".repeat(n.max(1)) } else { "\t".repeat(n.max(1)) };
        let t = format!("Date:{}Thu,{}1{}Jan{}2015{}10:20:30{}-0545\r\n", s(g), s(g), s(g), s(g), s(g), s(g));
        line(t, date_val())
    });
    d("date comments", &["C07", "C10"], 5000, |g, n| {
        let c = comments(g, n);
        line(format!("Date: 1 Jan 2015 10:20:30 -0545{}(end)\r\n", c), T("Date", vec![rdate()]))
    });
    // ---- message ids
    const I: &[&str] = &["C08"];
    let _ = I;
    d("ids", &["C08"], 10000, |g, n| {
        let n = n.max(1);
        let sep = *g.r.pick(&[" ", "", "\r\n ", " (c) ", "\t"]);
        let t = rep(n, |i| format!("<i{}@d>", i)).join(sep);
        let name = *g.r.pick(&["References", "In-Reply-To"]);
        line(format!("{}: {}\r\n", name, t), T(name, vec![L((0..n).map(|i| id_val(&(format!("i{}", i), "d".into()))).collect())]))
    });
    fn one_id(g: &mut G, text: String, l: &str, r: &str) -> Made {
        let v = id_val(&(l.to_string(), r.to_string()));
        match g.r.below(4) {
            0 => line(format!("Message-ID: {}\r\n", text), T("Message-ID", vec![v])),
            1 if g.cfg.mime => line(format!("Content-ID: {}\r\n", text), T("Content-ID", vec![v])),
            2 => line(format!("In-Reply-To: {}\r\n", text), T("In-Reply-To", vec![L(vec![v])])),
            _ => line(format!("References: <a@b>{}\r\n", text), T("References", vec![L(vec![id_val(&("a".into(), "b".into())), v])])),
        }
    }
    d("id left", &["C08"], 70000, |g, n| {
        let w = atext(g, n.max(1));
        one_id(g, format!("<{}@d>", w), &w, "d")
    });
    d("id left segments", &["C08"], 20000, |g, n| {
        let w = rep(n.max(1), |_| "x".into()).join(".");
        one_id(g, format!("<{}@d>", w), &w, "d")
    });
    d("id right", &["C08"], 70000, |g, n| {
        let w = atext(g, n.max(1));
        one_id(g, format!("<d@{}>", w), "d", &w)
    });
    d("id right segments", &["C08"], 20000, |g, n| {
        let w = rep(n.max(1), |_| "x".into()).join(".");
        one_id(g, format!("<d@{}>", w), "d", &w)
    });
    d("id literal", &["C08"], 70000, |g, n| {
        let w = dtext(g, n);
        one_id(g, format!("<d@[{}]>", w), "d", &w)
    });
    d("id comments", &["C08", "C10"], 5000, |g, n| {
        let c = comments(g, n);
        one_id(g, format!("{}<a@b>{}(e)", c, c), "a", "b")
    });
    // ---- free text
    d("text length", &["C09"], 70000, |g, n| {
        let w = vtext(g, n);
        free(g, &w, &w)
    });
    d("text words", &["C09"], 20000, |g, n| {
        let w = rep(n, |i| format!(" w{}", i)).concat();
        free(g, &w, &w)
    });
    d("text spaces", &["C09"], 20000, |g, n| {
        let s: String = (0..n).map(|i| if i % 5 == 4 { '\t' } else { ' ' }).collect();
        let t = format!("{}a{}b", s, s);
        let tail = if g.r.chance(1, 2) { s.clone() } else { String::new() };
        free(g, &format!("{}{}", t, tail), &t)
    });
    d("text folds", &["C09", "C10"], 10000, |g, n| {
        let sep = *g.r.pick(&["\r\n ", "\r\n\t", "\r\n  "]);
        let ws = &sep[2..];
        let w = rep(n + 1, |i| format!("w{}", i));
        free(g, &format!(" {}", w.join(sep)), &format!(" {}", w.join(ws)))
    });
    d("text fold position", &["C09", "C10"], 2000, |g, n| {
        let (a, b) = (word(g, n + 1), word(g, 5));
        free(g, &format!("{}\r\n {}", a, b), &format!("{} {}", a, b))
    });
    d("keywords", &["C09"], 10000, |g, n| {
        let n = n.max(1);
        let sep = *g.r.pick(&[",", ", ", " ,", ",\r\n ", " (c), "]);
        let w = rep(n, |i| format!("k{}", i));
        line(format!("Keywords: {}\r\n", w.join(sep)), T("Keywords", vec![L(w.iter().map(|k| L(vec![Val::s(k)])).collect())]))
    });
    d("keyword words", &["C09"], 10000, |_, n| {
        let w = rep(n.max(1), |i| format!("k{}", i));
        line(format!("Keywords: first, {}\r\n", w.join(" ")), T("Keywords", vec![L(vec![L(vec![Val::s("first")]), Val::strs(&w)])]))
    });
    d("keyword length", &["C09"], 70000, |g, n| {
        let w = atext(g, n.max(1));
        line(format!("Keywords: {}, z\r\n", w), T("Keywords", vec![L(vec![L(vec![Val::s(&w)]), L(vec![Val::s("z")])])]))
    });
    d("keyword quoted", &["C09"], 70000, |g, n| {
        let w = qtext(g, n);
        line(format!("Keywords: \"{}\", z\r\n", w), T("Keywords", vec![L(vec![L(vec![Val::s(&w)]), L(vec![Val::s("z")])])]))
    });
    // ---- headers
    d("header count", &["C04"], 20000, |g, n| {
        let mut m = Made::default();
        for i in 0..n {
            let k = g.r.below(4);
            m.lines.push(match k {
                0 => (format!("Comments: c{}\r\n", i).into_bytes(), T("Comments", vec![S(format!(" c{}", i))])),
                1 => (format!("Keywords: k{}\r\n", i).into_bytes(), T("Keywords", vec![L(vec![L(vec![S(format!("k{}", i))])])])),
                2 => (format!("Message-ID: bad {}\r\n", i).into_bytes(), T("Unknown", vec![Val::s("Message-ID"), S(format!(" bad {}", i))])),
                _ => (format!("X-{}: v\r\n", i).into_bytes(), T("Unknown", vec![S(format!("X-{}", i)), Val::s(" v")])),
            });
        }
        m
    });
    d("comments headers", &["C04"], 5000, |_, n| {
        let mut m = Made::default();
        for i in 0..n {
            m.lines.push((format!("Comments: c{}\r\n", i).into_bytes(), T("Comments", vec![S(format!(" c{}", i))])));
        }
        m
    });
    d("keywords headers", &["C04", "C09"], 5000, |_, n| {
        let mut m = Made::default();
        for i in 0..n {
            m.lines.push((format!("Keywords: k{}, l\r\n", i).into_bytes(), T("Keywords", vec![L(vec![L(vec![S(format!("k{}", i))]), L(vec![Val::s("l")])])])));
        }
        m
    });
    d("unknown name", &["C04"], 70000, |g, n| {
        let w = format!("Z{}", among(g, n, b":", b""));
        line(format!("{}: v\r\n", w), T("Unknown", vec![S(w), Val::s(" v")]))
    });
    d("unknown value", &["C04"], 70000, |g, n| {
        let w = vtext(g, n);
        line(format!("X:{}\r\n", w), T("Unknown", vec![Val::s("X"), S(w)]))
    });
    // ---- trace
    d("trace blocks", &["C12", "C04"], 5000, |_, n| {
        let mut t = String::new();
        let mut b = Vec::new();
        for i in 0..n {
            t += &format!("Return-Path: <r{}@p>\r\nReceived: by h{}; {}\r\n", i, i, RDATE);
            b.push(block(
                Val::opt(Some(Val::opt(Some(addr_val(&format!("r{}", i), "p"))))),
                vec![vec![refp::Tok::Word("by".into()), refp::Tok::Word(format!("h{}", i))]],
                vec![],
            ));
        }
        trace(t, b)
    });
    d("received", &["C12", "C04"], 5000, |_, n| {
        let n = n.max(1);
        let t = rep(n, |i| format!("Received: from h{}.x; {}\r\n", i, RDATE)).concat();
        trace(t, vec![block(None, (0..n).map(|i| vec![refp::Tok::Word("from".into()), refp::Tok::Domain(format!("h{}.x", i))]).collect(), vec![])])
    });
    d("received tokens", &["C12"], 10000, |g, n| {
        let mut t = String::from("Received:");
        let mut v = Vec::new();
        for i in 0..n {
            let (s, k) = match g.r.below(5) {
                0 => (format!(" a{}@b", i), refp::Tok::Addr(format!("a{}", i), "b".into())),
                1 => (format!(" <a{}@b.c>", i), refp::Tok::Addr(format!("a{}", i), "b.c".into())),
                2 => (format!(" d{}.e", i), refp::Tok::Domain(format!("d{}.e", i))),
                3 => (format!(" [{}]", i), refp::Tok::Domain(format!("{}", i))),
                _ => (format!(" w{}", i), refp::Tok::Word(format!("w{}", i))),
            };
            t += &s;
            v.push(k);
        }
        t += &format!("; {}\r\n", RDATE);
        trace(t, vec![block(None, vec![v], vec![])])
    });
    d("received word", &["C12"], 70000, |g, n| {
        let w = word(g, n.max(1));
        trace(format!("Received: {} x.y; {}\r\n", w, RDATE), vec![block(None, vec![vec![refp::Tok::Word(w), refp::Tok::Domain("x.y".into())]], vec![])])
    });
    d("received comments", &["C12", "C10"], 5000, |g, n| {
        let c = comments(g, n);
        trace(format!("Received: by {} h;{}(e)\r\n", c, format!(" {}", RDATE)), vec![block(None, vec![vec![refp::Tok::Word("by".into()), refp::Tok::Word("h".into())]], vec![])])
    });
    d("resent", &["C12", "C04"], 5000, |g, n| {
        let mut t = format!("Received:; {}\r\n", RDATE);
        let mut v = Vec::new();
        for i in 0..n {
            let m = refp::Mbox { name: Option::None, local: format!("u{}", i), domain: "d".into() };
            let a = vec![refp::Adr::Mailbox(m.clone())];
            let (s, r) = match g.r.below(6) {
                0 => ("From", refp::Resent::From(vec![m])),
                1 => ("Sender", refp::Resent::Sender(m)),
                2 => ("To", refp::Resent::To(a)),
                3 => ("Cc", refp::Resent::Cc(a)),
                4 => ("Bcc", refp::Resent::Bcc(a)),
                _ => ("Message-ID", refp::Resent::MessageId(format!("u{}", i), "d".into())),
            };
            let b = if s == "Message-ID" { format!("<u{}@d>", i) } else { format!("u{}@d", i) };
            t += &format!("Resent-{}: {}\r\n", s, b);
            v.push(r);
        }
        trace(t, vec![block(None, vec![vec![]], v)])
    });
    d("resent list", &["C12"], 5000, |_, n| {
        let n = n.max(1);
        let l = rep(n, |i| format!("u{}@d", i)).join(", ");
        let v = (0..n).map(|i| refp::Adr::Mailbox(refp::Mbox { name: Option::None, local: format!("u{}", i), domain: "d".into() })).collect();
        trace(format!("Received:; {}\r\nResent-To: {}\r\n", RDATE, l), vec![block(None, vec![vec![]], vec![refp::Resent::To(v)])])
    });
    // ---- bodies
    d("body length", &["C11"], 200000, |g, n| {
        let body = if g.cfg.mime {
            let mut b = g.r.bytes(n);
            if g.r.chance(1, 2) {
                b.iter_mut().for_each(|c| *c &= 0x7f)
            }
            b
        } else {
            let mut b = Vec::new();
            for i in 0..n {
                b.push(if i % 80 == 78 && i + 1 < n {
                    13
                } else if i % 80 == 79 {
                    10
                } else {
                    b'a' + (i % 26) as u8
                });
            }
            b
        };
        Made { body: Some(body), ..Made::default() }
    });
    d("body lines", &["C11"], 20000, |g, n| {
        let l = *g.r.pick(&["\r\n", "x\r\n", "--\r\n", " \r\n", "a: b\r\n"]);
        Made { body: Some(l.repeat(n).into_bytes()), ..Made::default() }
    });
    d("body line length", &["C11"], 998, |g, n| {
        let w = word(g, n);
        let body = match g.r.below(4) {
            0 => w,
            1 => format!("{}\r\n", w),
            2 => format!("{}\r\n{}", w, w),
            _ => format!("ab\r\n{}\r\n\r\ncd", w),
        };
        Made { body: Some(body.into_bytes()), ..Made::default() }
    });
    v.extend(mime_dims());
    v
}

fn mime_dims() -> Vec<Dim> {
    let mut v: Vec<Dim> = Vec::new();
    let mut d = |name, props, max, make| v.push(Dim { name, props, max, make });
    // ---- transfer encodings
    d("base64 length", &["C13"], 100000, |g, n| {
        let data = g.r.bytes(n);
        let b = b64(&data, 76, b"\r\n");
        mime(vec![cte_line("base64"), ct_line("application/x", "application", "x", &[])], b)
    });
    d("base64 line length", &["C13"], 2000, |g, n| {
        let data = g.r.bytes(300);
        let b = b64(&data, n, b"\r\n");
        mime(vec![cte_line("base64"), ct_line("application/x", "application", "x", &[])], b)
    });
    d("base64 leading noise", &["C13"], 5000, |g, n| {
        let data = g.r.bytes(7);
        let mut b: Vec<u8> = (0..n).map(|_| *g.r.pick(b" \r\n-!\x80")).collect();
        b.extend(b64(&data, 0, b""));
        mime(vec![cte_line("base64"), ct_line("application/x", "application", "x", &[])], b)
    });
    d("base64 trailing noise", &["C13"], 5000, |g, n| {
        let k = g.r.below(12);
        let data = g.r.bytes(k);
        let mut b = b64(&data, 0, b"");
        b.extend((0..n).map(|_| *g.r.pick(b" \r\n-!\x80")));
        mime(vec![cte_line("base64"), ct_line("application/x", "application", "x", &[])], b)
    });
    d("base64 inner noise", &["C13"], 3000, |g, n| {
        let k = g.r.range(1, 12);
        let data = g.r.bytes(k);
        let mut b = b64(&data, 0, b"");
        let at = g.r.below(b.len() + 1);
        let noise: Vec<u8> = (0..n).map(|_| *g.r.pick(b" \r\n-!\x80")).collect();
        b.splice(at..at, noise);
        mime(vec![cte_line("base64"), ct_line("application/x", "application", "x", &[])], b)
    });
    d("qp literal", &["C13"], 100000, |g, n| {
        let w = among(g, n, b"=", b"");
        mime(vec![cte_line("quoted-printable"), ct_line("application/x", "application", "x", &[])], w.into_bytes())
    });
    d("qp escapes", &["C13"], 50000, |g, n| {
        let data = g.r.bytes(n);
        let b: String = data.iter().map(|c| format!("={:02X}", c)).collect();
        mime(vec![cte_line("quoted-printable"), ct_line("application/x", "application", "x", &[])], b.into_bytes())
    });
    d("qp soft breaks", &["C13"], 20000, |_, n| {
        let b = rep(n, |i| format!("w{}=\r\n", i)).concat() + "end";
        mime(vec![cte_line("quoted-printable"), ct_line("application/x", "application", "x", &[])], b.into_bytes())
    });
    d("qp trailing spaces", &["C13"], 20000, |g, n| {
        let t = *g.r.pick(&["a{}", "a{}\r\nb", "a={}\r\nb", "=41{}\r\n", "={}\r\n={}\r\nc", "{}\r\n={}\r\n={}\r\nc"]);
        let b = t.replace("{}", &blanks(g, n));
        // a soft break at the very end of the data is not a soft break
        mime(vec![cte_line("quoted-printable"), ct_line("application/x", "application", "x", &[])], b.into_bytes())
    });
    d("qp inner spaces", &["C13"], 20000, |g, n| {
        let s = blanks(g, n);
        mime(vec![cte_line("quoted-printable"), ct_line("application/x", "application", "x", &[])], format!("a{}b{}=3D\r\n", s, s).into_bytes())
    });
    // ---- encoded words
    d("encoded words", &["C14"], 5000, |g, n| {
        let sep = *g.r.pick(&[" ", "  ", "\t", "\r\n ", " \r\n\t"]);
        let n = n.max(1);
        let t = rep(n, |i| if i % 2 == 0 { "=?utf-8?Q?=C3=A9_?=".to_string() } else { "=?iso-8859-1*en?b?6Q==?=".to_string() }).join(sep);
        let v: String = rep(n, |i| if i % 2 == 0 { "\u{e9} ".to_string() } else { "\u{e9}".to_string() }).concat();
        free_enc(g, &format!(" {} z", t), &format!(" {} z", v))
    });
    d("alternating words", &["C14"], 5000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| if i % 2 == 0 { "=?utf-8?Q?=C3=A9?=".to_string() } else { format!("p{}", i) }).join(" ");
        let v = rep(n, |i| if i % 2 == 0 { "\u{e9}".to_string() } else { format!("p{}", i) }).join(" ");
        free_enc(g, &format!(" {}", t), &format!(" {}", v))
    });
    d("spaces between encoded words", &["C14"], 20000, |g, n| {
        let s = " ".repeat(n.max(1));
        free_enc(g, &format!("a{}=?utf-8?Q?b?={}=?utf-8?Q?c?={}d", s, s, s), &format!("a{}bc{}d", s, s))
    });
    d("encoded word length", &["C14"], 58, |g, n| {
        let n = n.max(1);
        let w = among(g, n, b"?=_", b"");
        if g.r.chance(1, 2) {
            free_enc(g, &format!(" =?utf-8?q?{}?= x", w), &format!(" {} x", w))
        } else {
            let n = (n / 4 * 3).max(1);
            let w = &w[..n.min(w.len())];
            let e = String::from_utf8(b64(w.as_bytes(), 0, b"")).unwrap();
            free_enc(g, &format!(" =?utf-8?B?{}?= x", e), &format!(" {} x", w))
        }
    });
    d("undecodable words", &["C14"], 5000, |g, n| {
        let t = format!(" {}", rep(n.max(1), |_| "=?utf-8?X?a?=".to_string()).join(" "));
        free_enc(g, &t, &t)
    });
    d("phrase encoded words", &["C14", "C06"], 2000, |g, n| {
        let n = n.max(1);
        let t = rep(n, |i| if i % 2 == 0 { "=?utf-8?Q?=C3=A9_?=".to_string() } else { "=?iso-8859-1*en?b?6Q==?=".to_string() }).join(" ");
        let v = rep(n, |i| if i % 2 == 0 { "\u{e9} ".to_string() } else { "\u{e9}".to_string() });
        let r: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
        mbx(g, &format!("{} <a@b>", t), mbox_val(Some(&r), "a", "b"))
    });
    // ---- MIME headers
    d("subtype", &["C15"], 20000, |g, n| {
        let w = word(g, n.max(1));
        ctype(&format!("Image/{}", w), Val::s("image"), &w, vec![])
    });
    d("unknown type", &["C15"], 20000, |g, n| {
        let w = format!("x{}", word(g, n));
        ctype(&format!("{}/y", w), T("Unknown", vec![S(w)]), "y", vec![])
    });
    d("parameters", &["C15"], 3000, |g, n| {
        let p: Vec<(String, String)> = (0..n).map(|i| (format!("p{}", i), format!("v{}", i))).collect();
        let sep = *g.r.pick(&["; ", ";", " ;\r\n\t"]);
        let t: String = p.iter().map(|(k, v)| format!("{}{}={}", sep, k, v)).collect();
        if g.r.chance(1, 2) || !g.cfg.disposition {
            app(&t, p)
        } else {
            disp(&t, Option::None, p)
        }
    });
    d("parameter name", &["C15"], 20000, |g, n| {
        let w = word(g, n.max(1));
        app(&format!("; {}=1", w), vec![(w, "1".into())])
    });
    d("parameter value", &["C15"], 70000, |g, n| {
        let w = tchars(g, n.max(1));
        app(&format!("; n={}", w), vec![("n".into(), w)])
    });
    d("quoted parameter", &["C15"], 70000, |g, n| {
        let w = qtext(g, n);
        if g.r.chance(1, 2) || !g.cfg.disposition {
            app(&format!("; n=\"{}\"; m=1", w), vec![("n".into(), w), ("m".into(), "1".into())])
        } else {
            disp(&format!("; filename=\"{}\"", w), Some(w), vec![])
        }
    });
    fn order(g: &mut G, mut p: Vec<String>) -> String {
        match g.r.below(3) {
            0 => (),
            1 => p.reverse(),
            _ => g.r.shuffle(&mut p),
        }
        p.iter().map(|x| format!("; {}", x)).collect()
    }
    d("continuations", &["C15"], 256, |g, n| {
        let n = n.max(1);
        let p = rep(n, |i| format!("N*{}={}", i, format!("s{}.", i)));
        let v = rep(n, |i| format!("s{}.", i)).concat();
        let t = order(g, p);
        app(&t, vec![("n".into(), v)])
    });
    d("encoded continuations", &["C15"], 256, |g, n| {
        let n = n.max(1);
        let p = rep(n, |i| if i == 0 { "filename*0*=utf-8''%C3%A9".to_string() } else if i % 2 == 1 { format!("filename*{}*=%C3%A8{}", i, i) } else { format!("filename*{}=\"%41{}\"", i, i) });
        let v = rep(n, |i| if i == 0 { "\u{e9}".to_string() } else if i % 2 == 1 { format!("\u{e8}{}", i) } else { format!("%41{}", i) }).concat();
        let t = order(g, p);
        if g.cfg.disposition {
            disp(&t, Some(v), vec![])
        } else {
            app(&t, vec![("filename".into(), v)])
        }
    });
    d("extended parameter", &["C15"], 30000, |g, n| {
        let b: String = rep(n, |i| if i % 3 == 0 { "%e9".to_string() } else { "x".to_string() }).concat();
        let v: String = rep(n, |i| if i % 3 == 0 { "\u{e9}".to_string() } else { "x".to_string() }).concat();
        if n == 0 {
            return app("; n*=utf-8''x", vec![("n".into(), "x".into())]);
        }
        if g.r.chance(1, 2) || !g.cfg.disposition {
            app(&format!("; n*=iso-8859-1'en'{}", b), vec![("n".into(), v)])
        } else {
            disp(&format!("; filename*=ISO-8859-1''{}", b), Some(v), vec![])
        }
    });
    d("extended text", &["C15"], 3000, |g, n| {
        let cs = *g.r.pick(&["utf-8", "UTF-8", "utf-8", "iso-8859-1", "iso-8859-5", "us-ascii", "gb2312"]);
        let lang = *g.r.pick(&["", "en", "fr-CA"]);
        let (t, v) = percented(g, &cs.to_lowercase(), n.max(1));
        if g.r.chance(1, 2) || !g.cfg.disposition {
            app(&format!("; n*={}'{}'{}", cs, lang, t), vec![("n".into(), v)])
        } else {
            disp(&format!("; filename*={}'{}'{}", cs, lang, t), Some(v), vec![])
        }
    });
    d("several continued", &["C15"], 2000, |g, n| {
        let n = n.max(1);
        let mut p = Vec::new();
        let mut v = Vec::new();
        for i in 0..n {
            p.push(format!("q{}*0=a{}", i, i));
            p.push(format!("q{}*1=b", i));
            v.push((format!("q{}", i), format!("a{}b", i)));
        }
        let t = order(g, p);
        app(&t, v)
    });
    d("mime comments", &["C15", "C10"], 5000, |g, n| {
        let c = comments(g, n);
        app(&format!("{}; a=\"b\"{}(e)", c, c), vec![("a".into(), "b".into())])
    });
    // ---- multiparts
    d("parts", &["C16"], 3000, |_, n| {
        let b = rep(n.max(1), |i| format!("--b\r\n\r\npart {}\r\n", i)).concat() + "--b--";
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("boundary", &["C16"], 70, |g, n| {
        let mut w = among(g, n.max(1), b"!\"#$%&*;<>@[\\]^`{|}~", b" ");
        if w.ends_with(' ') {
            w.pop();
            w.push('.');
        }
        let b = format!("pre\r\n--{}\r\n\r\nx--{}\r\n--{}x\r\n--{}--\r\npost", w, w, w, w);
        mime(vec![ct_line(&format!("multipart/mixed; boundary=\"{}\"", w), "multipart", "mixed", &[("boundary", &w)])], b.into_bytes())
    });
    d("part length", &["C16"], 70000, |g, n| {
        let w = among(g, n, b"", b" ");
        let b = format!("--b\r\n\r\n{}\r\n--b\r\n\r\n{}\r\n--b--", w, w);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("part line breaks", &["C16"], 5000, |_, n| {
        let w = "\r\n".repeat(n);
        let b = format!("--b\r\n\r\n{}\r\n--b\r\n\r\n{}\r\n--b--", w, w);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("part near delimiters", &["C16"], 5000, |g, n| {
        let w = *g.r.pick(&["--bb\r\n", "--\r\n", "-b\r\n", "--b-\r\n", "--b\n", " --b\r\n", "--B\r\n"]);
        let w = w.repeat(n);
        let b = format!("--b\r\n\r\n{}\r\n--b\r\n\r\n{}x\r\n--b--", w, w);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("preamble", &["C16"], 70000, |g, n| {
        let w = among(g, n, b"", b" ");
        let b = format!("{}\r\n--b\r\n\r\nx\r\n--b--\r\n{}", w, w);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("delimiter spaces", &["C16"], 5000, |_, n| {
        let w = " ".repeat(n);
        let b = format!("--b{}\r\n\r\nx\r\n--b{}\r\n\r\ny\r\n--b--{}\r\n", w, w, w);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("part headers", &["C16", "C22"], 3000, |_, n| {
        let h = rep(n, |i| format!("X-{}: v{}\r\n", i, i)).concat();
        let b = format!("--b\r\n{}\r\nx\r\n--b--", h);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    d("nesting", &["C16"], 8, |_, n| {
        let mut inner = "Content-Type: text/plain; charset=utf-8\r\n\r\ncore".to_string();
        for i in 0..n {
            inner = format!("Content-Type: multipart/x; boundary=b{}\r\n\r\n--b{}\r\n{}\r\n--b{}--", i, i, inner, i);
        }
        let b = format!("--b\r\n{}\r\n--b--", inner);
        mime(vec![ct_line("multipart/mixed; boundary=b", "multipart", "mixed", &[("boundary", "b")])], b.into_bytes())
    });
    // ---- texts
    d("text entity", &["C17"], 70000, |g, n| {
        let cs = *g.r.pick(&crate::gen::CHARSETS);
        let (b, _) = g.charset_text(cs, n);
        mime(vec![ct_line(&format!("text/plain; charset={}", cs), "text", "plain", &[("charset", cs)])], b)
    });
    v
}
