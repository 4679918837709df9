//! Observation of the real library: turns its results into `Val`s and records every string it returned.
use crate::val::Val::{self, *};
use email_parser::address::*;
use email_parser::error::Error;
#[cfg(feature = "mime")]
use email_parser::mime::*;
use email_parser::prelude::*;
use std::borrow::Cow;

/// A string or byte slice returned by the library.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rec {
    pub ptr: usize,
    pub len: usize,
    pub borrowed: bool,
    pub utf8: bool,
}

/// Observation context: collects facts about the strings returned.
#[derive(Default)]
pub struct Cx {
    pub recs: Vec<Rec>,
    /// length and hash of what was copied
    pub copies: Vec<(usize, u64)>,
}

impl Cx {
    pub fn new() -> Cx {
        Cx::default()
    }
    fn rec(&mut self, b: &[u8], borrowed: bool, text: bool) -> Val {
        let utf8 = !text || std::str::from_utf8(b).is_ok();
        if !borrowed && !b.is_empty() {
            self.copies.push((b.len(), crate::rng::fnv(b)));
        }
        self.recs.push(Rec { ptr: b.as_ptr() as usize, len: b.len(), borrowed, utf8 });
        if text {
            S(String::from_utf8_lossy(b).into_owned())
        } else {
            B(b.to_vec())
        }
    }
    pub fn s(&mut self, c: &Cow<str>) -> Val {
        let b = matches!(c, Cow::Borrowed(_));
        self.rec(c.as_bytes(), b, true)
    }
    pub fn str(&mut self, c: &str) -> Val {
        self.rec(c.as_bytes(), true, true)
    }
    pub fn b(&mut self, c: &Cow<[u8]>) -> Val {
        let b = matches!(c, Cow::Borrowed(_));
        self.rec(c, b, false)
    }
    pub fn bytes(&mut self, c: &[u8]) -> Val {
        self.rec(c, true, false)
    }
    /// What can only be seen through its debug output.
    fn debug(&mut self, d: &impl std::fmt::Debug) -> Val {
        let s = format!("{:?}", d);
        if std::str::from_utf8(s.as_bytes()).is_err() {
            self.recs.push(Rec { ptr: s.as_ptr() as usize, len: s.len(), borrowed: false, utf8: false });
        }
        S(String::from_utf8_lossy(s.as_bytes()).into_owned())
    }
    pub fn strs(&mut self, v: &[Cow<str>]) -> Val {
        L(v.iter().map(|s| self.s(s)).collect())
    }
    pub fn addr(&mut self, a: &EmailAddress) -> Val {
        T("Addr", vec![self.s(&a.local_part), self.s(&a.domain)])
    }
    pub fn mailbox(&mut self, m: &Mailbox) -> Val {
        let name = m.name.as_ref().map(|n| self.strs(n));
        T("Mailbox", vec![Val::opt(name), self.addr(&m.address)])
    }
    pub fn mailboxes(&mut self, v: &[Mailbox]) -> Val {
        L(v.iter().map(|m| self.mailbox(m)).collect())
    }
    pub fn address(&mut self, a: &Address) -> Val {
        match a {
            Address::Mailbox(m) => self.mailbox(m),
            Address::Group((name, list)) => T("Group", vec![self.strs(name), self.mailboxes(list)]),
        }
    }
    pub fn addresses(&mut self, v: &[Address]) -> Val {
        L(v.iter().map(|m| self.address(m)).collect())
    }
    pub fn id(&mut self, v: &(Cow<str>, Cow<str>)) -> Val {
        T("Id", vec![self.s(&v.0), self.s(&v.1)])
    }
    pub fn ids(&mut self, v: &[(Cow<str>, Cow<str>)]) -> Val {
        L(v.iter().map(|m| self.id(m)).collect())
    }
    #[cfg(feature = "mime")]
    pub fn ctype(&mut self, t: &ContentType) -> Val {
        match t {
            ContentType::Text => Val::s("text"),
            ContentType::Image => Val::s("image"),
            ContentType::Audio => Val::s("audio"),
            ContentType::Video => Val::s("video"),
            ContentType::Application => Val::s("application"),
            ContentType::Message => Val::s("message"),
            ContentType::Multipart => Val::s("multipart"),
            ContentType::Unknown(s) => T("Unknown", vec![self.s(s)]),
        }
    }
    #[cfg(feature = "mime")]
    pub fn cte(&mut self, t: &ContentTransferEncoding) -> Val {
        match t {
            ContentTransferEncoding::SevenBit => Val::s("7bit"),
            ContentTransferEncoding::HeightBit => Val::s("8bit"),
            ContentTransferEncoding::Binary => Val::s("binary"),
            ContentTransferEncoding::QuotedPrintable => Val::s("quoted-printable"),
            ContentTransferEncoding::Base64 => Val::s("base64"),
            ContentTransferEncoding::Unknown(s) => T("Unknown", vec![self.s(s)]),
        }
    }
    #[cfg(feature = "mime")]
    pub fn params(&mut self, m: &std::collections::HashMap<Cow<str>, Cow<str>>) -> Val {
        let mut out = std::collections::BTreeMap::new();
        for (k, v) in m {
            let _ = self.s(k);
            let v = self.s(v);
            out.insert(k.to_string(), v);
        }
        M(out)
    }
    #[cfg(feature = "mime")]
    pub fn disp_type(&mut self, t: &DispositionType) -> Val {
        match t {
            DispositionType::Inline => Val::s("inline"),
            DispositionType::Attachment => Val::s("attachment"),
            DispositionType::Unknown(s) => T("Unknown", vec![self.s(s)]),
        }
    }
    #[cfg(feature = "mime")]
    pub fn disp(&mut self, d: &Disposition) -> Val {
        let f = d.filename.as_ref().map(|f| self.s(f));
        T(
            "Disp",
            vec![
                self.disp_type(&d.disposition_type),
                Val::opt(f),
                Val::opt(d.creation_date.as_ref().map(datetime)),
                Val::opt(d.modification_date.as_ref().map(datetime)),
                Val::opt(d.read_date.as_ref().map(datetime)),
                self.params(&d.unstructured),
            ],
        )
    }
    #[cfg(feature = "mime")]
    pub fn raw(&mut self, r: &RawEntity) -> Val {
        let desc = r.description.as_ref().map(|d| self.s(d));
        let id = r.id.as_ref().map(|d| self.id(d));
        #[cfg(feature = "content-disposition")]
        let disp = r.disposition.as_ref().map(|d| self.disp(d));
        #[cfg(not(feature = "content-disposition"))]
        let disp: Option<Val> = Option::None;
        Rec(vec![
            ("type", self.ctype(&r.mime_type)),
            ("subtype", self.s(&r.subtype)),
            ("params", self.params(&r.parameters)),
            ("description", Val::opt(desc)),
            ("id", Val::opt(id)),
            ("disposition", Val::opt(disp)),
            ("value", self.b(&r.value)),
            ("additional", L(r.additional_headers.iter().map(|(n, v)| T("Unknown", vec![self.s(n), self.s(v)])).collect())),
        ])
    }
    /// Decodes an entity, and its parts recursively.
    #[cfg(feature = "mime")]
    pub fn entity(&mut self, r: &RawEntity, depth: usize) -> Val {
        match r.parse() {
            Err(e) => error(&e),
            Ok(Entity::Unknown) => T("Unknown", vec![]),
            Ok(Entity::Text { subtype, value }) => T("Text", vec![self.s(subtype), self.s(&value)]),
            Ok(Entity::Multipart { subtype, content }) => {
                let mut parts = Vec::new();
                for p in &content {
                    let raw = self.raw(p);
                    let e = if depth > 0 { self.entity(p, depth - 1) } else { Any };
                    parts.push(T("Part", vec![raw, e]));
                }
                T("Multipart", vec![self.s(subtype), L(parts)])
            }
        }
    }
    pub fn field(&mut self, f: &Field) -> Val {
        match f {
            #[cfg(feature = "date")]
            Field::Date(d) => T("Date", vec![datetime(d)]),
            #[cfg(feature = "from")]
            Field::From(v) => T("From", vec![self.mailboxes(v)]),
            #[cfg(feature = "sender")]
            Field::Sender(v) => T("Sender", vec![self.mailbox(v)]),
            #[cfg(feature = "reply-to")]
            Field::ReplyTo(v) => T("Reply-To", vec![self.addresses(v)]),
            #[cfg(feature = "to")]
            Field::To(v) => T("To", vec![self.addresses(v)]),
            #[cfg(feature = "cc")]
            Field::Cc(v) => T("Cc", vec![self.addresses(v)]),
            #[cfg(feature = "bcc")]
            Field::Bcc(v) => T("Bcc", vec![self.addresses(v)]),
            #[cfg(feature = "message-id")]
            Field::MessageId(v) => T("Message-ID", vec![self.id(v)]),
            #[cfg(feature = "in-reply-to")]
            Field::InReplyTo(v) => T("In-Reply-To", vec![self.ids(v)]),
            #[cfg(feature = "references")]
            Field::References(v) => T("References", vec![self.ids(v)]),
            #[cfg(feature = "subject")]
            Field::Subject(v) => T("Subject", vec![self.s(v)]),
            #[cfg(feature = "comments")]
            Field::Comments(v) => T("Comments", vec![self.s(v)]),
            #[cfg(feature = "keywords")]
            Field::Keywords(v) => T("Keywords", vec![L(v.iter().map(|k| self.strs(k)).collect())]),
            #[cfg(feature = "mime")]
            Field::MimeVersion(a, b) => T("MIME-Version", vec![N(*a as i64), N(*b as i64)]),
            #[cfg(feature = "mime")]
            Field::ContentType { mime_type, subtype, parameters } => {
                T("Content-Type", vec![self.ctype(mime_type), self.s(subtype), self.params(parameters)])
            }
            #[cfg(feature = "mime")]
            Field::ContentTransferEncoding(e) => T("Content-Transfer-Encoding", vec![self.cte(e)]),
            #[cfg(feature = "mime")]
            Field::ContentId(v) => T("Content-ID", vec![self.id(v)]),
            #[cfg(feature = "mime")]
            Field::ContentDescription(v) => T("Content-Description", vec![self.s(v)]),
            #[cfg(feature = "content-disposition")]
            Field::ContentDisposition(d) => T("Content-Disposition", vec![self.disp(d)]),
            #[cfg(feature = "trace")]
            Field::Trace { return_path, received, fields } => T(
                "Trace",
                vec![
                    Val::opt(return_path.as_ref().map(|p| Val::opt(p.as_ref().map(|a| self.addr(a))))),
                    L(received
                        .iter()
                        .map(|(t, d)| T("Received", vec![L(t.iter().map(|t| self.debug(t)).collect()), datetime(d)]))
                        .collect()),
                    L(fields.iter().map(|f| self.debug(f)).collect()),
                ],
            ),
            Field::Unknown { name, value } => T("Unknown", vec![self.str(name), self.s(value)]),
            #[allow(unreachable_patterns)]
            _ => T("Other", vec![]),
        }
    }
    #[cfg(feature = "mime")]
    pub fn body(&mut self, body: &Option<&[u8]>) -> Val {
        Val::opt(body.map(|b| self.bytes(b)))
    }
    #[cfg(not(feature = "mime"))]
    pub fn body(&mut self, body: &Option<Cow<str>>) -> Val {
        Val::opt(body.as_ref().map(|b| self.s(b)))
    }
    pub fn message(&mut self, input: &[u8]) -> Val {
        match parse_message(input) {
            Err(e) => error(&e),
            Ok((fields, body)) => {
                let fields = L(fields.iter().map(|f| self.field(f)).collect());
                T("Message", vec![fields, self.body(&body)])
            }
        }
    }
    pub fn email(&mut self, e: &Email) -> Val {
        #[allow(unused_mut)]
        let mut r: Vec<(&'static str, Val)> = Vec::new();
        #[cfg(not(feature = "mime"))]
        r.push(("body", Val::opt(e.body.as_ref().map(|b| self.s(b)))));
        #[cfg(feature = "from")]
        r.push(("from", self.mailboxes(&e.from)));
        #[cfg(feature = "sender")]
        r.push(("sender", self.mailbox(&e.sender)));
        #[cfg(feature = "subject")]
        r.push(("subject", Val::opt(e.subject.as_ref().map(|v| self.s(v)))));
        #[cfg(feature = "date")]
        r.push(("date", datetime(&e.date)));
        #[cfg(feature = "to")]
        r.push(("to", Val::opt(e.to.as_ref().map(|v| self.addresses(v)))));
        #[cfg(feature = "cc")]
        r.push(("cc", Val::opt(e.cc.as_ref().map(|v| self.addresses(v)))));
        #[cfg(feature = "bcc")]
        r.push(("bcc", Val::opt(e.bcc.as_ref().map(|v| self.addresses(v)))));
        #[cfg(feature = "message-id")]
        r.push(("message_id", Val::opt(e.message_id.as_ref().map(|v| self.id(v)))));
        #[cfg(feature = "in-reply-to")]
        r.push(("in_reply_to", Val::opt(e.in_reply_to.as_ref().map(|v| self.ids(v)))));
        #[cfg(feature = "references")]
        r.push(("references", Val::opt(e.references.as_ref().map(|v| self.ids(v)))));
        #[cfg(feature = "reply-to")]
        r.push(("reply_to", Val::opt(e.reply_to.as_ref().map(|v| self.addresses(v)))));
        #[cfg(feature = "comments")]
        r.push(("comments", self.strs(&e.comments)));
        #[cfg(feature = "keywords")]
        r.push(("keywords", L(e.keywords.iter().map(|k| self.strs(k)).collect())));
        #[cfg(feature = "trace")]
        r.push((
            "trace",
            L(e.trace
                .iter()
                .map(|(return_path, received, fields)| {
                    T(
                        "Trace",
                        vec![
                            Val::opt(return_path.as_ref().map(|p| Val::opt(p.as_ref().map(|a| self.addr(a))))),
                            L(received
                                .iter()
                                .map(|(t, d)| T("Received", vec![L(t.iter().map(|t| self.debug(t)).collect()), datetime(d)]))
                                .collect()),
                            L(fields.iter().map(|f| self.debug(f)).collect()),
                        ],
                    )
                })
                .collect()),
        ));
        #[cfg(feature = "mime")]
        {
            r.push(("entity", self.raw(&e.mime_entity)));
            r.push(("parsed", self.entity(&e.mime_entity, 8)));
        }
        r.push(("unknown", L(e.unknown_fields.iter().map(|(n, v)| T("Unknown", vec![self.str(n), self.s(v)])).collect())));
        Rec(r)
    }
    pub fn parse(&mut self, input: &[u8]) -> Val {
        match Email::parse(input) {
            Err(e) => error(&e),
            Ok(e) => T("Email", vec![self.email(&e)]),
        }
    }
}

pub fn error(e: &Error) -> Val {
    // the text of an error also names the header
    if let Error::DuplicateHeader(n) | Error::MissingHeader(n) = e {
        if !e.to_string().to_lowercase().contains(&n.to_lowercase()) {
            return T("Error", vec![S(format!("{:?}, shown as {:?}", e, e.to_string()))]);
        }
    }
    match e {
        Error::Explicit(_) | Error::Unknown(_) => T("Error", vec![Val::s("syntax")]),
        Error::DuplicateHeader(n) => T("Error", vec![S(format!("duplicate {}", n))]),
        Error::MissingHeader(n) => T("Error", vec![S(format!("missing {}", n))]),
    }
}

pub fn datetime(d: &DateTime) -> Val {
    let day = d.day_name.as_ref().map(|d| {
        N(match d {
            Day::Monday => 1,
            Day::Tuesday => 2,
            Day::Wednesday => 3,
            Day::Thursday => 4,
            Day::Friday => 5,
            Day::Saturday => 6,
            Day::Sunday => 7,
        })
    });
    let month = match d.date.month {
        Month::January => 1,
        Month::February => 2,
        Month::March => 3,
        Month::April => 4,
        Month::May => 5,
        Month::June => 6,
        Month::July => 7,
        Month::August => 8,
        Month::September => 9,
        Month::October => 10,
        Month::November => 11,
        Month::December => 12,
    };
    let z = &d.time.zone;
    T(
        "DateTime",
        vec![
            Val::opt(day),
            N(d.date.day as i64),
            N(month),
            S(d.date.year.to_string()),
            N(d.time.time.hour as i64),
            N(d.time.time.minute as i64),
            N(d.time.time.second as i64),
            T(if z.sign { "+" } else { "-" }, vec![N(z.hour_offset as i64), N(z.minute_offset as i64)]),
        ],
    )
}
