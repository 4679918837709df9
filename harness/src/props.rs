//! The workload and the oracle of each property.
use crate::ctx::*;
use crate::gen::G;
use crate::obs::Cx;
use crate::refp;
use crate::{p1, p2, p3};

pub fn subs(prop: &str) -> Option<Vec<Sub>> {
    Some(match prop {
        "SELF" => vec![sub("model", 1, self_model)],
        "DIMS" => vec![subn("sizes", 1, p1::sizes_count("DIMS"), p1::sizes_run)],
        "C01" | "C02" | "CORPUS" if p3::feeding() => p3::c01_feed(),
        "C01" | "CORPUS" => p3::c01(),
        "C02" => p3::c02(),
        #[cfg(not(miri))]
        "C03" => p3::c03(),
        "C18" => p3::c18(),
        "C19" => p3::c19(),
        "C21" => p3::c21(),
        "C04" => p1::c04(),
        "C05" => p1::c05(),
        "C07" => p1::c07(),
        "C06" | "C08" | "C09" | "C12" | "C14" | "C15" => p1::header_subs(prop),
        "C10" => p1::c10(),
        "C20" => p1::c20(),
        "C24" => p1::c24(),
        "C24P" => p1::pairs_subs(),
        "C11" => p2::c11(),
        #[cfg(feature = "mime")]
        "C13" => p2::c13(),
        #[cfg(feature = "mime")]
        "C16" => p2::c16(),
        #[cfg(feature = "mime")]
        "C17" => p2::c17(),
        #[cfg(feature = "mime")]
        "C22" => p2::c22(),
        #[cfg(feature = "mime")]
        "C23" => p2::c23(),
        "X1" => vec![sub("model", 1, x1)],
        _ => return None,
    })
}

pub fn load_feed(f: &str) {
    p3::load_feed(f);
}
#[allow(unused_variables)]
pub fn measure(c: &mut Ctx, scale: usize) {
    #[cfg(not(miri))]
    p3::measure_one(c, scale);
}

/// Not a check: the model and the reference must agree.
fn self_model(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message();
    c.eval(&case.bytes, true);
    let m = case.email_val(&c.cfg);
    let r = refp::email(&case.bytes, &c.cfg);
    c.expect("model/reference", &case.bytes, &m, &r);
    if r.has_any() {
        c.event("any", 1);
    }
}

fn x1(c: &mut Ctx) {
    let mut g = G::new(c.rng(), &c.cfg);
    let case = g.message();
    c.eval(&case.bytes, true);
    let m = case.email_val(&c.cfg);
    let got = guard_val(|| Cx::new().parse(&case.bytes));
    let cfg = c.cfg.clone();
    c.expect_model("message", &case.bytes, &m, || refp::email(&case.bytes, &cfg), &got);
}
