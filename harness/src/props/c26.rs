//! Every operation returns, whatever it is given.
use crate::fw::*;
use crate::ops::*;

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        quick: 400_000,
        families: vec![Family { name: "finite", weight: 3, run: finite }, Family { name: "small grids", weight: 2, run: grid }, Family { name: "not numbers, infinities", weight: 1, run: special }],
        rule: "Bundles of six points, three coordinate lists (empty, one point, closed and not, repeated points, simple rings), eight numbers and two intersection matrices: finite numbers of every magnitude, small grids full of coincidences, and not-a-number and infinities; every public operation of the catalogue is called on each, with overflow checks, debug assertions, panic capture and CPU-time and memory limits as the monitors.",
        assumptions: &["indices are within range, matrices well-formed, angles below 1000 radians, divisors not zero, the quadrant and offset of something without a direction not asked for"],
        need: &[("operations returned", 1_000_000), ("empty list", 10000), ("extreme magnitude", 10000)],
    }
}

fn all(cx: &mut Cx, h: Hostile, n: &str) -> R {
    let a = make(&mut cx.rng, h);
    show(cx, &a, n);
    cx.nontrivial();
    if a.lists.iter().any(|l| l.is_empty()) {
        cx.ev("empty list");
    }
    if a.p.iter().any(|p| p.x.abs() > 1e150 || p.y.abs() > 1e150) {
        cx.ev("extreme magnitude");
    }
    let w = a.digest();
    for (name, f) in OPS {
        let mut o = Out::default();
        let _ = name;
        f(&a, &mut o);
        cx.ev("operations returned");
        cx.ok();
    }
    if a.digest() != w {
        return Err("an operation changed its input".into());
    }
    Ok(())
}
fn finite(cx: &mut Cx) -> R {
    all(cx, Hostile::Finite, "finite")
}
fn grid(cx: &mut Cx) -> R {
    all(cx, Hostile::Grid, "grid")
}
fn special(cx: &mut Cx) -> R {
    all(cx, Hostile::Special, "special")
}
