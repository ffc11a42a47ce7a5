//! Demonstrations of the recorded findings (see known_findings.txt): printed, never suppressing anything else.
use crate::gen::Num;
use crate::run::{run, Outcome};
use crate::scn::*;
use simcore::rng::Rng;

/// A number a child may print that the optimizer reads as its neighbour.
pub const MISREAD: f64 = -0.38391285458709845;

/// Lines "KNOWN-FINDING: ..." of the property that (still) reproduce.
pub fn lines(prop: &str) -> Vec<String> {
    let mut v = vec![];
    if prop == "C02" {
        let mut s = crate::props::base(&mut Rng::new(1), Mode::Proc);
        s.rule.obj = Obj::Const(Num(MISREAD));
        s.rule.reject = 0.0;
        s.rule.noise = 0.0;
        s.conc = 1;
        s.sample = 1;
        s.budget = Some(1);
        s.target = None;
        if let Outcome::Ok { val, .. } = run(&s, false, 0).outcome {
            if val != MISREAD {
                v.push(format!(
                    "KNOWN-FINDING: property=C02 a child that prints {MISREAD:?} is recorded with {val:?} (serde_json without float_roundtrip reads some numbers as their neighbour)"
                ));
            }
        }
    }
    v
}
