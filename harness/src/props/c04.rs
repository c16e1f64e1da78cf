//! Every conforming KDBX 3.1 file opens with the content it stores.

use crate::engine::*;
use crate::layouts::*;

pub fn run(e: &mut Engine) {
    e.rule = "a case is one KDBX 3.1 file written by the reference encoder; distinct by its bytes; unrepresentable texts are skipped as trivial".into();
    e.assumptions.push("the reference encoder is validated by the strict reference decoder, which accepts the sample files of other programs (phase samples)".into());
    super::c02::samples(e, false);
    for s in files3(!e.quick()) {
        e.phase(&s.name, s.n, |i, c| super::c03::judge(&(s.make)(i), 3, c));
    }
}
