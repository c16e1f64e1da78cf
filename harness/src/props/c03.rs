//! Every conforming KDBX 4 file opens with the content it stores.

use crate::engine::*;
use crate::ensure;
use crate::layouts::*;
use crate::lib_io::*;
use crate::refcodec::Comp;

pub fn judge(x: &File, major: u16, c: &mut Case) -> Res {
    if x.bytes.is_empty() {
        c.seen("trivial", &0);
        return Ok(());
    }
    if matches!(x.cfg.comp, Comp::Gzip(_, 4)) {
        if let Err(e) = load(&x.bytes, &x.cfg.cred)? {
            return Err(Violation { msg: format!("{}: does not open: {e}", x.what), key: Some("gzip-header-checksum".into()) });
        }
    }
    let k = expect_db(&x.bytes, &x.cfg.cred, &x.db, &x.what)?;
    ensure!(k.major_version() == major, "{}: version {}", x.what, k.major_version());
    let h = k.header();
    ensure!(h.cipher == lib_cipher(x.cfg.cipher), "{}: header() shows cipher {:?}", x.what, h.cipher);
    ensure!(h.compression_type == lib_comp(x.cfg.comp), "{}: header() shows compression {:?}", x.what, h.compression_type);
    ensure!(h.kdf_params == x.cfg.kdf.lib(), "{}: header() shows {:?}", x.what, h.kdf_params);
    ensure!(h.master_seed == x.cfg.seed && h.encryption_iv == x.cfg.iv, "{}: header() shows another seed or IV", x.what);
    let i = k.inner_header();
    ensure!(i.inner_stream_cipher == lib_inner(x.cfg.inner) && i.inner_stream_key == x.cfg.inner_key, "{}: inner_header() shows another stream", x.what);
    c.seen("opened", &x.bytes);
    c.sample(|| x.what.clone());
    Ok(())
}

pub fn run(e: &mut Engine) {
    e.rule = "a case is one file written by the reference encoder; distinct by its bytes; unrepresentable texts are skipped as trivial".into();
    e.assumptions.push("the reference encoder is validated by the strict reference decoder, which accepts the sample files of other programs (phase samples)".into());
    super::c02::samples(e, true);
    for s in files4(!e.quick()) {
        e.phase(&s.name, s.n, |i, c| judge(&(s.make)(i), 4, c));
    }
}
