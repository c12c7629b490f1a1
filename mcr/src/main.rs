//! The bundled crypto provider (spdmlib/src/crypto/spdm_ring), explored against independent references.
#![allow(dead_code)]
#[path = "../../mc/src/explore.rs"]
mod explore;
mod ring_check;
mod refs;
mod world {
    pub fn reset_thread() {}
}
mod fake {
    pub fn h(_: u64, parts: &[&[u8]], n: usize) -> Vec<u8> {
        crate::refs::sha(32, &parts.concat())[..n].to_vec()
    }
}

fn main() {
    explore::install_panic_hook();
    explore::cli(|p, c| {
        if p == "C28" {
            ring_check::run(c);
        }
        p == "C28"
    });
}
