#![allow(dead_code)]
mod cert;
mod checks;
mod explore;
mod fake;
mod faults;
mod leak;
mod model;
mod trace;
mod user;
mod world;
use explore::*;


fn main() {
    install_panic_hook();
    fake::register();
    cli(checks::run);
}
