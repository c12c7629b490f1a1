pub mod c01;
pub mod c24;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c27;
pub mod c17;
pub mod c18;
pub mod c25;
pub mod c26;
pub mod c20;
pub mod c22;
pub mod c21;
pub mod c19;
pub mod c23;
use crate::explore::*;
use crate::world::*;

pub fn run(p: &str, c: &Ctx) -> bool {
    match p {
        "demo" => demo(c),
        "C01" => c01::run(c),
        "C24" => c24::run(c),
        "C02" => c02::run(c),
        "C03" => c03::run(c),
        "C04" => c04::run(c),
        "C05" => c05::run(c),
        "C06" => c06::run(c),
        "C07" => c07::run(c),
        "C08" => c08::run(c),
        "C09" => c09::run(c),
        "C10" => c10::run(c),
        "C11" => c11::run(c),
        "C12" => c12::run(c),
        "C13" => c13::run(c),
        "C14" => c14::run(c),
        "C15" => c15::run(c),
        "C16" => c16::run(c),
        "C27" => c27::run(c),
        "C17" => c17::run(c),
        "C18" => c18::run(c),
        "C25" => c25::run(c),
        "C26" => c26::run(c),
        "C20" => c20::run(c),
        "C22" => c22::run(c),
        "C21" => c21::run(c),
        "C19" => c19::run(c),
        "C23" => c23::run(c),
        _ => return false,
    }
    true
}
fn demo(c: &Ctx) {
    let ops = vec![Op::Init, Op::Digest(None), Op::Cert(None, 0), Op::Chal(0, 0xff), Op::Meas(None, true, 0xff, 0), Op::Ke(0, 0xff), Op::Hb(0), Op::Ku(0, 1), Op::Ku(0, 2), Op::App(0, b"hello".to_vec()), Op::Vendor(None, b"vend".to_vec()), Op::Meas(Some(0), true, 1, 0), Op::End(0), Op::Psk(0), Op::End(1)];
    c.par("demo", 2, |i, t| {
        let mut cfg = base_cfg();
        if i == 1 {
            cfg.tr = Tr::Doe;
        }
        let mut w = World::new(&cfg);
        for o in &ops {
            let r = w.op(o);
            t.step(w.fp());
            t.out(format!("{}={}", o.short(), match &r { Ok(x) => format!("{:?}", x).chars().take(20).collect::<String>(), Err(e) => format!("{:x?}", e.status_code) }));
        }
    });
}
