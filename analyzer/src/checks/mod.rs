//! The property checks.
pub mod comp;
mod dh;
pub mod frame;
mod misc;
mod mlkem;
mod surface;
mod xwing;
use frame::Ck;
use rustc_middle::ty::TyCtxt;

pub fn main(tcx: TyCtxt<'_>) {
    let prop = std::env::var("KEMCHECK_PROP").unwrap_or_default();
    let mut ck = Ck::new(tcx, &prop);
    let t0 = std::time::Instant::now();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&mut ck, &prop)));
    if let Err(p) = r {
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "compiler query failed".into());
        ck.violation("analysis-incomplete", format!("the analysis could not be completed on this source: {m}"));
    }
    ck.finish(t0.elapsed().as_secs_f64());
}

fn run(ck: &mut Ck<'_>, prop: &str) {
    match prop {
        "C01" => mlkem::c01(ck),
        "C02" => mlkem::c02(ck),
        "C03" => mlkem::c03(ck),
        "C04" => mlkem::c04(ck),
        "C05" => comp::c05(ck),
        "C06" => comp::c06(ck),
        "C07" => comp::c07(ck),
        "C08" => comp::c08(ck),
        "C09" => comp::c09(ck),
        "C10" => mlkem::c10(ck),
        "C11" => misc::c11(ck),
        "C12" => misc::c12(ck),
        "C13" => misc::c13(ck),
        "C15" => misc::c15(ck),
        "C16" => misc::c16(ck),
        "C17" => misc::c17(ck),
        "C18" => surface::c18(ck),
        "C26" => surface::c26(ck),
        "C23" => dh::c23(ck),
        "C24" => dh::c24(ck),
        "C25" => misc::c25(ck),
        "C14" => mlkem::c14(ck),
        "C19" => xwing::c19(ck),
        "C20" => xwing::c20(ck),
        "C21" => xwing::c21(ck),
        "C22" => xwing::c22(ck),
        "C29" => misc::c29(ck),
        "none" => {}
        _ => panic!("no such check: {prop}"),
    }
}
