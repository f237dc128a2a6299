mod core_checks;
mod core_more;
mod fc_checks;
mod fc_dump;
mod fc_more;
mod fc_scale;
mod genr;
mod list_checks;
mod lit_checks;
mod lit_soup;
mod model;
mod mon;
mod rng;
mod san;
use mon::*;

fn main() {
    install_panic_hook();
    // reports are rendered as the tool does
    litcheck::reporting::set_hook(Box::new(|_| Box::new(litcheck::reporting::NarrateDistantLabels(litcheck::reporting::ReportHandlerOpts::new().build())))).expect("the first hook");
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("usage: vh PROPERTY [--case stream:idx]");
    if prop == "digests" {
        let v: Vec<u64> = args.map(|a| a.parse().expect("a number")).collect();
        return fc_more::print_digests(v[0], v[1], v[2]);
    }
    match std::env::var_os("VH_CHILD") {
        None if !cfg!(miri) && prop != "nop" => std::process::exit(supervise(&prop)),
        None => {}
        Some(f) => child_of(&f),
    }
    let mut only = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--case" => {
                let v = args.next().expect("--case stream:idx");
                let (s, i) = v.rsplit_once(':').expect("--case stream:idx");
                only = Some((s.to_string(), i.parse().unwrap()));
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let ctx = Ctx::new(&prop, tier, seed, only);
    ctx.watchdog();
    let code = match prop.as_str() {
        "nop" => 0,
        "K01" => core_checks::k01(&ctx),
        "K02" => core_checks::k02(&ctx),
        "K03" => core_checks::k03(&ctx),
        "K04" => core_checks::k04(&ctx),
        "K05" => san::k05(&ctx),
        "L05" => lit_checks::l05(&ctx),
        "L13" => lit_soup::l13(&ctx),
        "K06" => list_checks::k06(&ctx),
        "K07" => core_checks::k07(&ctx),
        "K08" => core_more::k08(&ctx),
        "C01" | "C04" | "C05" | "C07" | "C09" | "C10" => fc_checks::modelled(&ctx, 1, 90_000),
        "C02" => fc_checks::modelled(&ctx, 3, 45_000),
        "C03" | "C06" | "C08" => fc_checks::modelled(&ctx, 2, 55_000),
        "C11" => fc_more::c11(&ctx),
        "C12" => fc_more::c12(&ctx),
        "C13" => fc_more::c13(&ctx),
        "C14" => fc_more::c14(&ctx),
        "C16" => fc_dump::c16(&ctx),
        _ => panic!("unknown property {prop}"),
    };
    std::process::exit(code);
}
