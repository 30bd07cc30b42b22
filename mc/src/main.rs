#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports, unused_macros))]
mod core;
mod gen;
mod near;
mod p_api;
mod p_exp;
mod p_hist;
mod p_ref;
mod p_res;
mod p_step;
mod p_team;
mod p_unc;
mod refm;
mod sys;
mod teams;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    #[cfg(feature = "C22")]
    if id == "--cold" {
        p_api::cold(args[2].parse().expect("call number"));
        return;
    }
    #[cfg(feature = "C22")]
    if id == "--order" {
        p_api::ordered(args[2].parse().expect("order"), args[3] == "thorough");
        return;
    }
    #[cfg(feature = "C22")]
    if id == "--near" {
        p_api::near_calls(args[2].parse().expect("order"), args[3] == "thorough");
        return;
    }
    #[cfg(feature = "C22")]
    if id == "--fresh" {
        let n = |i: usize| args[i].parse::<usize>().expect("number");
        std::process::exit(i32::from(!near::Near::new(args[5] == "thorough").fresh(n(2), n(3), n(4))));
    }
    let thorough = args.get(2).is_some_and(|t| t == "thorough");
    std::panic::set_hook(Box::new(|i| {
        // workers report panics as violations; a panic of the main thread is an error of the harness
        if std::thread::current().name() == Some("main") {
            eprintln!("{i}");
        }
    }));
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let known: Vec<String> = std::fs::read_to_string(format!("{root}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={id} ")).map(str::to_string))
        .collect();
    let ctx = core::Ctx::new(&id, thorough, known);
    match id.as_str() {
        #[cfg(feature = "C01")]
        "C01" => p_exp::c01(&ctx),
        #[cfg(feature = "C02")]
        "C02" => p_exp::c02(&ctx),
        #[cfg(feature = "C07")]
        "C07" => p_unc::c07(&ctx),
        #[cfg(feature = "C08")]
        "C08" => p_unc::c08(&ctx),
        #[cfg(feature = "C16")]
        "C16" => p_unc::c16(&ctx),
        #[cfg(feature = "C20")]
        "C20" => p_unc::c20(&ctx),
        #[cfg(feature = "C09")]
        "C09" => p_hist::c09(&ctx),
        #[cfg(feature = "C10")]
        "C10" => p_hist::c10(&ctx),
        #[cfg(feature = "C11")]
        "C11" => p_hist::c11(&ctx),
        #[cfg(feature = "C03")]
        "C03" => p_res::c03(&ctx),
        #[cfg(feature = "C04")]
        "C04" => p_res::c04(&ctx),
        #[cfg(feature = "C05")]
        "C05" => p_res::c05(&ctx),
        #[cfg(feature = "C06")]
        "C06" => p_res::c06(&ctx),
        #[cfg(feature = "C14")]
        "C14" => p_api::c14(&ctx),
        #[cfg(feature = "C15")]
        "C15" => p_api::c15(&ctx),
        #[cfg(feature = "C21")]
        "C21" => p_api::c21(&ctx),
        #[cfg(feature = "C22")]
        "C22" => p_api::c22(&ctx),
        #[cfg(feature = "C12")]
        "C12" => p_team::c12(&ctx),
        #[cfg(feature = "C13")]
        "C13" => p_team::c13(&ctx),
        #[cfg(feature = "C17")]
        "C17" => p_team::c17(&ctx),
        #[cfg(feature = "C18")]
        "C18" => p_team::c18(&ctx),
        #[cfg(feature = "C19")]
        "C19" => p_ref::c19(&ctx),
        #[cfg(feature = "C23")]
        "C23" => p_ref::c23(&ctx),
        #[cfg(feature = "C24")]
        "C24" => p_ref::c24(&ctx),
        #[cfg(feature = "C25")]
        "C25" => p_ref::c25(&ctx),
        #[cfg(feature = "C26")]
        "C26" => p_ref::c26(&ctx),
        #[cfg(feature = "C27")]
        "C27" => p_ref::c27(&ctx),
        #[cfg(feature = "C28")]
        "C28" => p_ref::c28(&ctx),
        #[cfg(feature = "C29")]
        "C29" => p_step::c29(&ctx),
        #[cfg(feature = "C30")]
        "C30" => p_step::c30(&ctx),
        #[cfg(feature = "C31")]
        "C31" => p_step::c31(&ctx),
        #[cfg(feature = "C32")]
        "C32" => p_step::c32(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    }
    std::process::exit(ctx.finish());
}
