use mc::engine::*;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let tier_of = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let checks = mc::checks::all();
    let find = |id: &str| {
        checks
            .iter()
            .find(|c| c.id() == id)
            .unwrap_or_else(|| {
                eprintln!("unknown check {}", id);
                std::process::exit(2)
            })
            .as_ref()
    };
    if a.first().map(|s| s.as_str()) == Some("--worker") {
        let prof = if a[3] == "checked" { Profile::Checked } else { Profile::Release };
        worker_main(find(&a[1]), tier_of(&a[2]), prof);
    }
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let c = find(a.first().map(|s| s.as_str()).unwrap_or(""));
    let code = if a.get(1).map(|s| s.as_str()) == Some("--case") {
        replay_main(c, tier, &a[2])
    } else {
        parent_main(c, tier)
    };
    std::process::exit(code);
}
