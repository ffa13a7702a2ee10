// vx: mechanical extraction of a near/core-contracts crate into a Verus file.
//
// usage: vx --repo DIR --crate NAME --rt rt.rs --contract FILE.vc --out OUT.rs --map MAP.json
//           [--prop Cxx]... [--drop Type::fn]... [--canary] [--only-entry NAME]...
mod contract;
mod emit;
mod krate;
mod pre;
mod norm;

use std::collections::BTreeSet;

pub struct Cfg {
    pub props: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    pub canary: bool,
    /// functions whose loop annotations are ignored (they no longer fit the code)
    pub weak: BTreeSet<String>,
    /// guessed frame invariants that turned out not to hold
    pub noauto: BTreeSet<String>,
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut repo, mut name, mut rt, mut con, mut out, mut map) =
        (String::new(), String::new(), String::new(), String::new(), String::new(), String::new());
    let mut cfg = Cfg { props: BTreeSet::new(), drop: BTreeSet::new(), canary: false, weak: BTreeSet::new(), noauto: BTreeSet::new() };
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("missing value");
        match x.as_str() {
            "--repo" => repo = v(),
            "--crate" => name = v(),
            "--rt" => rt = v(),
            "--contract" => con = v(),
            "--out" => out = v(),
            "--map" => map = v(),
            "--prop" => { cfg.props.insert(v()); }
            "--drop" => { cfg.drop.insert(v()); }
            "--weak" => { cfg.weak.insert(v()); }
            "--noauto" => { cfg.noauto.insert(v()); }
            "--canary" => cfg.canary = true,
            _ => { eprintln!("vx: unknown argument {x}"); std::process::exit(2) }
        }
    }
    let r = (|| -> Result<(), String> {
        let kr = krate::Krate::load(&repo, &name)?;
        let rt = std::fs::read_to_string(&rt).map_err(|e| e.to_string())?;
        let con = contract::Contract::parse(&std::fs::read_to_string(&con).map_err(|e| format!("{con}: {e}"))?)?;
        let (text, m) = emit::emit_crate(&kr, &con, &cfg, &rt)?;
        std::fs::write(&out, text).map_err(|e| e.to_string())?;
        std::fs::write(&map, serde_json::to_string_pretty(&m).unwrap()).map_err(|e| e.to_string())?;
        Ok(())
    })();
    if let Err(e) = r {
        eprintln!("vx: {e}");
        std::process::exit(3);
    }
}
