#[macro_use]
mod common;
mod alloc;
#[cfg(feature = "backend")]
mod backend;
mod conc;
mod doneact;
mod g_struct;
mod gedit;
mod logs;
mod params;
mod prim;
mod proc;
mod sched;
mod shapes;
mod subg;
mod tu;
mod units;
mod wraps;
mod chunks;
mod dsp;
mod world;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).expect("property id").clone();
    let tier = if a.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let root = std::path::PathBuf::from(a.get(3).cloned().unwrap_or_else(|| "/verif".into()));
    let replay = a.iter().position(|x| x == "--case").and_then(|i| a.get(i + 1).cloned());
    install_handlers(&id, &root.join(format!("evidence/replays/{id}-crash.txt")));
    let _ = std::fs::create_dir_all(root.join("evidence/replays"));
    let run = Run::new(&id, tier, root, replay);
    match id.as_str() {
        "G01" => g_struct::g01(&run),
        "G02" => g_struct::g02(&run),
        "G03" => g_struct::g03(&run),
        "G04" => g_struct::g04(&run),
        "G10" => g_struct::g10(&run),
        "G11" => doneact::g11(&run),
        "G12" => subg::g12(&run),
        "G13" => proc::g13(&run),
        "G14" => g_struct::g14(&run),
        "G15" => gedit::g15(&run),
        "G16" => g_struct::g16(&run),
        #[cfg(feature = "backend")]
        "G17" => backend::g17(&run),
        "L01" => logs::l01(&run),
        "P01" => prim::p01(&run),
        "P02" => prim::p02(&run),
        "P03" => params::p03(&run),
        "U01" => wraps::u01(&run),
        "U02" => wraps::u02(&run),
        "U03" => wraps::u03(&run),
        "U04" => chunks::u04(&run),
        "U05" => dsp::u05(&run),
        "D01" => dsp::d01(&run),
        "D02" => dsp::d02(&run),
        "D03" => dsp::d03(&run),
        "D04" => dsp::d04(&run),
        "D05" => dsp::d05(&run),
        "G05" => conc::g05(&run),
        "G06" => conc::g06(&run),
        "G07" => conc::g07(&run),
        "G08" => sched::g08(&run),
        "G09" => sched::g09(&run),
        _ => {
            println!("unknown property {id}");
            std::process::exit(2);
        }
    }
    let rc = run.finish();
    // worker threads are joined; skip destructors of leaked fixtures
    std::process::exit(rc);
}
