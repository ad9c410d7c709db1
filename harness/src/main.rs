mod auto;
mod common;
mod dict;
mod exec;
mod mlog;
mod model;
mod net;
mod props_api;
mod props_ffi;
mod props_file;
mod props_iso;
mod props_misc;
mod props_net;
mod props_rpc;
mod wire;
mod reader;
mod run;
mod scratch;

macro_rules! props {
    ($f:ident, $id:expr, $($name:literal => $p:expr),* $(,)?) => {
        match $id {
            $($name => Some($f!($p)),)*
            _ => None,
        }
    };
}

/// The properties which cannot be decided without a hook
macro_rules! hooked_props {
    ($f:ident, $id:expr) => {
        match $id {
            #[cfg(feature = "mlog")]
            "C22" => Some($f!(props_net::C22)),
            #[cfg(feature = "sync")]
            "C24" => Some($f!(props_net::C24)),
            #[cfg(feature = "sync")]
            "C25" => Some($f!(props_rpc::C25)),
            #[cfg(not(all(feature = "mlog", feature = "sync")))]
            "C22" | "C24" | "C25" => {
                eprintln!("not decidable without the hooks");
                Some(3)
            }
            _ => None,
        }
    };
}

macro_rules! all_props {
    ($f:ident, $id:expr) => {
        props!($f, $id,
            "C01" => props_file::C01,
            "C02" => props_file::C02,
            "C03" => props_file::C03,
            "C04" => props_file::C04,
            "C05" => props_file::C05,
            "C06" => props_api::C06,
            "C07" => props_api::C07,
            "C08" => props_api::C08,
            "C09" => props_api::C09,
            "C10" => props_api::C10,
            "C11" => props_api::C11,
            "C12" => props_api::C12,
            "C13" => props_file::C13,
            "C14" => props_file::C14,
            "C15" => props_api::C15,
            "C16" => props_misc::C16,
            "C17" => props_misc::C17,
            "C18" => props_api::C18,
            "C19" => props_ffi::C19,
            "C20" => props_ffi::C20,
            "C21" => props_misc::C21,
            "C23" => props_net::C23,
            "C26" => props_misc::C26,
            "C27" => props_iso::C27,
        )
    };
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: harness check <property> | replay <file>");
        std::process::exit(3)
    };
    if args.get(1).map(String::as_str) == Some("dict") {
        return dict::dump();
    }
    if args.len() < 3 {
        usage();
    }
    let code = match args[1].as_str() {
        "check" => {
            macro_rules! go { ($p:expr) => { run::run(&$p) } }
            all_props!(go, args[2].as_str()).or_else(|| hooked_props!(go, args[2].as_str()))
        }
        "replay" => {
            let text = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("{}: {}", args[2], e);
                std::process::exit(3)
            });
            let v: serde_json::Value = serde_json::from_str(&text).expect("JSON");
            let id = v["property"].as_str().expect("property").to_string();
            macro_rules! go { ($p:expr) => { run::replay(&$p, &v) } }
            all_props!(go, id.as_str()).or_else(|| hooked_props!(go, id.as_str()))
        }
        "worker" => Some(match args[2].as_str() {
            "create" => props_misc::worker_create(&args[3]),
            "alone" => props_iso::worker_alone(&args[3]),
            "capi" => props_ffi::worker_capi(&args[3]),
            "connect" => props_net::worker_connect(&args[3..]),
            _ => usage(),
        }),
        _ => usage(),
    };
    scratch::cleanup();
    match code {
        Some(c) => std::process::exit(c),
        None => {
            eprintln!("unknown property");
            std::process::exit(3)
        }
    }
}

