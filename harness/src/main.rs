mod dom;
mod engine;
mod props;
mod tree;

use engine::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

fn root() -> String {
    std::env::var("VWMC_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Runs one case in this process: 0 = property held, 1 = violated
fn one(prop: &str, case: &str) -> i32 {
    let p = props::find(prop).expect("unknown property");
    let macros = props::macros::MACRO_PROPS.contains(&prop) && std::env::var("VWMC_MACROS").is_err();
    let dir = format!("/dev/shm/vwmc-macros-{}", std::process::id());
    if macros {
        let r = props::macros::prepare(&[case.to_string()], &root(), &dir);
        std::env::set_var("VWMC_MACROS", &dir);
        if let Err(e) = r {
            eprintln!("{}", e);
            std::fs::remove_dir_all(&dir).ok();
            return 2;
        }
    }
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || p.check(case)).unwrap().join()
    });
    if macros {
        std::fs::remove_dir_all(&dir).ok();
    }
    match r {
        Ok(Ok(_)) => {
            println!("holds");
            0
        }
        Ok(Err(m)) => {
            println!("violated: {}", m);
            1
        }
        Err(_) => 2,
    }
}

fn main() {
    quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        Some("run") => parent(&a[2], &a[3]),
        Some("worker") => {
            let p = props::find(&a[2]).expect("unknown property");
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            run(p.as_ref(), tier, &root())
        }
        // case on stdin
        Some("one") => {
            use std::io::Read;
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            one(&a[2], &s)
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            one(v["property"].as_str().unwrap(), v["case"].as_str().unwrap())
        }
        Some("show") => {
            use std::io::Read;
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            props::show(&s);
            0
        }
        _ => {
            eprintln!("usage: vwmc run <property> quick|thorough | replay <file> | list");
            2
        }
    };
    props::cli::cleanup();
    std::process::exit(code);
}

/// Runs the exploration in a child: a case that kills the whole process
/// (stack overflow, abort) is then found in the slots and confirmed alone.
fn parent(prop: &str, tier: &str) -> i32 {
    let p = match props::find(prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let exe = std::env::current_exe().unwrap();
    let slots = format!("/dev/shm/vwmc-{}", std::process::id());
    let slots = if std::fs::create_dir_all(&slots).is_ok() {
        slots
    } else {
        let s = format!("{}/target/slots-{}", root(), std::process::id());
        std::fs::create_dir_all(&s).unwrap();
        s
    };
    if props::macros::MACRO_PROPS.contains(&prop) {
        let t = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
        let cases: Vec<String> = p.spaces(t).iter().flat_map(expand).collect();
        let dir = format!("{}/macros", slots);
        if let Err(e) = props::macros::prepare(&cases, &root(), &dir) {
            eprintln!("{}", e);
            std::fs::remove_dir_all(&slots).ok();
            return 2;
        }
        std::env::set_var("VWMC_MACROS", &dir);
    }
    let st = Command::new(&exe).args(["worker", prop, tier]).env("VWMC_SLOTS", &slots).status().unwrap();
    let mut code = st.code().unwrap_or(2);
    if st.signal().is_some() || code == 134 {
        eprintln!("worker died: {:?}", st);
        code = 2;
        let mut seen = std::collections::BTreeSet::new();
        for e in std::fs::read_dir(&slots).unwrap().flatten() {
            let b = std::fs::read(e.path()).unwrap_or_default();
            if b.len() < 8 {
                continue;
            }
            let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            if b.len() < 8 + n {
                continue;
            }
            seen.insert(String::from_utf8_lossy(&b[8..8 + n]).into_owned());
        }
        for c in &seen {
            let mut ch = Command::new(&exe).args(["one", prop]).stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
            {
                use std::io::Write;
                ch.stdin.take().unwrap().write_all(c.as_bytes()).ok();
            }
            let st = ch.wait().unwrap();
            if st.signal().is_some() {
                let path = write_replay(&root(), prop, c, &format!("the process died: {:?}", st));
                println!("VIOLATION property={} replay={}", prop, path);
                println!("  case {:?}: the process died ({:?})", c, st);
                code = 1;
                write_evidence(&root(), p.as_ref(), if tier == "thorough" { Tier::Thorough } else { Tier::Quick }, &serde_json::json!({"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "rule": p.rule(), "evaluations": 1, "distinct_nontrivial": 1, "exhaustive": false, "samples": [c]}), 1, 0.0);
            }
        }
    }
    std::fs::remove_dir_all(&slots).ok();
    code
}
