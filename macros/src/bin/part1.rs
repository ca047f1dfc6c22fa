include!(concat!(env!("VWMC_GEN"), "/part1.rs"));
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for (c, f) in ALL {
        let r = std::panic::catch_unwind(f).map_err(|e| {
            let s = e.downcast_ref::<String>().cloned();
            s.or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        });
        println!("{}", serde_json::to_string(&(c, r)).unwrap());
    }
}
