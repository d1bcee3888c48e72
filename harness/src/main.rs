//! vh check <id> | vh replay <file> | vh list
//! (child and one are used internally)
mod engine;
mod lang;
mod props;
mod sched;
mod val;
mod watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props: &'static [engine::Prop] = Box::leak(props::all().into_boxed_slice());
    let find = |id: &str| match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {}", id);
            std::process::exit(2)
        }
    };
    // as a command of its own name (see C30)
    if let Some((_, mode)) = a[0].rsplit_once("/vhx-") {
        std::process::exit(props::files::exec_child(&[mode.to_string()]));
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => engine::check(find(&a[2])),
        Some("child") => engine::child(find(&a[2]), &a[3..]),
        Some("one") => engine::one(find(&a[2]), a[3].clone(), a.get(4).cloned()),
        Some("replay") => engine::replay(props, &a[2]),
        Some("exectest") => props::files::exec_child(&a[2..]),
        Some("list") => {
            for p in props {
                println!("{} quick={} factor={}", p.id, p.quick, p.factor);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code)
}
