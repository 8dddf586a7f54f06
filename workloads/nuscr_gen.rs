// Runs the real top-down generator on every protocol of a list.
// args: LIST; each line of LIST is "<id> <input file> <output prefix> <check 0|1>".
// The result of each call is printed as one line "@@id ok" / "@@id err <msg>" / "@@id panic <msg>".
use std::panic;

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let list = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for line in list.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let r = panic::catch_unwind(|| mpstthree::top_down_nuscr::generator::generator(f[1], f[2], f[3] == "1").map_err(|e| e.to_string()));
        match r {
            Ok(Ok(())) => println!("@@{} ok", f[0]),
            Ok(Err(e)) => println!("@@{} err {}", f[0], e.replace('\n', " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("@@{} panic {}", f[0], m.replace('\n', " "))
            }
        }
    }
}
