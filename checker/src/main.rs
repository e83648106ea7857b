mod known;
mod statics;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "known" => known::main(&a[2]),
        _ => mc::cli::main(|p, t| {
            let mut l = mc::props::spaces(p, t);
            l.extend(statics::spaces(p, t));
            l
        }),
    }
}
