//! P21: the command-line tools that make and search sample databases.
mod certs;
mod tools;

fn main() {
    let mut p = tools::prop();
    p.families.push(certs::family());
    vengine::main_with(vec![p])
}
