mod checks;
mod extra;
mod model;
mod oracle;
mod spaces;

fn main() {
    mc_core::main(checks::ALL)
}
