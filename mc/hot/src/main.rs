mod diffs;
mod live;
mod loader;
mod page;
mod pages;
mod parse;
mod serv;
mod small;
mod spaces;
mod tree;
mod web;

use mc_core::Check;

const MODEL: &[&str] = &["stand-ins replace facet, html5ever and the browser (DESIGN.md)"];
const ALL: &[Check] = &[
    Check { id: "H01", level: "model_checking", rule: "non-trivial: the bodies differ", assumptions: MODEL, families: diffs::h01_families },
    Check { id: "H02", level: "model_checking", rule: "non-trivial: the documents are identical", assumptions: MODEL, families: diffs::h02_families },
    Check { id: "H03", level: "model_checking", rule: "every history", assumptions: MODEL, families: diffs::h03_families },
    Check { id: "H04", level: "model_checking", rule: "non-trivial: more than one patch", assumptions: MODEL, families: diffs::h04_families },
    Check { id: "H05", level: "model_checking", rule: "non-trivial: at least one event is due", assumptions: MODEL, families: web::h05_families },
    Check { id: "H06", level: "model_checking", rule: "non-trivial: at least one patch", assumptions: MODEL, families: web::h06_families },
    Check { id: "H07", level: "model_checking", rule: "non-trivial: the patch list is valid", assumptions: MODEL, families: web::h07_families },
    Check { id: "H08", level: "model_checking", rule: "non-trivial: at least one patch", assumptions: MODEL, families: diffs::h08_families },
    Check { id: "H09", level: "model_checking", rule: "non-trivial: a document that parsing can produce", assumptions: MODEL, families: page::h09_families },
    Check { id: "H10", level: "model_checking", rule: "non-trivial: the document has a root element", assumptions: MODEL, families: page::h10_families },
    Check { id: "H11", level: "model_checking", rule: "every input", assumptions: MODEL, families: page::h11_families },
    Check { id: "H12", level: "model_checking", rule: "every sequence", assumptions: MODEL, families: page::h12_families },
    Check { id: "H13", level: "model_checking", rule: "every chain", assumptions: MODEL, families: page::h13_families },
    Check { id: "H14", level: "model_checking", rule: "non-trivial: at least one patch", assumptions: MODEL, families: small::h14_families },
    Check { id: "S01", level: "model_checking", rule: "non-trivial: at least one event carries patches", assumptions: MODEL, families: serv::s01_families },
    Check { id: "S02", level: "model_checking", rule: "non-trivial: at least one event carries patches", assumptions: MODEL, families: serv::s02_families },
    Check { id: "S03", level: "model_checking", rule: "every interleaving", assumptions: MODEL, families: serv::s03_families },
    Check { id: "S04", level: "model_checking", rule: "every text; every document", assumptions: MODEL, families: serv::s04_families },
    Check { id: "S05", level: "model_checking", rule: "every event", assumptions: MODEL, families: serv::s05_families },
    Check { id: "S06", level: "model_checking", rule: "every combination of arguments", assumptions: MODEL, families: loader::s06_families },
    Check { id: "L01", level: "model_checking", rule: "every schedule", assumptions: MODEL, families: live::l01_families },
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("parse") {
        return parse::main(args.get(2).map_or("body", String::as_str));
    }
    if args.get(1).map(String::as_str) == Some("shrink") {
        let f = match args[2].as_str() {
            "H04" => diffs::h04,
            "H06" => web::h06,
            _ => diffs::h01,
        };
        return pages::shrink(&args[3], args[4].parse().unwrap(), f);
    }
    mc_core::main(ALL)
}
