//! The same driver as in the harness, linked against the crate without the plotting feature.
#[path = "../../src/feat.rs"]
mod feat;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let lines = feat::run(&a[1], a[2] == "thorough");
    std::fs::write(&a[3], lines.join("\n")).unwrap();
}
