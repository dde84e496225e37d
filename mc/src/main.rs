mod checks;
mod feat;
mod la;
mod model;
mod rt;
mod sim;
mod term;

use rt::*;

const A0: &str = "optimiser, nalgebra, rayon and the random generators are executed for real; only objective, constraints and clock are scripted";

const A2: &str = "the harness decides when a concurrent evaluation or constraint check returns; what the code under test does between such returns is left to the operating system's scheduling";

const A1: &str = "reference model in double precision: comparison stops when propagated rounding error exceeds 1e-3 relative or the condition number exceeds 1e13 (counted as steps_beyond_comparable_precision)";

fn registry() -> Vec<Check> {
    vec![
        Check { id: "P01", rule: "all words of objective answers over value alphabets (with signed zeros and infinities) to a depth, all better/equal/worse trends, a configuration lattice with sequential/parallel steps and whole runs; every step compared with the recorded evaluations", assumptions: &[A0], jobs: checks::core::p01 },
        Check { id: "P02", rule: "all placements of invalid answers to a depth, the population x dimension grid with constraints/printing/plotting, whole runs; counts compared with recorded calls after every step", assumptions: &[A0], jobs: checks::core::p02 },
        Check { id: "P03", rule: "all NaN masks over generations to a depth, a single NaN at every position of longer histories, all classes of valid values, whole runs with a NaN at every evaluation; state before and after compared bit for bit", assumptions: &[A0], jobs: checks::core::p03 },
        Check { id: "P04", rule: "lock step of a reference model with the implementation: all ranking words to a depth, a configuration lattice x landscapes, all block sequences of adversarial rankings, faults, long histories; mean and step size compared after every generation", assumptions: &[A0, A1], jobs: checks::dist::p04 },
        Check { id: "P05", rule: "as P04; covariance, eigenvalues and refresh schedule compared after every generation", assumptions: &[A0, A1], jobs: checks::dist::p05 },
        Check { id: "P06", rule: "all block sequences of adversarial rankings, persistent adversaries from extreme starting points, stepping beyond termination, ill-conditioned landscapes; well-formedness checked after every step", assumptions: &[A0], jobs: checks::dist::p06 },
        Check { id: "P07", rule: "all ranking words to a depth, seeds x configuration lattice x landscapes, all sequences of constraint answers to a depth, aborted generations; whitened products of all displacements of an eigen period compared with those of the seed's deviates", assumptions: &[A0, A1], jobs: checks::sampling::p07 },
        Check { id: "P08", rule: "all sequences of constraint answers to a depth x resampling limits x population sizes, periodic answers, all lattice points of boxes, boxed runs; resampling rounds replayed against the recorded questions", assumptions: &[A0], jobs: checks::sampling::p08 },
        Check { id: "P09", rule: "all combinations of evaluation and generation limits x masks of aborted generations, all sequences of generation durations under a virtual clock, whole runs; verdict compared in every generation, also past the limit", assumptions: &[A0], jobs: checks::term::p09 },
        Check { id: "P10", rule: "all words of values around the target (one ulp, infinities) for all targets, modes and population sizes; whole runs with targets at and one ulp beside every value reached", assumptions: &[A0], jobs: checks::term::p10 },
        Check { id: "P11", rule: "flat histories with one deviation of every size at every age and position, all pairs of deviations, relative tolerance histories, landscapes, histories longer than the cap; verdict compared in every generation", assumptions: &[A0], jobs: checks::term::p11 },
        Check { id: "P12", rule: "all sequences of best/median level blocks, a worsening at every moment, defaults, histories longer than the cap; verdict compared in every generation", assumptions: &[A0], jobs: checks::term::p12 },
        Check { id: "P13", rule: "for every explored history, tolerances just above and below the critical quantities of its generations; verdict compared in every generation with the model's covariance path", assumptions: &[A0, A1], jobs: checks::term::p13 },
        Check { id: "P14", rule: "lattice of mean magnitudes x step sizes across the rounding threshold x coordinates, contraction histories, condition limits just above and below every generation's condition; verdicts compared in every generation", assumptions: &[A0, A1], jobs: checks::term::p14 },
        Check { id: "P15", rule: "all combinations of enabled criteria x histories, defaults on landscapes with invalid values; every step's reasons compared with the oracle of all criteria, the run compared with stepping", assumptions: &[A0, A1], jobs: checks::term::p15 },
        Check { id: "P16", rule: "twin runs (minimise f, maximise -f): all answer words to a depth, all level block sequences, a configuration lattice x landscapes with every criterion made to fire, whole runs; every step compared bit for bit", assumptions: &[A0], jobs: checks::equiv::p16 },
        Check { id: "P17", rule: "twin runs under every transformation of the menu: all weak orders to a depth under six value assignments, landscapes transformed, space scaled by powers of two and shifted; every step compared", assumptions: &[A0], jobs: checks::equiv::p17 },
        Check { id: "P18", rule: "twin runs: all sequences of observer operations to a length, printing and plotting on and off, configuration lattice, all interleavings of three optimisers to a depth, seeds; every step compared bit for bit", assumptions: &[A0], jobs: checks::equiv::p18 },
        Check { id: "P19", rule: "controlled schedules on real thread pools: all completion orders (or all release schedules of smaller pools) of a generation's evaluations x answer patterns x positions of invalid answers; every step compared bit for bit with the sequential twin; free whole runs on every pool size", assumptions: &[A0, A2], jobs: checks::parallel::p19 },
        Check { id: "P20", rule: "controlled schedules on real thread pools: all completion orders of constraint answers x all accept masks; all rankings to a depth and a configuration lattice on every pool size, compared with the sequential update up to rounding", assumptions: &[A0, A2], jobs: checks::parallel::p20 },
        Check { id: "P21", rule: "all dimensions x population sizes x weight settings x learning rates of the grid against the published formulas; all subsets of settable options, two values each; constancy during runs", assumptions: &[A0], jobs: checks::params::p21 },
        Check { id: "P22", rule: "all combinations of boundary values of the validated options; odd values of every other option built and run; all sequences of setter calls to a length against direct field assignment; all orders of option groups, built and run", assumptions: &[A0], jobs: checks::params::p22 },
        Check { id: "P23", rule: "all budget values at every run boundary of pilot histories, all time limits at evaluation boundaries under a virtual clock, all words of run outcomes to a depth, all small per-run limits, all strategies and entry points; reason and run count compared with a model of the restart loop", assumptions: &[A0], jobs: checks::restart::p23 },
        Check { id: "P24", rule: "all words of per-run best values to a depth, an invalid value at every evaluation of a history, landscapes through the four entry points; results compared with the recorded evaluations", assumptions: &[A0], jobs: checks::restart::p24 },
        Check { id: "P25", rule: "all words of run lengths to a depth for every strategy, ranges x factors x dimensions x populations; every run's population, step size (recovered from its points) and limit compared with a model of the schedule", assumptions: &[A0], jobs: checks::restart::p25 },
        Check { id: "P26", rule: "twin restarters over seeds, strategies and landscapes; every default option x strategy x mode x script, each run compared with a plain optimiser built from its recovered start", assumptions: &[A0], jobs: checks::restart::p26 },
        Check { id: "P27", rule: "all pairs of boundary values as search range, all boundary factors, all strategies; acceptance compared with the documented rule and every accepted configuration run", assumptions: &[A0], jobs: checks::restart::p27 },
        Check { id: "P28", rule: "all sequences of step, parallel step, record, clear, aborted step and run operations to a length for every gap and population size, whole runs of every length x gap, all value words; the recorded data read back and compared with a model after every operation", assumptions: &[A0], jobs: checks::plot::p28 },
        Check { id: "P29", rule: "all words of extreme best values, all value pairs in a generation, mean magnitudes x step sizes, dimensions, landscapes far beyond termination, all kinds of paths; every saved file examined", assumptions: &[A0], jobs: checks::plot::p29 },
        Check { id: "P30", rule: "all gaps x run lengths x populations, every kind of termination, an invalid value at every evaluation, magnitudes of all printed quantities; captured output parsed and compared with the states of a silent twin", assumptions: &[A0], jobs: checks::print::p30 },
        Check { id: "P31", rule: "every adaptor x way of running x landscape against the plain closure, all scale vectors x points over an alphabet, runs through all scale vectors against the hand-scaled function; recorded calls compared bit for bit", assumptions: &[A0], jobs: checks::wrap::p31 },
        Check { id: "P32", rule: "all starts x step sizes x landscapes x four functions, all answer words of a generation; the result compared with the recorded evaluations and the run with a default run from the printed seed", assumptions: &[A0], jobs: checks::wrap::p32 },
        Check { id: "P33", rule: "all seeds of a range x starts x weights x modes x dimensions x population sizes on convex functions up to condition 1e6 run with default tolerances, linear functions, restarts on a multimodal function; every run judged by its end", assumptions: &[A0], jobs: checks::extra::p33 },
        Check { id: "P34", rule: "all words of panicking evaluations to a depth (sequential, and parallel on pools), a panic at every evaluation of longer histories, runs, restarts and convenience functions, at every constraint question; state compared before and after, continuation compared with the model", assumptions: &[A0, A1], jobs: checks::extra::p34 },
        Check { id: "P35", rule: "configuration lattice x landscapes built, run and dropped, histories several times longer than the recorded window, cleared plots, restarts; live heap bytes compared", assumptions: &[A0, "heap use is counted by an allocator that forwards to the system's; only the calling thread's allocations are counted"], jobs: checks::extra::p35 },
        Check { id: "P36", rule: "the same driver compiled with and without the plotting feature: configuration lattice x landscapes, every option, invalid values, long histories, printing, restarts, wrappers; every step and everything printed compared bit for bit", assumptions: &[A0], jobs: checks::extra::p36 },
        Check { id: "P37", rule: "words of best values over generations, and landscapes x dimensions x gaps x modes at several moments, before and after clearing: every curve of the saved image is located pixel by pixel and compared with the recorded points", assumptions: &[A0], jobs: checks::image::p37 },
        Check { id: "P38", rule: "strategies x entry points x all words of run outcomes, budgets x printing runs, scripted runs repeated directly: every printed line compared with the recorded evaluations, and with the length of the output at each of them", assumptions: &[A0], jobs: checks::rprint::p38 },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let reg = registry();
    let find = |id: &str| reg.iter().find(|c| c.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let t = a.get(4).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(find(&a[2]), tier(&t))
        }
        Some("worker") => {
            worker(find(&a[2]), tier(&a[3]), a[4].parse().unwrap(), std::path::Path::new(&a[5]));
            0
        }
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            replay(find(v["property"].as_str().unwrap()), tier(v["tier"].as_str().unwrap()), v["job"].as_str().unwrap())
        }
        Some("list") => {
            for c in &reg {
                println!("{}", c.id);
            }
            0
        }
        Some("jobs") => {
            for j in (find(&a[2]).jobs)(tier(&a[3])) {
                println!("{}", j.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [--tier T] | replay FILE | list | jobs ID TIER");
            2
        }
    };
    std::process::exit(code);
}
