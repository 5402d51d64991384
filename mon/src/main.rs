//! The monitors of /verif/properties.jsonl: `mon <property> [--tier quick|thorough] [--seed n] [--only group:case]`.
mod fl;
mod fw;
mod ga;
mod ga_check;
mod ga_props;
mod long_props;
mod more_props;
mod ops_props;
mod pso;
mod pso_props;
mod run_props;
mod sym_props;
mod tagpipe;
mod tools_props;

use fw::{Group, Opts, Prop, Tier};
use ga_props as ga_;
use long_props as lg;
use more_props as mo;
use ops_props as op;
use pso_props as ps;
use run_props as rn;
use sym_props as sy;
use tools_props as tl;

const STREAM: &str = "rand::thread_rng() is the only random source; its ChaCha core is replaced by a controlled stream (pseudo-random, or mixed with extreme words)";
const FLOATS: &str = "intervals are finite with a representable width; f32 and f64";
const NOWHERE: &str = "goals are arbitrary functions of point and call number, including NaN and infinities";

#[global_allocator]
static METER: more_props::Meter = more_props::Meter;

macro_rules! groups {
    ($($name:ident $q:expr, $t:expr => $f:path;)*) => { vec![$(Group { name: stringify!($name), quick: $q, thorough: $t, run: $f }),*] };
}

fn prop(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => Prop {
            id: "C01",
            rule: "a whole history of runs (find_min / next_iterations) whose event log contains at least one completed generation; distinct by hash of the log",
            groups: groups! { tags 40000, 1000000 => ga_::c01_tags; vectors 40000, 1000000 => ga_::c01_vec; long 800, 16000 => ga_::c01_long; },
            need: vec![("generations", 50000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE, "custom operators are well behaved: parents in range, selections only kill"],
        },
        "C02" => Prop {
            id: "C02",
            rule: "a run of shipped operators over at least two generations; distinct by hash of the log",
            groups: groups! { vectors 70000, 2000000 => ga_::c02; long 800, 25000 => lg::best_ga; },
            need: vec![("iterations_of_long_runs", 100000), ("generations", 50000), ("improvements", 2000)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS, NOWHERE],
        },
        "C03" => Prop {
            id: "C03",
            rule: "a history in which children were made; distinct by hash of the log",
            groups: groups! { tags 40000, 1000000 => ga_::c03_tags; vectors 40000, 1000000 => ga_::c03_vec; long 800, 16000 => ga_::c03_long; },
            need: vec![("born", 90000), ("families", 90000), ("pre_birth_changes", 10000)],
            rates: vec![],
            assumptions: vec![STREAM, "custom operators return 0..3 children, families of 0..n members, filters that drop, change, reorder or add candidates"],
        },
        "C04" => Prop {
            id: "C04",
            rule: "a history with selections acting on newborns and survivors; distinct by hash of the log",
            groups: groups! { tags 20000, 600000 => ga_::c04_tags; vectors 20000, 500000 => ga_::c04_vec; bare 50000, 1000000 => ga_::c04_nosel; long 800, 16000 => ga_::c04_long; },
            need: vec![("born", 60000), ("killed", 50000), ("extinct_generations", 5000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C05" => Prop {
            id: "C05",
            rule: "a population (goal values, who is dead, how many to kill); distinct by its goal values, dead set and limit; the small group enumerates all populations up to 5 individuals over 5 values",
            groups: groups! { random 40000, 1000000 => op::c05_random; small 16, 16 => op::c05_small; },
            need: vec![("removals", 1000), ("with_live_nan", 300), ("with_dead", 300)],
            rates: vec![],
            assumptions: vec![NOWHERE],
        },
        "C06" => Prop {
            id: "C06",
            rule: "a population with both valid and invalid individuals; distinct by its content",
            groups: groups! { random 50000, 1000000 => op::c06; },
            need: vec![("valid", 1000), ("invalid", 1000)],
            rates: vec![],
            assumptions: vec![NOWHERE, "intervals a <= b, finite"],
        },
        "C07" => Prop {
            id: "C07",
            rule: "a batch of candidates with some dropped and some kept, or a run with evaluations; distinct by content",
            groups: groups! { batches 30000, 900000 => op::c07_unit; runs 30000, 900000 => ga_::c07_run; },
            need: vec![("kept", 1000), ("dropped", 1000)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS],
        },
        "C08" => Prop {
            id: "C08",
            rule: "a population with a pairing request; the statistical groups judge several 10^4 draws per case with bounds of false-alarm probability < 1e-11",
            groups: groups! { structure 30000, 700000 => op::c08_structure; default 50000, 1000000 => op::c08_default; uniform 2000, 50000 => op::c08_uniform; tournament 5000, 100000 => op::c08_tournament; large 600, 8000 => op::c08_large; },
            need: vec![("families", 1000), ("empty_populations", 10), ("pairs_drawn", 10000), ("members_drawn", 10000), ("members_drawn_in_large_populations", 1000000), ("tournaments_with_nan", 10)],
            rates: vec![],
            assumptions: vec![STREAM, "the statistical groups use the honest stream"],
        },
        "C09" => Prop {
            id: "C09",
            rule: "a pair of bit patterns and a position; 8-bit widths exhaustively",
            groups: groups! { functions 20000, 600000 => op::c09_functions; bitwise 10000, 400000 => op::c09_bitwise; exponent 30000, 800000 => op::c09_exp; reach 5000, 100000 => op::c09_exp_reach; },
            need: vec![("crossings", 100000), ("positions_drawn", 10), ("exponent_crossings", 1000)],
            rates: vec![],
            assumptions: vec![STREAM, "exponent crossing is judged on normal finite parents"],
        },
        "C10" => Prop {
            id: "C10",
            rule: "a list of parents (1..6, all float classes that have a representable mean) or a pair of chromosomes; distinct by bits",
            groups: groups! { means 20000, 700000 => op::c10_means; integers 70000, 2000000 => op::c10_ints; vectors 20000, 700000 => op::c10_vec; },
            need: vec![("means", 1000), ("genes", 1000)],
            rates: vec![],
            assumptions: vec![STREAM],
        },
        "C11" => Prop {
            id: "C11",
            rule: "a mutated gene or chromosome; the bit and gene frequencies are judged with bounds of false-alarm probability < 1e-11",
            groups: groups! { bits 7000, 200000 => op::c11_bits; vectors 7000, 200000 => op::c11_vec; },
            need: vec![("honest_bit_flips", 10000), ("mutations", 1000), ("honest_genes", 10000)],
            rates: vec![],
            assumptions: vec![STREAM],
        },
        "C12" => Prop {
            id: "C12",
            rule: "one call of a creator or initialiser; the distribution is judged over many calls with bounds of false-alarm probability < 1e-11",
            groups: groups! { floats 3000, 80000 => op::c12_float; integers 10000, 400000 => op::c12_ints; others 40000, 1000000 => op::c12_rest; },
            need: vec![("honest_points", 1000), ("points", 1000), ("honest_integer_points", 1000), ("rejections", 5)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS],
        },
        "C13" => Prop {
            id: "C13",
            rule: "a swarm history with evaluations; distinct by hash of the log",
            groups: groups! { runs 60000, 2000000 => ps::c13; long 800, 25000 => lg::best_swarm; lengthy 800, 16000 => ps::c13_long; },
            need: vec![("iterations_of_long_runs", 100000), ("iterations", 50000)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS, NOWHERE],
        },
        "C14" => Prop {
            id: "C14",
            rule: "a swarm history with particle moves; distinct by hash of the log",
            groups: groups! { runs 60000, 2000000 => ps::c14; long 600, 20000 => lg::steps; lengthy 800, 16000 => ps::c14_long; },
            need: vec![("iterations_of_long_runs", 100000), ("moves", 200000), ("corrections", 300000)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS, NOWHERE, "in every iteration the particles may be moved in any order"],
        },
        "C15" => Prop {
            id: "C15",
            rule: "one velocity calculation checked against the formula; random factors pinned by a constant stream, else bounded, else judged by their distribution",
            groups: groups! { pinned 20000, 600000 => ps::c15_const; honest 20000, 500000 => ps::c15_honest; distribution 300, 9000 => ps::c15_dist; inertia 100000, 3000000 => ps::c15_inertia; long 600, 20000 => lg::inertia; lengthy 800, 16000 => ps::c15_long; },
            need: vec![("iterations_of_long_runs", 100000), ("velocity_components_checked", 200000), ("random_factors_recovered", 200000), ("inertia_values", 1000000)],
            rates: vec![],
            assumptions: vec![STREAM, "finite positions, velocities and goals in the formula groups; worst positions of particles are re-derived from the log"],
        },
        "C16" => Prop {
            id: "C16",
            rule: "one corrected point (any float bits, boundary neighbours) or one swarm run; distinct by content",
            groups: groups! { boundary 10000, 300000 => op::c16_boundary; teleport 6000, 200000 => op::c16_teleport; swarms 30000, 700000 => ps::c16_swarm; },
            need: vec![("corrected", 1000), ("teleported", 1000)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS],
        },
        "C17" => Prop {
            id: "C17",
            rule: "one velocity and limit (all magnitudes a float can have); distinct by bits",
            groups: groups! { dimensions 20000, 400000 => op::c17_dims; absolute 20000, 600000 => op::c17_abs; },
            need: vec![("limited", 1000), ("free", 1000), ("on_the_limit", 100)],
            rates: vec![],
            assumptions: vec![FLOATS],
        },
        "C18" => Prop {
            id: "C18",
            rule: "a sequence of stop checks answered by a criterion (and by each member of a composite), or a run; distinct by content",
            groups: groups! { sequences 20000, 700000 => tl::c18_ops; members 30000, 900000 => tl::c18_members; genetic 20000, 400000 => ga_::c18_ga; swarm 20000, 400000 => ps::c18_pso; long 1500, 40000 => lg::stops; },
            need: vec![("iterations_of_long_runs", 100000), ("op_checks", 10000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE, "the first best value of a run is not exactly f64::MAX"],
        },
        "C19" => Prop {
            id: "C19",
            rule: "a run compared with the same run paused at random iterations; distinct by hash of the log",
            groups: groups! { genetic 20000, 500000 => ga_::c19_ga; swarm 10000, 300000 => ps::c19_pso; long 1000, 25000 => lg::resume; },
            need: vec![("iterations_of_long_runs", 100000), ("iterations", 12000), ("pauses", 2500)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C20" => Prop {
            id: "C20",
            rule: "a run on a used optimizer compared with one on a fresh optimizer with the same stream; distinct by both logs",
            groups: groups! { genetic 20000, 500000 => ga_::c20_ga; swarm 20000, 500000 => ps::c20_pso; long 800, 25000 => lg::reuse; },
            need: vec![("iterations_of_long_runs", 100000), ("events_compared", 200000), ("runs_before", 5000), ("runs_of_varied_size", 500)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C21" => Prop {
            id: "C21",
            rule: "a history with more than ten logger calls; distinct by hash of the log",
            groups: groups! { tags 30000, 900000 => ga_::c21_ga; vectors 30000, 800000 => ga_::c21_vec; swarm 20000, 600000 => ps::c21_pso; long 1200, 40000 => lg::log; },
            need: vec![("iterations_of_long_runs", 100000), ("logger_calls", 100000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C22" => Prop {
            id: "C22",
            rule: "a printed report parsed and compared with the exact decimal value of the solution; distinct by printed text",
            groups: groups! { states 3000, 80000 => tl::c22_fake; integers 100000, 4000000 => tl::c22_ints; runs 30000, 1000000 => tl::c22_real; timing 24, 400 => tl::c22_time; },
            need: vec![("lines", 1000), ("results", 500), ("results_without_solution", 20), ("timed_segments", 8), ("segments_over_a_second", 2)],
            rates: vec![],
            assumptions: vec!["decimal precision 0..20", STREAM],
        },
        "C23" => Prop {
            id: "C23",
            rule: "a history of runs with a statistics logger and counters compared with an independent record; distinct by content",
            groups: groups! { runs 20000, 600000 => tl::c23_real; calls 40000, 1000000 => tl::c23_calls; counted 50000, 1000000 => tl::c23_calls_real; long 800, 25000 => lg::stats; },
            need: vec![("iterations_of_long_runs", 100000), ("iterations_recorded", 1000), ("runs_recorded", 500), ("histories_with_resumption", 100), ("late_attachments", 20), ("goal_calls", 10000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C24" => Prop {
            id: "C24",
            rule: "a collection of run results with its aggregates recomputed in exact or higher precision; distinct by content",
            groups: groups! { aggregates 20000, 500000 => tl::c24; convergence 20000, 600000 => tl::c24_convergence; predicates 10000, 400000 => tl::c24_predicates; calls 60000, 2000000 => tl::c24_calls; },
            need: vec![("aggregates", 1000), ("components", 500), ("iterations_averaged", 500), ("accepted", 500), ("rejected", 500), ("nan_solutions", 50)],
            rates: vec![],
            assumptions: vec!["aggregates are judged to rounding (relative to the largest term)"],
        },
        "C25" => Prop {
            id: "C25",
            rule: "a sequence of recordings and unions, or workers gathered in arrival order; distinct by content",
            groups: groups! { operations 9000, 200000 => tl::c25_ops; many 200, 6000 => tl::c25_many; workers 10000, 300000 => tl::c25_workers; },
            need: vec![("unions", 500), ("united_runs_of_many", 50000), ("gathered_runs", 200)],
            rates: vec![],
            assumptions: vec![STREAM],
        },
        "C26" => Prop {
            id: "C26",
            rule: "a history of runs with hostile goals in which the goal was called more than three times; distinct by its random stream",
            groups: groups! { genetic 60000, 2000000 => rn::c26_ga; swarm 50000, 1000000 => rn::c26_pso; },
            need: vec![("goal_calls", 50000), ("iterations", 5000), ("runs_without_solution", 50)],
            rates: vec![],
            assumptions: vec![STREAM, FLOATS, "compiled with debug assertions and overflow checks; repeated under AddressSanitizer"],
        },
        "C27" => Prop {
            id: "C27",
            rule: "a set of runs executed at the same time with at least three thread switches between evaluations; distinct by the observed order of evaluations",
            groups: groups! { threads 2000, 60000 => rn::c27; turns 9000, 300000 => rn::c27_turns; nested 4000, 120000 => rn::c27_nested; },
            need: vec![("thread_switches", 1000), ("parallel_events_compared", 10000), ("interleaved_events_compared", 10000), ("runs_inside_goals", 5000)],
            rates: vec![],
            assumptions: vec![STREAM, "schedules are those the machine produces with injected yields, sleeps and spinning; a part is repeated under ThreadSanitizer"],
        },
        "C28" => Prop {
            id: "C28",
            rule: "a history with replaced operators and iterations after that; distinct by hash of the log",
            groups: groups! { genetic 60000, 2000000 => ga_::c28_ga; swarm 50000, 1000000 => ps::c28_pso; },
            need: vec![("operators_replaced", 25000), ("iterations_after_replacement", 25000)],
            rates: vec![],
            assumptions: vec![STREAM],
        },
        "C29" => Prop {
            id: "C29",
            rule: "a point evaluated and compared with the formula in higher precision; distinct by bits",
            groups: groups! { formulas 20000, 500000 => tl::c29; minima 40000, 1000000 => tl::c29_minima; },
            need: vec![("minima", 20)],
            rates: vec![],
            assumptions: vec!["components up to 1e4 in magnitude beyond the documented domain; tolerance is a multiple of the rounding unit times the sum of the magnitudes of the terms"],
        },
        "C30" => Prop {
            id: "C30",
            rule: "an independent run with an honest random stream; distinct by its first evaluated points",
            groups: groups! {
                ga_paraboloid 24, 1000 => rn::c30_ga_paraboloid;
                ga_schwefel 24, 1000 => rn::c30_ga_schwefel;
                ga_rastrigin 24, 1000 => rn::c30_ga_rastrigin;
                ga_rosenbrock 18, 300 => rn::c30_ga_rosenbrock;
                ga_rosenbrock_small 12, 500 => rn::c30_ga_rosenbrock_small;
                pso_paraboloid 50, 3000 => rn::c30_pso_paraboloid;
                pso_limited 50, 3000 => rn::c30_pso_limited;
                pso_schwefel 50, 2000 => rn::c30_pso_schwefel;
                pso_rastrigin 50, 2000 => rn::c30_pso_rastrigin;
                pso_rosenbrock 40, 1000 => rn::c30_pso_rosenbrock;
                pso_inertia_schwefel 50, 3000 => rn::c30_pso_inertia;
                pso_classic_paraboloid 30, 1000 => rn::c30_pso_classic;
            },
            need: vec![("runs", 1000)],
            rates: [
                ("ga_paraboloid", "0.01", 0.7), ("ga_paraboloid", "5", 0.9),
                ("ga_schwefel", "1", 0.3), ("ga_schwefel", "20", 0.9),
                ("ga_rastrigin", "0.01", 0.9), ("ga_rastrigin", "fast", 0.9),
                ("ga_rosenbrock", "0.01", 0.45), ("ga_rosenbrock", "0.5", 0.7), ("ga_rosenbrock_small", "1.5", 0.9),
                ("pso_paraboloid", "0.1", 0.4), ("pso_paraboloid", "1", 0.75), ("pso_paraboloid", "10", 0.9),
                ("pso_limited", "0.2", 0.36), ("pso_limited", "1", 0.65), ("pso_limited", "10", 0.9),
                ("pso_schwefel", "1", 0.9), ("pso_rastrigin", "0.1", 0.5), ("pso_rastrigin", "1.1", 0.9),
                ("pso_rosenbrock", "0.05", 0.3), ("pso_rosenbrock", "0.5", 0.9),
                ("pso_inertia_schwefel", "1", 0.88), ("pso_classic_paraboloid", "0.1", 0.9),
            ]
            .iter()
            .map(|(name, level, min)| (*name, format!("{}<={}", name, level), format!("{}_runs", name), *min))
            .collect(),
            assumptions: vec!["the least success frequency per configuration is at least five standard deviations below the measured one of the unchanged tree"],
        },
        "C31" => Prop {
            id: "C31",
            rule: "a run repeated with the goal wrapped in different adapters; distinct by the evaluated values",
            groups: groups! { runs 100000, 3000000 => tl::c31; types 3000, 100000 => tl::c31_types; },
            need: vec![("evaluations_compared", 10000), ("calls_with_points_of_other_types", 10000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        "C32" => Prop {
            id: "C32",
            rule: "a configuration whose memory was measured over a long run, many short runs and the drop; distinct by configuration and peak",
            groups: groups! { runs 600, 6000 => mo::c32; },
            need: vec![("late_measurements", 100000), ("runs_measured", 2000)],
            rates: vec![],
            assumptions: vec![STREAM, "the operators are shipped ones; a population limit is configured"],
        },
        "C33" => Prop {
            id: "C33",
            rule: "a run of at least two iterations repeated with other goal values in the same order; distinct by the original values and the kind of the new ones",
            groups: groups! { runs 60000, 2000000 => mo::c33; },
            need: vec![("evaluations_compared", 1000000), ("values_replaced", 100000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE, "goals do not return negative zero, which equals zero; the stop criterion does not look at the goal"],
        },
        "C34" => Prop {
            id: "C34",
            rule: "one construction or call with arguments on either side of a precondition; distinct by arguments",
            groups: groups! { arguments 60000, 1500000 => sy::c34; },
            need: vec![("rejections", 20000), ("acceptances", 20000)],
            rates: vec![],
            assumptions: vec!["preconditions are those the code states in its documentation or asserts; compiled with debug assertions"],
        },
        "C35" => Prop {
            id: "C35",
            rule: "a run repeated in another unit, with mirrored or reordered axes; distinct by its points",
            groups: groups! { units 20000, 600000 => sy::c35_units; axes 20000, 600000 => sy::c35_axes; genetic 10000, 300000 => sy::c35_genetic; },
            need: vec![("evaluations_compared", 1000000), ("results_compared", 20000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE, "factors are powers of two and the run stays far from overflow and underflow, so that all roundings correspond; reordered axes only with equal random factors; crossing by the mean"],
        },
        "C36" => Prop {
            id: "C36",
            rule: "two runs with the same random stream, one of them with neutral parts added; distinct by evaluated points and parts",
            groups: groups! { swarm 40000, 1500000 => sy::c36_swarm; genetic 30000, 900000 => sy::c36_genetic; },
            need: vec![("evaluations_compared", 500000), ("neutral_parts", 20000)],
            rates: vec![],
            assumptions: vec![STREAM, NOWHERE],
        },
        _ => return None,
    })
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut id = String::new();
    let env = |k: &str| std::env::var(k).ok();
    let mut opts = Opts {
        tier: if env("VERIF_TIER").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: env("VERIF_SEED").and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        only: None,
        verif: env("VERIF_DIR").unwrap_or_else(|| "/verif".to_string()),
        scale: 1.0,
        write: true,
    };
    while let Some(a) = args.next() {
        let mut val = || args.next().unwrap_or_default();
        match a.as_str() {
            "--tier" => opts.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => opts.seed = val().parse().expect("seed"),
            "--scale" => opts.scale = val().parse().expect("scale"),
            "--no-evidence" => opts.write = false,
            "--only" => {
                let v = val();
                let (g, i) = v.split_once(':').expect("group:case");
                opts.only = Some((g.to_string(), i.parse().expect("case")));
            }
            _ => id = a,
        }
    }
    let p = match prop(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(2)
        }
    };
    fw::install_hook();
    std::process::exit(fw::run(p, &opts));
}
