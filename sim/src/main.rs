mod core;
mod data;
mod refs;
mod runner;
mod scen;
mod explore;

use crate::core::Scenario;
use std::path::PathBuf;

pub static SCENARIOS: &[Scenario] = &[
    Scenario {
        name: "walk", property: "S01", run: scen::grapheme::walk, quick: 6_000_000, thorough: 40_000_000,
        rule: "texts over a random subset of the grapheme-break classes, random chunk cuts, window re-reads, context sizes; a complete walk in one direction",
        measure: "hash of (text, cuts, mode, sequence of operations, windows and context supplies)",
        real: &["unic-segment GraphemeCursor", "unic-ucd-segment tables"], stub: &["client and text store"],
        time_unit: "protocol events",
    },
    Scenario {
        name: "history", property: "S02", run: scen::grapheme::history, quick: 6_000_000, thorough: 40_000_000,
        rule: "random histories of queries, steps, seeks, cancelled requests, retries, checkpoints and restores on one cursor",
        measure: "hash of (text, cuts, mode, sequence of operations, windows, supplies, seeks, restores)",
        real: &["unic-segment GraphemeCursor", "unic-ucd-segment tables"], stub: &["client and text store"],
        time_unit: "protocol events",
    },
    Scenario {
        name: "protocol", property: "S03", run: scen::grapheme::protocol, quick: 6_000_000, thorough: 40_000_000,
        rule: "conforming clients that retry, drip one character per chunk or context, seek away, and sometimes misplace a chunk",
        measure: "hash of (text, cuts, mode, sequence of operations, windows, supplies)",
        real: &["unic-segment GraphemeCursor", "unic-ucd-segment tables"], stub: &["client and text store"],
        time_unit: "protocol events",
    },
    Scenario {
        name: "graphemes", property: "S04", run: scen::iters::graphemes, quick: 5_000_000, thorough: 50_000_000,
        rule: "texts over random class subsets inside random surroundings; bursts of pulls from either end; checkpoints and restores",
        measure: "hash of (text, sequence of ends pulled, restores)",
        real: &["unic-segment Graphemes/GraphemeIndices"], stub: &["the two consumers"],
        time_unit: "pulls",
    },
    Scenario {
        name: "words", property: "S05", run: scen::iters::words, quick: 5_000_000, thorough: 50_000_000,
        rule: "texts over random word-break class subsets inside random surroundings; bursts of pulls from either end; checkpoints and restores",
        measure: "hash of (text, sequence of ends pulled, restores)",
        real: &["unic-segment WordBounds/WordBoundIndices"], stub: &["the two consumers"],
        time_unit: "pulls",
    },
    Scenario {
        name: "filtered", property: "S05", run: scen::iters::filtered, quick: 2_000_000, thorough: 10_000_000,
        rule: "filtered words pulled from either end, with a predicate that fails at random calls",
        measure: "hash of (text, sequence of ends pulled, failures)",
        real: &["unic-segment Words"], stub: &["predicate", "the two consumers"],
        time_unit: "pulls",
    },
    Scenario {
        name: "stream", property: "N01", run: scen::norm::stream, quick: 3_000_000, thorough: 60_000_000,
        rule: "1-3 adapters over random texts (marks, compositions, Hangul, compatibility mappings, long mark runs), pulled, copied, rewound and printed in a random interleaving",
        measure: "hash of (texts, forms, sequence of operations and tasks)",
        real: &["unic-normal Decompositions/Recompositions", "unic-ucd-normal", "unic-ucd-hangul"],
        stub: &["character source", "consumers"],
        time_unit: "pulls and other operations",
    },
    Scenario {
        name: "lookahead", property: "N02", run: scen::norm::lookahead, quick: 1_000_000, thorough: 40_000_000,
        rule: "finite and endless sources with counted reads; pulls, checkpoints and restores; each pull's reads compared with the shortest prefix that settles the output",
        measure: "hash of (text, endless, form, restore points)",
        real: &["unic-normal Decompositions/Recompositions", "unic-ucd-normal", "unic-ucd-hangul"],
        stub: &["character source", "consumer"],
        time_unit: "pulls",
    },
    Scenario {
        name: "failing", property: "N03", run: scen::norm::failing, quick: 3_000_000, thorough: 60_000_000,
        rule: "sources that fail (panic) at random positions, repeatedly; the consumer catches, resumes, copies and prints",
        measure: "hash of (text, form, failure positions, output count at each failure)",
        real: &["unic-normal Decompositions/Recompositions", "unic-ucd-normal", "unic-ucd-hangul"],
        stub: &["character source", "consumer"],
        time_unit: "pulls and failures",
    },
    Scenario {
        name: "exchange", property: "N04", run: scen::exchange::exchange, quick: 2_000_000, thorough: 60_000_000,
        rule: "copies of documents re-encoded by nodes as a whole, piece by piece, character by character, pair by pair and syllable by syllable, joined, compared; marks reordered, copies torn, damaged and repeated by the network",
        measure: "hash of (operations in order)",
        real: &["unic-normal", "unic-ucd-normal: decompositions and compositions of characters", "unic-ucd-hangul"],
        stub: &["nodes and network"],
        time_unit: "operations",
    },
    Scenario {
        name: "ends", property: "R01", run: scen::chars::ends, quick: 12_000_000, thorough: 100_000_000,
        rule: "ranges near the special places, all constructors; pulls from either end singly, by nth and in bursts; checkpoints, restores, round trips through the range",
        measure: "hash of (range, sequence of operations)",
        real: &["unic-char-range CharRange/CharIter"], stub: &["the two consumers"],
        time_unit: "operations",
    },
    Scenario {
        name: "parallel", property: "R02", run: scen::par::parallel, quick: 400_000, thorough: 20_000_000,
        rule: "ranges near the special places, parallel operations on 1-8 simulated workers, random steals, preemption between items, random split trees, panicking workers",
        measure: "hash of (range, steals, switches, order of visits, split tree)",
        real: &["unic-char-range par_iter", "rayon 1.12 (adapters, splitting, collecting)"],
        stub: &["rayon-core: simulated workers, one at a time, chosen by the seed", "the consumers"],
        time_unit: "pool operations",
    },
    Scenario {
        name: "tables", property: "R03", run: scen::table::tables, quick: 2_000_000, thorough: 60_000_000,
        rule: "up to three random sorted tables and the block table; up to six readers at different places, stepped in random order singly, by nth and beyond the end, abandoned and opened again; lookups near the entries' ends in between",
        measure: "hash of (tables, readers' steps)",
        real: &["unic-char-property CharDataTable and its iterator", "unic-char-range comparison with characters", "unic-ucd-block Block, BlockIter"],
        stub: &["tables' contents (random)", "the readers"],
        time_unit: "reads and lookups",
    },
    Scenario {
        name: "display", property: "W01", run: scen::display::display, quick: 6_000_000, thorough: 100_000_000,
        rule: "random printable values and format specifications; sinks that fail at a random write, fill up at a random byte, or panic, repeatedly, then recover",
        measure: "hash of (value, format, failure points)",
        real: &["Display of names, notations, versions, classes, properties, levels, bidi info, normalization streams", "core::fmt"],
        stub: &["the sink"],
        time_unit: "print attempts",
    },
    Scenario {
        name: "writers", property: "W02", run: scen::writers::writers, quick: 10_000_000, thorough: 60_000_000,
        rule: "random texts and formats; a device that takes parts, is interrupted, takes nothing or fails at random writes",
        measure: "hash of (text, format, device plan)",
        real: &["unic-cli writers and parsers", "std::io::Write::write_all/write_fmt"],
        stub: &["the output device"],
        time_unit: "device writes",
    },
    Scenario {
        name: "levels", property: "L01", run: scen::level::levels, quick: 20_000_000, thorough: 200_000_000,
        rule: "random histories of level operations, saves and restores in several formats; a store that tears, flips, truncates and overwrites what it holds",
        measure: "hash of (operations, arguments)",
        real: &["unic-bidi Level with its serde implementation", "serde, serde_json"],
        stub: &["the store", "the binary format"],
        time_unit: "operations",
    },
    Scenario {
        name: "layout", property: "L02", run: scen::layout::layout, quick: 3_000_000, thorough: 60_000_000,
        rule: "one or two texts with several paragraphs, deep embeddings and isolates; lines broken at random widths, laid out again, asked for in random order by all four functions; everything computed thrown away and recomputed",
        measure: "hash of (texts, lines asked for in order, function asked)",
        real: &["unic-bidi BidiInfo: paragraphs, levels, visual_runs, reorder_line, reordered_levels"],
        stub: &["the layout client"],
        time_unit: "requests",
    },
    Scenario {
        name: "editor", property: "L03", run: scen::edit::editor, quick: 2_000_000, thorough: 60_000_000,
        rule: "texts of several paragraphs with embeddings, isolates and overrides; random insertions, deletions, replacements, undos and losses of what was computed; only the touched paragraphs are analysed again",
        measure: "hash of (first text, edits)",
        real: &["unic-bidi InitialInfo, BidiInfo: paragraphs, paragraph levels, classes, resolved levels"],
        stub: &["the editor and its store of paragraphs"],
        time_unit: "edits",
    },
    Scenario {
        name: "mixed", property: "I01", run: scen::mixed::mixed, quick: 2_000_000, thorough: 10_000_000,
        rule: "up to six operations of all kinds over few shared texts, stepped in a random order; callbacks re-enter other operations or fail; operations are abandoned and restarted",
        measure: "hash of (operations, order of steps, abandonments and restarts)",
        real: &["segmentation, normalization, bidi, IDNA, Punycode, names, properties, ranges, command-line library"],
        stub: &["character sources, sinks, predicates and consumers called back"],
        time_unit: "steps",
    },
    Scenario {
        name: "tools", property: "W03", run: scen::tools::tools, quick: 30_000, thorough: 2_000_000,
        rule: "the installed programs with random arguments over a simulated kernel: random partial writes, interruptions, errors (once or for good), failing allocations",
        measure: "hash of (program, arguments, system calls with their results and faults)",
        real: &["unic-echo, unic-inspector, unic-versions: the release binaries with std, clap and prettytable"],
        stub: &["libc system-call wrappers (LD_PRELOAD), randomness, clocks, terminal query"],
        time_unit: "system calls",
    },
    Scenario {
        name: "generate", property: "T01", run: scen::gen::generate, quick: 12_000, thorough: 800_000,
        rule: "random component selections over table directories in random earlier states; random partial transfers, interruptions, errors (once or for good), failing allocations",
        measure: "hash of (earlier tree, arguments, system calls with their results and faults)",
        real: &["unic-gen: the release binary with std, clap, regex and lazy_static"],
        stub: &["libc system-call wrappers (LD_PRELOAD), randomness, clocks, directory order", "made-up Unicode data in the real file formats"],
        time_unit: "system calls",
    },
    Scenario {
        name: "crashes", property: "T02", run: scen::gen::crashes, quick: 5_000, thorough: 500_000,
        rule: "up to three runs dying before, after or in the middle of random system calls, with writes and removals lost at power failure, data updates and foreign files in between; then completing runs in random order, and again",
        measure: "hash of (trees, arguments, system calls with their results and faults)",
        real: &["unic-gen: the release binary with std, clap, regex and lazy_static"],
        stub: &["libc system-call wrappers (LD_PRELOAD), randomness, clocks, directory order", "made-up Unicode data in the real file formats"],
        time_unit: "system calls",
    },
    Scenario {
        name: "contained", property: "T03", run: scen::gen::contained, quick: 12_000, thorough: 800_000,
        rule: "right and wrong arguments over worlds with files beside, inside and behind links from the table directories; random faults and crashes",
        measure: "hash of (trees, arguments, system calls with their results and faults)",
        real: &["unic-gen: the release binary with std, clap, regex and lazy_static"],
        stub: &["libc system-call wrappers (LD_PRELOAD), randomness, clocks, directory order", "made-up Unicode data in the real file formats"],
        time_unit: "system calls",
    },
    Scenario {
        name: "spans", property: "L04", run: scen::spans::spans, quick: 1_200_000, thorough: 20_000_000,
        rule: "an author types, opens and closes directional spans, also far more than there are levels and more closings than openings, deletes, undoes; the text is analysed after each step",
        measure: "hash of (edits, places)",
        real: &["unic-bidi BidiInfo", "unic-ucd-bidi"],
        stub: &["the author"],
        time_unit: "edits",
    },
    Scenario {
        name: "domains", property: "D01", run: scen::domain::domains, quick: 1_200_000, thorough: 60_000_000,
        rule: "names and labels of all kinds are submitted, then converted by nodes with different settings, in older and newer forms, rewritten into equivalents or damaged on the way",
        measure: "hash of (names, forms delivered, conversions)",
        real: &["unic-idna", "unic-idna-mapping", "unic-idna-punycode", "unic-normal"],
        stub: &["nodes and network", "another implementation of UTS #46 and RFC 3492"],
        time_unit: "conversions",
    },
    Scenario {
        name: "reports", property: "R04", run: scen::reports::reports, quick: 6_000_000, thorough: 60_000_000,
        rule: "nodes with different spelling habits report, read and pass on values of all 33 enumerated and binary properties through a log that changes letter case, tears, damages, repeats and mislabels records",
        measure: "hash of (node, operation) in order",
        real: &["unic-char-property", "all enumerated and binary properties of unic-ucd, unic-ucd-ident and unic-emoji"],
        stub: &["nodes and log"],
        time_unit: "log operations",
    },
    Scenario {
        name: "keys", property: "R05", run: scen::keys::keys, quick: 2_500_000, thorough: 60_000_000,
        rule: "one to three nodes fill, search, scan, merge, lose and rebuild registries (ordered maps, bisected lists, hash maps) keyed by names, ages, versions, combining classes or levels",
        measure: "hash of (node, operation, key) in order",
        real: &["unic-ucd-name", "unic-ucd-age", "unic-common versions", "unic-ucd-normal combining classes", "unic-bidi levels", "std collections"],
        stub: &["nodes"],
        time_unit: "registry operations",
    },
    Scenario {
        name: "shards", property: "R06", run: scen::shards::shards, quick: 6_000_000, thorough: 100_000_000,
        rule: "the code space divided by ranges made by all constructors; shards divide, unite, die and are taken over; routers with current and outdated tables route characters by order and by membership, and look shards up by equal ranges",
        measure: "hash of (operations in order)",
        real: &["unic-char-range CharRange: constructors, contains, cmp_char, equality, len, is_empty, iteration ends"],
        stub: &["shards and routers"],
        time_unit: "operations",
    },
    Scenario {
        name: "scripts", property: "E01", run: scen::scripts::scripts, quick: 700, thorough: 40_000,
        rule: "the maintenance scripts in differently named checkouts, where commands fail, are killed, are done but reported as failed, and where the script dies; publishing goes on from what an earlier run left in the registry",
        measure: "hash of (script, commands with their outcomes, exit status)",
        real: &["etc/*.sh, bash"],
        stub: &["cargo, tput, the registry"],
        time_unit: "commands",
    },
    #[cfg(feature = "threads")]
    Scenario {
        name: "threads", property: "I02", run: scen::threads::threads, quick: 60_000, thorough: 4_000_000,
        rule: "up to four operations of all kinds, on own, copied and shared values, worked on by 2-4 threads that hand them to each other, are preempted at random instructions or at random accesses to static memory, fail in callbacks and end early",
        measure: "hash of (operations, sequence of switches with their positions)",
        real: &["segmentation, normalization, bidi, IDNA, Punycode, names, properties, ranges, command-line library", "std threads, mutexes and thread-locals"],
        stub: &["the thread scheduler and futexes: one thread runs at a time, switched at compiler-inserted points", "character sources, sinks and predicates"],
        time_unit: "instrumented instructions",
    },
];

fn find(name: &str) -> &'static Scenario {
    SCENARIOS.iter().find(|s| s.name == name).unwrap_or_else(|| {
        eprintln!("no scenario {}", name);
        std::process::exit(2)
    })
}

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "check" => {
            let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let cfg = runner::Cfg {
                base: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                wall_cap_ms: std::env::var("SIM_WALL_MS").ok().and_then(|s| s.parse().ok())
                    .unwrap_or(if tier == "thorough" { 3_600_000 } else { 360_000 }),
                tier,
                verif,
                workers: std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16),
            };
            let scs: Vec<&'static Scenario> = SCENARIOS.iter().filter(|s| s.property == arg(2)).collect();
            if scs.is_empty() {
                eprintln!("no scenarios for {}", arg(2));
                std::process::exit(2);
            }
            let level = "exploration";
            let code = runner::check(arg(2), &scs, &cfg, level);
            if code == 0 && arg(2) == "L04" {
                // it held on other inputs, so this neither hangs nor panics
                scen::spans::report();
            }
            code
        }
        "worker" => runner::worker(find(arg(2)), num(3), num(4), num(5), num(6), &PathBuf::from(arg(7))),
        "replay" => runner::replay(&find, &PathBuf::from(arg(2)), arg(3) == "--quiet"),
        "shrink" => runner::shrink(&find, &PathBuf::from(arg(2)), num(3)),
        "tape" => runner::tape(find(arg(2)), num(3), num(4), &PathBuf::from(arg(5))),
        "explore" => { explore::words(num(2) as usize); 0 }
        "freeze-values" => { scen::reports::freeze(arg(2)); 0 }
        "list" => {
            for s in SCENARIOS {
                println!("{} {}", s.property, s.name);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check PROPERTY | replay FILE | list");
            2
        }
    };
    scen::sysos::cleanup();
    std::process::exit(code);
}
