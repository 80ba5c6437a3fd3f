#![allow(dead_code)]
mod codec;
#[macro_use]
mod engine;
mod agg;
mod bufs;
mod ci;
mod conv;
mod hints;
mod hist;
mod kits;
mod long;
mod model;
mod pkt;
mod props_a;
mod robust;
mod subsets;
mod types;
mod vals;
mod values;

use engine::*;
use agg as g;
use props_a as a;

#[global_allocator]
static A: Counting = Counting;

fn sub(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Sub {
    Sub { name, quick: (quick * 8).min(thorough), thorough, f }
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "a message was accepted and used",
            subs: vec![
                sub("words", 100_000, 6_000_000, robust::c01::<u32>),
                sub("bytes", 60_000, 3_000_000, robust::c01::<u8>),
                sub("long-words", 800, 40_000, robust::c01_long::<u32>),
                sub("long-bytes", 400, 20_000, robust::c01_long::<u8>),
                sub("discovery", 40_000, 1_000_000, robust::c01_ci),
            ],
        },
        Prop {
            id: "C02",
            rule: "an input that is well-formed, or a well-formed one slightly damaged",
            subs: vec![sub("messages-words", 150_000, 6_000_000, a::c02_msg::<u32>), sub("messages-bytes", 40_000, 2_000_000, a::c02_msg::<u8>),
                sub("aggregates-words", 30_000, 2_000_000, g::c02_agg::<u32>),
                sub("aggregates-bytes", 15_000, 1_000_000, g::c02_agg::<u8>),
                sub("whole-packets", 30_000, 500_000, a::c02_whole),
                sub("long-words", 400, 20_000, long::c02::<u32>),
                sub("long-bytes", 100, 5_000, long::c02::<u8>),
            ],
        },
        Prop {
            id: "C03",
            rule: "a non-empty tail follows the message",
            subs: vec![
                sub("tail-words", 80_000, 3_000_000, a::c03_tail::<u32>),
                sub("tail-bytes", 20_000, 1_000_000, a::c03_tail::<u8>),
                sub("metamorphic-words", 80_000, 3_000_000, a::c03_meta::<u32>),
                sub("metamorphic-bytes", 20_000, 1_000_000, a::c03_meta::<u8>),
                sub("long-words", 400, 20_000, long::c03::<u32>),
                sub("long-bytes", 100, 5_000, long::c03::<u8>),
            ],
        },
        Prop {
            id: "C04",
            rule: "a message with fields or content",
            subs: vec![sub("reads-words", 120_000, 5_000_000, a::c04::<u32>), sub("reads-bytes", 30_000, 1_000_000, a::c04::<u8>)],
        },
        Prop {
            id: "C05",
            rule: "at least one field written",
            subs: vec![sub("writes-words", 120_000, 5_000_000, a::c05::<u32>), sub("writes-bytes", 40_000, 1_000_000, a::c05::<u8>), sub("long", 300, 15_000, long::c05::<u32>)],
        },
        Prop {
            id: "C06",
            rule: "a construction attempted",
            subs: vec![sub("construct-words", 120_000, 4_000_000, a::c06::<u32>), sub("construct-bytes", 40_000, 1_000_000, a::c06::<u8>)],
        },
        Prop {
            id: "C07",
            rule: "at least one payload edit",
            subs: vec![sub("edits-words", 60_000, 3_000_000, a::c07::<u32>), sub("edits-bytes", 20_000, 1_000_000, a::c07::<u8>),
                sub("long-words", 400, 20_000, long::c07::<u32>),
                sub("long-bytes", 200, 10_000, long::c07::<u8>)],
        },
        Prop {
            id: "C08",
            rule: "at least one fallible edit",
            subs: vec![
                sub("sysex-words", 60_000, 3_000_000, a::c08_sysex::<u32>),
                sub("sysex-bytes", 30_000, 1_000_000, a::c08_sysex::<u8>),
                sub("text", 60_000, 2_000_000, a::c08_text),
                sub("long-words", 300, 20_000, long::c08_sysex::<u32>),
                sub("long-bytes", 100, 10_000, long::c08_sysex::<u8>),
                sub("long-text", 200, 10_000, long::c08_text),
            ],
        },
        Prop {
            id: "C09",
            rule: "at least one edit",
            subs: vec![sub("canonical-words", 60_000, 3_000_000, a::c09::<u32>), sub("canonical-bytes", 20_000, 1_000_000, a::c09::<u8>),
                sub("long-words", 300, 20_000, long::c09::<u32>),
                sub("long-bytes", 100, 10_000, long::c09::<u8>)],
        },
        Prop {
            id: "C10",
            rule: "an iterator driven",
            subs: vec![
                sub("messages-words", 60_000, 2_000_000, a::c10_msg::<u32>),
                sub("content-words", 80_000, 3_000_000, a::c10_multi::<u32>),
                sub("content-bytes", 20_000, 1_000_000, a::c10_multi::<u8>),
                sub("packet-payload", 30_000, 1_000_000, pkt::c10_packet),
                sub("long-words", 300, 20_000, long::c10::<u32>),
                sub("long-bytes", 100, 5_000, long::c10::<u8>),
            ],
        },
        Prop {
            id: "C11",
            rule: "a packet, or the packets of a message, looked at",
            subs: vec![
                sub("packets", 80_000, 4_000_000, pkt::c11_packet),
                sub("any-family", 40_000, 2_000_000, pkt::c11_any),
                sub("parsed", 60_000, 2_000_000, pkt::c11_parsed),
                sub("edited", 60_000, 2_000_000, pkt::c11_edited),
                sub("long", 200, 10_000, long::c11),
            ],
        },
        Prop {
            id: "C12",
            rule: "a text set that differs in length from the one before",
            subs: vec![sub("round-trip", 60_000, 3_000_000, a::c12), sub("long", 1_500, 60_000, a::c12_long)],
        },
        Prop {
            id: "C13",
            rule: "a text set that differs in length from the one before",
            subs: vec![sub("round-trip", 60_000, 3_000_000, a::c13), sub("long", 1_500, 60_000, a::c13_long)],
        },
        Prop { id: "C14", rule: "a message of several packets was checked", subs: vec![sub("histories", 100_000, 4_000_000, a::c14), sub("long", 300, 15_000, long::c14)] },
        Prop {
            id: "C15",
            rule: "a message converted",
            subs: vec![
                sub("bytes-to-words", 60_000, 2_000_000, conv::c15_up),
                sub("words-to-bytes", 60_000, 2_000_000, conv::c15_down),
                sub("families", 30_000, 1_000_000, conv::c15_family),
                sub("long", 300, 10_000, conv::c15_long),
            ],
        },
        Prop {
            id: "C16",
            rule: "a message moved to another buffer",
            subs: vec![
                sub("move-words", 80_000, 3_000_000, a::c16::<u32>),
                sub("move-bytes", 30_000, 1_000_000, a::c16::<u8>),
                sub("aggregates-words", 30_000, 1_000_000, g::c16_agg::<u32>),
                sub("aggregates-bytes", 15_000, 500_000, g::c16_agg::<u8>),
                sub("borrowed-words", 40_000, 1_000_000, a::c16_mut::<u32>),
                sub("borrowed-bytes", 20_000, 1_000_000, a::c16_mut::<u8>),
                sub("owned-words", 40_000, 1_000_000, a::c16_own::<u32>),
                sub("owned-bytes", 20_000, 1_000_000, a::c16_own::<u8>),
            ],
        },
        Prop {
            id: "C17",
            rule: "a message was wrapped",
            subs: vec![sub("wrap-words", 60_000, 2_000_000, g::c17::<u32>), sub("wrap-bytes", 20_000, 1_000_000, g::c17::<u8>)],
        },
        Prop {
            id: "C18",
            rule: "a typed value written and read back",
            subs: vec![
                sub("listed-words", 220_000, 3_000_000, vals::c18_listed::<u32>),
                sub("listed-bytes", 50_000, 500_000, vals::c18_listed::<u8>),
                sub("wide-words", 60_000, 2_000_000, vals::c18_wide::<u32>),
                sub("by-name", 60_000, 2_000_000, vals::c18_named),
            ],
        },
        Prop {
            id: "C19",
            rule: "a query constructed or a slice parsed",
            subs: vec![sub("built", 15_000, 2_000_000, ci::c19_built), sub("parsed", 15_000, 2_000_000, ci::c19_parsed)],
        },
        Prop {
            id: "C20",
            rule: "the script ran in at least one buffer kind",
            subs: vec![sub("kinds-words", 30_000, 1_000_000, a::c20::<u32>), sub("kinds-bytes", 15_000, 500_000, a::c20::<u8>),
                sub("histories-words", 60_000, 2_000_000, a::c20_hist::<u32>), sub("histories-bytes", 20_000, 600_000, a::c20_hist::<u8>),
                sub("long-words", 300, 15_000, long::c20::<u32>), sub("long-bytes", 100, 5_000, long::c20::<u8>)],
        },
        Prop {
            id: "C21",
            rule: "a configuration that was built, a slice accepted by it, or a message edited in it",
            subs: vec![
                Sub { name: "builds", quick: subsets::count(false), thorough: subsets::count(true), f: subsets::c21_builds },
                sub("parsed-words", 12_000, 400_000, subsets::c21_parse::<u32>),
                sub("parsed-bytes", 6_000, 150_000, subsets::c21_parse::<u8>),
                sub("edited-words", 12_000, 400_000, subsets::c21_edit::<u32>),
                sub("edited-bytes", 6_000, 150_000, subsets::c21_edit::<u8>),
            ],
        },
        Prop {
            id: "C22",
            rule: "a resize, a conversion into an array, or an error",
            subs: vec![
                sub("words", 60_000, 3_000_000, bufs::c22_buffers::<u32>),
                sub("bytes", 60_000, 3_000_000, bufs::c22_buffers::<u8>),
                sub("errors", 40_000, 1_000_000, bufs::c22_errors),
            ],
        },
        Prop {
            id: "C23",
            rule: "two messages were compared, some equal and some not",
            subs: vec![
                sub("words", 60_000, 4_000_000, values::c23_messages::<u32>),
                sub("bytes", 40_000, 2_000_000, values::c23_messages::<u8>),
                sub("any-words", 30_000, 2_000_000, values::c23_words),
                sub("any-bytes", 30_000, 1_000_000, values::c23_bytes),
                sub("packets", 30_000, 1_000_000, values::c23_packets),
                sub("discovery", 20_000, 1_000_000, values::c23_discovery),
            ],
        },
    ]
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    if let Ok(p) = std::env::var("VERIF_PROGRESS") {
        map_progress(&p);
    }
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let ps = props();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("literals") => {
            print!("{}", hints::table());
            0
        }
        Some("replay") => {
            if std::fs::read_to_string(&args[2]).map(|t| t.contains("property=C21")).unwrap_or(false) {
                if let Err(e) = subsets::full() {
                    eprintln!("harness: {e}");
                    std::process::exit(2);
                }
            }
            replay(&ps, &args[2])
        }
        Some("run") => {
            let id = &args[2];
            let thorough = args.iter().any(|a| a == "--thorough");
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale = get("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            match ps.iter().find(|p| p.id == id) {
                Some(_) if std::env::var_os("VERIF_PROGRESS").is_none() => supervise(&ps, id, seed, &args),
                Some(p) if p.id == "C21" => {
                    subsets::activate(thorough);
                    match subsets::prepare(thorough) {
                        Ok(()) => run_prop(p, thorough, seed, get("--sub").as_deref(), scale),
                        Err(e) => {
                            eprintln!("harness: {e}");
                            2
                        }
                    }
                }
                Some(p) => run_prop(p, thorough, seed, get("--sub").as_deref(), scale),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: harness run <id> [--thorough] [--seed n] [--sub name] [--scale x] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
