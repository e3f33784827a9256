mod alloc;
mod dict;
mod faults;
mod guard;
mod p_build;
mod p_decode;
mod p_encode;
mod p_fmt;
mod p_iso;
mod p_serde;
mod p_text;
mod p_user;
mod refcodec;
mod refstr;
mod runner;
mod tape;
mod types;

use runner::{KnownProbe, Opts, Prop};

#[global_allocator]
static METER: alloc::Meter = alloc::Meter;

const DEC_REAL: &[&str] = &["scale_value::scale (decode_as_type, decode_as_fields, ValueVisitor, tracing)", "scale-decode, parity-scale-codec, scale-bits"];
const DEC_STUB: &[&str] = &["type resolver (simulated registry)", "input stream (simulated delivery and corruption)", "global allocator (metered wrapper of the system allocator)"];
const ENC_REAL: &[&str] = &["scale_value::scale (encode_as_type, EncodeAsType/EncodeAsFields for Value and Composite)", "scale_value::scale decoding", "scale-encode, scale-decode, parity-scale-codec, scale-bits"];
const ENC_STUB: &[&str] = &["type resolver (simulated registry with outages, lookup counter and panics)", "append-only log (simulated: an arbitrary prefix survives a crash)"];
const FMT_REAL: &[&str] = &["scale_value::stringify (to_string, to_writer, to_writer_custom, ToWriterBuilder, format_hex), Display of Value, ValueDef, Composite, Variant, Primitive"];
const FMT_STUB: &[&str] = &["writer (simulated core::fmt::Write with byte and call failure points)", "context printer and custom formatters (scripted callbacks)"];
const TXT_REAL: &[&str] = &["scale_value::stringify (from_str, FromStrBuilder, parse_hex, parse_ss58, format_hex, to_string, to_writer_custom)", "yap, base58, blake2"];
const TXT_STUB: &[&str] = &["text channel (simulated corruption, tearing, concatenation)", "custom parsers (scripted callbacks)"];
const SER_REAL: &[&str] = &["scale_value::serde (Serialize, Deserialize, Deserializer impls of Value, ValueDef, Composite, Variant, Primitive; ValueSerializer; to_value; from_value)", "serde, scale-bits"];
const SER_STUB: &[&str] = &["serde format on the other side (simulated sink, source or consumer with failure points and lying sizes)", "global allocator (metered wrapper of the system allocator)"];
const NO_TIME: &str = "the code under test reads no clock; simulated time is counted in delivery, lookup and call steps (see observed_events)";

const ISO_REAL: &[&str] = &["all public operations: encode, decode, field lists, tracing, ToWriterBuilder, FromStrBuilder, Serialize, Deserialize, Deserializer impls, to_value", "scale-decode, scale-encode, parity-scale-codec, scale-bits, serde, yap"];
const ISO_STUB: &[&str] = &["thread scheduler (one task runs at a time; it hands over only at callback points, as the seed says)", "type resolver, writer, formatters, custom parsers, serde peers (simulated)"];

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: p_decode::c01,
        quick_runs: 4_000_000,
        thorough_runs: 160_000_000,
        rule: "seed -> registry, 1-4 items, cut point, arrival schedule, decode door; non-trivial: at least one item of non-zero size was recovered",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C02",
        run: p_decode::c02,
        quick_runs: 8_000_000,
        thorough_runs: 200_000_000,
        rule: "seed -> registry, item, 1-3 byte faults (or misrouted / garbage item), decode door; every run injects a fault and compares with the reference decoder",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[KnownProbe { id: "deep-type", run: p_decode::probe_deep_type }],
    },
    Prop {
        id: "C03",
        run: p_decode::c03,
        quick_runs: 5_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> registry with length-prefixed parts, item, forged prefixes, decode door; non-trivial: at least one prefix was forged",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[KnownProbe { id: "unit-sequence", run: p_decode::probe_unit_sequence }],
    },
    Prop {
        id: "C04",
        run: p_decode::c04,
        quick_runs: 4_000_000,
        thorough_runs: 160_000_000,
        rule: "seed -> registry, item, torn or corrupted bytes; non-trivial: both decoders rejected and the error was checked against the reference failure",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C05",
        run: p_decode::c05,
        quick_runs: 3_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> field list, values, a faulty attempt (torn, corrupt, outage) and a healthy retry at the same cursor; non-trivial: at least one field",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C06",
        run: p_encode::c06,
        quick_runs: 3_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> registry, 1-4 records, equivalent source values, encode door, crash point; non-trivial: at least one record was recovered after the crash",
        real: ENC_REAL,
        stub: ENC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C07",
        run: p_encode::c07,
        quick_runs: 2_000_000,
        thorough_runs: 80_000_000,
        rule: "seed -> registry, buffer contents, history of 1-5 encodes (fitting, misfitting, with outages or panics); non-trivial: an encode failed into a non-empty buffer",
        real: ENC_REAL,
        stub: ENC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C08",
        run: p_encode::c08,
        quick_runs: 5_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> registry, value or bytes, operation and door, 1-3 outage plans each followed by recovery; non-trivial: at least one lookup failed",
        real: ENC_REAL,
        stub: ENC_STUB,
        time: NO_TIME,
        known: &[KnownProbe { id: "transient-in-skip", run: p_encode::probe_transient_in_skip }, KnownProbe { id: "missing-as-misfit", run: p_encode::probe_missing_as_misfit }],
    },
    Prop {
        id: "C09",
        run: p_encode::c09,
        quick_runs: 6_000_000,
        thorough_runs: 160_000_000,
        rule: "seed -> type and value shapes with nested single-field layers; lookups counted against the polynomial bound; every run is non-trivial",
        real: ENC_REAL,
        stub: ENC_STUB,
        time: NO_TIME,
        known: &[KnownProbe { id: "recursive-sequence", run: p_encode::probe_recursive_sequence }],
    },
    Prop {
        id: "C10",
        run: p_fmt::c10,
        quick_runs: 5_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> value, layout, door, callbacks, 1-4 writer failure points (byte, call, short write, panic; permanent or transient); non-trivial: the writer failed",
        real: FMT_REAL,
        stub: FMT_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C14",
        run: p_fmt::c14,
        quick_runs: 6_000_000,
        thorough_runs: 120_000_000,
        rule: "seed -> value, layout, decisions of the context printer and 0-3 formatters at every node, writer failure point; non-trivial: a formatter was asked",
        real: FMT_REAL,
        stub: FMT_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C11",
        run: p_text::c11,
        quick_runs: 5_000_000,
        thorough_runs: 2_500_0000 * 4,
        rule: "seed -> value, layout or spelling, 1-3 damaged copies; non-trivial: a damaged text was compared with the reference grammar",
        real: TXT_REAL,
        stub: TXT_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C12",
        run: p_text::c12,
        quick_runs: 5_000_000,
        thorough_runs: 2_500_0000 * 4,
        rule: "seed -> decision tables of 1-3 custom parsers, 1-2 texts; non-trivial: a custom parser was offered text",
        real: TXT_REAL,
        stub: TXT_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C13",
        run: p_text::c13,
        quick_runs: 5_000_000,
        thorough_runs: 2_500_0000 * 4,
        rule: "seed -> parser configuration, history of 1-4 damaged texts; non-trivial: a parse failed",
        real: TXT_REAL,
        stub: TXT_STUB,
        time: NO_TIME,
        known: &[KnownProbe { id: "deep-text", run: p_text::probe_deep_text }],
    },
    Prop {
        id: "C15",
        run: p_text::c15,
        quick_runs: 2_000_000,
        thorough_runs: 1_000_0000 * 4,
        rule: "seed -> bytes or account, literal, surroundings, 1-4 damaged copies; non-trivial: a damaged literal was judged",
        real: TXT_REAL,
        stub: TXT_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C16",
        run: p_serde::c16,
        quick_runs: 6_000_000,
        thorough_runs: 2_000_0000 * 4,
        rule: "seed -> value, door, kind of format, 1-4 failing sink calls; non-trivial: the sink failed",
        real: SER_REAL,
        stub: SER_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C17",
        run: p_serde::c17,
        quick_runs: 10_000_000,
        thorough_runs: 2_000_0000 * 4,
        rule: "seed -> tree of data-model events with size hints, door, 1-4 failing source calls; non-trivial: the source failed",
        real: SER_REAL,
        stub: SER_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C18",
        run: p_serde::c18,
        quick_runs: 4_000_000,
        thorough_runs: 2_000_0000 * 4,
        rule: "seed -> value, requests at every level, 1-3 failing consumer events; non-trivial: a request was refused or the consumer failed",
        real: SER_REAL,
        stub: SER_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C19",
        run: p_serde::c19,
        quick_runs: 12_000_000,
        thorough_runs: 2_000_0000 * 4,
        rule: "seed -> tree of serializer calls with declared lengths, 1-4 failing source calls; non-trivial: the source failed",
        real: SER_REAL,
        stub: SER_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C20",
        run: p_iso::c20,
        quick_runs: 100_000,
        thorough_runs: 6_000_000,
        rule: "seed -> shared values, 2-5 operations, 1-4 tasks, a schedule over callback points with nested calls and panics; non-trivial: more hand-overs than tasks",
        real: ISO_REAL,
        stub: ISO_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C21",
        run: p_iso::c21,
        quick_runs: 2_000_000,
        thorough_runs: 40_000_000,
        rule: "seed -> settings in some order, some several times, 2-6 uses with failing writers, formatters and parsers; non-trivial: a use ended early",
        real: ISO_REAL,
        stub: ISO_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C22",
        run: p_iso::c22,
        quick_runs: 400_000,
        thorough_runs: 16_000_000,
        rule: "seed -> 1-3 operations, each used 4-6 times in the same way (peers failing, callback k panicking or nothing of the kind), the heap metered around each use; non-trivial: every run",
        real: ISO_REAL,
        stub: &["allocator (metered)", "type resolver, writer, formatters, custom parsers, serde peers (simulated)"],
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C23",
        run: p_decode::c23,
        quick_runs: 2_000_000,
        thorough_runs: 80_000_000,
        rule: "seed -> type (half of them ladders of up to 36 layers), encoded value, torn, corrupted or whole bytes, 4 doors, resolver outage from lookup k, lookups counted; non-trivial: every run",
        real: DEC_REAL,
        stub: DEC_STUB,
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C32",
        run: p_user::c32,
        quick_runs: 3_000_000,
        thorough_runs: 80_000_000,
        rule: "seed -> value, entry point, 1-3 attempts with the mapper panicking in one of its calls; non-trivial: it panicked",
        real: &["map_context of Value, ValueDef, Composite, Variant; Value::remove_context"],
        stub: &["mapper (scripted callback that counts, moves unique contexts and panics)"],
        time: NO_TIME,
        known: &[],
    },
    Prop {
        id: "C33",
        run: p_user::c33,
        quick_runs: 6_000_000,
        thorough_runs: 80_000_000,
        rule: "seed -> user type as derive would implement it, 1-3 data, failing call of its Serialize and Deserialize impl; non-trivial: an impl failed",
        real: &["scale_value::serde (to_value, from_value, ValueSerializer, Deserializer impls of Value and ValueDef)", "serde"],
        stub: &["the user's Serialize and Deserialize impls (interpreted from a generated type, with failure points)"],
        time: NO_TIME,
        known: &[KnownProbe { id: "newtype", run: p_user::probe_newtype }],
    },
    Prop {
        id: "C34",
        run: p_build::c34,
        quick_runs: 4_000_000,
        thorough_runs: 80_000_000,
        rule: "seed -> value, constructors and conversions to build it by, sizes promised by the caller's iterators, failing call of the caller's code; then clone, read-back, lookups, comparison; non-trivial: the caller's code failed while building",
        real: &["scale_value::{Value, ValueDef, Composite, Variant, Primitive} constructors, From impls, accessors, value iterators, Clone, PartialEq, At"],
        stub: &["the caller's iterators, Into and AsRef conversions and contexts (scripted, with failure points)"],
        time: NO_TIME,
        known: &[],
    },
];

fn usage() -> i32 {
    eprintln!("sim check PROP [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--cap S] [--no-shrink]\nsim replay FILE\nsim selftest [N]\nsim list");
    2
}

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    guard::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id, rest @ ..] => {
            let mut o = Opts {
                thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: None,
                workers: std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8),
                cap_s: 0,
                shrink: true,
            };
            let mut it = rest.iter();
            while let Some(f) = it.next() {
                let mut num = || it.next().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                match *f {
                    "--tier" => o.thorough = it.next() == Some(&"thorough"),
                    "--seed" => o.seed = num(),
                    "--runs" => o.runs = Some(num()),
                    "--workers" => o.workers = num().max(1),
                    "--cap" => o.cap_s = num(),
                    "--no-shrink" => o.shrink = false,
                    _ => std::process::exit(usage()),
                }
            }
            if o.cap_s == 0 {
                o.cap_s = if o.thorough { 780 } else { 150 };
            }
            runner::check(prop(id), &o)
        }
        ["replay", file] => runner::replay(PROPS, file),
        ["worker", id, seed, from, stride, to, cap, thorough, out] => {
            let n = |s: &str| s.parse::<u64>().unwrap();
            runner::worker(prop(id), n(seed), n(from), n(stride), n(to), n(cap), *thorough == "1", out);
            0
        }
        ["exec-tape", id, file, out] => {
            let t = runner::parse_tapes(&std::fs::read_to_string(file).unwrap());
            runner::exec_tapes_to_file(prop(id), t, out);
            0
        }
        ["history", id, seed, run, stride, count, out] => {
            let n = |s: &str| s.parse::<u64>().unwrap();
            runner::history_child(prop(id), n(seed), n(run), n(stride), n(count), out);
            0
        }
        ["shrink", id, file, class, secs, out] => {
            let t = runner::parse_tape(&std::fs::read_to_string(file).unwrap());
            runner::shrink_child(prop(id), t, class.to_string(), secs.parse().unwrap(), out.to_string());
            0
        }
        ["probe", id, kid, out] => {
            let k = prop(id).known.iter().find(|k| k.id == *kid).unwrap();
            let r = guard::guard(k.run);
            let msg = match r {
                Ok(Ok(())) => String::new(),
                Ok(Err(v)) => format!("{}: {}", v.class, v.msg),
                Err(c) => c.show(),
            };
            std::fs::write(out, msg).unwrap();
            0
        }
        ["list"] => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
