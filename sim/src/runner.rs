//! Batch driver: seeds -> runs over worker processes, crash/hang detection, minimisation,
//! replay files, known findings, evidence.

use crate::guard::{guard, Caught};
use crate::tape::{fnv, mix, Ctx, RunResult, Violation, FNV0};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct KnownProbe {
    pub id: &'static str,
    /// returns Err(violation) when the finding reproduces
    pub run: fn() -> RunResult,
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> RunResult,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub time: &'static str,
    pub known: &'static [KnownProbe],
}

const HANG: Duration = Duration::from_secs(90);
const DIGESTS: u64 = 400;
const STACK: usize = 256 << 20;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    mix(mix(fnv(FNV0, prop.as_bytes()) ^ mix(seed.wrapping_add(0x51))).wrapping_add(mix(i.wrapping_add(1))))
}

/// Execute one run; anything that unwinds out of the property itself is a violation too.
pub fn execute(p: &Prop, ctx: &mut Ctx) -> Option<Violation> {
    match guard(|| (p.run)(ctx)) {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(Caught::Panic(m)) => Some(Violation { class: "panic".into(), msg: m }),
        Err(c) => Some(Violation { class: c.class().into(), msg: c.show() }),
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

#[derive(Default, Clone)]
struct Tally {
    runs: u64,
    steps: u64,
    nontrivial: u64,
    choices: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    digests: BTreeMap<u64, u64>,
    samples: Vec<String>,
    viol: Option<(u64, String, String)>,
    capped: bool,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Body of a worker process: runs i = from, from+stride, ... < to.
pub fn worker(p: &'static Prop, seed: u64, from: u64, stride: u64, to: u64, cap_s: u64, thorough: bool, out: &str) {
    let out = out.to_string();
    on_big_stack(move || {
        let mut prog = fs::File::create(format!("{out}.progress")).unwrap();
        let start = Instant::now();
        let mut t = Tally::default();
        let mut sigs: HashSet<u64> = HashSet::new();
        let mut i = from;
        while i < to {
            if t.runs % 16 == 0 && start.elapsed().as_secs() >= cap_s {
                t.capped = true;
                break;
            }
            prog.seek(SeekFrom::Start(0)).unwrap();
            prog.write_all(&i.to_le_bytes()).unwrap();
            let mut ctx = Ctx::from_seed(run_seed(p.id, seed, i));
            ctx.thorough = thorough;
            // a few runs are traced from the start: they become the evidence samples
            ctx.tracing = i < 40 && i % stride.max(1) == from % stride.max(1) && t.samples.len() < 2;
            let v = execute(p, &mut ctx);
            t.runs += 1;
            t.steps += ctx.steps;
            t.choices += ctx.tape.len() as u64;
            for (k, n) in &ctx.faults {
                *t.faults.entry(k.to_string()).or_insert(0) += n;
            }
            for (k, n) in &ctx.probes {
                *t.probes.entry(k.to_string()).or_insert(0) += n;
            }
            if i < DIGESTS {
                t.digests.insert(i, ctx.digest);
            }
            if ctx.nontrivial {
                t.nontrivial += 1;
                sigs.insert(mix(ctx.digest));
                if ctx.tracing && !ctx.trace.is_empty() {
                    let mut s = format!("run {i}: ");
                    s.push_str(&ctx.trace.join(" | "));
                    if s.len() > 900 {
                        let mut cut = 900;
                        while !s.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        s.truncate(cut);
                        s.push_str(" ...");
                    }
                    t.samples.push(s);
                }
            }
            if let Some(v) = v {
                t.viol = Some((i, v.class, v.msg));
                break;
            }
            i += stride;
        }
        write_tally(&t, &sigs, &out);
    });
}

fn write_tally(t: &Tally, sigs: &HashSet<u64>, out: &str) {
    let mut s = String::new();
    s += &format!("runs\t{}\nsteps\t{}\nnontrivial\t{}\nchoices\t{}\ncapped\t{}\n", t.runs, t.steps, t.nontrivial, t.choices, t.capped as u8);
    for (k, n) in &t.faults {
        s += &format!("fault\t{k}\t{n}\n");
    }
    for (k, n) in &t.probes {
        s += &format!("probe\t{k}\t{n}\n");
    }
    for (k, n) in &t.digests {
        s += &format!("digest\t{k}\t{n}\n");
    }
    for x in &t.samples {
        s += &format!("sample\t{}\n", esc(x));
    }
    if let Some((i, c, m)) = &t.viol {
        s += &format!("viol\t{i}\t{}\t{}\n", esc(c), esc(m));
    }
    let mut b = Vec::with_capacity(sigs.len() * 8);
    for x in sigs {
        b.extend_from_slice(&x.to_le_bytes());
    }
    fs::write(format!("{out}.sigs"), b).unwrap();
    fs::write(format!("{out}.tally"), s).unwrap();
}
fn read_tally(out: &str) -> Option<(Tally, Vec<u64>)> {
    let s = fs::read_to_string(format!("{out}.tally")).ok()?;
    let b = fs::read(format!("{out}.sigs")).ok()?;
    let mut t = Tally::default();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "runs" => t.runs = n(1),
            "steps" => t.steps = n(1),
            "nontrivial" => t.nontrivial = n(1),
            "choices" => t.choices = n(1),
            "capped" => t.capped = n(1) == 1,
            "fault" => {
                t.faults.insert(f[1].into(), n(2));
            }
            "probe" => {
                t.probes.insert(f[1].into(), n(2));
            }
            "digest" => {
                t.digests.insert(n(1), n(2));
            }
            "sample" => t.samples.push(unesc(f[1])),
            "viol" => t.viol = Some((n(1), unesc(f[2]), unesc(f[3]))),
            _ => {}
        }
    }
    Some((t, b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()))
}

fn self_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

enum Ended {
    Fine,
    Died(String),
    Hung,
}
/// Wait for a child, watching its progress file (or only a total limit when there is none).
fn watch(child: &mut Child, progress: Option<&str>, limit: Duration) -> Ended {
    let mut last = (u64::MAX, Instant::now());
    loop {
        match child.try_wait() {
            Ok(Some(st)) if st.success() => return Ended::Fine,
            Ok(Some(st)) => return Ended::Died(format!("{st}")),
            Ok(None) => {}
            Err(e) => return Ended::Died(format!("{e}")),
        }
        let cur = progress.and_then(read_progress).unwrap_or(0);
        if cur != last.0 {
            last = (cur, Instant::now());
        } else if last.1.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ended::Hung;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
fn read_progress(f: &str) -> Option<u64> {
    let mut b = [0u8; 8];
    fs::File::open(f).ok()?.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

/// Execute tapes one after another in this process (used by children); the last one counts, the others
/// are the history that leads up to it.
pub fn exec_tapes(p: &'static Prop, tapes: Vec<Vec<u64>>) -> (Option<Violation>, Vec<String>) {
    on_big_stack(move || {
        let mut last = (None, vec![]);
        let n = tapes.len();
        for (i, t) in tapes.into_iter().enumerate() {
            let mut ctx = Ctx::from_tape(t);
            ctx.tracing = i + 1 == n;
            let v = execute(p, &mut ctx);
            last = (v, ctx.trace);
        }
        last
    })
}

/// Child entry: execute the last `count` runs of a worker before `run`, then `run` itself, in one process,
/// and write down their tapes and the class of the last run's violation.
pub fn history_child(p: &'static Prop, seed: u64, run: u64, stride: u64, count: u64, out: &str) {
    let out = out.to_string();
    on_big_stack(move || {
        let mut s = String::new();
        let mut class = String::new();
        let mut i = run.saturating_sub(stride * count.min(run / stride.max(1)));
        while i <= run {
            let mut ctx = Ctx::from_seed(run_seed(p.id, seed, i));
            class = execute(p, &mut ctx).map(|v| v.class).unwrap_or_default();
            s += &tape_str(&ctx.tape);
            s.push('\n');
            i += stride;
        }
        fs::write(out, format!("{class}\n{s}")).unwrap();
    });
}

// ---------------------------------------------------------------- minimisation

fn reproduces(p: &Prop, tape: &[u64], class: &str) -> Option<Vec<u64>> {
    let mut ctx = Ctx::from_tape(tape.to_vec());
    match execute(p, &mut ctx) {
        Some(v) if v.class == class => Some(ctx.tape),
        _ => None,
    }
}
pub fn tape_of_seed(p: &'static Prop, seed: u64) -> Vec<u64> {
    // valid only for runs that do not kill the process
    on_big_stack(move || {
        let mut ctx = Ctx::from_seed(seed);
        execute(p, &mut ctx);
        ctx.tape
    })
}

/// Generic shrinking over a test function that returns the canonical tape when the failure persists.
fn shrink_with(mut best: Vec<u64>, deadline: Instant, mut save: impl FnMut(&[u64]), mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let mut improved = false;
        // drop chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let mut cand = best.clone();
                let end = (at + size).min(cand.len());
                cand.drain(at..end);
                match test(&cand) {
                    Some(t) if smaller(&t, &best) => {
                        best = t;
                        save(&best);
                        improved = true;
                    }
                    _ => at += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        for size in [8usize, 2, 1] {
            let mut at = 0;
            while at < best.len() {
                if Instant::now() > deadline {
                    return best;
                }
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[at..end].iter_mut().for_each(|v| *v = 0);
                    if let Some(t) = test(&cand) {
                        if smaller(&t, &best) {
                            best = t;
                            save(&best);
                            improved = true;
                        }
                    }
                }
                at += size;
            }
        }
        let mut at = 0;
        while at < best.len() {
            let mut lo = 0u64;
            let mut hi = best[at];
            while lo < hi {
                if Instant::now() > deadline {
                    return best;
                }
                let mid = lo + (hi - lo) / 2;
                let mut cand = best.clone();
                cand[at] = mid;
                match test(&cand) {
                    Some(t) if smaller(&t, &best) => {
                        best = t;
                        save(&best);
                        improved = true;
                        if at >= best.len() {
                            break;
                        }
                        hi = best[at].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            at += 1;
        }
        if !improved {
            return best;
        }
    }
}

/// Child entry: shrink the given tape in-process, saving every improvement to `out`.
pub fn shrink_child(p: &'static Prop, tape: Vec<u64>, class: String, secs: u64, out: String) {
    on_big_stack(move || {
        let deadline = Instant::now() + Duration::from_secs(secs);
        let save = |t: &[u64]| {
            let _ = fs::write(&out, tape_str(t));
        };
        shrink_with(tape, deadline, save, |t| reproduces(p, t, &class));
    });
}

pub fn tape_str(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}
pub fn parse_tapes(s: &str) -> Vec<Vec<u64>> {
    s.split('\n').map(parse_tape).collect()
}
pub fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

struct ReplayFile {
    /// runs to be executed in the same process beforehand
    history: Vec<Vec<u64>>,
    property: String,
    seed: u64,
    run: u64,
    class: String,
    message: String,
    tape: Vec<u64>,
    trace: Vec<String>,
}
fn write_replay(r: &ReplayFile) -> PathBuf {
    let dir = root().join("replays");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-seed{}-run{}.json", r.property, r.seed, r.run));
    let trace: Vec<String> = r.trace.iter().map(|t| jstr(t)).collect();
    let s = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"run\": {},\n \"class\": {},\n \"message\": {},\n \"history\": {},\n \"tape\": [{}],\n \"dictionary\": \"{}\",\n \"trace\": [\n  {}\n ]\n}}\n",
        jstr(&r.property), r.seed, r.run, jstr(&r.class), jstr(&r.message),
        jstr(&r.history.iter().map(|t| tape_str(t)).collect::<Vec<_>>().join(";")), tape_str(&r.tape), crate::dict::get().save(), trace.join(",\n  ")
    );
    fs::write(&path, s).unwrap();
    path
}

/// Minimal extraction of a key from our own replay files.
fn json_field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("\n \"{key}\": ");
    let at = s.find(&k)? + k.len();
    let rest = &s[at..];
    Some(&rest[..rest.find('\n')?])
}

/// Run a tape in a fresh child process. Some(class,msg) if it violates.
fn run_tape_child(p: &Prop, tape: &[u64], dir: &Path, limit: Duration) -> Option<(String, String, Vec<String>)> {
    run_tapes_child(p, &[], tape, dir, limit)
}
fn run_tapes_child(p: &Prop, history: &[Vec<u64>], tape: &[u64], dir: &Path, limit: Duration) -> Option<(String, String, Vec<String>)> {
    let tf = dir.join("cand.tape");
    let of = dir.join("cand.out");
    let _ = fs::remove_file(&of);
    let mut all = String::new();
    for t in history {
        all += &tape_str(t);
        all.push('\n');
    }
    all += &tape_str(tape);
    fs::write(&tf, all).unwrap();
    let mut c = Command::new(self_exe())
        .args(["exec-tape", p.id, tf.to_str().unwrap(), of.to_str().unwrap()])
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    match watch(&mut c, None, limit) {
        Ended::Fine => {
            let s = fs::read_to_string(&of).ok()?;
            let mut it = s.lines();
            let class = unesc(it.next()?);
            let msg = unesc(it.next()?);
            let trace = it.map(unesc).collect();
            if class.is_empty() {
                None
            } else {
                Some((class, msg, trace))
            }
        }
        Ended::Died(s) => Some(("abort".into(), format!("the process running this tape died: {s}"), vec![])),
        Ended::Hung => Some(("hang".into(), "the run made no progress".into(), vec![])),
    }
}
pub fn exec_tapes_to_file(p: &'static Prop, tapes: Vec<Vec<u64>>, out: &str) {
    let (v, trace) = exec_tapes(p, tapes);
    let (c, m) = v.map(|v| (v.class, v.msg)).unwrap_or_default();
    let mut s = format!("{}\n{}\n", esc(&c), esc(&m));
    for t in trace {
        s += &esc(&t);
        s.push('\n');
    }
    fs::write(out, s).unwrap();
}

pub fn replay(props: &'static [Prop], file: &str) -> i32 {
    let s = match fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    let unq = |x: &str| x.trim_end_matches(',').trim_matches('"').to_string();
    let id = json_field(&s, "property").map(unq).unwrap_or_default();
    let class = json_field(&s, "class").map(unq).unwrap_or_default();
    let tape = parse_tape(json_field(&s, "tape").unwrap_or("").trim_end_matches(',').trim_matches(|c| c == '[' || c == ']'));
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let dir = scratch(p.id);
    if let Some(d) = json_field(&s, "dictionary") {
        use_dictionary(&dir, &unq(d));
    }
    let h = json_field(&s, "history").map(unq).unwrap_or_default();
    let history: Vec<Vec<u64>> = if h.is_empty() { vec![] } else { h.split(';').map(parse_tape).collect() };
    let r = run_tapes_child(p, &history, &tape, &dir, HANG);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Some((c, m, trace)) => {
            for t in &trace {
                println!("  {t}");
            }
            println!("class={c} {m}");
            println!("VIOLATION property={id} replay={file}");
            if c != class {
                println!("note: recorded class was {class}");
            }
            1
        }
        None => {
            println!("property={id}: replay {file} does not violate the property on this tree");
            0
        }
    }
}

/// Make `text` the dictionary of this process and of the processes it starts.
fn use_dictionary(dir: &Path, text: &str) {
    let f = dir.join("dictionary");
    fs::write(&f, text).unwrap();
    std::env::set_var(crate::dict::VAR, &f);
}
fn scratch(id: &str) -> PathBuf {
    let d = root().join("target").join("run").join(format!("{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

/// The violation needs what earlier runs of the same process left behind: find which.
fn with_history(p: &'static Prop, seed: u64, run: u64, stride: u64, class: &str, dir: &Path) -> Option<ReplayFile> {
    let of = dir.join("history.out");
    let read = |count: u64| -> Option<(String, Vec<Vec<u64>>)> {
        let _ = fs::remove_file(&of);
        let mut c = Command::new(self_exe())
            .args(["history", p.id, &seed.to_string(), &run.to_string(), &stride.to_string(), &count.to_string(), of.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        match watch(&mut c, None, HANG) {
            Ended::Fine => {}
            _ => return None,
        }
        let s = fs::read_to_string(&of).ok()?;
        let (class, rest) = s.split_once('\n')?;
        Some((class.to_string(), rest.lines().map(parse_tape).collect()))
    };
    let before = run / stride;
    let mut count = 1u64;
    let mut tapes = loop {
        let n = count.min(before);
        match read(n) {
            Some((c, t)) if c == class => break t,
            _ if n == before => return None,
            _ => count *= 4,
        }
    };
    let tape = tapes.pop()?;
    let deadline = Instant::now() + Duration::from_secs(60);
    let holds = |h: &[Vec<u64>], t: &[u64]| run_tapes_child(p, h, t, dir, HANG).map(|r| r.0 == class).unwrap_or(false);
    // drop runs of the history
    let mut size = (tapes.len() / 2).max(1);
    loop {
        let mut at = 0;
        while at < tapes.len() && Instant::now() < deadline {
            let mut cand = tapes.clone();
            cand.drain(at..(at + size).min(cand.len()));
            if holds(&cand, &tape) {
                tapes = cand;
            } else {
                at += size;
            }
        }
        if size == 1 || Instant::now() >= deadline {
            break;
        }
        size /= 2;
    }
    // then shorten what is left
    let end = Instant::now() + Duration::from_secs(20);
    let h = tapes.clone();
    let tape = shrink_with(tape, end, |_| {}, |t| holds(&h, t).then(|| t.to_vec()));
    for i in 0..tapes.len() {
        let end = Instant::now() + Duration::from_secs(10);
        let t0 = tapes[i].clone();
        let rest = tapes.clone();
        tapes[i] = shrink_with(t0, end, |_| {}, |t| {
            let mut h = rest.clone();
            h[i] = t.to_vec();
            holds(&h, &tape).then(|| t.to_vec())
        });
        if i >= 3 {
            break;
        }
    }
    let (c, m, trace) = run_tapes_child(p, &tapes, &tape, dir, HANG)?;
    Some(ReplayFile { property: p.id.into(), seed, run, class: c, message: m, history: tapes, tape, trace })
}

fn minimise(p: &'static Prop, seed: u64, run: u64, stride: u64, class: &str, msg: &str, dir: &Path) -> ReplayFile {
    let rs = run_seed(p.id, seed, run);
    let fatal = class == "abort" || class == "hang";
    let limit = if class == "hang" { Duration::from_secs(10) } else { HANG };
    let mut tape;
    if fatal {
        // The tape of a run that kills its process is recorded by re-expanding the seed as raw words.
        tape = tape_via_child(p, rs, dir);
        let deadline = Instant::now() + Duration::from_secs(30);
        let class = class.to_string();
        let dir2 = dir.to_path_buf();
        let t0 = tape.clone();
        if run_tape_child(p, &t0, dir, limit).map(|r| r.0) == Some(class.clone()) {
            tape = shrink_with(t0, deadline, |_| {}, |t| match run_tape_child(p, t, &dir2, limit) {
                Some((c, _, _)) if c == class => Some(t.to_vec()),
                _ => None,
            });
        }
    } else {
        tape = tape_of_seed(p, rs);
        if run_tape_child(p, &tape, dir, HANG).map(|r| r.0).as_deref() != Some(class) {
            if let Some(r) = with_history(p, seed, run, stride, class, dir) {
                return r;
            }
        }
        let tf = dir.join("in.tape");
        let of = dir.join("best.tape");
        fs::write(&tf, tape_str(&tape)).unwrap();
        let mut c = Command::new(self_exe())
            .args(["shrink", p.id, tf.to_str().unwrap(), class, "30", of.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let _ = watch(&mut c, None, Duration::from_secs(60));
        if let Ok(s) = fs::read_to_string(&of) {
            let t = parse_tape(&s);
            if run_tape_child(p, &t, dir, HANG).map(|r| r.0).as_deref() == Some(class) {
                tape = t;
            }
        }
    }
    let (c2, m2, trace) = run_tape_child(p, &tape, dir, limit).unwrap_or((class.into(), msg.into(), vec!["(the minimised tape did not reproduce; the seed does)".into()]));
    ReplayFile { property: p.id.into(), seed, run, class: c2, message: m2, history: vec![], tape, trace }
}

/// Record the tape of a seed in a child that writes every choice as it is drawn.
fn tape_via_child(p: &Prop, rs: u64, dir: &Path) -> Vec<u64> {
    // choices are v % n of a splitmix stream, and replay reduces tape words the same way,
    // so the raw stream itself is a valid tape.
    let _ = (p, dir);
    let mut r = crate::tape::Rng::new(rs);
    (0..4000).map(|_| r.next()).collect()
}

// ---------------------------------------------------------------- the check

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub runs: Option<u64>,
    pub workers: u64,
    pub cap_s: u64,
    pub shrink: bool,
}

fn known_listed() -> Vec<(String, String)> {
    // lines: "KNOWN-FINDING: property=C03 id=<probe id> <text>"
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
                let mut it = r.split_whitespace();
                let (Some(p), Some(id)) = (it.next(), it.next()) else { continue };
                v.push((format!("{p} {}", id.trim_start_matches("id=")), l.to_string()));
            }
        }
    }
    v
}

fn workers_pass(p: &'static Prop, seed: u64, workers: u64, total: u64, cap_s: u64, thorough: bool, dir: &Path, tag: &str) -> (Tally, HashSet<u64>) {
    let mut kids = vec![];
    let start = move |w: u64, out: &str| {
        Command::new(self_exe())
            .args([
                "worker", p.id, &seed.to_string(), &w.to_string(), &workers.to_string(), &total.to_string(),
                &cap_s.to_string(), if thorough { "1" } else { "0" }, out,
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker")
    };
    for w in 0..workers {
        let out = dir.join(format!("{tag}{w}")).to_str().unwrap().to_string();
        let c = start(w, &out);
        kids.push((w, c, out));
    }
    let mut sum = Tally::default();
    let mut sigs = HashSet::new();
    // watch all of them concurrently so that a hang in any is noticed in bounded time
    let handles: Vec<_> = kids
        .into_iter()
        .map(|(w, mut c, out)| {
            std::thread::spawn(move || {
                let progress = format!("{out}.progress");
                let mut e = watch(&mut c, Some(&progress), HANG);
                if !matches!(e, Ended::Fine) {
                    // Runs are deterministic, so a death or a stall that is the code's doing comes again. One that
                    // does not was the machine's (a killed process, a stalled sandbox).
                    e = watch(&mut start(w, &out), Some(&progress), HANG);
                }
                (e, out)
            })
        })
        .collect();
    for h in handles {
        let (e, out) = h.join().unwrap();
        let mut t = Tally::default();
        match e {
            Ended::Fine => {
                if let Some((tt, s)) = read_tally(&out) {
                    t = tt;
                    sigs.extend(s);
                }
            }
            Ended::Died(s) => {
                let i = read_progress(&format!("{out}.progress")).unwrap_or(0);
                t.viol = Some((i, "abort".into(), format!("the worker process died during this run: {s}")));
            }
            Ended::Hung => {
                let i = read_progress(&format!("{out}.progress")).unwrap_or(0);
                t.viol = Some((i, "hang".into(), format!("the run made no progress for {} s", HANG.as_secs())));
            }
        }
        sum.runs += t.runs;
        sum.steps += t.steps;
        sum.nontrivial += t.nontrivial;
        sum.choices += t.choices;
        sum.capped |= t.capped;
        for (k, n) in t.faults {
            *sum.faults.entry(k).or_insert(0) += n;
        }
        for (k, n) in t.probes {
            *sum.probes.entry(k).or_insert(0) += n;
        }
        sum.digests.extend(t.digests);
        sum.samples.extend(t.samples);
        if let Some(v) = t.viol {
            if sum.viol.as_ref().map(|o| v.0 < o.0).unwrap_or(true) {
                sum.viol = Some(v);
            }
        }
    }
    (sum, sigs)
}

pub fn check(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let dir = scratch(p.id);
    use_dictionary(&dir, &crate::dict::Dict::from_sources().save());
    let total = o.runs.unwrap_or(if o.thorough { p.thorough_runs } else { p.quick_runs });
    println!("property={} seed={} tier={} runs={}", p.id, o.seed, if o.thorough { "thorough" } else { "quick" }, total);

    let mut violated: Option<PathBuf> = None;
    // known findings: each is probed in its own child process
    let listed = known_listed();
    let mut known_hit = vec![];
    for k in p.known {
        let of = dir.join("probe.out");
        let _ = fs::remove_file(&of);
        let mut c = Command::new(self_exe())
            .args(["probe", p.id, k.id, of.to_str().unwrap()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let fails = match watch(&mut c, None, Duration::from_secs(60)) {
            Ended::Fine => fs::read_to_string(&of).ok().filter(|s| !s.is_empty()),
            Ended::Died(s) => Some(format!("process died: {s}")),
            Ended::Hung => Some("no progress for 60 s".into()),
        };
        if let Some(msg) = fails {
            match listed.iter().find(|(key, _)| *key == format!("{} {}", p.id, k.id)) {
                Some((_, line)) => {
                    println!("{line}");
                    known_hit.push(k.id);
                }
                None => {
                    let path = write_replay(&ReplayFile {
                        property: p.id.into(),
                        seed: o.seed,
                        run: 0,
                        class: format!("probe:{}", k.id),
                        message: msg.clone(),
                        history: vec![],
                        tape: vec![],
                        trace: vec![format!("directed probe {}: {msg}", k.id)],
                    });
                    println!("  probe {}: {msg}", k.id);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    violated = Some(path);
                }
            }
        }
    }

    let (t, sigs) = workers_pass(p, o.seed, o.workers, total, o.cap_s, o.thorough, &dir, "w");
    let search_s = t0.elapsed().as_secs_f64();
    // determinism: repeat the first runs under another worker count and compare digests
    let k = DIGESTS.min(total);
    let mut mismatches = 0u64;
    let mut compared = 0u64;
    if t.viol.is_none() {
        let (t2, _) = workers_pass(p, o.seed, 3, k, o.cap_s, o.thorough, &dir, "d");
        for (i, d) in &t2.digests {
            if let Some(d1) = t.digests.get(i) {
                compared += 1;
                if d1 != d {
                    mismatches += 1;
                }
            }
        }
    }

    if let Some((run, class, msg)) = &t.viol {
        println!("  run {run}: class={class} {msg}");
        let rf = if o.shrink {
            minimise(p, o.seed, *run, o.workers, class, msg, &dir)
        } else {
            ReplayFile { property: p.id.into(), seed: o.seed, run: *run, class: class.clone(), message: msg.clone(), history: vec![], tape: vec![], trace: vec![] }
        };
        println!("  minimised to {} choices after {} other run(s): {}", rf.tape.len(), rf.history.len(), rf.message);
        for l in rf.trace.iter().take(60) {
            println!("    {l}");
        }
        let path = write_replay(&rf);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violated = Some(path);
    }

    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
    let mut samples: Vec<String> = t.samples.iter().take(5).map(|s| jstr(s)).collect();
    if samples.is_empty() {
        samples.push(jstr("no run completed"));
    }
    let per_h = |n: u64| if search_s > 0.0 { (n as f64 / search_s * 3600.0) as u64 } else { 0 };
    let ev = format!(
        r#"{{
 "property": {},
 "tier": "{}",
 "seed": {},
 "level": "exploration",
 "coverage": {{
  "evaluations": {},
  "distinct_nontrivial": {},
  "nontrivial_runs": {},
  "rule": {},
  "samples": [{}],
  "runs_requested": {},
  "wall_cap_reached": {},
  "seeds_per_hour": {},
  "simulated_time": {},
  "observed_events": {},
  "choices_drawn": {},
  "faults_injected": {},
  "rare_condition_probes": {},
  "interleavings_or_states_measure": "distinct 64-bit digests of (operations, faults that fired, observable results) over non-trivial runs: see distinct_nontrivial",
  "determinism": {{"runs_repeated_in_other_processes": {}, "digest_mismatches": {}}},
  "real_code": {},
  "stubbed": {},
  "known_findings_reproduced": {}
 }},
 "assumptions": ["parity-scale-codec, scale-decode, scale-encode, scale-bits, serde, yap, base58 and blake2 are used as they are", "sampling: a clean batch is evidence, not proof"],
 "wall_s": {:.2},
 "violations": {}
}}
"#,
        jstr(p.id),
        if o.thorough { "thorough" } else { "quick" },
        o.seed,
        t.runs,
        sigs.len(),
        t.nontrivial,
        jstr(p.rule),
        samples.join(", "),
        total,
        t.capped,
        per_h(t.runs),
        jstr(p.time),
        t.steps,
        t.choices,
        map(&t.faults),
        map(&t.probes),
        compared,
        mismatches,
        list(p.real),
        list(p.stub),
        list(&known_hit),
        wall,
        violated.is_some() as u8
    );
    let edir = root().join("evidence");
    let _ = fs::create_dir_all(&edir);
    fs::write(edir.join(format!("{}.json", p.id)), ev).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!(
        "property={} runs={} nontrivial={} distinct={} faults={} determinism={}/{} wall={:.1}s",
        p.id, t.runs, t.nontrivial, sigs.len(), t.faults.values().sum::<u64>(), compared - mismatches, compared, wall
    );
    if violated.is_some() {
        1
    } else {
        0
    }
}
