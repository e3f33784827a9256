//! C20: interleaved, re-entrant and aborted operations. C21: reused configurations.

use crate::guard::{self, Caught, Injected};
use crate::p_decode::{decode_by, DOORS};
use crate::p_encode::{encode_by, encode_fields_by, vary, EDOORS};
use crate::p_fmt::{self, cut, gen_fault, gen_layout, gen_plan, gen_value, install, judge, model, show_r, Act, Fault, Layout, Log, Plan, Shape, Sink, N};
use crate::p_serde::{gen_asks, gen_ser, gen_src, request, Asks, CState, De, Node, Rec, Ser, Src, Steps};
use crate::p_text::{build_parsers, gen_script, gen_text, marker, one_parse, SeenRc, V0};
use crate::refcodec::{enc, ValGen, V};

use crate::tape::{mix, Ctx, RunResult};
use crate::types::{gen_root, gen_type, FieldsIter, GenCfg, Outage, Reg, SField, SType, SimResolver, Tid};
use crate::{bail, ensure};
use scale_value::stringify::{self, FromStrBuilder, ParseErrorKind, ToWriterBuilder};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, Sender};

// ------------------------------------------------------------ C20

/// Everything the tasks read, and share.
#[derive(Clone, Debug, Default)]
struct Shared {
    reg: Reg,
    items: Vec<(Tid, V, Vec<u8>)>,
    vals: Vec<N>,
    texts: Vec<String>,
    srcs: Vec<Src>,
    sers: Vec<Ser>,
}
#[derive(Clone, Debug)]
enum Op {
    Encode { item: usize, door: usize, plan: Outage, before: usize },
    EncodeFields { item: usize, door: u64, plan: Outage },
    Decode { item: usize, door: usize, len: usize, plan: Outage },
    DecodeFields { item: usize, len: usize, plan: Outage },
    Trace { item: usize, len: usize, plan: Outage },
    Format { val: usize, lay: Layout, plan: Plan, fault: Fault },
    Parse { text: usize, salt: u64, parsers: usize },
    Serialize { val: usize, human: bool, fail: Option<u64> },
    Deserialize { src: usize, door: u8, fail: Option<u64> },
    Consume { val: usize, asks: Asks, fail: Option<u64> },
    ToValue { ser: usize, fail: Option<u64> },
}
impl Op {
    fn kind(&self) -> &'static str {
        match self {
            Op::Encode { .. } => "encode",
            Op::EncodeFields { .. } => "encode fields",
            Op::Decode { .. } => "decode",
            Op::DecodeFields { .. } => "decode fields",
            Op::Trace { .. } => "tracing decode",
            Op::Format { .. } => "format",
            Op::Parse { .. } => "parse",
            Op::Serialize { .. } => "serialize",
            Op::Deserialize { .. } => "deserialize",
            Op::Consume { .. } => "deserialize from a value",
            Op::ToValue { .. } => "to_value",
        }
    }
}

type Hook = Rc<dyn Fn()>;
/// The configurations of one task: re-used by every use of the same operation, also from inside its own callbacks.
#[derive(Default)]
struct Configs {
    writers: RefCell<BTreeMap<usize, Rc<ToWriterBuilder<u32, Sink>>>>,
    parsers: RefCell<BTreeMap<usize, Rc<FromStrBuilder>>>,
    /// what the formatters of the writers above were asked (theirs to keep, not the library's)
    log: Log,
}

fn fields_of(sh: &Shared, id: &Tid) -> Vec<SField> {
    match sh.reg.get(id) {
        SType::Composite(fs) => fs.clone(),
        SType::Tuple(ts) => ts.iter().map(|t| SField { name: None, id: t.clone() }).collect(),
        _ => vec![SField { name: None, id: id.clone() }],
    }
}

/// Run one operation to its end; the description of its outcome is everything a caller can observe.
fn perform(sh: &Shared, idx: usize, op: &Op, cf: &Configs, hook: &Hook) -> String {
    let resolver = |plan: &Outage| SimResolver { hook: Some(&**hook), ..SimResolver::with(&sh.reg, plan.clone()) };
    let steps = |fail: &Option<u64>| {
        let s = Steps::new(*fail);
        *s.hook.borrow_mut() = Some(hook.clone());
        s
    };
    match op {
        Op::Encode { item, door, plan, before } => {
            let (id, v, _) = &sh.items[*item];
            let mut out = vec![0xEE; *before];
            let r = encode_by(EDOORS[*door], v, id, &resolver(plan), &mut out);
            format!("{r:?} {out:?}")
        }
        Op::EncodeFields { item, door, plan } => {
            let (id, v, _) = &sh.items[*item];
            let fs = fields_of(sh, id);
            let comp = match &v.value {
                ValueDef::Composite(c) => c.clone(),
                _ => Composite::Unnamed(vec![v.clone()]),
            };
            let mut out = vec![];
            let r = encode_fields_by(*door, &comp, &fs, &resolver(plan), &mut out);
            format!("{r:?} {out:?}")
        }
        Op::Decode { item, door, len, plan } => {
            let (id, _, b) = &sh.items[*item];
            let mut inp = &b[..(*len).min(b.len())];
            let r = decode_by(DOORS[*door], &mut inp, id, &resolver(plan)).map(|d| d.show());
            // how far a failed decode read is no promise
            let left = if r.is_ok() { inp.len() } else { 0 };
            format!("{r:?} {left} left")
        }
        Op::DecodeFields { item, len, plan } => {
            let (id, _, b) = &sh.items[*item];
            let fs = fields_of(sh, id);
            let mut inp = &b[..(*len).min(b.len())];
            let r = scale_value::scale::decode_as_fields(&mut inp, &mut FieldsIter(fs.iter()), &resolver(plan)).map_err(|e| e.to_string());
            format!("{r:?} {} left", inp.len())
        }
        Op::Trace { item, len, plan } => {
            let (id, _, b) = &sh.items[*item];
            let mut inp = &b[..(*len).min(b.len())];
            let r = scale_value::scale::tracing::decode_as_type(&mut inp, id.clone(), &resolver(plan)).map_err(|e| e.to_string());
            format!("{r:?}")
        }
        Op::Format { val, lay, plan, fault } => {
            let b = cf
                .writers
                .borrow_mut()
                .entry(idx)
                .or_insert_with(|| Rc::new(install(lay.apply(stringify::to_writer_custom()), plan, &cf.log)))
                .clone();
            let s = Sink::new(*fault).hooked(hook.clone());
            let r = b.write(&sh.vals[*val], s.clone());
            format!("{r:?} {:?}", s.out())
        }
        Op::Parse { text, salt, parsers } => {
            let b = cf.parsers.borrow_mut().entry(idx).or_insert_with(|| Rc::new(stateless_parsers(*salt, *parsers, hook.clone()))).clone();
            let (r, rest) = b.parse(&sh.texts[*text]);
            format!("{r:?} {rest:?}")
        }
        Op::Serialize { val, human, fail } => format!("{:?}", sh.vals[*val].serialize(Rec { st: steps(fail), human: *human, no128: false })),
        Op::Deserialize { src, door, fail } => {
            let st = steps(fail);
            let d = De { n: &sh.srcs[*src], st: &st };
            match door {
                0 => format!("{:?}", Value::deserialize(d)),
                1 => format!("{:?}", ValueDef::deserialize(d)),
                2 => format!("{:?}", Composite::deserialize(d)),
                3 => format!("{:?}", Variant::deserialize(d)),
                _ => format!("{:?}", Primitive::deserialize(d)),
            }
        }
        Op::Consume { val, asks, fail } => {
            let st = CState { steps: steps(fail), asks: asks.clone(), ..Default::default() };
            let r = request(sh.vals[*val].clone(), &st);
            let ev = st.events.borrow().clone();
            format!("{r:?} {ev:?}")
        }
        Op::ToValue { ser, fail } => {
            let st = steps(fail);
            format!("{:?}", scale_value::serde::to_value(Node { n: &sh.sers[*ser], st: &st }))
        }
    }
}
/// Custom parsers whose decision depends on nothing but the text left.
fn stateless_parsers(salt: u64, k: usize, hook: Hook) -> FromStrBuilder {
    let mut b = stringify::from_str_custom();
    for i in 0..k {
        let hook = hook.clone();
        b = b.add_custom_parser(move |s: &mut &str| {
            hook();
            let h = mix(salt ^ mix(s.len() as u64 * 8 + i as u64));
            let skip = |s: &mut &str, n: usize| {
                let at = s.char_indices().nth(n).map(|x| x.0).unwrap_or(s.len());
                *s = &s[at..];
            };
            let r = match h % 24 {
                0 => {
                    skip(s, (h >> 8) as usize % 5);
                    Some(Ok(marker((h >> 16) as u32 % 100)))
                }
                1..=3 => {
                    skip(s, (h >> 8) as usize % 9);
                    None
                }
                4 => Some(Err(ParseErrorKind::custom(format!("parser {i} fails")).at(0))),
                _ => None,
            };
            hook();
            r
        });
    }
    b
}

#[derive(Clone, Copy, Debug)]
enum Cmd {
    /// go on for this many callbacks, then come back (or finish)
    Go(u64),
    /// panic in this callback
    Panic,
    /// run this operation inside this callback, then go on for so many callbacks
    Nest(usize, u64),
}
enum Said {
    Yield,
    Done(Vec<(usize, usize, Result<String, Caught>, bool)>),
}
/// What a task thread uses to talk to the scheduler.
struct Ctl {
    me: usize,
    tx: Sender<(usize, Said)>,
    rx: Receiver<Cmd>,
    left: Cell<u64>,
    depth: Cell<usize>,
    injected: Cell<bool>,
    /// (operation, nesting depth, outcome, panic injected)
    results: RefCell<Vec<(usize, usize, Result<String, Caught>, bool)>>,
}
impl Ctl {
    fn point(&self, run: &dyn Fn(usize)) {
        let n = self.left.get();
        if n > 0 {
            self.left.set(n - 1);
            return;
        }
        self.tx.send((self.me, Said::Yield)).unwrap();
        match self.rx.recv().unwrap() {
            Cmd::Go(k) => self.left.set(k),
            Cmd::Panic => {
                self.injected.set(true);
                self.left.set(0);
                std::panic::panic_any(Injected)
            }
            Cmd::Nest(op, k) => {
                self.left.set(k);
                run(op)
            }
        }
    }
}
thread_local! {
    static TASK: RefCell<Option<Rc<(Ctl, Configs)>>> = const { RefCell::new(None) };
}
/// One operation of a task, from the top or from inside a callback.
fn run_op(sh: &Shared, ops: &[Op], idx: usize, t: &Rc<(Ctl, Configs)>) {
    let depth = t.0.depth.get();
    t.0.depth.set(depth + 1);
    let was = t.0.injected.replace(false);
    // the callbacks of an operation must outlive the configurations that hold them
    let (sh2, ops2): (&'static Shared, &'static [Op]) = unsafe { (&*(sh as *const _), &*(ops as *const _)) };
    let hook: Hook = Rc::new(move || {
        let t = TASK.with(|x| x.borrow().clone()).expect("inside a task");
        t.0.point(&|i| run_op(sh2, ops2, i, &t))
    });
    let r = guard::guard(|| perform(sh, idx, &ops[idx], &t.1, &hook));
    let inj = t.0.injected.replace(was);
    t.0.depth.set(depth);
    t.0.results.borrow_mut().push((idx, depth, r, inj));
}
fn solo(sh: &Shared, idx: usize, op: &Op) -> (Result<String, Caught>, u64) {
    let n = Rc::new(Cell::new(0u64));
    let n2 = n.clone();
    let hook: Hook = Rc::new(move || n2.set(n2.get() + 1));
    let r = guard::guard(|| perform(sh, idx, op, &Configs::default(), &hook));
    (r, n.get())
}

fn gen_shared(c: &mut Ctx) -> Shared {
    let cfg = GenCfg { depth: 3, ..GenCfg::default() };
    let (reg, root) = gen_root(c, &cfg);
    let mut sh = Shared { reg, ..Shared::default() };
    let mut ids = vec![root];
    for _ in 0..c.range(0, 2) {
        let d = c.range(0, 3);
        ids.push(gen_type(c, &mut sh.reg, &cfg, d));
    }
    for id in ids {
        let v = ValGen::new(&sh.reg).value(c, &id);
        let b = enc(&sh.reg, &id, &v);
        let v = if c.flip() { vary(c, &sh.reg, &id, &v) } else { v };
        sh.items.push((id, v, b));
    }
    for _ in 0..c.range(1, 2) {
        sh.vals.push(gen_value(c, Shape { depth: 3, big: true }));
        sh.texts.push(gen_text(c, false));
        sh.srcs.push(gen_src(c, 3, false));
        sh.sers.push(gen_ser(c, 3, false));
    }
    sh
}
fn gen_op(c: &mut Ctx, sh: &Shared) -> Op {
    let outage = |c: &mut Ctx| {
        let mut p = Outage::default();
        if c.chance(1, 4) {
            c.fault("resolver_outage");
            if c.flip() {
                p.down_from = Some(c.pick(12))
            } else {
                p.down_once = Some(c.pick(12))
            }
        }
        p
    };
    let fail = |c: &mut Ctx| {
        c.chance(1, 4).then(|| {
            c.fault("peer_failed");
            c.pick(16)
        })
    };
    let item = c.idx(sh.items.len());
    let val = c.idx(sh.vals.len());
    let cutlen = |c: &mut Ctx| {
        let n = sh.items[item].2.len();
        if n > 0 && c.chance(1, 4) {
            c.fault("torn_input");
            c.idx(n)
        } else {
            n
        }
    };
    match c.pick(11) {
        0 => Op::Encode { item, door: c.idx(3), plan: outage(c), before: c.range(0, 3) },
        1 => Op::EncodeFields { item, door: c.pick(3), plan: outage(c) },
        2 => Op::Decode { item, door: c.idx(3), len: cutlen(c), plan: outage(c) },
        3 => Op::DecodeFields { item, len: cutlen(c), plan: outage(c) },
        4 => Op::Trace { item, len: cutlen(c), plan: outage(c) },
        5 => {
            let plan = if c.flip() { gen_plan(c, &sh.vals[val], false) } else { Plan::default() };
            let fault = if c.chance(1, 4) { gen_fault(c, 40, 20, false) } else { Fault::None };
            Op::Format { val, lay: gen_layout(c, false), plan, fault }
        }
        6 => Op::Parse { text: c.idx(sh.texts.len()), salt: c.pick(1 << 20), parsers: c.range(1, 3) },
        7 => Op::Serialize { val, human: c.flip(), fail: fail(c) },
        8 => Op::Deserialize { src: c.idx(sh.srcs.len()), door: c.pick(5) as u8, fail: fail(c) },
        9 => Op::Consume { val, asks: gen_asks(c), fail: fail(c) },
        _ => Op::ToValue { ser: c.idx(sh.sers.len()), fail: fail(c) },
    }
}

pub fn c20(c: &mut Ctx) -> RunResult {
    let sh = gen_shared(c);
    let before = format!("{sh:?}");
    let k = c.range(2, 5);
    let ops: Vec<Op> = (0..k).map(|_| gen_op(c, &sh)).collect();
    // alone
    let mut alone = vec![];
    let mut points = 0;
    for (i, op) in ops.iter().enumerate() {
        let (r, n) = solo(&sh, i, op);
        points += n;
        match r {
            Ok(s) => alone.push(s),
            Err(e) => bail!(e.class(), "{} alone: {}", op.kind(), e.show()),
        }
    }
    c.note(|| format!("operations {:?}; {points} callback points", ops.iter().zip(&alone).map(|(o, r)| format!("{o:?} -> {}", cut(r))).collect::<Vec<_>>()));
    // each task runs a list of operations, one after another; operations may be run by several tasks
    let tasks = c.range(1, 4);
    let work: Vec<Vec<usize>> = (0..tasks).map(|_| (0..c.range(1, 2)).map(|_| c.idx(k)).collect()).collect();
    let burst = c.weighted(&[2, 2, 1]);
    let aborts = c.flip();
    let nests = c.flip();
    let mut trace: Vec<String> = vec![];
    let mut all: Vec<(usize, usize, usize, Result<String, Caught>, bool)> = vec![];
    let mut switches = 0u64;
    let (sh_ref, ops_ref) = (&sh, &ops);
    std::thread::scope(|sc| {
        let (tx, rx) = channel::<(usize, Said)>();
        let mut go: Vec<Sender<Cmd>> = vec![];
        for (me, list) in work.iter().enumerate() {
            let (gtx, grx) = channel();
            go.push(gtx);
            let tx = tx.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(sc, move || {
                    let t = Rc::new((
                        Ctl { me, tx, rx: grx, left: Cell::new(0), depth: Cell::new(0), injected: Cell::new(false), results: Default::default() },
                        Configs::default(),
                    ));
                    TASK.with(|x| *x.borrow_mut() = Some(t.clone()));
                    // the baton arrives before anything runs
                    match t.0.rx.recv().unwrap() {
                        Cmd::Go(n) => t.0.left.set(n),
                        _ => t.0.left.set(0),
                    }
                    for i in list {
                        run_op(sh_ref, ops_ref, *i, &t);
                    }
                    TASK.with(|x| *x.borrow_mut() = None);
                    let done = t.0.results.take();
                    t.0.tx.send((me, Said::Done(done))).unwrap();
                })
                .unwrap();
        }
        drop(tx);
        // (task, is at a callback point)
        let mut ready: Vec<(usize, bool)> = (0..tasks).map(|t| (t, false)).collect();
        let mut nested = 0;
        let mut last = usize::MAX;
        while !ready.is_empty() {
            let i = c.idx(ready.len());
            let (t, at_point) = ready[i];
            let n = match burst {
                0 => c.pick(4),
                1 => c.pick(20),
                _ => 0,
            };
            // past this, everything just finishes
            let tired = switches > 400;
            let cmd = if tired {
                Cmd::Go(u64::MAX)
            } else if at_point && aborts && c.chance(1, 16) {
                c.fault("panic_in_callback");
                Cmd::Panic
            } else if at_point && nests && nested < 6 && c.chance(1, 8) {
                nested += 1;
                c.fault("reentrant_call");
                Cmd::Nest(c.idx(k), n)
            } else {
                Cmd::Go(n)
            };
            if t != last && last != usize::MAX {
                c.fault("task_switch");
            }
            last = t;
            switches += 1;
            if c.tracing {
                trace.push(format!("{t}:{cmd:?}"));
            }
            c.ev_u(t as u64 | (matches!(cmd, Cmd::Panic) as u64) << 8 | (matches!(cmd, Cmd::Nest(..)) as u64) << 9);
            go[t].send(cmd).unwrap();
            match rx.recv().unwrap() {
                (who, Said::Yield) => {
                    debug_assert_eq!(who, t);
                    ready[i] = (t, true);
                }
                (who, Said::Done(rs)) => {
                    debug_assert_eq!(who, t);
                    ready.remove(i);
                    all.extend(rs.into_iter().map(|(op, depth, r, inj)| (t, op, depth, r, inj)));
                }
            }
        }
    });
    c.note(|| format!("tasks {work:?}; schedule {}", trace.join(" ")));
    if switches > tasks as u64 + 1 {
        c.nontrivial();
    }
    for (t, op, depth, r, injected) in &all {
        let what = || format!("{:?} in task {t} at depth {depth}", ops[*op]);
        match (r, injected) {
            (Ok(s), false) => {
                ensure!(*s == alone[*op], "interference", "{} gave {}, alone it gives {}", what(), cut(s), cut(&alone[*op]));
                c.ev(s.as_bytes());
            }
            (Err(Caught::Injected), true) => {}
            (Ok(s), true) => bail!("panic-lost", "{}: a callback panicked but it returned {}", what(), cut(s)),
            (Err(e), _) => bail!(e.class(), "{}: {}", what(), e.show()),
        }
    }
    ensure!(format!("{sh:?}") == before, "shared-changed", "the shared values changed");
    // as if nothing had happened
    for (i, op) in ops.iter().enumerate() {
        let (r, _) = solo(&sh, i, op);
        ensure!(r.as_ref() == Ok(&alone[i]), "aftermath", "{op:?} now gives {r:?}, before it gave {}", cut(&alone[i]));
    }
    Ok(())
}

// ------------------------------------------------------------ C22

/// Whatever way an operation ends, once its result is gone it has left no memory behind that it would leave
/// again the next time.
pub fn c22(c: &mut Ctx) -> RunResult {
    let sh = gen_shared(c);
    let n = c.range(1, 3);
    for idx in 0..n {
        let op = gen_op(c, &sh);
        // the first use may set up what is kept for good, and tells the number of callbacks
        let (first, calls) = solo(&sh, idx, &op);
        let at = if calls > 0 && c.chance(1, 2) { Some(c.pick(calls)) } else { None };
        let keep = c.flip();
        let uses = c.range(4, 6);
        c.note(|| format!("op {op:?}, {calls} callbacks, panic in {at:?}, {uses} uses, configuration kept: {keep}"));
        if at.is_some() {
            c.fault("callback_panicked");
        }
        match &first {
            Err(Caught::Injected) => {}
            Err(e) => bail!("panic", "{} alone: {}", op.kind(), e.show()),
            Ok(s) => {
                c.ev(s.as_bytes());
                if s.contains("Err(") {
                    c.probe("operation_failed");
                }
            }
        }
        let left = Rc::new(Cell::new(0u64));
        let l2 = left.clone();
        let armed = at.is_some();
        let hook: Hook = Rc::new(move || {
            let n = l2.get();
            l2.set(n.wrapping_sub(1));
            if armed && n == 0 {
                std::panic::panic_any(Injected)
            }
        });
        let kept = Configs::default();
        for k in 0..uses {
            left.set(at.unwrap_or(u64::MAX));
            let (r, u) = crate::alloc::measure(|| {
                if keep {
                    let r = guard::guard(|| drop(perform(&sh, idx, &op, &kept, &hook)));
                    drop(kept.log.take());
                    r
                } else {
                    guard::guard(|| drop(perform(&sh, idx, &op, &Configs::default(), &hook)))
                }
            });
            match &r {
                Err(Caught::Injected) if at.is_some() => {}
                Ok(()) if at.is_none() => {}
                Ok(()) => bail!("not-repeatable", "{}: use {k} made fewer callbacks than the first", op.kind()),
                Err(e) => bail!("panic", "{}, use {k}: {}", op.kind(), e.show()),
            }
            if k >= 2 {
                ensure!(
                    u.left <= 0,
                    "leak",
                    "{} (panic in callback {at:?}, configuration kept: {keep}) left {} bytes of heap behind in use {k} of the same operation: {op:?}",
                    op.kind(),
                    u.left
                );
            }
            c.ev_u(u.count);
        }
        c.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------ C21

#[derive(Clone, Debug)]
enum Opt {
    Compact,
    Pretty,
    Lead(String),
    By(String),
    Ctx(Vec<Act>),
    Fmt(Vec<Act>),
}
fn set(b: ToWriterBuilder<u32, Sink>, o: &Opt, nth: usize, log: &Log) -> ToWriterBuilder<u32, Sink> {
    match o {
        Opt::Compact => b.compact(),
        Opt::Pretty => b.pretty(),
        Opt::Lead(s) => b.leading_indent(s.clone()),
        Opt::By(s) => b.indent_by(s.clone()),
        Opt::Ctx(a) => p_fmt::install_ctx(b, a.clone(), log),
        Opt::Fmt(a) => p_fmt::install_fmt(b, nth, a.clone(), log),
    }
}
fn configure(os: &[Opt], log: &Log) -> ToWriterBuilder<u32, Sink> {
    let mut b = stringify::to_writer_custom();
    let mut nth = 0;
    for o in os {
        b = set(b, o, nth, log);
        if matches!(o, Opt::Fmt(_)) {
            nth += 1
        }
    }
    b
}

pub fn c21(c: &mut Ctx) -> RunResult {
    if c.chance(1, 3) {
        return c21_parse(c);
    }
    let big = c.chance(1, 6);
    let vals: Vec<N> = (0..c.range(1, 3)).map(|_| gen_value(c, Shape { depth: 3, big })).collect();
    // settings, some of them made several times
    let mut os: Vec<Opt> = vec![];
    let n = c.often(0, 8, 24);
    for _ in 0..n {
        let o = match c.weighted(&[2, 3, 2, 2, 2, 3]) {
            0 => Opt::Compact,
            1 => Opt::Pretty,
            2 => Opt::Lead(c.choose(&["", "**", "\t", "é", "  "]).to_string()),
            3 => Opt::By(c.choose(&["", "-", "\t", "→", "    "]).to_string()),
            k => {
                let v = &vals[c.idx(vals.len())];
                let p = gen_plan(c, v, true);
                match k {
                    4 => Opt::Ctx(p.ctx.unwrap_or_default()),
                    _ => match p.fmts.into_iter().next() {
                        Some(a) => Opt::Fmt(a),
                        None => Opt::Compact,
                    },
                }
            }
        };
        os.push(o);
    }
    // what they amount to
    let mut lay = Layout { compact: false, pretty: false, lead: None, by: None };
    let mut plan = Plan::default();
    for o in &os {
        match o {
            Opt::Compact => (lay.compact, lay.pretty) = (true, false),
            Opt::Pretty => (lay.compact, lay.pretty) = (false, true),
            Opt::Lead(s) => lay.lead = Some(s.clone()),
            Opt::By(s) => lay.by = Some(s.clone()),
            Opt::Ctx(a) => plan.ctx = Some(a.clone()),
            Opt::Fmt(a) => plan.fmts.push(a.clone()),
        }
    }
    let log: Log = Default::default();
    let b = configure(&os, &log);
    // the same settings made once each, in another order
    let flog: Log = Default::default();
    let mut canon: Vec<Opt> = vec![];
    if lay.compact {
        canon.push(Opt::Compact)
    }
    if lay.pretty {
        canon.push(Opt::Pretty)
    }
    canon.extend(lay.lead.clone().map(Opt::Lead));
    canon.extend(lay.by.clone().map(Opt::By));
    canon.extend(plan.ctx.clone().map(Opt::Ctx));
    for i in (1..canon.len()).rev() {
        let j = c.idx(i + 1);
        canon.swap(i, j);
    }
    // formatters keep their order among themselves, but may come anywhere
    let mut at = 0;
    for a in &plan.fmts {
        at = c.range(at, canon.len());
        canon.insert(at, Opt::Fmt(a.clone()));
        at += 1;
    }
    c.note(|| format!("settings {os:?}; canonical {canon:?}"));
    let uses = c.often(2, 6, 70);
    for u in 0..uses {
        let v = &vals[c.idx(vals.len())];
        let want = model(v, &lay, &plan);
        let f = if c.flip() { Fault::None } else { gen_fault(c, want.text.len(), want.text.len() / 3 + 1, true) };
        let transient = c.chance(1, 4);
        let mk = || if transient { Sink::new(f).transient() } else { Sink::new(f) };
        log.borrow_mut().clear();
        let s = mk();
        let r = guard::guard(|| b.write(v, s.clone()));
        c.note(|| format!("use {u} writer {f:?} -> {} {:?}", show_r(&r), cut(&s.out())));
        judge(&format!("use {u} of one configuration, writer {f:?}"), &want, &r, &s, Some(&log.borrow()))?;
        if s.0.borrow().failed || !matches!(r, Ok(Ok(()))) {
            c.nontrivial();
            c.fault("use_ended_early");
        }
        // a fresh configuration with the same settings
        flog.borrow_mut().clear();
        let s2 = mk();
        let fresh = configure(&canon, &flog);
        let r2 = guard::guard(|| fresh.write(v, s2.clone()));
        ensure!(r == r2, "reused-differs", "use {u}: {} but a fresh configuration gives {}", show_r(&r), show_r(&r2));
        ensure!(s.out() == s2.out(), "reused-differs", "use {u}: wrote {:?}, a fresh configuration writes {:?}", cut(&s.out()), cut(&s2.out()));
        ensure!(*log.borrow() == *flog.borrow(), "reused-differs", "use {u}: callbacks {:?}, with a fresh configuration {:?}", log.borrow(), flog.borrow());
        c.ev(s.out().as_bytes());
        c.ev_u(show_r(&r).len() as u64);
    }
    Ok(())
}
fn c21_parse(c: &mut Ctx) -> RunResult {
    let script = gen_script(c, true, true);
    let plain = c.chance(1, 4);
    let script = if plain { vec![] } else { script };
    let seen: SeenRc = Default::default();
    let b = build_parsers(stringify::from_str_custom(), &script, &seen);
    let texts: Vec<String> = (0..c.range(1, 3)).map(|_| gen_text(c, true)).collect();
    let uses = c.often(2, 6, 70);
    for u in 0..uses {
        let s = &texts[c.idx(texts.len())];
        one_parse(c, &b, &script, &seen, s)?;
        let old = seen.borrow().offers.clone();
        let mine = {
            seen.borrow_mut().calls = vec![0; script.len()];
            guard::guard(|| {
                let (r, rest) = b.parse(s);
                (r, rest.len())
            })
        };
        let fseen: SeenRc = Default::default();
        fseen.borrow_mut().text = s.clone();
        let fresh = build_parsers(stringify::from_str_custom(), &script, &fseen);
        let other: Result<(Result<V0, _>, usize), Caught> = guard::guard(|| {
            let (r, rest) = fresh.parse(s);
            (r, rest.len())
        });
        ensure!(mine == other, "reused-differs", "use {u} of {:?}: {mine:?}, a fresh configuration gives {other:?}", cut(s));
        ensure!(old == fseen.borrow().offers, "reused-differs", "use {u} of {:?}: offers {old:?}, with a fresh configuration {:?}", cut(s), fseen.borrow().offers);
        if !matches!(mine, Ok((Ok(_), _))) {
            c.nontrivial();
            c.fault("use_ended_early");
        }
        if script.is_empty() {
            let (r, rest) = guard::call("from_str", || {
                let (r, rest) = stringify::from_str(s);
                (r, rest.len())
            })?;
            ensure!(mine == Ok((r, rest)), "reused-differs", "from_str of {:?} differs from a configuration without parsers", cut(s));
        }
    }
    Ok(())
}
