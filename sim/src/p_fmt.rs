//! C10 (failing writers) and C14 (custom formatters), plus the pieces C20/C21 share with them.

use crate::guard::{self, Caught, Injected};
use crate::refcodec::{gen_b32, gen_bits, gen_char, gen_int, gen_string, gen_uint, kids, mk};
use crate::refstr::{self, Style};
use crate::tape::{Ctx, RunResult};
use crate::types::gen_name;
use crate::{bail, ensure};
use scale_value::stringify::{self, custom_formatters::format_hex, ToWriterBuilder};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write};
use std::rc::Rc;

/// A value whose context is the preorder number of its node.
pub type N = Value<u32>;

// ------------------------------------------------------------ values

#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    /// allow 256-bit integers (they have no text form)
    pub big: bool,
}

pub fn gen_value(c: &mut Ctx, sh: Shape) -> N {
    let d = c.range(0, sh.depth);
    let mut v = if c.chance(1, 40) { deep(c, sh) } else { node(c, sh, d) };
    number(&mut v, &mut 0);
    v
}
fn deep(c: &mut Ctx, sh: Shape) -> N {
    let n = if c.chance(1, 6) { c.range(41, 140) } else { c.range(4, 40) };
    let mut v = node(c, sh, 1);
    for _ in 0..n {
        v = mk(
            match c.pick(4) {
                0 => ValueDef::Composite(Composite::Unnamed(vec![v])),
                1 => ValueDef::Composite(Composite::Named(vec![(gen_name(c), v)])),
                2 => ValueDef::Variant(Variant { name: gen_name(c), values: Composite::Unnamed(vec![v]) }),
                _ => {
                    let l = leaf(c, sh);
                    ValueDef::Composite(Composite::Unnamed(vec![l, v]))
                }
            },
            0,
        );
    }
    v
}
pub fn leaf(c: &mut Ctx, sh: Shape) -> N {
    let p = match c.weighted(&[6, 3, 3, 3, 2, 2, if sh.big { 1 } else { 0 }]) {
        0 => Primitive::U128(gen_uint(c, u128::MAX)),
        1 => Primitive::Bool(c.flip()),
        2 => Primitive::String(gen_string(c)),
        3 => Primitive::I128(gen_int(c, i128::MIN, i128::MAX)),
        4 => Primitive::Char(gen_char(c)),
        5 => return mk(ValueDef::BitSequence(gen_bits(c)), 0),
        _ => {
            let b = gen_b32(c);
            if c.flip() {
                Primitive::U256(b)
            } else {
                Primitive::I256(b)
            }
        }
    };
    mk(ValueDef::Primitive(p), 0)
}
fn node(c: &mut Ctx, sh: Shape, d: usize) -> N {
    if d == 0 {
        return leaf(c, sh);
    }
    match c.weighted(&[2, 6, 3]) {
        0 => leaf(c, sh),
        1 => mk(ValueDef::Composite(comp(c, sh, d)), 0),
        _ => mk(ValueDef::Variant(Variant { name: gen_name(c), values: comp(c, sh, d) }), 0),
    }
}
/// sizes of the odd wide item
pub const WIDE: [usize; 10] = [16, 17, 33, 64, 65, 100, 128, 129, 256, 257];
pub fn some_wide(c: &mut Ctx) -> usize {
    if c.chance(1, 24) {
        return match c.flip() {
            true => crate::dict::count(c, 5000).unwrap_or(1024),
            false => *c.choose(&[511usize, 512, 1000, 1023, 1024, 1025, 2048, 4096, 4097]),
        };
    }
    match c.chance(1, 4) {
        true => crate::dict::count(c, 300).unwrap_or(16),
        false => *c.choose(&WIDE),
    }
}
fn comp(c: &mut Ctx, sh: Shape, d: usize) -> Composite<u32> {
    let (n, d) = if c.chance(1, 150) { (some_wide(c), 1) } else { (c.weighted(&[2, 4, 4, 2, 1]), d) };
    match c.weighted(&[4, 4, 1]) {
        0 => Composite::Unnamed((0..n).map(|_| node(c, sh, d - 1)).collect()),
        1 => {
            let mut vs: Vec<(String, N)> = Vec::with_capacity(n);
            for i in 0..n {
                // at times the same name as the one before
                let name = if i > 0 && c.chance(1, 12) { vs[i - 1].0.clone() } else { gen_name(c) };
                vs.push((name, node(c, sh, d - 1)));
            }
            Composite::Named(vs)
        }
        // bytes, or almost bytes: what the hex formatter looks at
        _ => {
            let n = if n > 10 { n } else { c.weighted(&[1, 3, 3, 2, 0, 0, 0, 0, 1]) };
            let odd = if c.chance(1, 3) { c.idx(n + 1) } else { n };
            Composite::Unnamed(
                (0..n)
                    .map(|i| {
                        let x = match if i == odd { c.range(1, 2) } else { 0 } {
                            0 => Primitive::U128(c.pick(256) as u128),
                            1 => Primitive::U128(256),
                            _ => Primitive::I128(c.pick(256) as i128),
                        };
                        mk(ValueDef::Primitive(x), 0)
                    })
                    .collect(),
            )
        }
    }
}
pub fn number(v: &mut N, next: &mut u32) {
    v.context = *next;
    *next += 1;
    let comp = match &mut v.value {
        ValueDef::Composite(c) => c,
        ValueDef::Variant(x) => &mut x.values,
        _ => return,
    };
    match comp {
        Composite::Named(vs) => vs.iter_mut().for_each(|(_, x)| number(x, next)),
        Composite::Unnamed(vs) => vs.iter_mut().for_each(|x| number(x, next)),
    }
}
pub fn size(v: &N) -> usize {
    1 + match &v.value {
        ValueDef::Composite(c) => kids(c).into_iter().map(size).sum(),
        ValueDef::Variant(x) => kids(&x.values).into_iter().map(size).sum(),
        _ => 0,
    }
}

// ------------------------------------------------------------ the writer seam

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the call that would go past this many bytes fails; `true`: it keeps what still fits first
    Bytes(usize, bool),
    /// this call fails
    Call(usize),
    /// this call panics
    Panic(usize),
}
#[derive(Default)]
pub struct WState {
    pub out: String,
    pub calls: usize,
    pub failed: bool,
    pub after: usize,
    /// call boundaries in `out`
    pub cuts: Vec<usize>,
    /// fail only once (a transient fault): later writes are taken again
    pub transient: bool,
    /// called at every write and every callback
    pub hook: Option<Rc<dyn Fn()>>,
}
/// A writer that is a handle: the simulator keeps another one to look at what arrived.
#[derive(Clone)]
pub struct Sink(pub Rc<RefCell<WState>>, pub Fault);
impl Sink {
    pub fn new(f: Fault) -> Sink {
        Sink(Rc::new(RefCell::new(WState::default())), f)
    }
    pub fn transient(self) -> Sink {
        self.0.borrow_mut().transient = true;
        self
    }
    pub fn out(&self) -> String {
        self.0.borrow().out.clone()
    }
    pub fn hooked(self, h: Rc<dyn Fn()>) -> Sink {
        self.0.borrow_mut().hook = Some(h);
        self
    }
    fn hook(&self) {
        let h = self.0.borrow().hook.clone();
        if let Some(h) = h {
            h()
        }
    }
    /// a callback was invoked: that must not happen once the writer or a callback failed
    fn called(&self) {
        self.hook();
        let mut w = self.0.borrow_mut();
        if w.failed {
            w.after += 1
        }
    }
    fn take(&self, s: &str) -> fmt::Result {
        self.hook();
        let mut w = self.0.borrow_mut();
        if w.failed {
            w.after += 1;
            if w.transient {
                w.out.push_str(s);
                return Ok(());
            }
            return Err(fmt::Error);
        }
        let n = w.calls;
        w.calls += 1;
        match self.1 {
            Fault::Bytes(k, part) if w.out.len() + s.len() > k => {
                w.failed = true;
                if part {
                    let mut room = k - w.out.len();
                    while !s.is_char_boundary(room) {
                        room -= 1;
                    }
                    w.out.push_str(&s[..room]);
                }
                return Err(fmt::Error);
            }
            Fault::Call(k) if n == k => {
                w.failed = true;
                return Err(fmt::Error);
            }
            Fault::Panic(k) if n == k => {
                w.failed = true;
                drop(w);
                std::panic::panic_any(Injected)
            }
            _ => {}
        }
        w.out.push_str(s);
        let at = w.out.len();
        w.cuts.push(at);
        Ok(())
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s)
    }
    fn write_char(&mut self, ch: char) -> fmt::Result {
        self.take(ch.encode_utf8(&mut [0; 4]))
    }
}

// ------------------------------------------------------------ layouts

#[derive(Clone, Debug, PartialEq)]
pub struct Layout {
    pub compact: bool,
    pub pretty: bool,
    pub lead: Option<String>,
    pub by: Option<String>,
}
impl Layout {
    pub fn style(&self) -> Style {
        Style {
            compact: self.compact && !self.pretty,
            pretty: self.pretty.then(|| (self.by.clone().unwrap_or_else(|| "  ".into()), self.lead.clone().unwrap_or_default())),
        }
    }
    pub fn apply<T, W: Write>(&self, mut b: ToWriterBuilder<T, W>) -> ToWriterBuilder<T, W> {
        if self.compact {
            b = b.compact();
        }
        if self.pretty {
            b = b.pretty();
        }
        if let Some(s) = &self.lead {
            b = b.leading_indent(s.clone());
        }
        if let Some(s) = &self.by {
            b = b.indent_by(s.clone());
        }
        b
    }
}
/// `ws`: indentation of white space only, so that the text can be read back
pub fn gen_layout(c: &mut Ctx, ws: bool) -> Layout {
    const WS: [&str; 7] = ["", " ", "\t", "    ", "\u{a0}", "\n", " \r\n"];
    const ANY: [&str; 8] = ["", "**", "\t", "--> ", "é", ",", "0", "\u{1F600}"];
    let pick = |c: &mut Ctx| {
        if !c.flip() {
            None
        } else if ws || c.flip() {
            Some(c.choose(&WS).to_string())
        } else {
            Some(c.choose(&ANY).to_string())
        }
    };
    let k = c.pick(3);
    Layout { compact: k == 1, pretty: k == 2, lead: pick(c), by: pick(c) }
}

// ------------------------------------------------------------ scripted callbacks

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Decline,
    /// write this text and report success
    Say(String),
    /// write this text and report failure
    Fail(String),
    /// write this text and panic
    Panic(String),
    /// delegate to the library's hex formatter
    Hex,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Ctx(u32),
    Ask(usize, u32),
}
/// Decisions of the context printer and of each formatter, by node number.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// None: contexts are not written
    pub ctx: Option<Vec<Act>>,
    pub fmts: Vec<Vec<Act>>,
}
impl Plan {
    fn act(v: &[Act], n: u32) -> Act {
        v.get(n as usize).cloned().unwrap_or(Act::Decline)
    }
}
pub fn ctx_text(n: u32) -> String {
    format!("#{n}")
}
const SAYS: [&str; 7] = ["@", "", "<custom>", "a b", "é\u{1F600}", "0x00", "\""];

pub fn gen_plan(c: &mut Ctx, v: &N, faults: bool) -> Plan {
    let n = size(v);
    let ctx = c.flip().then(|| {
        let bad = if faults && c.chance(1, 6) { Some(c.idx(n)) } else { None };
        (0..n as u32)
            .map(|i| match bad {
                Some(b) if b == i as usize => {
                    if c.flip() {
                        Act::Fail(ctx_text(i))
                    } else {
                        Act::Panic("".into())
                    }
                }
                _ => Act::Say(ctx_text(i)),
            })
            .collect()
    });
    let k = match c.weighted(&[20, 80, 60, 40, 1]) {
        4 => c.range(4, 12),
        k => k,
    };
    let fmts = (0..k)
        .map(|_| {
            let w: [u64; 5] = match c.pick(4) {
                0 => [1, 0, 0, 0, 0],
                1 => [12, 2, if faults { 1 } else { 0 }, 0, 0],
                2 => [4, 3, 0, 0, 1],
                _ => [20, 0, if faults { 1 } else { 0 }, if faults { 1 } else { 0 }, 3],
            };
            let all_hex = c.chance(1, 6);
            (0..n)
                .map(|_| {
                    if all_hex {
                        return Act::Hex;
                    }
                    let t = |c: &mut Ctx| c.choose(&SAYS).to_string();
                    match c.weighted(&w) {
                        0 => Act::Decline,
                        1 => Act::Say(t(c)),
                        2 => Act::Fail(t(c)),
                        3 => Act::Panic(t(c)),
                        _ => Act::Hex,
                    }
                })
                .collect()
        })
        .collect();
    Plan { ctx, fmts }
}

/// What has to come out of a healthy writer: text, events, and how it ends (None = success).
pub struct Want {
    pub text: String,
    pub events: Vec<Ev>,
    /// Some(true): a callback failed; Some(false): a callback panicked; `big`: reached a 256-bit integer
    pub stop: Option<Stop>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Failed,
    Panicked,
    NoTextForm,
}
pub fn model(v: &N, lay: &Layout, plan: &Plan) -> Want {
    // the model renders on past a stop; what came before the first stop counts
    let stop: Cell<Option<(Stop, usize)>> = Cell::new(None);
    let ev = RefCell::new(vec![]);
    let halt = |s: Stop, at: usize| {
        if stop.get().is_none() {
            stop.set(Some((s, at)))
        }
    };
    let log = |e: Ev| {
        if stop.get().is_none() {
            ev.borrow_mut().push(e)
        }
    };
    let ctx = |n: &u32, o: &mut String| {
        log(Ev::Ctx(*n));
        match Plan::act(plan.ctx.as_ref().unwrap(), *n) {
            Act::Say(s) => o.push_str(&s),
            Act::Fail(s) => {
                o.push_str(&s);
                halt(Stop::Failed, o.len())
            }
            Act::Panic(s) => {
                o.push_str(&s);
                halt(Stop::Panicked, o.len())
            }
            _ => {}
        }
    };
    let custom = |x: &N, o: &mut String| {
        for (i, f) in plan.fmts.iter().enumerate() {
            log(Ev::Ask(i, x.context));
            match Plan::act(f, x.context) {
                Act::Decline => {}
                Act::Say(s) => {
                    o.push_str(&s);
                    return true;
                }
                Act::Fail(s) => {
                    o.push_str(&s);
                    halt(Stop::Failed, o.len());
                    return true;
                }
                Act::Panic(s) => {
                    o.push_str(&s);
                    halt(Stop::Panicked, o.len());
                    return true;
                }
                Act::Hex => {
                    if refstr::ref_hex(x, o) {
                        return true;
                    }
                }
            }
        }
        if refstr::ref_big(x, o) {
            halt(Stop::NoTextForm, o.len());
            return true;
        }
        false
    };
    let c: Option<&dyn Fn(&u32, &mut String)> = if plan.ctx.is_some() { Some(&ctx) } else { None };
    let mut text = refstr::render(v, &lay.style(), c, &custom);
    let st = stop.get();
    if let Some((_, at)) = st {
        text.truncate(at)
    }
    Want { text, events: ev.into_inner(), stop: st.map(|s| s.0) }
}

pub type Log = Rc<RefCell<Vec<Ev>>>;
/// Install the plan's callbacks on a builder.
pub fn install(mut b: ToWriterBuilder<u32, Sink>, plan: &Plan, log: &Log) -> ToWriterBuilder<u32, Sink> {
    if let Some(acts) = &plan.ctx {
        b = install_ctx(b, acts.clone(), log)
    }
    for (i, acts) in plan.fmts.iter().enumerate() {
        b = install_fmt(b, i, acts.clone(), log)
    }
    b
}
pub fn install_ctx(b: ToWriterBuilder<u32, Sink>, acts: Vec<Act>, log: &Log) -> ToWriterBuilder<u32, Sink> {
    let log = log.clone();
    b.format_context(move |n: &u32, w: &mut Sink| {
        log.borrow_mut().push(Ev::Ctx(*n));
        w.called();
        perform(&Plan::act(&acts, *n), w)
    })
}
pub fn install_fmt(b: ToWriterBuilder<u32, Sink>, i: usize, acts: Vec<Act>, log: &Log) -> ToWriterBuilder<u32, Sink> {
    let log = log.clone();
    b.add_custom_formatter(move |v: &N, w: &mut Sink| {
        log.borrow_mut().push(Ev::Ask(i, v.context));
        w.called();
        match Plan::act(&acts, v.context) {
            Act::Decline => None,
            Act::Hex => format_hex(v, w),
            a => Some(perform(&a, w)),
        }
    })
}
fn perform(a: &Act, w: &mut Sink) -> fmt::Result {
    match a {
        Act::Say(s) => w.write_str(s),
        Act::Fail(s) => {
            w.write_str(s)?;
            Err(fmt::Error)
        }
        Act::Panic(s) => {
            w.write_str(s)?;
            std::panic::panic_any(Injected)
        }
        _ => Ok(()),
    }
}

pub fn cut(s: &str) -> String {
    let mut t: String = s.chars().take(240).collect();
    if t.len() < s.len() {
        t.push_str("...");
    }
    t
}
pub fn show_r(r: &Result<fmt::Result, Caught>) -> String {
    match r {
        Ok(r) => format!("{r:?}"),
        Err(c) => c.show(),
    }
}

/// Compare one write with the model, given the fault of its writer.
pub fn judge(what: &str, want: &Want, r: &Result<fmt::Result, Caught>, sink: &Sink, log: Option<&[Ev]>) -> RunResult {
    let w = sink.0.borrow();
    if let Err(c) = r {
        if *c != Caught::Injected {
            bail!(c.class(), "{what}: {}", c.show());
        }
    }
    ensure!(w.after == 0, "write-after-failure", "{what}: {} more write(s) or callback(s) after the writer failed; got {:?}", w.after, cut(&w.out));
    ensure!(
        want.text.starts_with(&w.out),
        "not-a-prefix",
        "{what}: wrote {:?}, which is no prefix of {:?}",
        cut(&w.out),
        cut(&want.text)
    );
    if let Some(log) = log {
        ensure!(want.events.starts_with(log), "callback-order", "{what}: callbacks {log:?}, expected a prefix of {:?}", want.events);
    }
    if w.failed {
        match (sink.1, r) {
            (Fault::Panic(_), Err(_)) => {}
            (Fault::Panic(_), Ok(x)) => bail!("panic-lost", "{what}: the writer panicked but the call returned {x:?}"),
            (_, Ok(Err(_))) => {}
            (_, Ok(Ok(()))) => bail!("error-lost", "{what}: the writer failed but the call returned Ok; {:?} arrived", cut(&w.out)),
            (_, Err(_)) => bail!("panic", "{what}: panicked although the writer failed first"),
        }
        return Ok(());
    }
    match (want.stop, r) {
        (None, Ok(Ok(()))) | (Some(Stop::Failed), Ok(Err(_))) | (Some(Stop::NoTextForm), Ok(Err(_))) | (Some(Stop::Panicked), Err(_)) => {}
        (s, _) => bail!("wrong-outcome", "{what}: returned {}, expected {s:?} (None = success)", show_r(r)),
    }
    // the built-in form of a value without a text form stops somewhere before the value
    if want.stop == Some(Stop::NoTextForm) {
        return Ok(());
    }
    ensure!(w.out == want.text, "wrong-text", "{what}: wrote {:?}, expected {:?}", cut(&w.out), cut(&want.text));
    if let Some(log) = log {
        ensure!(log == want.events, "callback-order", "{what}: callbacks {log:?}, expected {:?}", want.events);
    }
    Ok(())
}

/// A failure point for a text of this many bytes written in this many calls.
pub fn gen_fault(c: &mut Ctx, len: usize, calls: usize, panics: bool) -> Fault {
    match c.weighted(&[4, 4, 2, if panics { 1 } else { 0 }]) {
        0 => {
            c.fault("writer_full");
            Fault::Bytes(c.idx(len.max(1)), false)
        }
        1 => {
            c.fault("writer_call_failed");
            Fault::Call(c.idx(calls.max(1)))
        }
        2 => {
            c.fault("writer_short_write");
            Fault::Bytes(c.idx(len.max(1)), true)
        }
        _ => {
            c.fault("writer_panicked");
            Fault::Panic(c.idx(calls.max(1)))
        }
    }
}

// ------------------------------------------------------------ C10

/// The ways to obtain the text of a value (or of its parts) without callbacks.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    Builder,
    BuilderMut,
    ToWriter,
    ToWriterMut,
    Display,
    DisplayAlt,
    DefDisplay,
    DefDisplayAlt,
    PartDisplay,
    PartDisplayAlt,
}
const WAYS: [Way; 10] = [
    Way::Builder,
    Way::ToWriter,
    Way::Display,
    Way::DisplayAlt,
    Way::BuilderMut,
    Way::ToWriterMut,
    Way::DefDisplay,
    Way::DefDisplayAlt,
    Way::PartDisplay,
    Way::PartDisplayAlt,
];
fn write_part(v: &N, alt: bool, mut s: Sink) -> fmt::Result {
    match (&v.value, alt) {
        (ValueDef::Composite(x), false) => write!(s, "{x}"),
        (ValueDef::Composite(x), true) => write!(s, "{x:#}"),
        (ValueDef::Variant(x), false) => write!(s, "{x}"),
        (ValueDef::Variant(x), true) => write!(s, "{x:#}"),
        (ValueDef::Primitive(x), false) => write!(s, "{x}"),
        (ValueDef::Primitive(x), true) => write!(s, "{x:#}"),
        (ValueDef::BitSequence(_), false) => write!(s, "{v}"),
        (ValueDef::BitSequence(_), true) => write!(s, "{v:#}"),
    }
}
fn write_way(way: Way, lay: &Layout, v: &N, mut s: Sink) -> fmt::Result {
    match way {
        Way::Builder => lay.apply(stringify::to_writer_custom()).write(v, s),
        Way::BuilderMut => lay.apply(stringify::to_writer_custom()).write(v, &mut s),
        Way::ToWriter => stringify::to_writer(v, s),
        Way::ToWriterMut => stringify::to_writer(v, &mut s),
        Way::Display => write!(s, "{v}"),
        Way::DisplayAlt => write!(s, "{v:#}"),
        Way::DefDisplay => write!(s, "{}", v.value),
        Way::DefDisplayAlt => write!(s, "{:#}", v.value),
        Way::PartDisplay => write_part(v, false, s),
        Way::PartDisplayAlt => write_part(v, true, s),
    }
}
fn way_layout(way: Way, lay: &Layout) -> Layout {
    let plain = Layout { compact: false, pretty: false, lead: None, by: None };
    match way {
        Way::Builder | Way::BuilderMut => lay.clone(),
        Way::DisplayAlt | Way::DefDisplayAlt | Way::PartDisplayAlt => Layout { pretty: true, ..plain },
        _ => plain,
    }
}

pub fn c10(c: &mut Ctx) -> RunResult {
    let big = c.chance(1, 6);
    let v = gen_value(c, Shape { depth: 4, big });
    let lay = gen_layout(c, false);
    let callbacks = c.chance(1, 3);
    let plan = if callbacks { gen_plan(c, &v, false) } else { Plan::default() };
    let way = if callbacks { Way::Builder } else { *c.choose(&WAYS) };
    let eff = way_layout(way, &lay);
    let want = model(&v, &eff, &plan);
    c.note(|| format!("way {way:?} layout {eff:?} callbacks {} value {}", callbacks, cut(&format!("{v:?}"))));
    let log: Log = Default::default();
    let run = |f: Fault, transient: bool| {
        log.borrow_mut().clear();
        let s = if transient { Sink::new(f).transient() } else { Sink::new(f) };
        let r = if callbacks {
            let b = install(lay.apply(stringify::to_writer_custom()), &plan, &log);
            guard::guard(|| b.write(&v, s.clone()))
        } else {
            guard::guard(|| write_way(way, &lay, &v, s.clone()))
        };
        (r, s)
    };

    // healthy
    let (r, s) = run(Fault::None, false);
    judge(&format!("healthy writer, {way:?}"), &want, &r, &s, callbacks.then(|| log.borrow().clone()).as_deref())?;
    let (calls, healthy) = {
        let w = s.0.borrow();
        (w.calls, w.out.clone())
    };
    c.ev(healthy.as_bytes());
    c.note(|| format!("healthy text {:?} in {calls} calls", cut(&healthy)));
    // an unconfigured text is the same by every way of asking
    if !callbacks && want.stop.is_none() {
        let got = match way {
            Way::Display => Some(("to_string", guard::call("to_string", || v.to_string())?)),
            Way::DefDisplay => Some(("stringify::to_string", guard::call("to_string", || stringify::to_string(&v))?)),
            Way::DisplayAlt => Some(("format!", guard::call("format", || format!("{v:#}"))?)),
            _ => None,
        };
        if let Some((n, got)) = got {
            ensure!(got == want.text, "wrong-text", "{n} gave {:?}, expected {:?}", cut(&got), cut(&want.text));
        }
    }

    // failing, several times over, with a healthy retry in between now and then
    let tries = c.range(1, 4);
    for i in 0..tries {
        let f = gen_fault(c, healthy.len(), calls, true);
        let transient = c.chance(1, 3);
        if transient {
            c.fault("writer_recovered_after_failure");
        }
        let (r, s) = run(f, transient);
        c.note(|| format!("writer {f:?} transient {transient} -> {} with {:?}", show_r(&r), cut(&s.0.borrow().out)));
        judge(&format!("writer {f:?}, {way:?}"), &want, &r, &s, callbacks.then(|| log.borrow().clone()).as_deref())?;
        let w = s.0.borrow();
        if w.failed {
            c.nontrivial();
            // everything the healthy writer took before this call arrived, and the call itself at most in part
            if let Fault::Call(k) | Fault::Panic(k) = f {
                let before = if k == 0 { 0 } else { w.cuts[k - 1] };
                ensure!(w.out.len() == before, "lost-write", "failing call {k}: {:?} arrived", cut(&w.out));
            }
        }
        c.ev_u(w.out.len() as u64 ^ (i as u64) << 32);
        drop(w);
        if c.chance(1, 4) {
            let (r, s) = run(Fault::None, false);
            judge("healthy writer after a failure", &want, &r, &s, None)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C14

pub fn c14(c: &mut Ctx) -> RunResult {
    let big = c.chance(1, 6);
    let v = gen_value(c, Shape { depth: 4, big });
    let lay = gen_layout(c, false);
    let plan = gen_plan(c, &v, true);
    let want = model(&v, &lay, &plan);
    let log: Log = Default::default();
    let b = install(lay.apply(stringify::to_writer_custom()), &plan, &log);
    c.note(|| format!("layout {lay:?} plan {plan:?} value {}", cut(&format!("{v:?}"))));
    let s = Sink::new(Fault::None);
    let r = guard::guard(|| b.write(&v, s.clone()));
    c.note(|| format!("-> {} {:?} events {:?}", show_r(&r), cut(&s.out()), log.borrow()));
    judge("formatters", &want, &r, &s, Some(&log.borrow()))?;
    match want.stop {
        Some(Stop::Failed) => c.fault("formatter_failed"),
        Some(Stop::Panicked) => c.fault("formatter_panicked"),
        _ => {}
    }
    if want.events.iter().any(|e| matches!(e, Ev::Ask(..))) {
        c.nontrivial();
    }
    c.ev(want.text.as_bytes());
    c.ev_u(want.events.len() as u64);
    let (len, calls) = (s.0.borrow().out.len(), s.0.borrow().calls);

    // formatters that all decline are as good as absent
    if c.chance(1, 3) {
        let absent = model(&v, &lay, &Plan { ctx: None, fmts: vec![] });
        let deny = Plan { ctx: None, fmts: vec![vec![]; c.range(1, 3)] };
        let s = Sink::new(Fault::None);
        log.borrow_mut().clear();
        let r = guard::guard(|| install(lay.apply(stringify::to_writer_custom()), &deny, &log).write(&v, s.clone()));
        judge("declining formatters", &absent, &r, &s, None)?;
    }
    // a failing writer under the same formatters
    if c.flip() {
        let f = gen_fault(c, len, calls, true);
        log.borrow_mut().clear();
        let mut s = Sink::new(f);
        if c.flip() {
            s = s.transient();
        }
        let r = guard::guard(|| b.write(&v, s.clone()));
        c.note(|| format!("writer {f:?} -> {} {:?}", show_r(&r), cut(&s.out())));
        judge(&format!("formatters over writer {f:?}"), &want, &r, &s, Some(&log.borrow()))?;
        if s.0.borrow().failed {
            // no formatter is asked again once the writer failed: the text position bounds the events
            let upto = log.borrow().len();
            c.ev_u(upto as u64);
        }
    }
    // the provided formatter, called directly
    if c.chance(1, 3) {
        let mut want = String::new();
        let yes = refstr::ref_hex(&v, &mut want);
        let s = Sink::new(Fault::None);
        let r = guard::call("format_hex", || format_hex(&v, s.clone()))?;
        ensure!(r == yes.then_some(Ok(())), "format_hex", "format_hex of {} returned {r:?}", cut(&v.to_string_lossy()));
        ensure!(s.out() == want, "format_hex", "format_hex wrote {:?}, expected {want:?}", s.out());
        if yes {
            let f = gen_fault(c, want.len(), s.0.borrow().calls, false);
            let s = Sink::new(f).transient();
            let r = guard::call("format_hex", || format_hex(&v, s.clone()))?;
            let w = s.0.borrow();
            ensure!(r == Some(Err(fmt::Error)), "format_hex", "format_hex into a failing writer returned {r:?}");
            ensure!(w.after == 0, "write-after-failure", "format_hex wrote on after the writer failed");
            ensure!(want.starts_with(&w.out), "not-a-prefix", "format_hex left {:?}", w.out);
            c.probe("format_hex_failed_midway");
        }
    }
    Ok(())
}

trait Lossy {
    fn to_string_lossy(&self) -> String;
}
impl Lossy for N {
    fn to_string_lossy(&self) -> String {
        format!("{self:?}")
    }
}
