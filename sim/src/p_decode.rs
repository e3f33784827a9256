//! C01-C05: decoding from a simulated byte stream.

use crate::faults::*;
use crate::guard::call;
use crate::refcodec::*;
use crate::refstr;
use crate::tape::*;
use crate::types::*;
use crate::{alloc, bail, ensure};
use scale_decode::{DecodeAsFields, DecodeAsType};
use scale_type_resolver::Primitive as Prim;
use scale_value::{Composite, Value, ValueDef};

/// Plain decode through one of the public doors. Returns the value (with contexts when the door gives them).
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Door {
    Free,
    Trait,
    Visitor,
}
pub const DOORS: [Door; 3] = [Door::Free, Door::Trait, Door::Visitor];

pub enum Dec {
    Ctx(V),
    Plain(Value<()>),
}
impl Dec {
    pub fn same(&self, want: &V) -> bool {
        match self {
            Dec::Ctx(v) => v == want,
            Dec::Plain(v) => *v == strip(want),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Dec::Ctx(v) => format!("{v:?}"),
            Dec::Plain(v) => format!("{v:?}"),
        }
    }
}

pub fn decode_by(door: Door, inp: &mut &[u8], id: &Tid, r: &SimResolver) -> Result<Dec, String> {
    match door {
        Door::Free => scale_value::scale::decode_as_type(inp, id.clone(), r).map(Dec::Ctx).map_err(|e| e.to_string()),
        Door::Trait => Value::<()>::decode_as_type(inp, id.clone(), r).map(Dec::Plain).map_err(|e| e.to_string()),
        Door::Visitor => scale_decode::visitor::decode_with_visitor(inp, id.clone(), r, scale_value::scale::ValueVisitor::<SimResolver>::new())
            .map(Dec::Ctx)
            .map_err(|e| e.to_string()),
    }
}

/// A root type that may end in a 256-bit integer (only decodable as the very last bytes).
pub fn maybe_tail256(c: &mut Ctx, reg: &mut Reg, id: Tid) -> (Tid, bool) {
    if !c.chance(1, 12) {
        return (id, false);
    }
    let p = if c.flip() { Prim::I256 } else { Prim::U256 };
    let big = reg.prim(p);
    let id = match c.pick(4) {
        0 => big,
        1 => reg.add(SType::Tuple(vec![id, big])),
        2 => reg.add(SType::Composite(vec![SField { name: Some("x".into()), id }, SField { name: Some("big".into()), id: big }])),
        _ => reg.add(SType::Variant(vec![SVariant { name: "Big".into(), index: 7, fields: vec![SField { name: None, id: big }] }])),
    };
    (id, true)
}

fn short(s: &str) -> String {
    if s.len() > 1500 {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    } else {
        s.to_string()
    }
}
pub fn show_v<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    short(&s.replace("Value { value: ", "").replace(", context: () }", "").replace("Primitive(", "(").replace("Composite(Named(", "{(").replace("Composite(Unnamed(", "((").replace("Variant(Variant", "Variant("))
}

// ------------------------------------------------------------ C01

pub fn c01(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { mixed_fields: true, ..GenCfg::default() };
    let mut reg = Reg::default();
    let n = c.often(1, 4, 40);
    let mut ids = vec![];
    for _ in 0..n {
        let d = c.range(0, cfg.depth);
        ids.push(gen_type(c, &mut reg, &cfg, d));
    }
    let bulk = if c.chance(1, 4000) { Some(gen_bulk(c, &mut reg)) } else { None };
    if let Some((id, _)) = &bulk {
        ids.insert(0, id.clone());
    }
    let last = ids.pop().unwrap();
    let (last, tail256) = maybe_tail256(c, &mut reg, last);
    ids.push(last);

    let mut stream = vec![];
    let mut items: Vec<(Tid, V, usize, usize)> = vec![];
    let mut marks = Marks::default();
    for id in &ids {
        let v = match &bulk {
            Some((b, v)) if b == id => v.clone(),
            _ => ValGen::new(&reg).value(c, id),
        };
        let a = stream.len();
        ref_encode(&reg, id, &v, &mut stream, &mut marks);
        items.push((id.clone(), v, a, stream.len()));
    }
    let end = stream.len();
    // crash of the sender: nothing beyond `cut` ever arrives; otherwise trailing bytes of a next message may follow
    let cut = if c.chance(1, 3) && end > 0 {
        c.fault("stream_cut");
        c.idx(end)
    } else {
        end
    };
    stream.truncate(cut);
    if cut == end && !tail256 && c.chance(1, 2) {
        let g = c.range(1, 40);
        for _ in 0..g {
            let b = *c.choose(&[0u8, 0xff, 1, 4, 0x80]);
            stream.push(b);
        }
    }
    let total = stream.len();
    // arrival schedule
    let mut arrivals = vec![];
    if !tail256 {
        let k = c.weighted(&[3, 3, 2, 1, 1]);
        for _ in 0..k {
            arrivals.push(c.idx(total + 1));
        }
        arrivals.sort();
        if k > 0 {
            c.fault("fragmented_delivery");
        }
    }
    arrivals.push(total);
    let door = *c.choose(&DOORS);
    c.note(|| format!("types {}", ids.iter().map(|i| reg.show(i)).collect::<Vec<_>>().join("; ")));
    c.note(|| format!("stream {} items end at {:?}, arrivals {arrivals:?}, door {door:?}", hex(&stream), items.iter().map(|i| i.3).collect::<Vec<_>>()));

    let res = SimResolver::new(&reg);
    let mut offset = 0usize;
    let mut next = 0usize;
    for have in arrivals {
        while next < items.len() {
            let (id, want, a, b) = &items[next];
            // the receiver retries from its own saved offset
            let mut cur = &stream[offset..have];
            let before = cur.len();
            let got = call("decode", || decode_by(door, &mut cur, id, &res))?;
            ensure!(before >= cur.len(), "cursor-backwards", "input grew while decoding");
            let used = before - cur.len();
            ensure!(
                cur.is_empty() || std::ptr::eq(cur.as_ptr(), stream[offset + used..].as_ptr()),
                "cursor-foreign",
                "the cursor no longer points into the stream"
            );
            let complete = *b <= have;
            c.ev_u((next as u64) << 32 | used as u64 | (got.is_ok() as u64) << 63);
            match got {
                Ok(v) => {
                    ensure!(complete, "torn-item-accepted", "item {next} ({}) needs {} bytes but decoded from {} as {}", reg.show(id), b - a, have - offset, short(&v.show()));
                    ensure!(v.same(want), "wrong-value", "item {next} ({}): got {} want {}", reg.show(id), short(&v.show()), show_v(want));
                    ensure!(used == b - a, "wrong-consumption", "item {next} ({}): consumed {used} of {} bytes", reg.show(id), b - a);
                    offset += used;
                    next += 1;
                }
                Err(e) => {
                    ensure!(!complete, "complete-item-rejected", "item {next} ({}) value {} bytes {}: {e}", reg.show(id), show_v(want), hex(&stream[*a..*b]));
                    c.probe("torn_item_rejected");
                    break;
                }
            }
        }
    }
    let expect_done = items.iter().filter(|i| i.3 <= total).count();
    ensure!(next == expect_done, "items-lost", "{next} items recovered, {expect_done} were complete");
    if next > 0 && end > 0 {
        c.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------ C02

pub fn c02(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { mixed_fields: true, ..GenCfg::default() };
    let (reg, id) = gen_root(c, &cfg);
    let v = ValGen::new(&reg).value(c, &id);
    let mut bytes = vec![];
    let mut m = Marks::default();
    ref_encode(&reg, &id, &v, &mut bytes, &mut m);
    match c.weighted(&[8, 1, 1]) {
        0 => corrupt(c, &mut bytes, &m),
        1 => {
            // bytes of an item of another type
            let (reg2, id2) = gen_root(c, &cfg);
            let v2 = ValGen::new(&reg2).value(c, &id2);
            bytes = enc(&reg2, &id2, &v2);
            c.fault("misrouted_item");
        }
        _ => {
            let n = c.range(0, 30);
            bytes = (0..n).map(|_| c.pick(256) as u8).collect();
            c.fault("garbage_item");
        }
    }
    let door = *c.choose(&DOORS);
    c.note(|| format!("type {} bytes {} door {door:?}", reg.show(&id), hex(&bytes)));
    let mut rin = &bytes[..];
    let mut rd = RefDec::new(&reg);
    let want = rd.decode(&mut rin, &id);
    let want_used = bytes.len() - rin.len();
    let res = SimResolver::new(&reg);
    let mut cur = &bytes[..];
    let got = call("decode", || decode_by(door, &mut cur, &id, &res))?;
    let used = bytes.len() - cur.len();
    c.ev_u(used as u64 | (got.is_ok() as u64) << 63);
    c.ev(&bytes);
    c.nontrivial();
    match (got, want) {
        (Ok(g), Ok(w)) => {
            c.probe("damaged_but_valid");
            ensure!(g.same(&w), "wrong-value", "bytes {} as {}: got {} want {}", hex(&bytes), reg.show(&id), short(&g.show()), show_v(&w));
            ensure!(used == want_used, "wrong-consumption", "bytes {} as {}: consumed {used} want {want_used}", hex(&bytes), reg.show(&id));
        }
        (Err(_), Err(_)) => c.probe("damaged_and_rejected"),
        (Ok(g), Err(f)) => bail!("invalid-accepted", "bytes {} as {}: got {} but the format says: {}", hex(&bytes), reg.show(&id), short(&g.show()), f.why),
        (Err(e), Ok(w)) => bail!("valid-rejected", "bytes {} as {}: error {e} but they denote {}", hex(&bytes), reg.show(&id), show_v(&w)),
    }
    Ok(())
}

// ------------------------------------------------------------ C03

/// bytes of heap a decode of `input` bytes may hold: about 100x per byte for one node per byte with
/// vector doubling, and a constant for pre-allocations and nesting
pub fn mem_bound(input: usize, nodes_desc: usize) -> usize {
    2_000_000 + 2_000 * input + 500 * nodes_desc
}

pub fn c03(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { depth: 4, big_arrays: true, ..GenCfg::default() };
    let mut reg = Reg::default();
    let d = c.range(0, 3);
    let inner = gen_type(c, &mut reg, &cfg, d);
    // make sure a length prefix is involved
    let id = match c.pick(6) {
        0 if reg.min_size(&inner) > 0 => reg.add(SType::Seq(inner)),
        1 => {
            let s = reg.prim(Prim::Str);
            reg.add(SType::Tuple(vec![s, inner]))
        }
        2 => {
            let b = gen_leaf(c, &mut reg, &cfg);
            let s = reg.add(SType::Seq(b));
            let f = SField { name: Some("x".into()), id: s };
            reg.add(SType::Composite(vec![f]))
        }
        3 => {
            let b = reg.prim(Prim::U8);
            let s = reg.add(SType::Seq(b));
            let s2 = reg.add(SType::Seq(s));
            reg.add(SType::Seq(s2))
        }
        4 => {
            let s = reg.add(SType::Bits(*c.choose(&STORES), scale_type_resolver::BitsOrderFormat::Lsb0));
            reg.add(SType::Tuple(vec![inner, s]))
        }
        _ => inner,
    };
    let v = ValGen::new(&reg).value(c, &id);
    let mut bytes = vec![];
    let mut m = Marks::default();
    ref_encode(&reg, &id, &v, &mut bytes, &mut m);
    if !m.lens.is_empty() {
        let k = c.range(1, 2);
        for _ in 0..k {
            let at = m.lens[c.idx(m.lens.len())];
            forge_len(c, &mut bytes, at);
        }
        c.nontrivial();
    }
    if c.chance(1, 6) {
        corrupt(c, &mut bytes, &m);
    }
    let how = c.pick(4);
    c.note(|| format!("type {} bytes {} how {how}", reg.show(&id), hex(&bytes)));
    let res = SimResolver::new(&reg);
    let mut cur = &bytes[..];
    let (ok, u) = call("decode", || {
        alloc::measure(|| match how {
            0 => scale_value::scale::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
            1 => Value::<()>::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
            2 => scale_value::scale::tracing::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
            _ => {
                let fs = [SField { name: Some("f".into()), id: id.clone() }, SField { name: Some("g".into()), id: id.clone() }];
                scale_value::scale::decode_as_fields(&mut cur, &mut FieldsIter(fs.iter()), &res).is_ok()
            }
        })
    })?;
    let bound = mem_bound(bytes.len(), reg.weight(&id));
    c.ev_u(u.count << 1 | ok as u64);
    c.ev(&bytes);
    if ok {
        c.probe("forged_yet_valid");
    }
    ensure!(
        u.peak <= bound,
        "memory",
        "{} input bytes {} as {} (how {how}) held {} bytes of heap (largest single allocation {}), bound {bound}",
        bytes.len(),
        hex(&bytes),
        reg.show(&id),
        u.peak,
        u.biggest
    );
    Ok(())
}

// ------------------------------------------------------------ C23

/// Decoding looks up types in proportion to what it decodes: each item costs a few lookups, once.
pub fn c23(c: &mut Ctx) -> RunResult {
    let mut reg = Reg::default();
    let ladder = c.weighted(&[3, 2]) == 0;
    let id = if ladder {
        let mut id = loop {
            let l = gen_leaf(c, &mut reg, &GenCfg::default());
            if reg.min_size(&l) > 0 {
                break l;
            }
        };
        let n = if c.chance(1, 6) { c.range(30, 80) } else { c.range(1, 36) };
        let mut doublings = 0;
        // ladders of mostly one kind of layer, where work that is repeated for that kind adds up
        let fav = c.flip().then(|| c.pick(10));
        for _ in 0..n {
            let vr = |index: u8, name: &str, fields: Vec<SField>| SVariant { name: name.into(), index, fields };
            let fld = |name: Option<&str>, id: &Tid| SField { name: name.map(Into::into), id: id.clone() };
            let t = match fav.filter(|_| !c.chance(1, 8)).unwrap_or_else(|| c.pick(10)) {
                0 => SType::Array(id, 1),
                1 | 2 => SType::Seq(id),
                3 if doublings < 4 => {
                    doublings += 1;
                    SType::Array(id, 2)
                }
                4 => {
                    let name = match c.pick(3) {
                        0 => "Some".to_string(),
                        1 => "Ok".into(),
                        _ => gen_name(c),
                    };
                    SType::Variant(vec![vr(0, &name, vec![fld(None, &id)])])
                }
                5 => SType::Variant(vec![vr(3, "B", vec![fld(Some("f"), &id)]), vr(1, "None", vec![])]),
                6 if doublings < 4 => {
                    doublings += 1;
                    SType::Composite(vec![fld(Some("l"), &id), fld(Some("r"), &id)])
                }
                7 => SType::Composite(vec![fld(Some("only"), &id)]),
                8 => SType::Composite(vec![fld(None, &id)]),
                _ => {
                    let u = reg.prim(Prim::U8);
                    SType::Tuple(vec![u, id])
                }
            };
            id = reg.add(t);
        }
        id
    } else {
        let (r, id) = gen_root(c, &GenCfg { depth: 4, ..GenCfg::default() });
        reg = r;
        id
    };
    let v = if ladder { crate::p_encode::nested_value(c, &reg, &id, &mut 150) } else { ValGen::new(&reg).value(c, &id) };
    let mut bytes = vec![];
    let mut m = Marks::default();
    ref_encode(&reg, &id, &v, &mut bytes, &mut m);
    let how = c.pick(4);
    if how == 3 {
        let again = bytes.clone();
        bytes.extend(again);
    }
    let whole = bytes.len();
    let mut healthy = true;
    match c.weighted(&[4, 3, 2]) {
        1 if whole > 0 => {
            c.fault("torn_input");
            bytes.truncate(c.idx(whole));
            healthy = false;
        }
        2 => {
            corrupt(c, &mut bytes, &m);
            healthy = false;
        }
        _ => {}
    }
    let mut plan = Outage::default();
    if c.chance(1, 5) {
        plan.down_from = Some(c.pick(40));
    }
    c.note(|| format!("type {} bytes {} how {how} plan {plan:?}", reg.show(&id), hex(&bytes)));
    let res = SimResolver::with(&reg, plan.clone());
    let mut cur = &bytes[..];
    let ok = call("decode", || match how {
        0 => scale_value::scale::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
        1 => Value::<()>::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
        2 => scale_value::scale::tracing::decode_as_type(&mut cur, id.clone(), &res).is_ok(),
        _ => {
            let fs = [SField { name: Some("f".into()), id: id.clone() }, SField { name: Some("g".into()), id: id.clone() }];
            scale_value::scale::decode_as_fields(&mut cur, &mut FieldsIter(fs.iter()), &res).is_ok()
        }
    })?;
    let n = res.lookups.get();
    if res.failed.get() > 0 {
        c.fault("resolver_outage");
        healthy = false;
    }
    if !ok {
        c.probe("failed_decode_counted");
    }
    c.nontrivial();
    c.ev_u(n << 1 | ok as u64);
    c.ev(&bytes);
    let bound = if healthy {
        // each item once, and the wrappers of numbers (compact) that are no items of their own
        let times = 1 + (how == 3) as u64;
        ensure!(ok, "fitting-rejected", "{} as {}", hex(&bytes), reg.show(&id));
        times * (8 * nodes(&v) as u64 + 16)
    } else {
        // every item takes at least a byte, except for those that a record or array of fixed size brings along
        let w = reg.reach(&id).into_iter().map(|t| reg.weight(&Tid(t))).max().unwrap_or(1) as u64;
        // scale-decode, having failed in an element, once tries to skip it and the ones behind it, at every level
        let levels = 1 + crate::p_encode::seq_depth(&reg, &id, &mut vec![]) as u64 + if ladder { 0 } else { bytes.len() as u64 };
        64 + 8 * (bytes.len() as u64 + 2) * w * levels
    };
    ensure!(
        n <= bound,
        "work",
        "decoding {} (how {how}) as {} made {n} type lookups, allowed are {bound}",
        hex(&bytes),
        reg.show(&id)
    );
    Ok(())
}

/// Known finding: decoding recurses once per level of a recursive type.
pub fn probe_deep_type() -> RunResult {
    let mut reg = Reg::default();
    let me = Tid(0);
    let v = |name: &str, index: u8, fields: Vec<SField>| SVariant { name: name.into(), index, fields };
    let id = reg.add(SType::Variant(vec![v("Nil", 0, vec![]), v("Cons", 1, vec![SField { name: None, id: me }])]));
    let res = SimResolver::new(&reg);
    let bytes = vec![1u8; 4 << 20];
    let ok = call("decode", || scale_value::scale::decode_as_type(&mut &bytes[..], id.clone(), &res).is_ok())?;
    ensure!(!ok, "accepted-invalid", "an unterminated list was accepted");
    Ok(())
}
/// Known finding: elements of zero encoded size cost heap but no input.
pub fn probe_unit_sequence() -> RunResult {
    let mut reg = Reg::default();
    let unit = reg.add(SType::Tuple(vec![]));
    let id = reg.add(SType::Seq(unit));
    let res = SimResolver::new(&reg);
    // Compact(2^20): 4 bytes of input
    let bytes = codec::Encode::encode(&codec::Compact(1u32 << 20));
    let (_, u) = call("decode", || alloc::measure(|| scale_value::scale::decode_as_type(&mut &bytes[..], id.clone(), &res).is_ok()))?;
    ensure!(u.peak <= mem_bound(bytes.len(), 1), "memory", "Vec<()> of claimed length 2^20 from {} bytes held {} bytes", bytes.len(), u.peak);
    Ok(())
}

// ------------------------------------------------------------ C04

pub fn path_str(p: &[Seg], with_variants: bool) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            Seg::Idx(i) => s.push_str(&format!(".[{i}]")),
            Seg::Field(f) => s.push_str(&format!(".{f}")),
            Seg::Variant(v) => {
                if with_variants {
                    s.push_str(&format!(".{v}"))
                }
            }
        }
    }
    s
}

pub fn c04(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { mixed_fields: false, ..GenCfg::default() };
    let mut reg = Reg::default();
    let d = c.range(1, cfg.depth);
    let mut id = gen_type(c, &mut reg, &cfg, d);
    // a 256-bit integer decodes only when exactly 32 bytes remain; what follows it then fails
    let big = c.chance(1, 15);
    if big {
        let b = reg.prim(if c.flip() { Prim::I256 } else { Prim::U256 });
        let u = reg.prim(Prim::U8);
        id = match c.pick(3) {
            0 => reg.add(SType::Tuple(vec![id, b])),
            1 => reg.add(SType::Tuple(vec![id, b, u])),
            _ => {
                let f = |n: &str, id: &Tid| SField { name: Some(n.into()), id: id.clone() };
                reg.add(SType::Composite(vec![f("head", &id), f("big", &b), f("rest", &u)]))
            }
        };
    }
    let v = ValGen::new(&reg).value(c, &id);
    let mut bytes = vec![];
    let mut m = Marks::default();
    ref_encode(&reg, &id, &v, &mut bytes, &mut m);
    let clean = c.chance(1, 6);
    if big {
        // torn right behind the big integer, or intact when it is last
        if bytes.len() > 32 && matches!(reg.get(&id), SType::Tuple(t) if t.len() == 2) {
        } else {
            bytes.pop();
            c.fault("torn_tail");
        }
    } else if !clean {
        if c.chance(1, 3) && !bytes.is_empty() {
            let k = c.idx(bytes.len());
            bytes.truncate(k);
            c.fault("torn_tail");
        } else {
            corrupt(c, &mut bytes, &m);
        }
    }
    c.note(|| format!("type {} bytes {}", reg.show(&id), hex(&bytes)));
    let res = SimResolver::new(&reg);
    let mut a = &bytes[..];
    let mut b = &bytes[..];
    let plain = call("decode", || scale_value::scale::decode_as_type(&mut a, id.clone(), &res))?;
    let traced = call("tracing decode", || scale_value::scale::tracing::decode_as_type(&mut b, id.clone(), &res))?;
    let (ua, ub) = (bytes.len() - a.len(), bytes.len() - b.len());
    c.ev(&bytes);
    c.ev_u(ua as u64 | (plain.is_ok() as u64) << 62 | (traced.is_ok() as u64) << 63);
    let mut rin = &bytes[..];
    let want = RefDec::new(&reg).decode(&mut rin, &id);
    match (plain, traced) {
        (Ok(p), Ok(t)) => {
            ensure!(p == t, "tracing-value", "plain {} traced {}", show_v(&p), show_v(&t));
            ensure!(ua == ub, "tracing-consumption", "plain consumed {ua}, traced {ub}");
            if let Ok(w) = want {
                ensure!(w == t, "tracing-value", "traced {} want {}", show_v(&t), show_v(&w));
            }
        }
        (Ok(p), Err(e)) => {
            let es = call("display of tracing error", || e.to_string())?;
            bail!("tracing-rejects", "bytes {} as {}: plain {} but tracing says {es}", hex(&bytes), reg.show(&id), show_v(&p))
        }
        (Err(e), Ok(t)) => bail!("tracing-accepts", "bytes {} as {}: plain error {e} but traced {}", hex(&bytes), reg.show(&id), show_v(&t)),
        (Err(pe), Err(te)) => {
            c.nontrivial();
            let text = call("display of tracing error", || te.to_string())?;
            c.ev(text.as_bytes());
            let Err(f) = want else {
                return Ok(()); // both reject what the format accepts: C02's business
            };
            if c.tracing {
                c.note(|| format!("expected path {:?} ({}), got: {text}", f.path, f.why));
            }
            if forged_over_limit(&bytes, &f) {
                c.probe("sequence_over_tracing_limit");
                return Ok(());
            }
            let reason = pe.to_string();
            ensure!(
                text.contains(&reason),
                "reason",
                "bytes {} as {}: plain decoding fails with {reason:?}, tracing says: {}",
                hex(&bytes),
                reg.show(&id),
                short(&text)
            );
            match &f.partial {
                None => {
                    c.probe("root_itself_failed");
                    ensure!(
                        !text.contains("Decoded so far"),
                        "decoded-so-far",
                        "the root item failed, yet something is reported as decoded: {text}"
                    );
                }
                Some(part) => {
                    if f.path.len() > 1 {
                        c.probe("nested_failure_located");
                    }
                    let p1 = format!("Error decoding value at {}: ", path_str(&f.path, false));
                    let p2 = format!("Error decoding value at {}: ", path_str(&f.path, true));
                    ensure!(
                        text.starts_with(&p1) || text.starts_with(&p2),
                        "path",
                        "bytes {} as {}: the failing item is at {:?} ({}), the error says: {}",
                        hex(&bytes),
                        reg.show(&id),
                        f.path,
                        f.why,
                        short(&text)
                    );
                    let opts = refstr::Style { pretty: Some(("  ".into(), String::new())), compact: false };
                    let want_txt = refstr::render(
                        part,
                        &opts,
                        Some(&|id: &Tid, o: &mut String| o.push_str(&format!("{id:?}"))),
                        &|v, o| refstr::ref_hex(v, o) || refstr::ref_big(v, o),
                    );
                    let tail = format!("\nDecoded so far:\n\n{want_txt}");
                    // 256-bit integers have no prescribed text form: only displayability is claimed for them
                    let has_big = refstr::has_256(part);
                    if has_big {
                        c.probe("partial_holds_256bit");
                    }
                    ensure!(
                        has_big || text.ends_with(&tail),
                        "decoded-so-far",
                        "bytes {} as {}: expected to end in {:?} but got {:?}",
                        hex(&bytes),
                        reg.show(&id),
                        tail,
                        text
                    );
                }
            }
        }
    }
    Ok(())
}
/// tracing refuses sequences claiming more than 100M entries at the sequence itself
fn forged_over_limit(_b: &[u8], f: &Fail) -> bool {
    f.why == "REFERENCE-LIMIT" || f.path.iter().any(|s| matches!(s, Seg::Idx(i) if *i >= 50_000_000)) || f.huge
}

// ------------------------------------------------------------ C05

pub fn c05(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { depth: 3, mixed_fields: true, ..GenCfg::default() };
    let mut reg = Reg::default();
    let wide = c.chance(1, 80);
    let n = if wide { *c.choose(&[8usize, 15, 16, 17, 31, 32, 33, 40, 64, 65]) } else { c.weighted(&[1, 4, 5, 4, 2, 1]) };
    let named = c.flip();
    let mut names = gen_names(c, if named { n } else { 0 });
    names.reverse();
    let mut fs = vec![];
    for _ in 0..n {
        let d = if wide { 0 } else { c.range(0, cfg.depth) };
        let id = gen_type(c, &mut reg, &cfg, d);
        fs.push(SField { name: names.pop(), id });
    }
    if named && n > 1 && c.chance(1, 6) {
        let k = c.idx(n);
        fs[k].name = None;
    }
    let mut tail256 = false;
    if n > 0 && c.chance(1, 12) {
        let p = if c.flip() { Prim::I256 } else { Prim::U256 };
        fs[n - 1].id = reg.prim(p);
        tail256 = true;
    }
    let comp = ValGen::new(&reg).field_list(c, &fs);
    let mut bytes = vec![];
    let mut m = Marks::default();
    ref_encode_fields(&reg, &fs, &comp, false, &mut bytes, &mut m);
    let whole = bytes.len();
    if !tail256 && c.flip() {
        let k = c.range(1, 20);
        bytes.extend(std::iter::repeat_n(0xA5u8, k));
    }
    let fault = c.weighted(&[3, 5, 5, 3]);
    let mut plan = Outage::default();
    let mut faulty = bytes.clone();
    match fault {
        1 if whole > 0 => {
            faulty.truncate(c.idx(whole));
            c.fault("torn_tail");
        }
        2 => corrupt(c, &mut faulty, &m),
        3 if n > 0 => match c.pick(3) {
            0 => {
                let ids: Vec<u32> = fs.iter().flat_map(|f| reg.reach(&f.id)).collect();
                plan.missing.insert(ids[c.idx(ids.len())]);
            }
            1 => plan.down_from = Some(c.pick(6)),
            _ => plan.down_once = Some(c.pick(6)),
        },
        _ => {}
    }
    let door = c.pick(3);
    c.note(|| {
        format!(
            "fields [{}] bytes {} faulty {} plan {plan:?} door {door}",
            fs.iter().map(|f| format!("{:?}: {}", f.name, reg.show(&f.id))).collect::<Vec<_>>().join(", "),
            hex(&bytes),
            hex(&faulty)
        )
    });
    let decode = |inp: &mut &[u8], res: &SimResolver| -> Result<Result<Dec5, String>, Violation> {
        call("decode fields", || match door {
            0 => scale_value::scale::decode_as_fields(inp, &mut FieldsIter(fs.iter()), res).map(Dec5::Ctx).map_err(|e| e.to_string()),
            1 => Composite::<()>::decode_as_fields(inp, &mut FieldsIter(fs.iter()), res).map(Dec5::Plain).map_err(|e| e.to_string()),
            _ => Value::<()>::decode_as_fields(inp, &mut FieldsIter(fs.iter()), res).map_err(|e| e.to_string()).and_then(|v| match v.value {
                ValueDef::Composite(c) => Ok(Dec5::Plain(c)),
                other => Err(format!("not a composite: {other:?}")),
            }),
        })
    };
    // 1: the faulty attempt
    let res = SimResolver::with(&reg, plan.clone());
    let mut cur = &faulty[..];
    let got = decode(&mut cur, &res)?;
    let used = faulty.len() - cur.len();
    let mut rin = &faulty[..];
    let tail_ok = !(tail256 && (fault == 1 || fault == 2));
    let miss = |t: &Tid| plan.missing.contains(&t.0);
    let mut rd = RefDec::new(&reg);
    rd.unknown = &miss;
    let want = rd.fields(&mut rin, &fs, false);
    let want_used = faulty.len() - rin.len();
    c.ev(&faulty);
    c.ev_u(used as u64 | (got.is_ok() as u64) << 63);
    if n > 0 {
        c.nontrivial();
    }
    let resolver_failed = res.failed.get() > 0;
    if resolver_failed {
        c.fault("resolver_outage");
    }
    match got {
        Ok(g) => {
            ensure!(!resolver_failed, "outage-ignored", "a lookup failed but the fields decoded to {}", g.show());
            match want {
                Ok(w) => {
                    ensure!(g.same(&w), "wrong-value", "got {} want {}", g.show(), show_v(&w));
                    ensure!(used == want_used, "wrong-consumption", "consumed {used}, want {want_used}");
                }
                Err((_, _, why)) => {
                    ensure!(!tail_ok, "invalid-accepted", "bytes {} accepted as {} but: {why}", hex(&faulty), g.show())
                }
            }
        }
        Err(e) => {
            c.probe("fields_rejected");
            ensure!(
                used == 0,
                "cursor-moved",
                "decoding fields failed ({e}) but the cursor moved by {used} bytes; bytes {}",
                hex(&faulty)
            );
            ensure!(resolver_failed || want.is_err() || !tail_ok, "valid-rejected", "bytes {}: {e}", hex(&faulty));
        }
    }
    // 2: recovery: the same cursor position, the full bytes, a healthy resolver
    let res = SimResolver::new(&reg);
    let mut cur = &bytes[..];
    let got = decode(&mut cur, &res)?;
    match got {
        Ok(g) => {
            ensure!(g.same(&comp), "wrong-value", "got {} want {}", g.show(), show_v(&comp));
            let used = bytes.len() - cur.len();
            ensure!(used == whole, "wrong-consumption", "consumed {used}, fields take {whole}");
        }
        Err(e) => bail!("valid-rejected", "retry with complete bytes {} failed: {e}", hex(&bytes)),
    }
    Ok(())
}
enum Dec5 {
    Ctx(Composite<Tid>),
    Plain(Composite<()>),
}
impl Dec5 {
    fn same(&self, w: &Composite<Tid>) -> bool {
        match self {
            Dec5::Ctx(c) => c == w,
            Dec5::Plain(c) => ValueDef::Composite(c.clone()) == strip(&mk(ValueDef::Composite(w.clone()), Tid(0))).value,
        }
    }
    fn show(&self) -> String {
        match self {
            Dec5::Ctx(c) => show_v(c),
            Dec5::Plain(c) => show_v(c),
        }
    }
}
