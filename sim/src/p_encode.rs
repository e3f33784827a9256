//! C06-C09: encoding into a simulated append-only log, with misfitting values, registry outages
//! and panics in the resolver.

use crate::faults::*;
use crate::guard::{call, guard, Caught};
use crate::p_decode::{decode_by, show_v, DOORS};
use crate::refcodec::*;
use crate::tape::*;
use crate::types::*;
use crate::{bail, ensure};
use scale_decode::DecodeAsFields;
use scale_encode::{EncodeAsFields, EncodeAsType};
use scale_type_resolver::Primitive as Prim;
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};

// ------------------------------------------------------------ source values equivalent to a canonical one

pub fn comp_v(c: Composite<Tid>) -> V {
    mk(ValueDef::Composite(c), Tid(0))
}
/// Fields of a composite or variant, as another value that means the same for this field list.
fn vary_fields(c: &mut Ctx, reg: &Reg, fs: &[SField], src: &Composite<Tid>, ladder: bool) -> Composite<Tid> {
    let target_named = !fs.is_empty() && fs.iter().all(|f| f.name.is_some());
    let any_named = fs.iter().any(|f| f.name.is_some());
    // a single value standing for a single field is only unambiguous if it looks like the field
    let lone = ladder && fs.len() == 1;
    let vals: Vec<V> = fs.iter().zip(kids(src)).map(|(f, v)| vary(c, reg, &f.id, v)).collect();
    if target_named {
        match c.weighted(&[4, 4, if lone { 0 } else { 2 }]) {
            0 => Composite::Named(fs.iter().zip(vals).map(|(f, v)| (f.name.clone().unwrap(), v)).collect()),
            1 => {
                let mut l: Vec<(String, V)> = fs.iter().zip(vals).map(|(f, v)| (f.name.clone().unwrap(), v)).collect();
                for i in (1..l.len()).rev() {
                    let j = c.idx(i + 1);
                    l.swap(i, j);
                }
                let surplus = c.weighted(&[3, 2, 1]);
                for k in 0..surplus {
                    let at = c.idx(l.len() + 1);
                    let junk = junk_value(c, 2);
                    l.insert(at, (format!("~surplus {k}"), junk));
                }
                c.probe("fields_matched_by_name");
                Composite::Named(l)
            }
            _ => Composite::Unnamed(vals),
        }
    } else if any_named {
        // partly named targets: by order, from a source without names
        Composite::Unnamed(vals)
    } else if c.chance(1, 4) && !vals.is_empty() && !lone {
        Composite::Named(other_names(vals))
    } else {
        Composite::Unnamed(vals)
    }
}
/// names that match no field of any generated type: a name that does match would give the value another reading
fn other_names(vals: Vec<V>) -> Vec<(String, V)> {
    vals.into_iter().enumerate().map(|(i, v)| (format!("~{i}"), v)).collect()
}

pub fn junk_value(c: &mut Ctx, d: usize) -> V {
    let v = match c.weighted(&[3, 2, 1, 1, 1, if d > 0 { 5 } else { 0 }, if d > 0 { 2 } else { 0 }]) {
        0 => ValueDef::Primitive(Primitive::U128(gen_uint(c, u128::MAX))),
        1 => ValueDef::Primitive(Primitive::Bool(c.flip())),
        2 => ValueDef::Primitive(Primitive::String(gen_string(c))),
        3 => ValueDef::Primitive(Primitive::I128(gen_int(c, i128::MIN, i128::MAX))),
        4 => match c.pick(4) {
            0 => ValueDef::Primitive(Primitive::Char(gen_char(c))),
            1 => ValueDef::BitSequence(gen_bits(c)),
            2 => ValueDef::Primitive(Primitive::U256(gen_b32(c))),
            _ => ValueDef::Primitive(Primitive::I256(gen_b32(c))),
        },
        5 => ValueDef::Composite(junk_comp(c, d)),
        _ => ValueDef::Variant(Variant { name: gen_name(c), values: junk_comp(c, d) }),
    };
    mk(v, Tid(0))
}
fn junk_comp(c: &mut Ctx, d: usize) -> Composite<Tid> {
    let n = c.weighted(&[2, 4, 2, 1]);
    let vals: Vec<V> = (0..n).map(|_| junk_value(c, d - 1)).collect();
    if c.flip() {
        let names = gen_names(c, n);
        Composite::Named(names.into_iter().zip(vals).collect())
    } else {
        Composite::Unnamed(vals)
    }
}

/// the chain of single-field wrappers at the top of a type: ids of the layers, then the core
fn chain(reg: &Reg, id: &Tid) -> (Vec<Tid>, Tid) {
    let mut l = vec![];
    let mut cur = id.clone();
    loop {
        let next = match reg.get(&cur) {
            SType::Tuple(ts) if ts.len() == 1 => ts[0].clone(),
            SType::Composite(fs) if fs.len() == 1 => fs[0].id.clone(),
            // an array of one element is stepped over like a wrapper
            SType::Array(t, 1) => t.clone(),
            _ => return (l, cur),
        };
        l.push(cur);
        cur = next;
    }
}
fn is_scalar(reg: &Reg, id: &Tid) -> bool {
    matches!(reg.get(id), SType::Prim(_) | SType::Compact(_))
}

/// Another value that has to encode to the same bytes as `v` does for type `id`.
pub fn vary(c: &mut Ctx, reg: &Reg, id: &Tid, v: &V) -> V {
    let (layers, core) = chain(reg, id);
    // the canonical value has one wrapper per layer (Compact layers inside the core excepted)
    let mut inner = v;
    for _ in &layers {
        inner = match &inner.value {
            ValueDef::Composite(x) => kids(x)[0],
            _ => inner,
        };
    }
    let free = match reg.get(&core) {
        // whether layers may be added or dropped without making another reading of the value possible
        // a scalar, list of bits or variant without any layer is not put into an array by itself
        SType::Prim(_) | SType::Compact(_) | SType::Bits(..) | SType::Variant(_) => !layers.iter().any(|l| matches!(reg.get(l), SType::Array(..))),
        SType::Composite(fs) => {
            let all_named = fs.iter().all(|f| f.name.is_some());
            fs.len() >= 2
                && !layers.iter().any(|l| match reg.get(l) {
                    SType::Composite(lf) => fs.iter().any(|f| f.name.is_some() && f.name == lf[0].name),
                    _ => false,
                })
                && (all_named || fs.iter().all(|f| f.name.is_none()))
        }
        SType::Tuple(ts) => ts.len() >= 2,
        SType::Seq(t) | SType::Array(t, _) => is_scalar(reg, t),
    };
    if free && (c.chance(1, 3)) {
        let k = layers.len();
        let m = match c.pick(3) {
            0 => k.saturating_sub(1),
            1 => k + 1,
            _ => c.range(0, k + 3),
        };
        if m < k {
            c.probe("wrappers_left_out");
        } else if m > k {
            c.probe("wrappers_added");
        }
        let mut out = vary_core(c, reg, &core, inner);
        // names of added layers must not be mistaken for fields
        for _ in 0..m {
            out = if c.chance(1, 4) {
                comp_v(Composite::Named(vec![("~layer".into(), out)]))
            } else {
                comp_v(Composite::Unnamed(vec![out]))
            };
        }
        return out;
    }
    if layers.is_empty() {
        return vary_core(c, reg, id, v);
    }
    // same structure as the type
    match (reg.get(id), &v.value) {
        (SType::Tuple(ts), ValueDef::Composite(x)) => {
            let fs: Vec<SField> = ts.iter().map(|t| SField { name: None, id: t.clone() }).collect();
            comp_v(vary_fields(c, reg, &fs, x, true))
        }
        (SType::Composite(fs), ValueDef::Composite(x)) => comp_v(vary_fields(c, reg, fs, x, true)),
        _ => vary_core(c, reg, id, v),
    }
}
fn vary_core(c: &mut Ctx, reg: &Reg, id: &Tid, v: &V) -> V {
    match (reg.get(id), &v.value) {
        (SType::Compact(_), _) => {
            // the canonical value has the wrappers inside Compact; a number may come without them
            let mut inner = v;
            while let ValueDef::Composite(x) = &inner.value {
                inner = kids(x)[0];
            }
            if c.chance(1, 3) {
                vary_num(c, inner)
            } else {
                v.clone()
            }
        }
        (SType::Prim(_), _) => vary_num(c, v),
        (SType::Bits(..), ValueDef::BitSequence(b)) => {
            if !c.chance(1, 3) {
                return v.clone();
            }
            let style = c.pick(4);
            let vals: Vec<V> = bits_vec(b)
                .into_iter()
                .enumerate()
                .map(|(i, b)| {
                    let p = match if style == 3 { i as u64 % 3 } else { style } {
                        0 => Primitive::Bool(b),
                        1 => Primitive::U128(b as u128),
                        _ => Primitive::I128(b as i128),
                    };
                    prim(p, id)
                })
                .collect();
            c.probe("bits_from_composite");
            comp_v(maybe_named(c, vals))
        }
        (SType::Seq(t) | SType::Array(t, _), ValueDef::Composite(x)) => {
            let vals: Vec<V> = kids(x).into_iter().map(|k| vary(c, reg, t, k)).collect();
            comp_v(maybe_named(c, vals))
        }
        (SType::Tuple(ts), ValueDef::Composite(x)) => {
            let fs: Vec<SField> = ts.iter().map(|t| SField { name: None, id: t.clone() }).collect();
            comp_v(vary_fields(c, reg, &fs, x, true))
        }
        (SType::Composite(fs), ValueDef::Composite(x)) => comp_v(vary_fields(c, reg, fs, x, true)),
        (SType::Variant(vs), ValueDef::Variant(x)) => {
            let var = vs.iter().find(|y| y.name == x.name).unwrap();
            let values = vary_fields(c, reg, &var.fields, &x.values, false);
            mk(ValueDef::Variant(Variant { name: x.name.clone(), values }), id.clone())
        }
        _ => v.clone(),
    }
}
fn maybe_named(c: &mut Ctx, vals: Vec<V>) -> Composite<Tid> {
    if !vals.is_empty() && vals.len() < 10 && c.chance(1, 5) {
        Composite::Named(other_names(vals))
    } else {
        Composite::Unnamed(vals)
    }
}
fn vary_num(c: &mut Ctx, v: &V) -> V {
    if !c.chance(1, 3) {
        return v.clone();
    }
    match &v.value {
        ValueDef::Primitive(Primitive::U128(n)) if *n <= i128::MAX as u128 => {
            c.probe("integer_retyped");
            prim(Primitive::I128(*n as i128), &v.context)
        }
        ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => {
            c.probe("integer_retyped");
            prim(Primitive::U128(*n as u128), &v.context)
        }
        _ => v.clone(),
    }
}

// ------------------------------------------------------------ doors

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EDoor {
    Free,
    Trait,
    FreshVec,
}
pub const EDOORS: [EDoor; 3] = [EDoor::Free, EDoor::Trait, EDoor::FreshVec];

pub fn encode_by(door: EDoor, v: &V, id: &Tid, r: &SimResolver, out: &mut Vec<u8>) -> Result<(), String> {
    match door {
        EDoor::Free => scale_value::scale::encode_as_type(v, id.clone(), r, out).map_err(|e| e.to_string()),
        EDoor::Trait => v.encode_as_type_to(id.clone(), r, out).map_err(|e| e.to_string()),
        EDoor::FreshVec => v.encode_as_type(id.clone(), r).map(|b| out.extend_from_slice(&b)).map_err(|e| e.to_string()),
    }
}
pub fn encode_fields_by(door: u64, comp: &Composite<Tid>, fs: &[SField], r: &SimResolver, out: &mut Vec<u8>) -> Result<(), String> {
    match door {
        0 => comp.encode_as_fields_to(&mut FieldsIter(fs.iter()), r, out).map_err(|e| e.to_string()),
        1 => comp_v(comp.clone()).encode_as_fields_to(&mut FieldsIter(fs.iter()), r, out).map_err(|e| e.to_string()),
        _ => comp.encode_as_fields(&mut FieldsIter(fs.iter()), r).map(|b| out.extend_from_slice(&b)).map_err(|e| e.to_string()),
    }
}

// ------------------------------------------------------------ soundness of whatever an encode wrote

/// What a value holds, without its structure: numbers (bools, chars, bits and bytes count as numbers), strings and
/// variant names, in order.
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Debug)]
enum Leaf {
    Num(bool, u128),
    Str(String),
    Tag(String),
}
fn leaves<T>(v: &Value<T>, named: &mut bool, out: &mut Vec<Leaf>) {
    match &v.value {
        ValueDef::Composite(x) => leaves_comp(x, named, out),
        ValueDef::Variant(x) => {
            out.push(Leaf::Tag(x.name.clone()));
            leaves_comp(&x.values, named, out)
        }
        ValueDef::BitSequence(b) => out.extend(bits_vec(b).into_iter().map(|b| Leaf::Num(false, b as u128))),
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => out.push(Leaf::Num(false, *b as u128)),
            Primitive::Char(x) => out.push(Leaf::Num(false, *x as u128)),
            Primitive::String(s) => out.push(Leaf::Str(s.clone())),
            Primitive::U128(n) => out.push(Leaf::Num(false, *n)),
            Primitive::I128(n) => out.push(Leaf::Num(*n < 0, n.unsigned_abs())),
            Primitive::U256(b) | Primitive::I256(b) => out.extend(b.iter().map(|b| Leaf::Num(false, *b as u128))),
        },
    }
}
fn leaves_comp<T>(x: &Composite<T>, named: &mut bool, out: &mut Vec<Leaf>) {
    if matches!(x, Composite::Named(l) if !l.is_empty()) {
        *named = true;
    }
    for k in kids(x) {
        leaves(k, named, out);
    }
}
/// the 256-bit integers of a value, in order: signed or not, and the bytes
fn bigs<T>(v: &Value<T>, out: &mut Vec<(bool, [u8; 32])>) {
    match &v.value {
        ValueDef::Composite(x) | ValueDef::Variant(Variant { values: x, .. }) => {
            for k in kids(x) {
                bigs(k, out);
            }
        }
        ValueDef::Primitive(Primitive::U256(b)) => out.push((false, *b)),
        ValueDef::Primitive(Primitive::I256(b)) => out.push((true, *b)),
        _ => {}
    }
}
/// Whatever the value and the type: if an encode succeeds, it has written one complete encoding of the type, and
/// this denotes nothing that the value does not hold (only surplus *named* parts may be left out).
pub fn sound_encoding(reg: &Reg, id: &Tid, src: &V, bytes: &[u8]) -> Result<V, Violation> {
    let mut cur = bytes;
    let got = match RefDec::new(reg).decode(&mut cur, id) {
        Ok(v) => v,
        Err(_) => bail!("no-encoding", "{} as {} wrote {} which is no encoding of that type", show_v(&strip(src)), reg.show(id), hex(bytes)),
    };
    ensure!(
        cur.is_empty(),
        "no-encoding",
        "{} as {} wrote {}: {} bytes are left over after an encoding of that type",
        show_v(&strip(src)),
        reg.show(id),
        hex(bytes),
        cur.len()
    );
    // 256-bit integers keep their sign
    let (mut a, mut b) = (vec![], vec![]);
    bigs(src, &mut a);
    bigs(&got, &mut b);
    if a.len() == b.len() {
        for (x, y) in a.iter().zip(&b) {
            ensure!(
                x.1 != y.1 || x.0 == y.0 || x.1[31] < 0x80,
                "other-content",
                "{} as {} wrote {} which denotes {}: a 256-bit integer of another sign",
                show_v(&strip(src)),
                reg.show(id),
                hex(bytes),
                show_v(&strip(&got))
            );
        }
    }
    let (mut named, mut unused) = (false, false);
    let (mut have, mut want) = (vec![], vec![]);
    leaves(src, &mut named, &mut have);
    leaves(&got, &mut unused, &mut want);
    if !named {
        ensure!(have == want, "other-content", "{} as {} wrote {} which denotes {}", show_v(&strip(src)), reg.show(id), hex(bytes), show_v(&strip(&got)));
    } else {
        have.sort();
        let partly = |fs: &[SField]| fs.iter().any(|f| f.name.is_some()) && fs.iter().any(|f| f.name.is_none());
        let partly_named = reg.reach(id).iter().any(|i| match &reg.types[*i as usize] {
            SType::Composite(fs) => partly(fs),
            SType::Variant(vs) => vs.iter().any(|v| partly(&v.fields)),
            _ => false,
        });
        for l in &want {
            match have.binary_search(l) {
                Ok(i) => {
                    // partly named field lists (which no Rust type has) may use a named part twice
                    if !partly_named {
                        have.remove(i);
                    }
                }
                Err(_) => bail!(
                    "other-content",
                    "{} as {} wrote {} which denotes {}: {l:?} is not in the value",
                    show_v(&strip(src)),
                    reg.show(id),
                    hex(bytes),
                    show_v(&strip(&got))
                ),
            }
        }
    }
    Ok(got)
}

// ------------------------------------------------------------ C06

/// A type that has more nested single-field wrappers than gen_type makes by itself.
pub fn wrap_type(c: &mut Ctx, reg: &mut Reg, mut id: Tid) -> Tid {
    let n = c.weighted(&[6, 2, 2, 1]);
    for _ in 0..n {
        let t = match c.pick(4) {
            0 => SType::Composite(vec![SField { name: None, id }]),
            1 => SType::Tuple(vec![id]),
            2 => SType::Composite(vec![SField { name: Some(gen_name(c)), id }]),
            _ => {
                if reg.min_size(&id) == 0 {
                    SType::Array(id, 1)
                } else {
                    SType::Seq(id)
                }
            }
        };
        id = reg.add(t);
    }
    id
}

struct Rec {
    id: Tid,
    want: V,
    end: usize,
    /// fields-list record: the field list
    fields: Option<Vec<SField>>,
}

/// A long list that fits but for one item, which is rejected and leaves nothing behind.
fn long_misfit(c: &mut Ctx) -> RunResult {
    let mut reg = Reg::default();
    let el = loop {
        let t = gen_leaf(c, &mut reg, &GenCfg::default());
        if !matches!(reg.get(&t), SType::Prim(Prim::U256 | Prim::I256)) {
            break t;
        }
    };
    let n = match c.chance(1, 4) {
        true => crate::dict::count(c, 1500).unwrap_or(40).max(1),
        false => *c.choose(&[16usize, 17, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513, 600, 1024, 1025, 1200]),
    };
    let id = reg.add(if c.chance(2, 3) { SType::Seq(el.clone()) } else { SType::Array(el.clone(), n) });
    let mut one = || ValGen::with(&reg, 6, false).value(c, &el);
    let few: Vec<V> = (0..4).map(|_| one()).collect();
    let mut vals: Vec<V> = (0..n).map(|i| few[(i * 7 + i / 5) % 4].clone()).collect();
    let at = match c.pick(4) {
        0 => n - 1,
        1 => c.idx(n),
        2 => n.saturating_sub(2),
        _ => (*c.choose(&[0usize, 1, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024])).min(n - 1),
    };
    match c.weighted(&[6, 1, 1]) {
        0 => vals[at] = perturb_node(c, &vals[at].clone()),
        // or one too many or too few
        1 => vals.insert(at, few[0].clone()),
        _ => drop(vals.remove(at)),
    }
    let names = c.chance(1, 3);
    let x = if names { Composite::Named(vals.into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect()) } else { Composite::Unnamed(vals) };
    let src = mk(ValueDef::Composite(x), id.clone());
    let res = SimResolver::new(&reg);
    let mut side = vec![7u8; c.range(0, 3)];
    let before = side.clone();
    let door = *c.choose(&EDOORS);
    c.fault("misfitting_record");
    c.note(|| format!("to one side: {} <- {n} values, the one at {at} probably misfitting (door {door:?})", reg.show(&id)));
    match call("encode", || encode_by(door, &src, &id, &res, &mut side))? {
        Ok(()) => {
            ensure!(side.starts_with(&before), "log-rewritten", "{n} values as {}", reg.show(&id));
            sound_encoding(&reg, &id, &src, &side[before.len()..])?;
            c.probe("misfit_accepted");
        }
        Err(_) => {
            ensure!(side == before, "failed-record-left-bytes", "rejecting {n} values, the one at {at} misfitting, as {} left {} bytes", reg.show(&id), side.len() as isize - before.len() as isize);
            c.probe("long_misfit_rejected");
        }
    }
    Ok(())
}
pub fn c06(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { depth: 3, mixed_fields: true, ..GenCfg::default() };
    let mut reg = Reg::default();
    let n = c.often(1, 3, 30);
    let mut ids = vec![];
    for _ in 0..n {
        let d = c.range(0, cfg.depth);
        let t = gen_type(c, &mut reg, &cfg, d);
        ids.push(wrap_type(c, &mut reg, t));
    }
    let big = c.chance(1, 16);
    if big {
        // 256-bit integers only as the last thing in a log: the decoder takes them from the end of its input
        let p = if c.flip() { Prim::I256 } else { Prim::U256 };
        let b = reg.prim(p);
        let t = wrap_big(c, &mut reg, b);
        ids.push(t);
    }
    let bulk = if c.chance(1, 8000) { Some(gen_bulk(c, &mut reg)) } else { None };
    if let Some((id, _)) = &bulk {
        ids.insert(0, id.clone());
    }
    if c.chance(1, 400) {
        long_misfit(c)?;
    }
    let mut log: Vec<u8> = vec![];
    let mut recs: Vec<Rec> = vec![];
    let res = SimResolver::new(&reg);
    let total = ids.len();
    for (i, id) in ids.iter().enumerate() {
        let last_is_big = big && i + 1 == total;
        if last_is_big && c.flip() {
            // misfits of the record with the 256-bit integer go to a log of their own
            let near = ValGen::with(&reg, 60, false).value(c, id);
            let src = perturb(c, &near);
            c.fault("misfitting_record");
            let mut side = vec![];
            let door = *c.choose(&EDOORS);
            c.note(|| format!("to one side: {} <- {} (door {door:?}), probably misfitting", reg.show(id), show_v(&strip(&src))));
            match call("encode", || encode_by(door, &src, id, &res, &mut side))? {
                Ok(()) => {
                    sound_encoding(&reg, id, &src, &side)?;
                    c.probe("misfit_accepted");
                }
                Err(_) => c.probe("misfit_rejected"),
            }
        }
        if !last_is_big && c.chance(1, 4) {
            // a record whose value probably does not fit: rejected, or else it has to be a sound record
            let near = ValGen::with(&reg, 60, false).value(c, id);
            let mut src = vary(c, &reg, id, &near);
            src = match c.weighted(&[6, 1, 1]) {
                0 => perturb(c, &src),
                1 => junk_value(c, 3),
                _ => {
                    let o = ids[c.idx(total)].clone();
                    ValGen::with(&reg, 60, false).value(c, &o)
                }
            };
            c.fault("misfitting_record");
            let before = log.len();
            let door = *c.choose(&EDOORS);
            c.note(|| format!("append {} <- {} (door {door:?}), probably misfitting", reg.show(id), show_v(&strip(&src))));
            match call("encode", || encode_by(door, &src, id, &res, &mut log))? {
                Ok(()) => {
                    let got = sound_encoding(&reg, id, &src, &log[before..])?;
                    recs.push(Rec { id: id.clone(), want: got, end: log.len(), fields: None });
                    c.probe("misfit_accepted");
                }
                Err(_) => {
                    ensure!(log.len() == before, "failed-record-left-bytes", "rejecting {} as {} left {}", show_v(&strip(&src)), reg.show(id), hex(&log[before..]));
                    c.probe("misfit_rejected");
                }
            }
        }
        let canon = match &bulk {
            Some((b, v)) if b == id => v.clone(),
            _ => ValGen::new(&reg).value(c, id),
        };
        let want = enc(&reg, id, &canon);
        let before = log.len();
        let mut fields = None;
        match (reg.get(id), &canon.value) {
            (SType::Composite(fs), ValueDef::Composite(x)) if c.chance(1, 3) => {
                let src = vary_fields(c, &reg, fs, x, false);
                let door = c.pick(3);
                c.note(|| format!("append fields {} <- {} (door {door})", reg.show(id), show_v(&src)));
                let r = call("encode fields", || encode_fields_by(door, &src, fs, &res, &mut log))?;
                fields = Some(fs.clone());
                if let Err(e) = r {
                    bail!("fitting-rejected", "fields {} from {}: {e}", reg.show(id), show_v(&src));
                }
                c.probe("record_as_fields");
            }
            _ => {
                let src = vary(c, &reg, id, &canon);
                let door = *c.choose(&EDOORS);
                c.note(|| format!("append {} <- {} (door {door:?})", reg.show(id), show_v(&strip(&src))));
                let r = call("encode", || encode_by(door, &src, id, &res, &mut log))?;
                if let Err(e) = r {
                    bail!("fitting-rejected", "type {} from {}: {e}", reg.show(id), show_v(&strip(&src)));
                }
                if log[before..] != want[..] {
                    bail!(
                        "wrong-bytes",
                        "type {} from {}: wrote {} but the encoding of {} is {}",
                        reg.show(id),
                        show_v(&strip(&src)),
                        hex(&log[before..]),
                        show_v(&strip(&canon)),
                        hex(&want)
                    );
                }
                if !last_is_big && c.chance(1, 6) {
                    // the same record is delivered twice
                    c.fault("record_duplicated");
                    let r = call("encode", || encode_by(door, &src, id, &res, &mut log))?;
                    ensure!(
                        r.is_ok() && log[before..] == [&want[..], &want[..]].concat()[..],
                        "wrong-bytes",
                        "type {} from {}: appended twice, this wrote {} but its encoding is {}",
                        reg.show(id),
                        show_v(&strip(&src)),
                        hex(&log[before..]),
                        hex(&want)
                    );
                    log.truncate(before + want.len());
                    recs.push(Rec { id: id.clone(), want: canon.clone(), end: log.len(), fields: None });
                    log.extend_from_slice(&want);
                    recs.push(Rec { id: id.clone(), want: canon, end: log.len(), fields: None });
                    continue;
                }
            }
        }
        ensure!(
            log[before..] == want[..],
            "wrong-bytes",
            "fields of {} for {}: wrote {} want {}",
            reg.show(id),
            show_v(&strip(&canon)),
            hex(&log[before..]),
            hex(&want)
        );
        c.ev(&log[before..]);
        recs.push(Rec { id: id.clone(), want: canon, end: log.len(), fields });
    }
    // crash: an arbitrary prefix of the log is durable
    let cut = if !log.is_empty() && c.chance(2, 3) {
        c.fault("crash_keeps_prefix");
        c.idx(log.len() + 1)
    } else {
        log.len()
    };
    log.truncate(cut);
    c.note(|| format!("after the crash: {}", hex(&log)));
    let door = *c.choose(&DOORS);
    let mut cur = &log[..];
    let mut done = 0;
    for r in &recs {
        let complete = r.end <= cut;
        let got = match &r.fields {
            None => call("decode", || decode_by(door, &mut cur, &r.id, &res))?.map(|d| (d.same(&r.want), d.show())),
            Some(fs) => call("decode fields", || scale_value::scale::decode_as_fields(&mut cur, &mut FieldsIter(fs.iter()), &res))?
                .map(|x| {
                    let v = mk(ValueDef::Composite(x), r.id.clone());
                    (v == r.want, show_v(&v))
                })
                .map_err(|e| e.to_string()),
        };
        match got {
            Ok((same, shown)) => {
                ensure!(complete, "torn-record-recovered", "record {done} ({}) ends at {} of {cut} bytes but was recovered as {shown}", reg.show(&r.id), r.end);
                ensure!(same, "wrong-record", "record {done} ({}): recovered {shown}, written {}", reg.show(&r.id), show_v(&r.want));
                ensure!(log.len() - cur.len() == r.end, "wrong-consumption", "record {done} ends at {}, recovery stopped at {}", r.end, log.len() - cur.len());
                done += 1;
            }
            Err(e) => {
                ensure!(!complete, "record-lost", "record {done} ({}) was durable but recovery failed: {e}", reg.show(&r.id));
                break;
            }
        }
    }
    let durable = recs.iter().take_while(|r| r.end <= cut).count();
    ensure!(done == durable, "record-lost", "{done} records recovered, {durable} durable");
    if done > 0 {
        c.nontrivial();
    }
    Ok(())
}
fn wrap_big(c: &mut Ctx, reg: &mut Reg, b: Tid) -> Tid {
    match c.pick(4) {
        0 => b,
        1 => reg.add(SType::Tuple(vec![b])),
        2 => reg.add(SType::Composite(vec![SField { name: Some("x".into()), id: b }])),
        _ => {
            let u = reg.prim(Prim::U8);
            reg.add(SType::Tuple(vec![u, b]))
        }
    }
}

// ------------------------------------------------------------ C07

/// A value near `v` that probably does not fit the type any more.
/// places of the composites and variants, counted as `perturb_at` does
fn containers(v: &V, i: &mut usize, out: &mut Vec<usize>) {
    let me = *i;
    *i += 1;
    let kids = match &v.value {
        ValueDef::Composite(x) => x,
        ValueDef::Variant(x) => &x.values,
        _ => return,
    };
    out.push(me);
    for k in kids.values() {
        containers(k, i, out)
    }
}
pub fn perturb(c: &mut Ctx, v: &V) -> V {
    let mut at = if c.chance(1, 4) {
        // something with parts, which would be missed among the many parts of long lists
        let mut at = vec![];
        containers(v, &mut 0, &mut at);
        if at.is_empty() { 0 } else { at[c.idx(at.len())] }
    } else {
        c.idx(nodes(v))
    };
    let v = perturb_at(c, v, &mut at);
    if c.chance(1, 6) {
        return perturb(c, &v);
    }
    v
}
fn perturb_at(c: &mut Ctx, v: &V, at: &mut usize) -> V {
    if *at == 0 {
        *at = usize::MAX;
        return perturb_node(c, v);
    }
    *at -= 1;
    let mut walk = |c: &mut Ctx, x: &Composite<Tid>| -> Composite<Tid> {
        let mut f = |v: &V| if *at == usize::MAX { v.clone() } else { perturb_at(c, v, at) };
        match x {
            Composite::Named(l) => Composite::Named(l.iter().map(|(n, v)| (n.clone(), f(v))).collect()),
            Composite::Unnamed(l) => Composite::Unnamed(l.iter().map(f).collect()),
        }
    };
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(walk(c, x)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: walk(c, &x.values) }),
        other => other.clone(),
    };
    mk(value, v.context.clone())
}
fn perturb_comp(c: &mut Ctx, x: &Composite<Tid>) -> Composite<Tid> {
    let mut x = x.clone();
    match &mut x {
        Composite::Named(l) => match c.pick(4) {
            0 if !l.is_empty() => {
                let i = c.idx(l.len());
                l.remove(i);
            }
            1 if !l.is_empty() => {
                let i = c.idx(l.len());
                l[i].0.push('?');
            }
            2 => return Composite::Unnamed(x.into_values().collect()),
            _ => {
                let j = junk_value(c, 1);
                l.push(("~extra".into(), j))
            }
        },
        Composite::Unnamed(l) => match c.pick(3) {
            0 if !l.is_empty() => {
                let i = c.idx(l.len());
                l.remove(i);
            }
            1 => {
                let names = gen_names(c, l.len());
                return Composite::Named(names.into_iter().zip(l.drain(..)).collect());
            }
            _ => {
                let j = junk_value(c, 1);
                let i = c.idx(l.len() + 1);
                l.insert(i, j)
            }
        },
    }
    x
}
fn perturb_node(c: &mut Ctx, v: &V) -> V {
    if c.chance(1, 4) {
        return junk_value(c, 2);
    }
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(perturb_comp(c, x)),
        ValueDef::Variant(x) => {
            if c.flip() {
                ValueDef::Variant(Variant { name: format!("{}?", x.name), values: x.values.clone() })
            } else {
                ValueDef::Variant(Variant { name: x.name.clone(), values: perturb_comp(c, &x.values) })
            }
        }
        ValueDef::BitSequence(b) => {
            // one more bit, or one bit told otherwise, that is no bit
            let mut vals: Vec<V> = bits_vec(b).into_iter().map(|b| prim(Primitive::Bool(b), &v.context)).collect();
            let no_bit = match c.pick(8) {
                0 => prim(Primitive::U128(2), &v.context),
                1 => prim(Primitive::I128(-1), &v.context),
                2 => prim(Primitive::Char(*c.choose(&['0', '1', '\0', '\u{1}'])), &v.context),
                3 => prim(Primitive::String(c.choose(&["0", "1", "true", ""]).to_string()), &v.context),
                4 => prim(Primitive::U128(gen_uint(c, u128::MAX)), &v.context),
                5 => mk(ValueDef::BitSequence(gen_bits(c)), v.context.clone()),
                6 => prim(Primitive::U256([0; 32]), &v.context),
                _ => junk_value(c, 1),
            };
            let i = c.idx(vals.len() + 1);
            if i < vals.len() && c.flip() {
                vals[i] = no_bit;
            } else {
                vals.insert(i, no_bit);
            }
            ValueDef::Composite(Composite::Unnamed(vals))
        }
        ValueDef::Primitive(Primitive::U256(b)) if c.chance(3, 4) => ValueDef::Primitive(Primitive::I256(*b)),
        ValueDef::Primitive(Primitive::I256(b)) if c.chance(3, 4) => ValueDef::Primitive(Primitive::U256(*b)),
        ValueDef::Primitive(Primitive::U128(n)) => match c.pick(3) {
            0 => ValueDef::Primitive(Primitive::U128(u128::MAX - n)),
            1 => ValueDef::Primitive(Primitive::I128(-1)),
            _ => ValueDef::Primitive(Primitive::String("x".into())),
        },
        ValueDef::Primitive(Primitive::I128(n)) => match c.pick(2) {
            0 => ValueDef::Primitive(Primitive::I128(i128::MAX ^ *n)),
            _ => ValueDef::Primitive(Primitive::U128(u128::MAX)),
        },
        _ => ValueDef::Primitive(Primitive::U128(c.pick(3) as u128)),
    };
    mk(value, v.context.clone())
}

fn gen_outage(c: &mut Ctx, reg: &Reg, reach: &[u32], horizon: u64, once: bool) -> Outage {
    let mut plan = Outage::default();
    let _ = reg;
    match c.weighted(&[3, 3, 2, if once { 2 } else { 0 }]) {
        0 => {
            plan.missing.insert(reach[c.idx(reach.len())]);
            if c.chance(1, 4) {
                plan.missing.insert(reach[c.idx(reach.len())]);
            }
        }
        1 => {
            plan.erroring.insert(reach[c.idx(reach.len())]);
        }
        2 => plan.down_from = Some(c.pick(horizon.max(1))),
        _ => {
            plan.brief = Some((c.pick(horizon.max(1)), c.weighted(&[6, 1, 1]) as u64 + 1));
            plan.brief_missing = c.flip();
        }
    }
    plan
}

pub fn c07(c: &mut Ctx) -> RunResult {
    let cfg = GenCfg { depth: 3, mixed_fields: true, ..GenCfg::default() };
    let mut reg = Reg::default();
    let ntypes = c.range(1, 3);
    let mut ids = vec![];
    for _ in 0..ntypes {
        let d = c.range(0, cfg.depth);
        let t = gen_type(c, &mut reg, &cfg, d);
        ids.push(wrap_type(c, &mut reg, t));
    }
    let junk = c.weighted(&[2, 3, 1]) * c.range(0, 5);
    let mut out: Vec<u8> = (0..junk).map(|i| (i * 37 + 11) as u8).collect();
    if c.flip() {
        out.reserve_exact(c.range(0, 64));
    }
    let start = out.clone();
    let mut model = out.clone();
    let ops = c.often(1, 5, 40);
    for op in 0..ops {
        let ti = c.idx(ids.len());
        let id = &ids[ti];
        let canon = ValGen::with(&reg, 60, false).value(c, id);
        let fitting = vary(c, &reg, id, &canon);
        let mut fits = false;
        let src = match c.weighted(&[3, 5, 1, 1]) {
            0 => {
                fits = true;
                fitting
            }
            1 => {
                c.fault("misfitting_value");
                let mut s = perturb(c, &fitting);
                if c.chance(1, 3) {
                    s = perturb(c, &s);
                }
                s
            }
            2 => {
                c.fault("value_of_another_type");
                let o = c.idx(ids.len());
                let other = ids[o].clone();
                ValGen::with(&reg, 60, false).value(c, &other)
            }
            _ => {
                c.fault("misfitting_value");
                junk_value(c, 3)
            }
        };
        let reach: Vec<u32> = reg.reach(id).into_iter().collect();
        let mut plan = Outage::default();
        match c.weighted(&[6, 3, 1]) {
            0 => {}
            1 => plan = gen_outage(c, &reg, &reach, 20, true),
            _ => plan.panic_at = Some(c.pick(20)),
        }
        // door: as a type, or as a field list
        let fields: Option<Vec<SField>> = match reg.get(id) {
            SType::Composite(fs) if c.flip() => Some(fs.clone()),
            SType::Tuple(ts) if c.flip() => Some(ts.iter().map(|t| SField { name: None, id: t.clone() }).collect()),
            _ => None,
        };
        let src_comp = match &src.value {
            ValueDef::Composite(x) => Some(x.clone()),
            _ => None,
        };
        let as_fields = fields.is_some() && (src_comp.is_some() || c.flip());
        if as_fields && matches!(src.value, ValueDef::Variant(_)) {
            // a variant is no list of fields: its name would be lost
            let mut tmp = out.clone();
            let r = call("encode fields", || src.encode_as_fields_to(&mut FieldsIter(fields.as_ref().unwrap().iter()), &SimResolver::new(&reg), &mut tmp))?;
            ensure!(r.is_err() && tmp == out, "variant-as-fields", "{} was encoded as a list of fields of {}", show_v(&strip(&src)), reg.show(id));
        }
        let door = c.pick(2);
        let run = |out: &mut Vec<u8>, r: &SimResolver| -> Result<(), String> {
            if as_fields {
                match &src_comp {
                    Some(x) => encode_fields_by(door, x, fields.as_ref().unwrap(), r, out),
                    // a value that is no composite
                    None => src.encode_as_fields_to(&mut FieldsIter(fields.as_ref().unwrap().iter()), r, out).map_err(|e| e.to_string()),
                }
            } else {
                encode_by(EDOORS[door as usize], &src, id, r, out)
            }
        };
        c.note(|| format!("op {op}: encode {} as {} fields={as_fields} plan {plan:?}", show_v(&strip(&src)), reg.show(id)));
        let before = out.clone();
        let res = SimResolver::with(&reg, plan.clone());
        let got = guard(|| run(&mut out, &res));
        if res.failed.get() > 0 {
            c.fault(if plan.panic_at.is_some() { "panic_in_resolver" } else { "resolver_outage" });
        }
        match got {
            Ok(Ok(())) => {
                ensure!(out.len() >= before.len() && out[..before.len()] == before[..], "prefix-altered", "op {op}: {} became {}", hex(&before), hex(&out));
                let mut fresh = vec![];
                let res2 = SimResolver::with(&reg, plan.clone());
                match guard(|| run(&mut fresh, &res2)) {
                    Ok(Ok(())) => ensure!(
                        fresh[..] == out[before.len()..],
                        "depends-on-buffer",
                        "op {op}: {} as {}: appended {} to a used buffer, {} to a fresh one",
                        show_v(&strip(&src)),
                        reg.show(id),
                        hex(&out[before.len()..]),
                        hex(&fresh)
                    ),
                    other => bail!("depends-on-buffer", "op {op}: succeeded with a used buffer, but with a fresh one: {:?}", other.map_err(|c| c.show())),
                }
                if plan == Outage::default() {
                    sound_encoding(&reg, id, &src, &fresh)?;
                    if fits && !as_fields {
                        let want = enc(&reg, id, &canon);
                        ensure!(fresh == want, "not-the-encoding", "op {op}: {} as {}: appended {}, its encoding is {}", show_v(&strip(&src)), reg.show(id), hex(&fresh), hex(&want));
                    }
                }
                model.extend_from_slice(&fresh);
                if plan == Outage::default() && c.chance(1, 6) {
                    // the same again, right behind it
                    let res3 = SimResolver::new(&reg);
                    let r = call("encode again", || run(&mut out, &res3))?;
                    ensure!(
                        r.is_ok() && out.ends_with(&fresh) && out.len() == before.len() + 2 * fresh.len(),
                        "depends-on-buffer",
                        "op {op}: {} as {}: appended {} at first, then {}",
                        show_v(&strip(&src)),
                        reg.show(id),
                        hex(&fresh),
                        hex(&out[(before.len() + fresh.len()).min(out.len())..])
                    );
                    model.extend_from_slice(&fresh);
                }
                c.probe("encode_succeeded");
                c.ev(&fresh);
            }
            Ok(Err(e)) => {
                ensure!(
                    out == before,
                    "failed-encode-left-bytes",
                    "op {op}: encoding {} as {} (fields: {as_fields}) failed ({e}) and the buffer went from {} to {}",
                    show_v(&strip(&src)),
                    reg.show(id),
                    hex(&before),
                    hex(&out)
                );
                c.probe("encode_failed");
                if !before.is_empty() {
                    c.nontrivial();
                }
                c.ev_u(op as u64);
            }
            Err(Caught::Injected) => {
                // the caller unwinds; what was in the buffer before is still there
                ensure!(out.len() >= before.len() && out[..before.len()] == before[..], "prefix-altered", "op {op} panicked: {} became {}", hex(&before), hex(&out));
                out.truncate(before.len());
            }
            Err(other) => bail!(other.class(), "op {op}: encode {} as {}: {}", show_v(&strip(&src)), reg.show(id), other.show()),
        }
    }
    ensure!(out == model, "history", "the buffer holds {}, the successful encodes alone give {}", hex(&out), hex(&model));
    ensure!(out.starts_with(&start), "history", "initial contents lost");
    Ok(())
}

// ------------------------------------------------------------ C08

/// single-valued values and single-field types stacked in many ways: where several readings are tried
pub fn gen_ladder(c: &mut Ctx, reg: &mut Reg, arrays: bool) -> Tid {
    let mut id = match c.pick(5) {
        0 => reg.add(SType::Tuple(vec![])),
        1 => {
            let a = reg.prim(Prim::U8);
            let b = reg.prim(Prim::Bool);
            reg.add(SType::Tuple(vec![a, b]))
        }
        _ => {
            let p = *c.choose(&PRIMS);
            reg.prim(p)
        }
    };
    let n = c.range(1, 6);
    let mut seqs = 0;
    for _ in 0..n {
        let t = match c.pick(6) {
            0 if seqs < 3 => {
                seqs += 1;
                SType::Seq(id)
            }
            1 if arrays => SType::Array(id, 1),
            2 => SType::Composite(vec![SField { name: None, id }]),
            3 => SType::Composite(vec![SField { name: Some(c.choose(&["a", "b"]).to_string()), id }]),
            4 => SType::Tuple(vec![id]),
            _ => SType::Variant(vec![SVariant { name: "A".into(), index: 3, fields: vec![SField { name: None, id }] }]),
        };
        id = reg.add(t);
    }
    id
}
pub fn gen_single_stack(c: &mut Ctx, max: usize) -> V {
    let mut v = match c.pick(5) {
        0 => comp_v(Composite::Unnamed(vec![])),
        1 => prim(Primitive::U128(c.pick(3) as u128), &Tid(0)),
        2 => prim(Primitive::Bool(true), &Tid(0)),
        3 => comp_v(Composite::Unnamed(vec![prim(Primitive::U128(1), &Tid(0)), prim(Primitive::Bool(true), &Tid(0))])),
        _ => junk_value(c, 1),
    };
    let n = c.range(0, max);
    for _ in 0..n {
        v = match c.weighted(&[6, 2, 1]) {
            0 => comp_v(Composite::Unnamed(vec![v])),
            1 => comp_v(Composite::Named(vec![(c.choose(&["a", "b"]).to_string(), v)])),
            _ => mk(ValueDef::Variant(Variant { name: "A".into(), values: Composite::Unnamed(vec![v]) }), Tid(0)),
        };
    }
    v
}
#[derive(Debug, PartialEq, Clone)]
enum Out8 {
    Bytes(Vec<u8>),
    Val(V),
    Plain(Value<()>),
    Err,
}

pub fn c08(c: &mut Ctx) -> RunResult {
    let mut reg = Reg::default();
    let op = c.weighted(&[5, 2, 2, 1, 2]);
    let encode = op <= 1;
    let id;
    let src: V;
    let ladder = encode && c.flip();
    if ladder {
        id = gen_ladder(c, &mut reg, true);
        src = if c.flip() { gen_single_stack(c, 6) } else { ValGen::with(&reg, 20, false).value(c, &id) };
    } else {
        let cfg = GenCfg { depth: 3, mixed_fields: true, ..GenCfg::default() };
        let d = c.range(0, cfg.depth);
        let t = gen_type(c, &mut reg, &cfg, d);
        id = if encode { wrap_type(c, &mut reg, t) } else { t };
        let canon = ValGen::with(&reg, 60, false).value(c, &id);
        src = if encode {
            let s = vary(c, &reg, &id, &canon);
            if c.chance(1, 4) {
                perturb(c, &s)
            } else {
                s
            }
        } else {
            canon
        };
    }
    let fields: Vec<SField> = match reg.get(&id) {
        SType::Composite(fs) => fs.clone(),
        SType::Tuple(ts) => ts.iter().map(|t| SField { name: None, id: t.clone() }).collect(),
        _ => vec![SField { name: None, id: id.clone() }],
    };
    let src_fields: Composite<Tid> = match &src.value {
        ValueDef::Composite(x) => x.clone(),
        _ => Composite::Unnamed(vec![src.clone()]),
    };
    let bytes = if encode { vec![] } else { enc(&reg, &id, &src) };
    let door = c.pick(3);
    let run = |r: &SimResolver| -> (Out8, usize) {
        match op {
            0 => {
                let mut out = vec![];
                match encode_by(EDOORS[door as usize], &src, &id, r, &mut out) {
                    Ok(()) => (Out8::Bytes(out), 0),
                    Err(_) => (Out8::Err, 0),
                }
            }
            1 => {
                let mut out = vec![];
                match encode_fields_by(door, &src_fields, &fields, r, &mut out) {
                    Ok(()) => (Out8::Bytes(out), 0),
                    Err(_) => (Out8::Err, 0),
                }
            }
            2 => {
                let mut cur = &bytes[..];
                match decode_by(DOORS[door as usize], &mut cur, &id, r) {
                    Ok(crate::p_decode::Dec::Ctx(v)) => (Out8::Val(v), bytes.len() - cur.len()),
                    Ok(crate::p_decode::Dec::Plain(v)) => (Out8::Plain(v), bytes.len() - cur.len()),
                    Err(_) => (Out8::Err, 0),
                }
            }
            3 => {
                let mut cur = &bytes[..];
                if door == 0 {
                    match scale_value::scale::decode_as_fields(&mut cur, &mut FieldsIter(fields.iter()), r) {
                        Ok(x) => (Out8::Val(comp_v(x)), bytes.len() - cur.len()),
                        Err(_) => (Out8::Err, 0),
                    }
                } else {
                    match Value::<()>::decode_as_fields(&mut cur, &mut FieldsIter(fields.iter()), r) {
                        Ok(x) => (Out8::Plain(x), bytes.len() - cur.len()),
                        Err(_) => (Out8::Err, 0),
                    }
                }
            }
            _ => {
                let mut cur = &bytes[..];
                match scale_value::scale::tracing::decode_as_type(&mut cur, id.clone(), r) {
                    Ok(v) => (Out8::Val(v), bytes.len() - cur.len()),
                    Err(e) => {
                        // the error has to be displayable as well
                        let _ = e.to_string();
                        (Out8::Err, 0)
                    }
                }
            }
        }
    };
    let healthy = SimResolver::new(&reg);
    healthy.log.replace(Some(vec![]));
    let want = call("healthy run", || run(&healthy))?;
    let lookups = healthy.lookups.get();
    let seen: Vec<u32> = healthy.log.borrow().clone().unwrap();
    ensure!(encode || want.0 != Out8::Err, "valid-rejected", "{} as {} was rejected", hex(&bytes), reg.show(&id));
    let reach: Vec<u32> = reg.reach(&id).into_iter().collect();
    let _ = &seen;
    // the outages: mostly of types the operation asks for
    let tries = c.range(1, 3);
    for _ in 0..tries {
        let pool = if !seen.is_empty() && c.chance(3, 4) { &seen } else { &reach };
        let plan = gen_outage(c, &reg, pool, lookups + 2, true);
        c.note(|| format!("op {op} door {door} type {} value {} bytes {} plan {plan:?}", reg.show(&id), show_v(&strip(&src)), hex(&bytes)));
        let res = SimResolver::with(&reg, plan.clone());
        let got = call("run during the outage", || run(&res))?;
        let failed = res.failed.get();
        if failed > 0 {
            c.fault(match () {
                _ if !plan.missing.is_empty() => "type_missing",
                _ if !plan.erroring.is_empty() => "type_lookup_error",
                _ if plan.down_from.is_some() => "resolver_down",
                _ => "one_lookup_failed",
            });
            c.nontrivial();
        }
        if got.0 != Out8::Err {
            ensure!(
                got == want,
                "wrong-answer",
                "type {} value {} bytes {} op {op}: with {plan:?} ({failed} failed lookups) got {} but a healthy resolver gives {}",
                reg.show(&id),
                show_v(&strip(&src)),
                hex(&bytes),
                show_out(&got.0),
                show_out(&want.0)
            );
        } else {
            c.probe("outage_surfaced");
            ensure!(failed > 0 || want.0 == Out8::Err, "spurious-error", "no lookup failed, yet type {} value {} was rejected", reg.show(&id), show_v(&strip(&src)));
        }
        c.ev_u(failed);
        c.ev(format!("{:?}", got.0).as_bytes());
        // recovery
        let again = call("retry after recovery", || run(&SimResolver::new(&reg)))?;
        ensure!(again == want, "no-recovery", "after recovery got {} want {}", show_out(&again.0), show_out(&want.0));
    }
    Ok(())
}
fn show_out(o: &Out8) -> String {
    match o {
        Out8::Bytes(b) => format!("bytes {}", hex(b)),
        Out8::Val(v) => show_v(v),
        Out8::Plain(v) => show_v(v),
        Out8::Err => "an error".into(),
    }
}

// ------------------------------------------------------------ C09

pub fn c09(c: &mut Ctx) -> RunResult {
    let mut reg = Reg::default();
    let shape = c.weighted(&[4, 3, 2, 2, 1]);
    let mut fitting = false;
    let (id, src) = match shape {
        4 => {
            // a description that claims an absurd array, and a value that is nothing like it
            let el = match c.pick(3) {
                0 => reg.add(SType::Tuple(vec![])),
                1 => gen_leaf(c, &mut reg, &GenCfg::default()),
                _ => {
                    let b = reg.prim(Prim::U128);
                    reg.add(SType::Array(b, c.range(0, 3)))
                }
            };
            let len = *c.choose(&[1000usize, 65_536, 1 << 24, u32::MAX as usize - 1, u32::MAX as usize]);
            let t = reg.add(SType::Array(el, len));
            let id = wrap_type(c, &mut reg, t);
            let v = if c.flip() {
                gen_single_stack(c, 6)
            } else {
                let n = *c.choose(&[0usize, 2, 7, 32, 100, 999, 1001]);
                let x = gen_single_stack(c, 1);
                comp_v(match c.flip() {
                    true => Composite::Unnamed(vec![x; n]),
                    false => Composite::Named((0..n).map(|i| (i.to_string(), x.clone())).collect()),
                })
            };
            (id, v)
        }
        3 => {
            // a value that fits exactly, in deeply nested sequences, arrays, records and variants
            fitting = true;
            let mut id = gen_leaf(c, &mut reg, &GenCfg::default());
            let n = c.range(1, 16);
            let mut doublings = 0;
            for _ in 0..n {
                let t = match c.pick(7) {
                    0 => SType::Array(id, 1),
                    1 | 2 => SType::Seq(id),
                    3 if doublings < 5 => {
                        doublings += 1;
                        SType::Array(id, 2)
                    }
                    4 => SType::Variant(vec![SVariant { name: "A".into(), index: 0, fields: vec![SField { name: None, id }] }]),
                    5 if doublings < 5 => {
                        doublings += 1;
                        SType::Composite(vec![SField { name: Some("l".into()), id: id.clone() }, SField { name: Some("r".into()), id }])
                    }
                    _ => {
                        let u = reg.prim(Prim::U8);
                        SType::Tuple(vec![u, id])
                    }
                };
                id = reg.add(t);
            }
            let v = nested_value(c, &reg, &id, &mut 200);
            (id, v)
        }
        // deep wrappers, values as deep as or deeper or shallower than the type
        0 => {
            let base = match c.pick(4) {
                0 => gen_leaf(c, &mut reg, &GenCfg::default()),
                1 => {
                    let b = reg.prim(Prim::U8);
                    reg.add(SType::Seq(b))
                }
                2 => reg.add(SType::Tuple(vec![])),
                _ => {
                    let a = reg.prim(Prim::U8);
                    let b = reg.prim(Prim::Bool);
                    reg.add(SType::Tuple(vec![a, b]))
                }
            };
            let mut id = base;
            let deep = if c.flip() { 24 } else { 12 };
            let n = c.range(0, deep);
            let with_seqs = c.chance(1, 3);
            let mut seqs = matches!(reg.get(&id), SType::Seq(_)) as usize;
            for _ in 0..n {
                let t = match c.weighted(&[4, 3, 3, 2, 1, 1]) {
                    0 => SType::Composite(vec![SField { name: None, id }]),
                    1 => SType::Composite(vec![SField { name: Some(c.choose(&["a", "b"]).to_string()), id }]),
                    2 => SType::Tuple(vec![id]),
                    3 => SType::Variant(vec![SVariant { name: "A".into(), index: 0, fields: vec![SField { name: None, id }] }]),
                    4 if with_seqs && seqs < 2 => {
                        seqs += 1;
                        SType::Seq(id)
                    }
                    5 if with_seqs && seqs < 2 => {
                        seqs += 1;
                        SType::Array(id, 1)
                    }
                    _ => SType::Tuple(vec![id]),
                };
                id = reg.add(t);
            }
            let v = gen_single_stack(c, deep);
            (id, v)
        }
        1 => {
            let cfg = GenCfg { depth: 4, ..GenCfg::default() };
            let d = c.range(0, 4);
            let t = gen_type(c, &mut reg, &cfg, d);
            let id = wrap_type(c, &mut reg, t);
            let canon = ValGen::with(&reg, 60, false).value(c, &id);
            let mut s = vary(c, &reg, &id, &canon);
            if c.flip() {
                s = perturb(c, &s);
            }
            (id, s)
        }
        _ => {
            let id = gen_ladder(c, &mut reg, true);
            let v = gen_single_stack(c, 10);
            (id, v)
        }
    };
    let vd = nodes(&src);
    let td = reg.reach(&id).len();
    let seqs = seq_depth(&reg, &id, &mut vec![]);
    let mut plan = Outage::default();
    if c.chance(1, 8) {
        let reach: Vec<u32> = reg.reach(&id).into_iter().collect();
        plan = gen_outage(c, &reg, &reach, 30, false);
    }
    c.note(|| format!("type {} value {} plan {plan:?}", reg.show(&id), show_v(&strip(&src))));
    let res = SimResolver::with(&reg, plan);
    let mut out = vec![];
    let (r, u) = call("encode", || crate::alloc::measure(|| src.encode_as_type_to(id.clone(), &res, &mut out)))?;
    let n = res.lookups.get();
    if shape == 4 {
        c.fault("absurd_array_length");
    }
    if r.is_err() {
        c.probe("failed_encode_counted");
        c.fault("misfitting_value");
    }
    if res.failed.get() > 0 {
        c.fault("resolver_outage");
    }
    c.ev_u(n);
    c.ev_u((vd as u64) << 32 | td as u64);
    c.nontrivial();
    let bound = if fitting && res.failed.get() == 0 {
        ensure!(r.is_ok(), "fitting-rejected", "{} as {}", show_v(&strip(&src)), reg.show(&id));
        fitting_bound(vd)
    } else {
        lookup_bound(vd, td, seqs)
    };
    ensure!(
        n <= bound,
        "work",
        "encoding {} as {} made {n} type lookups; a value of {vd} nodes and a type of {td} descriptions are allowed {bound}",
        show_v(&strip(&src)),
        reg.show(&id)
    );
    let bound = encode_mem_bound(&src, td);
    ensure!(
        u.peak <= bound,
        "memory",
        "encoding {} as {} held {} bytes of heap (largest single allocation {}), bound {bound}",
        show_v(&strip(&src)),
        reg.show(&id),
        u.peak,
        u.biggest
    );
    Ok(())
}
/// Each layer of the value and of the type may hold a copy of what is below it, and an error saying where it is.
fn encode_mem_bound(v: &V, types: usize) -> usize {
    fn weigh<T>(v: &Value<T>, depth: usize, deepest: &mut usize) -> usize {
        *deepest = depth.max(*deepest);
        32 + match &v.value {
            ValueDef::Primitive(Primitive::String(s)) => s.len(),
            ValueDef::BitSequence(b) => b.len(),
            ValueDef::Composite(Composite::Named(x)) | ValueDef::Variant(Variant { values: Composite::Named(x), .. }) => {
                x.iter().map(|(n, x)| n.len() + weigh(x, depth + 1, deepest)).sum()
            }
            ValueDef::Composite(Composite::Unnamed(x)) | ValueDef::Variant(Variant { values: Composite::Unnamed(x), .. }) => {
                x.iter().map(|x| weigh(x, depth + 1, deepest)).sum()
            }
            ValueDef::Primitive(_) => 0,
        }
    }
    let mut d = 1;
    let w = weigh(v, 1, &mut d);
    let layers = d + types;
    (24 << 10) + 6 * layers * w + 256 * layers * layers
}
/// a canonical value whose sequences are mostly not empty, so that it is as deep as its type
pub fn nested_value(c: &mut Ctx, reg: &Reg, id: &Tid, budget: &mut isize) -> V {
    *budget -= 1;
    let comp = |vals: Vec<V>| mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone());
    match reg.get(id) {
        SType::Seq(t) => {
            let n = if *budget < 0 { c.pick(2) as usize } else { c.weighted(&[1, 8, 3]) };
            comp((0..n).map(|_| nested_value(c, reg, t, budget)).collect())
        }
        SType::Array(t, n) => comp((0..*n).map(|_| nested_value(c, reg, t, budget)).collect()),
        SType::Tuple(ts) => comp(ts.iter().map(|t| nested_value(c, reg, t, budget)).collect()),
        SType::Composite(fs) => {
            let vals = fs.iter().map(|f| nested_value(c, reg, &f.id, budget)).collect();
            mk(ValueDef::Composite(fields_composite(fs, vals)), id.clone())
        }
        SType::Variant(vs) => {
            let vals = vs[0].fields.iter().map(|f| nested_value(c, reg, &f.id, budget)).collect();
            mk(ValueDef::Variant(Variant { name: vs[0].name.clone(), values: fields_composite(&vs[0].fields, vals) }), id.clone())
        }
        _ => ValGen::with(reg, 10, false).value(c, id),
    }
}
/// A value that fits its type as it is needs no second attempt anywhere.
pub fn fitting_bound(value_nodes: usize) -> u64 {
    40 * value_nodes as u64
}
/// longest chain of nested sequences/arrays in the type
pub fn seq_depth(reg: &Reg, id: &Tid, stack: &mut Vec<u32>) -> u32 {
    if stack.contains(&id.0) {
        return 0;
    }
    stack.push(id.0);
    let d = match reg.get(id) {
        SType::Prim(_) | SType::Bits(..) => 0,
        SType::Compact(t) => seq_depth(reg, t, stack),
        SType::Seq(t) | SType::Array(t, _) => 1 + seq_depth(reg, t, stack),
        SType::Tuple(ts) => ts.iter().map(|t| seq_depth(reg, t, stack)).max().unwrap_or(0),
        SType::Composite(fs) => fs.iter().map(|f| seq_depth(reg, &f.id, stack)).max().unwrap_or(0),
        SType::Variant(vs) => vs.iter().flat_map(|v| v.fields.iter()).map(|f| seq_depth(reg, &f.id, stack)).max().unwrap_or(0),
    };
    stack.pop();
    d
}
/// About four times the most lookups seen on the unmodified tree. Each level of nested sequences allows
/// another split of the value's layers between "element" and "wrapper", hence another factor.
pub fn lookup_bound(value_nodes: usize, types: usize, seqs: u32) -> u64 {
    let v = value_nodes as u64;
    let t = types as u64;
    400 + match seqs {
        0 => 40 * v * t,
        1 => 16 * v * v * t,
        _ => 8 * v * v * v * t,
    }
}

/// Known finding: scale-encode steps over single-field wrappers without noticing that a lookup failed.
pub fn probe_transient_in_skip() -> RunResult {
    let mut reg = Reg::default();
    let unit = reg.add(SType::Tuple(vec![]));
    let seq = reg.add(SType::Seq(unit));
    let a = reg.add(SType::Composite(vec![SField { name: Some("a".into()), id: seq }]));
    let n = reg.add(SType::Composite(vec![SField { name: None, id: a }]));
    let u = |v: Vec<V>| comp_v(Composite::Unnamed(v));
    let named = comp_v(Composite::Named(vec![("a".into(), u(vec![u(vec![])]))]));
    let src = u(vec![named]);
    let id = reg.add(SType::Array(n, 1));
    let want = scale_value_bytes(&src, &id, &SimResolver::new(&reg))?;
    ensure!(want == Some(vec![4]), "fitting-rejected", "healthy result {want:?}");
    for k in 0..60 {
        let res = SimResolver::with(&reg, Outage { down_once: Some(k), ..Outage::default() });
        let got = scale_value_bytes(&src, &id, &res)?;
        ensure!(got.is_none() || got == want, "wrong-answer", "with lookup {k} failing once got {got:?} instead of {want:?}");
    }
    Ok(())
}
/// Known finding: scale-encode says "wrong shape" about a type that could not be found.
pub fn probe_missing_as_misfit() -> RunResult {
    let mut reg = Reg::default();
    let bits = reg.add(SType::Bits(scale_type_resolver::BitsStoreFormat::U8, scale_type_resolver::BitsOrderFormat::Lsb0));
    let inner = reg.add(SType::Composite(vec![SField { name: None, id: bits }]));
    let seq = reg.add(SType::Seq(inner));
    let id = reg.add(SType::Seq(seq));
    let b = || mk(ValueDef::BitSequence(scale_bits::Bits::new()), Tid(0));
    let u = |v: Vec<V>| comp_v(Composite::Unnamed(v));
    let src = u(vec![u(vec![u(vec![b()]), u(vec![b()])])]);
    let want = scale_value_bytes(&src, &id, &SimResolver::new(&reg))?;
    ensure!(want == Some(vec![4, 8, 0, 0]), "fitting-rejected", "healthy result {want:?}");
    for k in 0..60 {
        let res = SimResolver::with(&reg, Outage { missing_once: Some(k), ..Outage::default() });
        let got = scale_value_bytes(&src, &id, &res)?;
        ensure!(got.is_none() || got == want, "wrong-answer", "with lookup {k} finding no type once got {got:?} instead of {want:?}");
    }
    Ok(())
}
fn scale_value_bytes(src: &V, id: &Tid, r: &SimResolver) -> Result<Option<Vec<u8>>, Violation> {
    let mut out = vec![];
    let ok = call("encode", || encode_by(EDoor::Trait, src, id, r, &mut out))?.is_ok();
    Ok(ok.then_some(out))
}

/// Known finding: nested single values that do not fit, against nested sequence types.
pub fn probe_recursive_sequence() -> RunResult {
    let mut reg = Reg::default();
    let me = Tid(0);
    reg.types.push(SType::Composite(vec![SField { name: None, id: Tid(1) }]));
    reg.types.push(SType::Seq(me.clone()));
    let mut v = prim(Primitive::Bool(true), &me);
    for _ in 0..18 {
        v = comp_v(Composite::Unnamed(vec![v]));
    }
    let res = SimResolver::new(&reg);
    let ok = call("encode", || encode_by(EDoor::Trait, &v, &me, &res, &mut vec![]))?.is_ok();
    let n = res.lookups.get();
    ensure!(!ok && n <= lookup_bound(19, 2, 2), "work", "{n} lookups to reject 18 nested single values for struct T(Vec<T>)");
    Ok(())
}
