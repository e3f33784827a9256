//! C32: mapping contexts with a mapper that may fail. C33: user-defined types to values and back.

use crate::guard::{call, guard, Caught, Injected};
use crate::p_serde::Steps;
use crate::refcodec::*;
use crate::tape::*;
use crate::types::*;
use crate::{bail, ensure};
use scale_value::{Composite, Value, ValueDef, Variant};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, Serializer};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

// ------------------------------------------------------------ C32

/// What becomes of every context.
#[derive(Default)]
struct Ledger {
    dropped: RefCell<BTreeMap<u32, u32>>,
    given: RefCell<Vec<u32>>,
    calls: Cell<u64>,
    panic_at: Cell<Option<u64>>,
    clones: Cell<u64>,
}
/// A context of which there is exactly one (neither Clone nor Copy).
struct Token {
    n: u32,
    ledger: Rc<Ledger>,
}
impl Drop for Token {
    fn drop(&mut self) {
        *self.ledger.dropped.borrow_mut().entry(self.n).or_insert(0) += 1;
    }
}
/// The mapped context: holds the token it was made from.
struct Mapped(Token);

/// A mapper that counts its calls over all of its clones, and may panic in one of them.
struct Mapper(Rc<Ledger>);
impl Clone for Mapper {
    fn clone(&self) -> Self {
        self.0.clones.set(self.0.clones.get() + 1);
        Mapper(self.0.clone())
    }
}
impl Mapper {
    fn map(&self, t: Token) -> Mapped {
        let n = self.0.calls.get();
        self.0.calls.set(n + 1);
        self.0.given.borrow_mut().push(t.n);
        if self.0.panic_at.get() == Some(n) {
            std::panic::panic_any(Injected);
        }
        Mapped(t)
    }
}

fn tokens(v: &Value<()>, next: &mut u32, l: &Rc<Ledger>) -> Value<Token> {
    let context = Token { n: *next, ledger: l.clone() };
    *next += 1;
    let mut comp = |x: &Composite<()>| match x {
        Composite::Named(l2) => Composite::Named(l2.iter().map(|(n, v)| (n.clone(), tokens(v, next, l))).collect()),
        Composite::Unnamed(l2) => Composite::Unnamed(l2.iter().map(|v| tokens(v, next, l)).collect()),
    };
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(comp(x)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    Value { value, context }
}
/// contexts in depth-first order, and the value without them
fn undo<T>(v: &Value<T>, num: &dyn Fn(&T) -> u32, out: &mut Vec<u32>) -> Value<()> {
    out.push(num(&v.context));
    fn comp<T>(x: &Composite<T>, num: &dyn Fn(&T) -> u32, out: &mut Vec<u32>) -> Composite<()> {
        match x {
            Composite::Named(l) => Composite::Named(l.iter().map(|(n, v)| (n.clone(), undo(v, num, out))).collect()),
            Composite::Unnamed(l) => Composite::Unnamed(l.iter().map(|v| undo(v, num, out)).collect()),
        }
    }
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(comp(x, num, out)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values, num, out) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    Value { value, context: () }
}

pub fn c32(c: &mut Ctx) -> RunResult {
    // values as they are decoded, and values of any shape
    let plain: Value<()> = match c.pick(3) {
        0 => {
            let cfg = GenCfg { mixed_fields: true, ..GenCfg::default() };
            let (reg, id) = gen_root(c, &cfg);
            strip(&ValGen::with(&reg, 80, c.chance(1, 8)).value(c, &id))
        }
        1 => strip(&crate::p_encode::junk_value(c, 4)),
        // wide, deep, with repeated names
        _ => strip(&crate::p_fmt::gen_value(c, crate::p_fmt::Shape { depth: 4, big: true })),
    };
    let src = &plain;
    let total = nodes(src) as u64;
    let door = c.pick(5);
    let tries = c.range(1, 3);
    for k in 0..tries {
        let ledger = Rc::new(Ledger::default());
        let mut n = 0;
        let v = tokens(src, &mut n, &ledger);
        if k > 0 || c.chance(2, 3) {
            ledger.panic_at.set(Some(c.pick(total + 1)));
        }
        c.note(|| format!("map {} ({total} nodes) door {door}, panic at {:?}", crate::p_decode::show_v(&plain), ledger.panic_at.get()));
        let m = Mapper(ledger.clone());
        let f = move |t: Token| m.map(t);
        let got: Result<Value<Mapped>, Caught> = guard(|| match (door, v) {
            (1, Value { value, context }) => Value { value: value.map_context(f.clone()), context: f.clone()(context) },
            (2, Value { value: ValueDef::Composite(x), context }) => Value { value: ValueDef::Composite(x.map_context(f.clone())), context: f.clone()(context) },
            (2 | 3, Value { value: ValueDef::Variant(x), context }) => Value { value: ValueDef::Variant(x.map_context(f.clone())), context: f.clone()(context) },
            // in two steps
            (4, v) => v.map_context(f).map_context(|m: Mapped| m),
            (_, v) => v.map_context(f),
        });
        let calls = ledger.calls.get();
        c.ev_u(calls << 3 | door);
        c.ev(crate::p_decode::show_v(&plain).as_bytes());
        match got {
            Ok(v) => {
                ensure!(ledger.panic_at.get().map(|k| k >= calls).unwrap_or(true), "panic-swallowed", "the mapper panicked in call {:?} of {calls} and a value came back", ledger.panic_at.get());
                let mut have = vec![];
                let shape = undo(&v, &|m: &Mapped| m.0.n, &mut have);
                ensure!(shape == plain, "value-changed", "{} became {}", crate::p_decode::show_v(&plain), crate::p_decode::show_v(&shape));
                ensure!(have == (0..total as u32).collect::<Vec<_>>(), "context-misplaced", "the contexts of {} in order are now {have:?}", crate::p_decode::show_v(&plain));
                let mut given = ledger.given.borrow().clone();
                given.sort();
                ensure!(calls == total && given == have, "not-once-per-node", "{calls} calls for {total} nodes: {given:?}");
                ensure!(ledger.dropped.borrow().is_empty(), "context-lost", "contexts dropped while mapping: {:?}", ledger.dropped.borrow());
                // removing the contexts
                let bare = call("remove_context", || v.remove_context())?;
                ensure!(bare == plain, "value-changed", "{} became {} when its context was removed", crate::p_decode::show_v(&plain), crate::p_decode::show_v(&bare));
                c.probe("mapped");
            }
            Err(Caught::Injected) => {
                c.fault("mapper_panics");
                c.nontrivial();
                let mut given = ledger.given.borrow().clone();
                given.sort();
                given.dedup();
                ensure!(given.len() as u64 == calls, "not-once-per-node", "{calls} calls, but only {} contexts were given", given.len());
                ensure!(calls == ledger.panic_at.get().unwrap() + 1, "mapper-called-after-panic", "panic in call {:?}, {calls} calls", ledger.panic_at.get());
            }
            Err(other) => bail!(other.class(), "mapping the contexts of {}: {}", crate::p_decode::show_v(&plain), other.show()),
        }
        let d = ledger.dropped.borrow();
        ensure!(
            d.len() as u64 == total && d.values().all(|n| *n == 1),
            "context-lost",
            "of {total} contexts {} were dropped in the end, {} of them not once",
            d.len(),
            d.values().filter(|n| **n != 1).count()
        );
    }
    Ok(())
}

// ------------------------------------------------------------ C33: types

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    I(u8),
    U(u8),
    Char,
    Str,
    Bytes,
    Unit,
    UnitStruct,
    Opt(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Newtype(Box<Ty>),
    Map(Key, Box<Ty>),
    Struct(Vec<(&'static str, Ty)>),
    Enum(Vec<(&'static str, VTy)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum VTy {
    Unit,
    Newtype(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(Vec<(&'static str, Ty)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Key {
    Str,
    Char,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Dat {
    Bool(bool),
    I(i128),
    U(u128),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    Opt(Option<Box<Dat>>),
    /// sequences, tuples, fields in declaration order
    List(Vec<Dat>),
    Map(Vec<(Dat, Dat)>),
    Alt(usize, Vec<Dat>),
}

const FIELD_NAMES: [&str; 14] = ["a", "b", "x", "name", "value", "values", "Some", "None", "context", "r#type", "é", "", "__bitvec__values__x", "has space"];
const ALT_NAMES: [&str; 12] = ["A", "B", "Ok", "Err", "Some", "None", "true", "Foo", "values", "é", "x y", ""];

fn distinct(c: &mut Ctx, pool: &[&'static str], n: usize) -> Vec<&'static str> {
    let mut p: Vec<&'static str> = pool.to_vec();
    if c.chance(1, 8) {
        // the words the code knows, but for the one that marks bit sequences
        p.extend(crate::p_serde::static_words().iter().filter(|w| **w != crate::p_serde::BITS_KEY));
        p.sort();
        p.dedup();
    }
    for i in 0..n {
        let j = i + c.idx(p.len() - i);
        p.swap(i, j);
    }
    p.truncate(n);
    p
}
fn gen_ty(c: &mut Ctx, d: usize) -> Ty {
    let deep = if d == 0 { 0 } else { 1 };
    match c.weighted(&[4, 2, 2, 2, 2, 1, 1, 1, 3 * deep, 3 * deep, 2 * deep, 2 * deep, 2 * deep, 5 * deep, 5 * deep]) {
        0 => Ty::U(c.pick(5) as u8),
        1 => Ty::I(c.pick(5) as u8),
        2 => Ty::Bool,
        3 => Ty::Str,
        4 => Ty::Char,
        5 => Ty::Bytes,
        6 => Ty::Unit,
        7 => Ty::UnitStruct,
        8 => Ty::Opt(Box::new(gen_ty(c, d - 1))),
        9 => Ty::Seq(Box::new(gen_ty(c, d - 1))),
        10 => {
            let n = c.range(1, 4);
            Ty::Tuple((0..n).map(|_| gen_ty(c, d - 1)).collect())
        }
        11 => {
            let n = *c.choose(&[2usize, 3, 0]);
            Ty::TupleStruct((0..n).map(|_| gen_ty(c, d - 1)).collect())
        }
        12 => {
            let k = *c.choose(&[Key::Str, Key::Char]);
            Ty::Map(k, Box::new(gen_ty(c, d - 1)))
        }
        13 => Ty::Struct(gen_named(c, d - 1)),
        _ => {
            let n = c.range(1, 4);
            let names = distinct(c, &ALT_NAMES, n);
            Ty::Enum(
                names
                    .into_iter()
                    .map(|name| {
                        let v = match c.pick(4) {
                            0 => VTy::Unit,
                            1 | 2 => {
                                let n = *c.choose(&[2usize, 3, 0]);
                                VTy::Tuple((0..n).map(|_| gen_ty(c, d - 1)).collect())
                            }
                            _ => VTy::Struct(gen_named(c, d - 1)),
                        };
                        (name, v)
                    })
                    .collect(),
            )
        }
    }
}
fn gen_named(c: &mut Ctx, d: usize) -> Vec<(&'static str, Ty)> {
    let n = c.weighted(&[1, 4, 4, 2, 1]);
    let names = distinct(c, &FIELD_NAMES, n);
    names.into_iter().map(|n| (n, gen_ty(c, d))).collect()
}
fn gen_dat(c: &mut Ctx, t: &Ty) -> Dat {
    match t {
        Ty::Bool => Dat::Bool(c.flip()),
        Ty::I(w) => Dat::I(if *w == 4 { gen_int(c, i128::MIN, i128::MAX) } else { let h = (1i128 << (8 << w) >> 1) - 1; gen_int(c, -h - 1, h) }),
        Ty::U(w) => Dat::U(gen_uint(c, if *w == 4 { u128::MAX } else { (1u128 << (8 << w)) - 1 })),
        Ty::Char => Dat::Char(gen_char(c)),
        Ty::Str => Dat::Str(gen_string(c)),
        Ty::Bytes => {
            let n = c.range(0, 6);
            Dat::Bytes((0..n).map(|_| c.pick(256) as u8).collect())
        }
        Ty::Unit | Ty::UnitStruct => Dat::Unit,
        Ty::Opt(t) => Dat::Opt(if c.flip() { Some(Box::new(gen_dat(c, t))) } else { None }),
        Ty::Seq(t) => {
            let n = c.weighted(&[3, 4, 3, 1]);
            Dat::List((0..n).map(|_| gen_dat(c, t)).collect())
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) => Dat::List(ts.iter().map(|t| gen_dat(c, t)).collect()),
        Ty::Newtype(t) => Dat::List(vec![gen_dat(c, t)]),
        Ty::Map(k, t) => {
            let n = c.weighted(&[3, 4, 3, 1]);
            let mut l: Vec<(Dat, Dat)> = vec![];
            for _ in 0..n {
                let key = match k {
                    Key::Str => Dat::Str(gen_name(c)),
                    Key::Char => Dat::Char(gen_char(c)),
                };
                if l.iter().all(|(k, _)| *k != key) {
                    l.push((key, gen_dat(c, t)));
                }
            }
            Dat::Map(l)
        }
        Ty::Struct(fs) => Dat::List(fs.iter().map(|f| gen_dat(c, &f.1)).collect()),
        Ty::Enum(vs) => {
            let k = c.idx(vs.len());
            let l = match &vs[k].1 {
                VTy::Unit => vec![],
                VTy::Newtype(t) => vec![gen_dat(c, t)],
                VTy::Tuple(ts) => ts.iter().map(|t| gen_dat(c, t)).collect(),
                VTy::Struct(fs) => fs.iter().map(|f| gen_dat(c, &f.1)).collect(),
            };
            Dat::Alt(k, l)
        }
    }
}

// ------------------------------------------------------------ C33: what derive(Serialize) would do

struct Out<'a> {
    ty: &'a Ty,
    dat: &'a Dat,
    st: &'a Steps,
}
struct OutKey<'a>(Key, &'a Dat);
impl Serialize for OutKey<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.1 {
            Dat::Str(x) => s.serialize_str(x),
            Dat::Char(x) => s.serialize_char(*x),
            _ => unreachable!(),
        }
    }
}
impl Serialize for Out<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let st = self.st;
        if st.bad() {
            return Err(ser::Error::custom(st.msg()));
        }
        let out = |ty, dat| Out { ty, dat, st };
        match (self.ty, self.dat) {
            (Ty::Bool, Dat::Bool(b)) => s.serialize_bool(*b),
            (Ty::I(w), Dat::I(n)) => match w {
                0 => s.serialize_i8(*n as i8),
                1 => s.serialize_i16(*n as i16),
                2 => s.serialize_i32(*n as i32),
                3 => s.serialize_i64(*n as i64),
                _ => s.serialize_i128(*n),
            },
            (Ty::U(w), Dat::U(n)) => match w {
                0 => s.serialize_u8(*n as u8),
                1 => s.serialize_u16(*n as u16),
                2 => s.serialize_u32(*n as u32),
                3 => s.serialize_u64(*n as u64),
                _ => s.serialize_u128(*n),
            },
            (Ty::Char, Dat::Char(x)) => s.serialize_char(*x),
            (Ty::Str, Dat::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, Dat::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::UnitStruct, _) => s.serialize_unit_struct("Unit"),
            (Ty::Opt(_), Dat::Opt(None)) => s.serialize_none(),
            (Ty::Opt(t), Dat::Opt(Some(x))) => s.serialize_some(&out(t, x)),
            (Ty::Seq(t), Dat::List(l)) => {
                let mut q = s.serialize_seq(Some(l.len()))?;
                for x in l {
                    q.serialize_element(&out(t, x))?;
                }
                q.end()
            }
            (Ty::Tuple(ts), Dat::List(l)) => {
                let mut q = s.serialize_tuple(l.len())?;
                for (t, x) in ts.iter().zip(l) {
                    q.serialize_element(&out(t, x))?;
                }
                q.end()
            }
            (Ty::TupleStruct(ts), Dat::List(l)) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", l.len())?;
                for (t, x) in ts.iter().zip(l) {
                    q.serialize_field(&out(t, x))?;
                }
                q.end()
            }
            (Ty::Newtype(t), Dat::List(l)) => s.serialize_newtype_struct("Newtype", &out(t, &l[0])),
            (Ty::Map(k, t), Dat::Map(l)) => {
                let mut q = s.serialize_map(Some(l.len()))?;
                for (key, x) in l {
                    q.serialize_entry(&OutKey(*k, key), &out(t, x))?;
                }
                q.end()
            }
            (Ty::Struct(fs), Dat::List(l)) => {
                let mut q = s.serialize_struct("Struct", l.len())?;
                for (f, x) in fs.iter().zip(l) {
                    q.serialize_field(f.0, &out(&f.1, x))?;
                }
                q.end()
            }
            (Ty::Enum(vs), Dat::Alt(k, l)) => {
                let name = vs[*k].0;
                let i = *k as u32;
                match &vs[*k].1 {
                    VTy::Unit => s.serialize_unit_variant("Enum", i, name),
                    VTy::Newtype(t) => s.serialize_newtype_variant("Enum", i, name, &out(t, &l[0])),
                    VTy::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant("Enum", i, name, l.len())?;
                        for (t, x) in ts.iter().zip(l) {
                            q.serialize_field(&out(t, x))?;
                        }
                        q.end()
                    }
                    VTy::Struct(fs) => {
                        let mut q = s.serialize_struct_variant("Enum", i, name, l.len())?;
                        for (f, x) in fs.iter().zip(l) {
                            q.serialize_field(f.0, &out(&f.1, x))?;
                        }
                        q.end()
                    }
                }
            }
            _ => unreachable!("datum does not match its type"),
        }
    }
}

// ------------------------------------------------------------ C33: what derive(Deserialize) would do

#[derive(Clone, Copy)]
struct In<'a> {
    ty: &'a Ty,
    st: &'a Steps,
    /// fields are declared in the opposite order by the reader
    flip: bool,
}
fn slice_of<T>(v: Vec<T>) -> &'static [T] {
    // serde wants the names of fields as 'static; the few that are made are kept
    Vec::leak(v)
}
thread_local! {
    static NAMES: RefCell<BTreeMap<Vec<&'static str>, &'static [&'static str]>> = const { RefCell::new(BTreeMap::new()) };
}
fn statics(v: Vec<&'static str>) -> &'static [&'static str] {
    NAMES.with(|n| *n.borrow_mut().entry(v.clone()).or_insert_with(|| slice_of(v)))
}

impl<'a> In<'a> {
    fn at(self, ty: &'a Ty) -> In<'a> {
        In { ty, ..self }
    }
    fn step<E: de::Error>(self) -> Result<(), E> {
        if self.st.bad() {
            Err(E::custom(self.st.msg()))
        } else {
            Ok(())
        }
    }
    fn seq<'de, A: SeqAccess<'de>>(self, ts: &'a [&'a Ty], mut a: A) -> Result<Vec<Dat>, A::Error> {
        let mut l = vec![];
        for (i, t) in ts.iter().enumerate() {
            match a.next_element_seed(self.at(t))? {
                Some(x) => l.push(x),
                None => return Err(de::Error::invalid_length(i, &"more elements")),
            }
        }
        Ok(l)
    }
    fn fields<'de, A: MapAccess<'de>>(self, fs: &'a [(&'static str, Ty)], mut a: A) -> Result<Vec<Dat>, A::Error> {
        let mut got: Vec<Option<Dat>> = fs.iter().map(|_| None).collect();
        while let Some(k) = a.next_key_seed(Ident(fs.iter().map(|f| f.0).collect(), true))? {
            match k {
                Some(k) => {
                    if got[k].is_some() {
                        return Err(de::Error::duplicate_field(fs[k].0));
                    }
                    got[k] = Some(a.next_value_seed(self.at(&fs[k].1))?);
                }
                None => {
                    let _: de::IgnoredAny = a.next_value()?;
                }
            }
        }
        got.into_iter()
            .zip(fs)
            .map(|(x, f)| match (x, &f.1) {
                (Some(x), _) => Ok(x),
                (None, Ty::Opt(_)) => Ok(Dat::Opt(None)),
                _ => Err(de::Error::missing_field(f.0)),
            })
            .collect()
    }
}
/// field and variant identifiers; unknown ones are None if ignored
struct Ident(Vec<&'static str>, bool);
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an identifier")
    }
    fn visit_u64<E: de::Error>(self, n: u64) -> Result<Self::Value, E> {
        if (n as usize) < self.0.len() {
            Ok(Some(n as usize))
        } else if self.1 {
            Ok(None)
        } else {
            Err(E::invalid_value(de::Unexpected::Unsigned(n), &"a variant index"))
        }
    }
    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
        match self.0.iter().position(|x| *x == s) {
            Some(k) => Ok(Some(k)),
            None if self.1 => Ok(None),
            None => Err(E::custom(format!("unknown variant {s}"))),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Self::Value, E> {
        match self.0.iter().position(|x| x.as_bytes() == b) {
            Some(k) => Ok(Some(k)),
            None if self.1 => Ok(None),
            None => Err(E::custom("unknown variant")),
        }
    }
}
struct InKey(Key);
impl<'de> DeserializeSeed<'de> for InKey {
    type Value = Dat;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dat, D::Error> {
        match self.0 {
            Key::Str => String::deserialize(d).map(Dat::Str),
            Key::Char => char::deserialize(d).map(Dat::Char),
        }
    }
}
impl<'de, 'a> DeserializeSeed<'de> for In<'a> {
    type Value = Dat;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dat, D::Error> {
        self.step()?;
        match self.ty {
            Ty::Bool => bool::deserialize(d).map(Dat::Bool),
            Ty::I(w) => Ok(Dat::I(match w {
                0 => i8::deserialize(d)? as i128,
                1 => i16::deserialize(d)? as i128,
                2 => i32::deserialize(d)? as i128,
                3 => i64::deserialize(d)? as i128,
                _ => i128::deserialize(d)?,
            })),
            Ty::U(w) => Ok(Dat::U(match w {
                0 => u8::deserialize(d)? as u128,
                1 => u16::deserialize(d)? as u128,
                2 => u32::deserialize(d)? as u128,
                3 => u64::deserialize(d)? as u128,
                _ => u128::deserialize(d)?,
            })),
            Ty::Char => char::deserialize(d).map(Dat::Char),
            Ty::Str => String::deserialize(d).map(Dat::Str),
            Ty::Bytes => d.deserialize_byte_buf(self),
            Ty::Unit => <()>::deserialize(d).map(|_| Dat::Unit),
            Ty::UnitStruct => d.deserialize_unit_struct("Unit", self),
            Ty::Opt(_) => d.deserialize_option(self),
            Ty::Seq(_) => d.deserialize_seq(self),
            Ty::Tuple(ts) => d.deserialize_tuple(ts.len(), self),
            Ty::TupleStruct(ts) => d.deserialize_tuple_struct("TupleStruct", ts.len(), self),
            Ty::Newtype(_) => d.deserialize_newtype_struct("Newtype", self),
            Ty::Map(..) => d.deserialize_map(self),
            Ty::Struct(fs) => {
                let mut names: Vec<&'static str> = fs.iter().map(|f| f.0).collect();
                if self.flip {
                    names.reverse();
                }
                d.deserialize_struct("Struct", statics(names), self)
            }
            Ty::Enum(vs) => d.deserialize_enum("Enum", statics(vs.iter().map(|v| v.0).collect()), self),
        }
    }
}
macro_rules! no {
    ($self:ident) => {
        Err(de::Error::invalid_type(de::Unexpected::Other("something else"), &$self))
    };
}
impl<'de, 'a> Visitor<'de> for In<'a> {
    type Value = Dat;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a datum of the type asked for")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Dat, E> {
        match self.ty {
            Ty::UnitStruct => Ok(Dat::Unit),
            Ty::Opt(_) => Ok(Dat::Opt(None)),
            _ => no!(self),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Dat, E> {
        match self.ty {
            Ty::Opt(_) => Ok(Dat::Opt(None)),
            _ => no!(self),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dat, D::Error> {
        match self.ty {
            Ty::Opt(t) => Ok(Dat::Opt(Some(Box::new(self.at(t).deserialize(d)?)))),
            _ => no!(self),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dat, D::Error> {
        match self.ty {
            Ty::Newtype(t) => Ok(Dat::List(vec![self.at(t).deserialize(d)?])),
            _ => no!(self),
        }
    }
    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Dat, E> {
        match self.ty {
            Ty::Bytes => Ok(Dat::Bytes(b.to_vec())),
            _ => no!(self),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dat, A::Error> {
        match self.ty {
            Ty::Bytes => {
                let mut l = vec![];
                while let Some(b) = a.next_element::<u8>()? {
                    l.push(b);
                }
                Ok(Dat::Bytes(l))
            }
            Ty::Seq(t) => {
                let mut l = vec![];
                while let Some(x) = a.next_element_seed(self.at(t))? {
                    l.push(x);
                }
                Ok(Dat::List(l))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) => self.seq(&ts.iter().collect::<Vec<_>>(), a).map(Dat::List),
            Ty::Newtype(t) => self.seq(&[&**t], a).map(Dat::List),
            Ty::Struct(fs) => {
                let mut ts: Vec<&Ty> = fs.iter().map(|f| &f.1).collect();
                if self.flip {
                    ts.reverse();
                }
                let mut l = self.seq(&ts, a)?;
                if self.flip {
                    l.reverse();
                }
                Ok(Dat::List(l))
            }
            _ => no!(self),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dat, A::Error> {
        match self.ty {
            Ty::Struct(fs) => self.fields(fs, a).map(Dat::List),
            Ty::Map(k, t) => {
                let mut l = vec![];
                while let Some(key) = a.next_key_seed(InKey(*k))? {
                    let x = a.next_value_seed(self.at(t))?;
                    l.push((key, x));
                }
                Ok(Dat::Map(l))
            }
            _ => no!(self),
        }
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Dat, A::Error> {
        let Ty::Enum(vs) = self.ty else { return no!(self) };
        let (k, v) = a.variant_seed(Ident(vs.iter().map(|v| v.0).collect(), false))?;
        let k = k.unwrap();
        let l = match &vs[k].1 {
            VTy::Unit => {
                v.unit_variant()?;
                vec![]
            }
            VTy::Newtype(t) => vec![v.newtype_variant_seed(self.at(t))?],
            VTy::Tuple(ts) => v.tuple_variant(ts.len(), InTuple(self, ts))?,
            VTy::Struct(fs) => {
                let mut names: Vec<&'static str> = fs.iter().map(|f| f.0).collect();
                if self.flip {
                    names.reverse();
                }
                v.struct_variant(statics(names), InStruct(self, fs))?
            }
        };
        Ok(Dat::Alt(k, l))
    }
}
struct InTuple<'a>(In<'a>, &'a [Ty]);
impl<'de> Visitor<'de> for InTuple<'_> {
    type Value = Vec<Dat>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a tuple variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Dat>, A::Error> {
        self.0.seq(&self.1.iter().collect::<Vec<_>>(), a)
    }
}
struct InStruct<'a>(In<'a>, &'a [(&'static str, Ty)]);
impl<'de> Visitor<'de> for InStruct<'_> {
    type Value = Vec<Dat>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a struct variant")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Dat>, A::Error> {
        let mut ts: Vec<&Ty> = self.1.iter().map(|f| &f.1).collect();
        if self.0.flip {
            ts.reverse();
        }
        let mut l = self.0.seq(&ts, a)?;
        if self.0.flip {
            l.reverse();
        }
        Ok(l)
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<Dat>, A::Error> {
        self.0.fields(self.1, a)
    }
}

// ------------------------------------------------------------ C33: runs

/// the datum as it travels: to a value, from a value
fn there(ty: &Ty, dat: &Dat, st: &Steps) -> Result<Value<()>, String> {
    scale_value::serde::to_value(Out { ty, dat, st }).map_err(|e| e.to_string())
}
thread_local! {
    /// what a `Whole` is to be read as: from_value takes a type, not a seed
    static READ_AS: RefCell<Option<(Ty, Rc<Steps>, bool)>> = const { RefCell::new(None) };
}
struct Whole(Dat);
impl<'de> Deserialize<'de> for Whole {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let (ty, st, flip) = READ_AS.with(|r| r.borrow().clone()).unwrap();
        In { ty: &ty, st: &st, flip }.deserialize(d).map(Whole)
    }
}
fn back(door: u64, ty: &Ty, v: Value<()>, st: &Rc<Steps>, flip: bool) -> Result<Dat, String> {
    let seed = In { ty, st, flip };
    match door {
        0 => {
            READ_AS.with(|r| *r.borrow_mut() = Some((ty.clone(), st.clone(), flip)));
            scale_value::serde::from_value::<_, Whole>(v).map(|w| w.0).map_err(|e| e.to_string())
        }
        // the contexts are of no interest to the user type
        1 => {
            let n = Cell::new(0u32);
            let v = v.map_context(|_| {
                n.set(n.get() + 1);
                n.get()
            });
            seed.deserialize(v).map_err(|e| e.to_string())
        }
        _ => seed.deserialize(v.value).map_err(|e| e.to_string()),
    }
}

pub fn c33(c: &mut Ctx) -> RunResult {
    let d = c.range(0, 3);
    let ty = gen_ty(c, d);
    let n = c.range(1, 3);
    for _ in 0..n {
        let dat = gen_dat(c, &ty);
        let flip = c.chance(1, 3);
        let door = c.pick(3);
        c.note(|| format!("type {ty:?} datum {dat:?} door {door} reader's fields reversed: {flip}"));
        let quiet = Steps::new(None);
        let v = call("to_value", || there(&ty, &dat, &quiet))?;
        let v = match v {
            Ok(v) => v,
            Err(e) => bail!("datum-rejected", "{dat:?}: {ty:?} cannot become a value: {e}"),
        };
        let outs = quiet.n.get();
        let quiet = Steps::new(None);
        let got = call("from_value", || back(door, &ty, v.clone(), &quiet, flip))?;
        let ins = quiet.n.get();
        match &got {
            Ok(g) => ensure!(*g == dat, "datum-changed", "{dat:?}: {ty:?} became {v:?} and came back as {g:?}"),
            Err(e) => bail!("datum-lost", "{dat:?}: {ty:?} became {v:?} which cannot be read back: {e}"),
        }
        c.ev(format!("{dat:?}").as_bytes());
        // the user's impl fails at some point, on the way there and on the way back
        let k = c.pick(outs + 1);
        let st = Steps::new(Some(k));
        let r = call("to_value", || there(&ty, &dat, &st))?;
        if st.failed.get() {
            c.fault("source_fails");
            c.nontrivial();
            match r {
                Ok(x) => bail!("failure-swallowed", "to_value of {dat:?}: {ty:?} gave {x:?} although call {k} of its Serialize impl failed"),
                Err(e) => ensure!(e.contains(&st.msg()), "failure-renamed", "the failure {:?} became {e:?}", st.msg()),
            }
        } else {
            ensure!(r.as_ref() == Ok(&v), "not-repeatable", "to_value of {dat:?} gave {v:?} and then {r:?}");
        }
        let k = c.pick(ins + 1);
        let st = Steps::new(Some(k));
        let r = call("from_value", || back(door, &ty, v.clone(), &st, flip))?;
        if st.failed.get() {
            c.fault("consumer_fails");
            c.nontrivial();
            match r {
                Ok(x) => bail!("failure-swallowed", "{v:?} was read back as {x:?} although call {k} of the Deserialize impl failed"),
                Err(e) => ensure!(e.contains(&st.msg()), "failure-renamed", "the failure {:?} became {e:?}", st.msg()),
            }
            ensure!(st.after.get() == 0, "goes-on-after-failure", "{} more calls into the Deserialize impl after it failed", st.after.get());
        } else {
            ensure!(r.as_ref() == Ok(&dat), "not-repeatable", "{v:?} came back as {r:?}");
        }
        // and again without a failure
        let quiet = Steps::new(None);
        let again = call("retry", || there(&ty, &dat, &quiet).and_then(|v| back(door, &ty, v, &quiet, flip)))?;
        ensure!(again == Ok(dat.clone()), "no-recovery", "{dat:?}: {ty:?} comes back as {again:?} on a retry");
    }
    Ok(())
}

/// Known finding: newtypes are wrapped on the way there, but not unwrapped on the way back.
pub fn probe_newtype() -> RunResult {
    let u = Ty::U(0);
    let one = Dat::List(vec![Dat::U(5)]);
    for (ty, dat) in [
        (Ty::Newtype(Box::new(u.clone())), one.clone()),
        (Ty::Enum(vec![("B", VTy::Newtype(Box::new(u.clone())))]), Dat::Alt(0, vec![Dat::U(5)])),
    ] {
        let st = Steps::new(None);
        let v = call("to_value", || there(&ty, &dat, &st))?;
        let got = match v {
            Ok(v) => call("from_value", || back(0, &ty, v, &st, false))?,
            Err(e) => Err(e),
        };
        ensure!(got == Ok(dat.clone()), "datum-lost", "{dat:?}: {ty:?} came back as {got:?}");
    }
    Ok(())
}
