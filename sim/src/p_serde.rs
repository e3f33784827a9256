//! C16-C19: serde in both directions, against simulated formats, sources and consumers that fail.

use crate::alloc;
use crate::guard::call;
use crate::p_fmt::{some_wide, cut, gen_value, Shape};
use crate::p_text::V0;
use crate::refcodec::{bits_vec, gen_bits, gen_char, gen_int, gen_string, gen_uint, mk, strip};
use crate::tape::{Ctx, RunResult, Violation};
use crate::types::gen_name;
use crate::{bail, ensure};
use scale_value::serde::{from_value, to_value, DeserializerError, SerializerError, ValueSerializer};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

pub const BITS_KEY: &str = "__bitvec__values__";

/// The error of a simulated format.
#[derive(Debug, Clone, PartialEq)]
pub struct SimErr(pub String);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimErr {}
impl ser::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr(m.to_string())
    }
}
impl de::Error for SimErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        SimErr(m.to_string())
    }
}

/// Counts the calls of a seam and fails one of them.
#[derive(Default)]
pub struct Steps {
    pub n: Cell<u64>,
    pub fail_at: Cell<Option<u64>>,
    pub failed: Cell<bool>,
    pub after: Cell<u64>,
    pub hook: RefCell<Option<Rc<dyn Fn()>>>,
}
impl Steps {
    pub fn new(fail_at: Option<u64>) -> Rc<Steps> {
        let s = Steps::default();
        s.fail_at.set(fail_at);
        Rc::new(s)
    }
    pub fn msg(&self) -> String {
        format!("simulated failure at call {}", self.fail_at.get().unwrap_or(0))
    }
    /// true: this call has to fail
    pub fn bad(&self) -> bool {
        let h = self.hook.borrow().clone();
        if let Some(h) = h {
            h()
        }
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
        }
        let n = self.n.get();
        self.n.set(n + 1);
        if self.fail_at.get() == Some(n) {
            self.failed.set(true);
            return true;
        }
        self.failed.get()
    }
}

type Int = (bool, u128);
fn int_i(n: i128) -> Int {
    (n < 0, n.unsigned_abs())
}

// ------------------------------------------------------------ C16: a recording sink

#[derive(Debug, Clone, PartialEq)]
pub enum Out {
    Bool(bool),
    Int(Int),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Option<usize>, Vec<Out>),
    Tuple(usize, Vec<Out>),
    Map(Option<usize>, Vec<(Out, Out)>),
    Other(&'static str),
}
#[derive(Clone)]
pub struct Rec {
    pub st: Rc<Steps>,
    pub human: bool,
    /// like many formats: no 128-bit integers
    pub no128: bool,
}
pub struct RecSeq {
    r: Rec,
    len: Option<usize>,
    tuple: bool,
    other: Option<&'static str>,
    v: Vec<Out>,
}
pub struct RecMap {
    r: Rec,
    len: Option<usize>,
    other: Option<&'static str>,
    key: Option<Out>,
    v: Vec<(Out, Out)>,
}
impl Rec {
    fn step(&self) -> Result<(), SimErr> {
        if self.st.bad() {
            Err(SimErr(self.st.msg()))
        } else {
            Ok(())
        }
    }
    fn leaf(&self, o: Out) -> Result<Out, SimErr> {
        self.step()?;
        Ok(o)
    }
    fn seq(self, len: Option<usize>, tuple: bool, other: Option<&'static str>) -> Result<RecSeq, SimErr> {
        self.step()?;
        Ok(RecSeq { r: self, len, tuple, other, v: vec![] })
    }
    fn map(self, len: Option<usize>, other: Option<&'static str>) -> Result<RecMap, SimErr> {
        self.step()?;
        Ok(RecMap { r: self, len, other, key: None, v: vec![] })
    }
}
macro_rules! rec_int {
    ($($f:ident $t:ty),*) => {$(
        fn $f(self, v: $t) -> Result<Out, SimErr> {
            self.leaf(Out::Int((v as i128) .pipe(int_i)))
        }
    )*};
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for i128 {}
pub const NO128: &str = "this format has no 128-bit integers";
impl Serializer for Rec {
    type Ok = Out;
    type Error = SimErr;
    type SerializeSeq = RecSeq;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = RecSeq;
    type SerializeTupleVariant = RecSeq;
    type SerializeMap = RecMap;
    type SerializeStruct = RecMap;
    type SerializeStructVariant = RecMap;
    rec_int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_i128(self, v: i128) -> Result<Out, SimErr> {
        self.step()?;
        if self.no128 {
            return Err(SimErr(NO128.into()));
        }
        Ok(Out::Int(int_i(v)))
    }
    fn serialize_u128(self, v: u128) -> Result<Out, SimErr> {
        self.step()?;
        if self.no128 {
            return Err(SimErr(NO128.into()));
        }
        Ok(Out::Int((false, v)))
    }
    fn serialize_bool(self, v: bool) -> Result<Out, SimErr> {
        self.leaf(Out::Bool(v))
    }
    fn serialize_f32(self, _: f32) -> Result<Out, SimErr> {
        self.leaf(Out::Other("f32"))
    }
    fn serialize_f64(self, _: f64) -> Result<Out, SimErr> {
        self.leaf(Out::Other("f64"))
    }
    fn serialize_char(self, v: char) -> Result<Out, SimErr> {
        self.leaf(Out::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<Out, SimErr> {
        self.leaf(Out::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Out, SimErr> {
        self.leaf(Out::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Out, SimErr> {
        self.leaf(Out::Other("none"))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Out, SimErr> {
        self.leaf(Out::Other("some"))
    }
    fn serialize_unit(self) -> Result<Out, SimErr> {
        self.leaf(Out::Other("unit"))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Out, SimErr> {
        self.leaf(Out::Other("unit struct"))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Out, SimErr> {
        self.leaf(Out::Other("unit variant"))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Out, SimErr> {
        self.leaf(Out::Other("newtype struct"))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Out, SimErr> {
        self.leaf(Out::Other("newtype variant"))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<RecSeq, SimErr> {
        self.seq(len, false, None)
    }
    fn serialize_tuple(self, len: usize) -> Result<RecSeq, SimErr> {
        self.seq(Some(len), true, None)
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<RecSeq, SimErr> {
        self.seq(Some(len), true, Some("tuple struct"))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<RecSeq, SimErr> {
        self.seq(Some(len), true, Some("tuple variant"))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<RecMap, SimErr> {
        self.map(len, None)
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<RecMap, SimErr> {
        self.map(Some(len), Some("struct"))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, len: usize) -> Result<RecMap, SimErr> {
        self.map(Some(len), Some("struct variant"))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
impl RecSeq {
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.r.step()?;
        let o = v.serialize(self.r.clone())?;
        self.v.push(o);
        Ok(())
    }
    fn finish(self) -> Result<Out, SimErr> {
        self.r.step()?;
        Ok(match (self.other, self.tuple) {
            (Some(o), _) => Out::Other(o),
            (None, true) => Out::Tuple(self.len.unwrap_or(0), self.v),
            (None, false) => Out::Seq(self.len, self.v),
        })
    }
}
impl RecMap {
    fn finish(self) -> Result<Out, SimErr> {
        self.r.step()?;
        Ok(match self.other {
            Some(o) => Out::Other(o),
            None => Out::Map(self.len, self.v),
        })
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> Result<(), SimErr> {
        self.r.step()?;
        let o = v.serialize(self.r.clone())?;
        self.v.push((Out::Str(k.into()), o));
        Ok(())
    }
}
macro_rules! rec_seq {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for RecSeq {
            type Ok = Out;
            type Error = SimErr;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
                self.item(v)
            }
            fn end(self) -> Result<Out, SimErr> {
                self.finish()
            }
        }
    )*};
}
rec_seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for RecMap {
    type Ok = Out;
    type Error = SimErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), SimErr> {
        self.r.step()?;
        let o = k.serialize(self.r.clone())?;
        self.key = Some(o);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SimErr> {
        self.r.step()?;
        let o = v.serialize(self.r.clone())?;
        match self.key.take() {
            Some(k) => self.v.push((k, o)),
            None => return Err(SimErr("value without a key".into())),
        }
        Ok(())
    }
    fn end(self) -> Result<Out, SimErr> {
        self.finish()
    }
}
macro_rules! rec_struct {
    ($($tr:ident),*) => {$(
        impl ser::$tr for RecMap {
            type Ok = Out;
            type Error = SimErr;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), SimErr> {
                self.field(k, v)
            }
            fn end(self) -> Result<Out, SimErr> {
                self.finish()
            }
        }
    )*};
}
rec_struct!(SerializeStruct, SerializeStructVariant);

/// Do the recorded calls describe this value?
fn describes<T>(v: &ValueDef<T>, o: &Out) -> Result<(), String> {
    match (v, o) {
        (ValueDef::Primitive(p), o) => describes_prim(p, o),
        (ValueDef::BitSequence(b), Out::Map(len, m)) => {
            if *len != Some(1) || m.len() != 1 || m[0].0 != Out::Str(BITS_KEY.into()) {
                return Err(format!("bits sent as {o:?}"));
            }
            let (n, items) = match &m[0].1 {
                Out::Seq(n, i) => (*n, i),
                Out::Tuple(n, i) => (Some(*n), i),
                x => return Err(format!("bits sent as {x:?}")),
            };
            let want: Vec<Out> = bits_vec(b).into_iter().map(Out::Bool).collect();
            if *items != want || n.map(|n| n != want.len()).unwrap_or(false) {
                return Err(format!("bits sent as {o:?}"));
            }
            Ok(())
        }
        (ValueDef::Composite(c), o) => describes_comp(c, o),
        (ValueDef::Variant(x), o) => describes_variant(x, o),
        (_, o) => Err(format!("sent as {o:?}")),
    }
}
fn describes_prim(p: &Primitive, o: &Out) -> Result<(), String> {
    let ok = match (p, o) {
        (Primitive::Bool(b), Out::Bool(x)) => b == x,
        (Primitive::Char(a), Out::Char(x)) => a == x,
        (Primitive::String(a), Out::Str(x)) => a == x,
        (Primitive::U128(n), Out::Int(x)) => (false, *n) == *x,
        (Primitive::I128(n), Out::Int(x)) => int_i(*n) == *x,
        (Primitive::U256(b) | Primitive::I256(b), Out::Bytes(x)) => b[..] == x[..],
        (Primitive::U256(b) | Primitive::I256(b), Out::Tuple(32, x) | Out::Seq(Some(32), x)) => {
            *x == b.iter().map(|y| Out::Int((false, *y as u128))).collect::<Vec<_>>()
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{p:?} sent as {o:?}"))
    }
}
fn describes_comp<T>(c: &Composite<T>, o: &Out) -> Result<(), String> {
    match (c, o) {
        (Composite::Named(vs), Out::Map(len, m)) => {
            if *len != Some(vs.len()) || m.len() != vs.len() {
                return Err(format!("{} named fields sent as a map of declared length {len:?} with {} entries", vs.len(), m.len()));
            }
            for ((n, v), (k, x)) in vs.iter().zip(m) {
                if *k != Out::Str(n.clone()) {
                    return Err(format!("field {n:?} sent under key {k:?}"));
                }
                describes(&v.value, x)?;
            }
            Ok(())
        }
        (Composite::Unnamed(vs), Out::Seq(len, m)) => {
            if *len != Some(vs.len()) || m.len() != vs.len() {
                return Err(format!("{} unnamed fields sent as a sequence of declared length {len:?} with {} entries", vs.len(), m.len()));
            }
            vs.iter().zip(m).try_for_each(|(v, x)| describes(&v.value, x))
        }
        (_, o) => Err(format!("composite sent as {}", cut(&format!("{o:?}")))),
    }
}
fn describes_variant<T>(v: &Variant<T>, o: &Out) -> Result<(), String> {
    let Out::Map(Some(2), m) = o else { return Err(format!("variant sent as {}", cut(&format!("{o:?}")))) };
    let get = |k: &str| m.iter().filter(|(x, _)| *x == Out::Str(k.into())).map(|(_, v)| v).collect::<Vec<_>>();
    let (n, x) = (get("name"), get("values"));
    if m.len() != 2 || n.len() != 1 || x.len() != 1 {
        return Err(format!("variant sent as {}", cut(&format!("{o:?}"))));
    }
    if *n[0] != Out::Str(v.name.clone()) {
        return Err(format!("variant {:?} sent with name {:?}", v.name, n[0]));
    }
    describes_comp(&v.values, x[0])
}
/// does the value hold an integer that needs more than 64 bits? Signed ones above i64::MAX may be sent
/// either way (`may`).
fn wide(v: &ValueDef<u32>, may: bool) -> bool {
    let comp = |c: &Composite<u32>| crate::refcodec::kids(c).into_iter().any(|x| wide(&x.value, may));
    match v {
        ValueDef::Primitive(Primitive::U128(n)) => *n > u64::MAX as u128,
        ValueDef::Primitive(Primitive::I128(n)) => i64::try_from(*n).is_err() && (may || u64::try_from(*n).is_err()),
        ValueDef::Composite(c) => comp(c),
        ValueDef::Variant(x) => comp(&x.values),
        _ => false,
    }
}

pub fn c16(c: &mut Ctx) -> RunResult {
    let v = gen_value(c, Shape { depth: 4, big: true });
    let human = c.flip();
    let no128 = c.chance(1, 4);
    let part = c.flip();
    c.note(|| format!("value {} human {human} no128 {no128} part {part}", cut(&format!("{v:?}"))));
    let go = |st: &Rc<Steps>| {
        let r = Rec { st: st.clone(), human, no128 };
        call("serialize", || match (&v.value, part) {
            (ValueDef::Composite(x), true) => x.serialize(r),
            (ValueDef::Variant(x), true) => x.serialize(r),
            (ValueDef::Primitive(x), true) => x.serialize(r),
            (x, true) => x.serialize(r),
            (_, false) => v.serialize(r),
        })
    };
    let st = Steps::new(None);
    let r = go(&st)?;
    let total = st.n.get();
    match &r {
        Ok(o) => {
            if let Err(e) = describes(&v.value, o) {
                bail!("wrong-calls", "{} : {e}", cut(&format!("{v:?}")));
            }
            ensure!(!no128 || !wide(&v.value, false), "wrong-calls", "a 128-bit integer got through a format without them: {}", cut(&format!("{v:?}")));
        }
        Err(e) => {
            ensure!(*e == SimErr(NO128.into()), "error-changed", "the sink said {NO128:?}, the caller got {e:?}");
            ensure!(wide(&v.value, true), "wrong-calls", "a 128-bit call for a value whose integers fit 64 bits: {}", cut(&format!("{v:?}")));
            c.fault("sink_without_128_bit_integers");
        }
    }
    c.ev(format!("{r:?}").as_bytes());
    let tries = c.range(1, 4);
    for _ in 0..tries {
        let k = c.pick(total.max(1));
        let st = Steps::new(Some(k));
        let r = go(&st)?;
        c.fault("sink_failed");
        c.nontrivial();
        c.note(|| format!("sink fails at call {k} of {total} -> {r:?}"));
        ensure!(st.failed.get(), "calls-differ", "the failing call {k} of {total} was never made");
        ensure!(st.after.get() == 0, "call-after-failure", "{} call(s) after the sink failed at call {k}", st.after.get());
        ensure!(r == Err(SimErr(st.msg())), "error-changed", "the sink failed with {:?}, the caller got {}", st.msg(), cut(&format!("{r:?}")));
        c.ev_u(k);
    }
    Ok(())
}

// ------------------------------------------------------------ C17: a scripted source

#[derive(Debug, Clone)]
pub enum Src {
    Bool(bool),
    /// value and width in bits
    I(i128, u8),
    U(u128, u8),
    F32(f32),
    F64(f64),
    Char(char),
    /// 0 transient, 1 borrowed, 2 owned
    Str(String, u8),
    Bytes(Vec<u8>, u8),
    None,
    Some(Box<Src>),
    Unit,
    Newtype(Box<Src>),
    Seq(Vec<Src>, Option<usize>),
    Map(Vec<(Src, Src)>, Option<usize>),
    Enum(Box<Src>, Box<Src>),
}
#[derive(Clone, Copy)]
pub struct De<'a> {
    pub n: &'a Src,
    pub st: &'a Steps,
}
impl De<'_> {
    fn step(&self) -> Result<(), SimErr> {
        if self.st.bad() {
            Err(SimErr(self.st.msg()))
        } else {
            Ok(())
        }
    }
}
impl<'a> De<'a> {
    fn at(&self, n: &'a Src) -> De<'a> {
        De { n, st: self.st }
    }
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = SimErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, SimErr> {
        self.step()?;
        match self.n {
            Src::Bool(b) => v.visit_bool(*b),
            Src::I(n, 8) => v.visit_i8(*n as i8),
            Src::I(n, 16) => v.visit_i16(*n as i16),
            Src::I(n, 32) => v.visit_i32(*n as i32),
            Src::I(n, 64) => v.visit_i64(*n as i64),
            Src::I(n, _) => v.visit_i128(*n),
            Src::U(n, 8) => v.visit_u8(*n as u8),
            Src::U(n, 16) => v.visit_u16(*n as u16),
            Src::U(n, 32) => v.visit_u32(*n as u32),
            Src::U(n, 64) => v.visit_u64(*n as u64),
            Src::U(n, _) => v.visit_u128(*n),
            Src::F32(x) => v.visit_f32(*x),
            Src::F64(x) => v.visit_f64(*x),
            Src::Char(x) => v.visit_char(*x),
            Src::Str(s, 0) => v.visit_str(s),
            Src::Str(s, 1) => v.visit_borrowed_str(s),
            Src::Str(s, _) => v.visit_string(s.clone()),
            Src::Bytes(s, 0) => v.visit_bytes(s),
            Src::Bytes(s, 1) => v.visit_borrowed_bytes(s),
            Src::Bytes(s, _) => v.visit_byte_buf(s.clone()),
            Src::None => v.visit_none(),
            Src::Some(x) => v.visit_some(self.at(x)),
            Src::Unit => v.visit_unit(),
            Src::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            Src::Seq(xs, hint) => v.visit_seq(SeqA { d: self, xs, i: 0, hint: *hint }),
            Src::Map(xs, hint) => v.visit_map(MapA { d: self, xs, i: 0, hint: *hint }),
            Src::Enum(n, x) => v.visit_enum(EnumA { d: self, n, x }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct SeqA<'a> {
    d: De<'a>,
    xs: &'a [Src],
    i: usize,
    hint: Option<usize>,
}
impl<'a> SeqAccess<'a> for SeqA<'a> {
    type Error = SimErr;
    fn next_element_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, SimErr> {
        self.d.step()?;
        let Some(x) = self.xs.get(self.i) else { return Ok(None) };
        self.i += 1;
        s.deserialize(self.d.at(x)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct MapA<'a> {
    d: De<'a>,
    xs: &'a [(Src, Src)],
    i: usize,
    hint: Option<usize>,
}
impl<'a> MapAccess<'a> for MapA<'a> {
    type Error = SimErr;
    fn next_key_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, SimErr> {
        self.d.step()?;
        let Some((k, _)) = self.xs.get(self.i) else { return Ok(None) };
        self.i += 1;
        s.deserialize(self.d.at(k)).map(Some)
    }
    fn next_value_seed<S: DeserializeSeed<'a>>(&mut self, s: S) -> Result<S::Value, SimErr> {
        self.d.step()?;
        s.deserialize(self.d.at(&self.xs[self.i - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct EnumA<'a> {
    d: De<'a>,
    n: &'a Src,
    x: &'a Src,
}
impl<'a> EnumAccess<'a> for EnumA<'a> {
    type Error = SimErr;
    type Variant = De<'a>;
    fn variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<(S::Value, De<'a>), SimErr> {
        self.d.step()?;
        let n = s.deserialize(self.d.at(self.n))?;
        Ok((n, self.d.at(self.x)))
    }
}
impl<'a> VariantAccess<'a> for De<'a> {
    type Error = SimErr;
    fn unit_variant(self) -> Result<(), SimErr> {
        self.step()?;
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'a>>(self, s: S) -> Result<S::Value, SimErr> {
        self.step()?;
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, v: V) -> Result<V::Value, SimErr> {
        self.deserialize_any(v)
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, SimErr> {
        self.deserialize_any(v)
    }
}

const WIDTHS: [u8; 5] = [8, 16, 32, 64, 128];
fn gen_i(c: &mut Ctx) -> (i128, u8) {
    let w = *c.choose(&WIDTHS);
    let (lo, hi) = if w == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
    (gen_int(c, lo, hi), w)
}
fn gen_u(c: &mut Ctx) -> (u128, u8) {
    let w = *c.choose(&WIDTHS);
    let hi = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    (gen_uint(c, hi), w)
}
fn gen_hint(c: &mut Ctx, n: usize) -> Option<usize> {
    match c.weighted(&[4, 2, 2]) {
        0 => Some(n),
        1 => None,
        _ => {
            c.fault("size_hint_lied");
            if c.chance(1, 8) {
                return crate::dict::number(c).and_then(|n| usize::try_from(n).ok());
            }
            Some(*c.choose(&[0usize, 1, 1023, 1024, 1025, 1 << 20, 1 << 40, usize::MAX / 2, usize::MAX, usize::MAX / 72 + 1]))
        }
    }
}
/// around the border of two-byte counts
fn huge(c: &mut Ctx) -> usize {
    c.probe("huge");
    *c.choose(&[65535usize, 65536, 65537, 70001])
}
pub fn gen_src(c: &mut Ctx, d: usize, odd: bool) -> Src {
    let deep = if d > 0 { 1 } else { 0 };
    match c.weighted(&[4, 3, 2, 2, 3, 2, if odd { 1 } else { 0 }, 1, 1, 6 * deep, 6 * deep, 3 * deep, 2 * deep, 2 * deep, deep]) {
        0 => {
            let (n, w) = gen_u(c);
            Src::U(n, w)
        }
        1 => {
            let (n, w) = gen_i(c);
            Src::I(n, w)
        }
        2 => Src::Bool(c.flip()),
        3 => Src::Char(gen_char(c)),
        4 => Src::Str(gen_string(c), c.pick(3) as u8),
        5 => {
            let n = match c.weighted(&[15, 10, 2]) {
                0 => c.range(0, 6),
                1 => *c.choose(&[31usize, 32, 33]),
                _ if c.chance(1, 2000) => huge(c),
                _ => crate::dict::count(c, 300).unwrap_or(1),
            };
            Src::Bytes((0..n).map(|_| c.pick(256) as u8).collect(), c.pick(3) as u8)
        }
        6 => {
            if c.flip() {
                Src::F32(1.5)
            } else {
                Src::F64(-0.25)
            }
        }
        7 => Src::Unit,
        8 => Src::None,
        9 => {
            let wide = c.chance(1, 100);
            let n = if wide { some_wide(c) } else { c.weighted(&[2, 3, 3, 2, 1]) };
            let v = (0..n).map(|_| gen_src(c, if wide { 0 } else { d - 1 }, odd && !wide)).collect();
            Src::Seq(v, gen_hint(c, n))
        }
        10 => {
            let wide = c.chance(1, 100);
            let n = if wide { some_wide(c) } else { c.weighted(&[2, 3, 3, 2]) };
            let odd = odd && !wide;
            let v = (0..n)
                .map(|_| {
                    let k = gen_key(c, odd);
                    (k, gen_src(c, if wide { 0 } else { d - 1 }, odd))
                })
                .collect();
            Src::Map(v, gen_hint(c, n))
        }
        11 => {
            let name = gen_key(c, odd);
            let pay = match c.weighted(&[3, 3, 1, 1, 1]) {
                0 => {
                    let n = c.range(0, 3);
                    Src::Seq((0..n).map(|_| gen_src(c, d - 1, odd)).collect(), gen_hint(c, n))
                }
                1 => {
                    let n = c.range(0, 3);
                    Src::Map((0..n).map(|_| (gen_key(c, odd), gen_src(c, d - 1, odd))).collect(), gen_hint(c, n))
                }
                2 => Src::Unit,
                3 => Src::Newtype(Box::new(Src::Seq(vec![gen_src(c, d - 1, odd)], None))),
                _ => gen_src(c, d - 1, odd),
            };
            Src::Enum(Box::new(name), Box::new(pay))
        }
        12 => Src::Some(Box::new(gen_src(c, d - 1, odd))),
        13 => Src::Newtype(Box::new(gen_src(c, d - 1, odd))),
        // a bit sequence (or something that claims to be one)
        _ => {
            let bits = bits_vec(&gen_bits(c));
            let n = bits.len();
            let mut xs: Vec<Src> = bits.into_iter().map(Src::Bool).collect();
            if odd && n > 0 && c.chance(1, 4) {
                let k = c.idx(n);
                xs[k] = Src::U(1, 8);
            }
            let mut m = vec![(Src::Str(BITS_KEY.into(), c.pick(3) as u8), Src::Seq(xs, gen_hint(c, n)))];
            if c.chance(1, 4) {
                m.push((gen_key(c, odd), gen_src(c, d - 1, odd)));
            }
            let n = m.len();
            if c.chance(1, 6) {
                m.reverse();
            }
            Src::Map(m, gen_hint(c, n))
        }
    }
}
fn gen_key(c: &mut Ctx, odd: bool) -> Src {
    match c.weighted(&[12, 1, 1, if odd { 1 } else { 0 }, 1]) {
        // close to the marker of bit sequences, but not it
        4 => {
            let k = *c.choose(&["__bitvec__values__x", "__bitvec__values_", "__bitvec__values", "_bitvec__values__", "__BITVEC__VALUES__", "x__bitvec__values__", " __bitvec__values__"]);
            Src::Str(k.into(), c.pick(3) as u8)
        }
        0 => Src::Str(gen_name(c), c.pick(3) as u8),
        1 => Src::Char(gen_char(c)),
        2 => Src::Bytes(
            match c.pick(3) {
                0 => vec![],
                1 => b"key".to_vec(),
                _ => {
                    if odd {
                        vec![0xff, 0xfe]
                    } else {
                        "é".as_bytes().to_vec()
                    }
                }
            },
            c.pick(3) as u8,
        ),
        _ => match c.pick(4) {
            0 => Src::U(1, 8),
            1 => Src::Unit,
            2 => Src::Newtype(Box::new(Src::Str("a".into(), 0))),
            _ => Src::Some(Box::new(Src::Str("a".into(), 0))),
        },
    }
}

type M<T> = Option<T>;
fn m_key(s: &Src) -> M<String> {
    match s {
        Src::Str(s, _) => Some(s.clone()),
        Src::Char(ch) => Some(ch.to_string()),
        Src::Bytes(b, _) => String::from_utf8(b.clone()).ok(),
        _ => None,
    }
}
fn u0(d: ValueDef<()>) -> V0 {
    mk(d, ())
}
fn m_prim_leaf(s: &Src) -> M<Primitive> {
    Some(match s {
        Src::Bool(b) => Primitive::Bool(*b),
        Src::I(n, _) => Primitive::I128(*n),
        Src::U(n, _) => Primitive::U128(*n),
        Src::Char(x) => Primitive::Char(*x),
        Src::Str(x, _) => Primitive::String(x.clone()),
        _ => return None,
    })
}
fn m_prim(s: &Src) -> M<Primitive> {
    match s {
        Src::Bytes(b, _) => Some(Primitive::U256(b.clone().try_into().ok()?)),
        Src::Seq(xs, _) => {
            // a u8 is read from any integer of up to 64 bits that fits
            let b: Option<Vec<u8>> = xs
                .iter()
                .map(|x| match x {
                    Src::U(n, w) if *w < 128 => u8::try_from(*n).ok(),
                    Src::I(n, w) if *w < 128 => u8::try_from(*n).ok(),
                    _ => None,
                })
                .collect();
            Some(Primitive::U256(b?.try_into().ok()?))
        }
        s => m_prim_leaf(s),
    }
}
fn m_comp(s: &Src) -> M<Composite<()>> {
    Some(match s {
        Src::Bytes(b, _) => Composite::Unnamed(b.iter().map(|x| Value::u128(*x as u128)).collect()),
        Src::Unit => Composite::Unnamed(vec![]),
        Src::Newtype(x) => return m_comp(x),
        Src::Seq(xs, _) => Composite::Unnamed(xs.iter().map(m_value).collect::<Option<_>>()?),
        Src::Map(xs, _) => Composite::Named(xs.iter().map(|(k, x)| Some((m_key(k)?, m_value(x)?))).collect::<Option<_>>()?),
        _ => return None,
    })
}
fn m_variant(s: &Src) -> M<Variant<()>> {
    Some(match s {
        Src::None => Variant { name: "None".into(), values: Composite::Unnamed(vec![]) },
        Src::Some(x) => Variant { name: "Some".into(), values: Composite::Unnamed(vec![m_value(x)?]) },
        Src::Enum(n, x) => Variant { name: m_key(n)?, values: m_comp(x)? },
        Src::Map(xs, _) => {
            let (mut name, mut values) = (None, None);
            for (k, x) in xs {
                match &*m_key(k)? {
                    "name" => name = Some(m_key(x)?),
                    "values" => values = Some(m_comp(x)?),
                    _ => return None,
                }
            }
            Variant { name: name?, values: values? }
        }
        _ => return None,
    })
}
fn m_value(s: &Src) -> M<V0> {
    Some(match s {
        Src::F32(_) | Src::F64(_) => return None,
        Src::Newtype(x) => return m_value(x),
        Src::Bytes(..) | Src::Unit | Src::Seq(..) => u0(ValueDef::Composite(m_comp(s)?)),
        Src::None | Src::Some(_) | Src::Enum(..) => u0(ValueDef::Variant(m_variant(s)?)),
        Src::Map(xs, _) => {
            if let Some((k, x)) = xs.first() {
                if m_key(k)? == BITS_KEY {
                    let Src::Seq(bs, _) = x else { return None };
                    let mut b = scale_value::BitSequence::new();
                    for y in bs {
                        match y {
                            Src::Bool(t) => b.push(*t),
                            _ => return None,
                        }
                    }
                    return Some(u0(ValueDef::BitSequence(b)));
                }
            }
            u0(ValueDef::Composite(m_comp(s)?))
        }
        s => u0(ValueDef::Primitive(m_prim_leaf(s)?)),
    })
}
/// (compound nodes, bit-sequence candidates, all nodes and bytes)
fn weigh(s: &Src, w: &mut (usize, usize, usize)) {
    w.2 += 1;
    match s {
        Src::Str(x, _) => w.2 += x.len(),
        Src::Bytes(x, _) => w.2 += x.len(),
        Src::Some(x) | Src::Newtype(x) => weigh(x, w),
        Src::Seq(xs, _) => {
            w.0 += 1;
            xs.iter().for_each(|x| weigh(x, w))
        }
        Src::Map(xs, _) => {
            w.0 += 1;
            if let Some((k, _)) = xs.first() {
                if m_key(k).as_deref() == Some(BITS_KEY) {
                    w.1 += 1
                }
            }
            xs.iter().for_each(|(k, x)| {
                weigh(k, w);
                weigh(x, w)
            })
        }
        Src::Enum(n, x) => {
            weigh(n, w);
            weigh(x, w)
        }
        _ => {}
    }
}

pub fn c17(c: &mut Ctx) -> RunResult {
    let odd = c.chance(1, 4);
    let d = c.range(0, 4);
    let door = c.weighted(&[6, 2, 2, 2, 1]);
    let src = match door {
        // what the sink receives for a variant is what a source sends for one
        3 if c.flip() => {
            let mut m = vec![
                (Src::Str("name".into(), c.pick(3) as u8), gen_key(c, odd)),
                (Src::Str("values".into(), c.pick(3) as u8), if c.flip() { Src::Seq((0..c.range(0, 3)).map(|_| gen_src(c, d, odd)).collect(), gen_hint(c, 2)) } else { gen_src(c, d, odd) }),
            ];
            if c.flip() {
                m.reverse();
            }
            match c.weighted(&[6, 1, 1]) {
                0 => {}
                1 => {
                    m.pop();
                }
                _ => {
                    let x = (gen_key(c, odd), gen_src(c, 0, odd));
                    m.push(x);
                }
            }
            let n = m.len();
            Src::Map(m, gen_hint(c, n))
        }
        4 if c.flip() => {
            let n = *c.choose(&[31usize, 32, 32, 32, 33, 64]);
            let w = *c.choose(&WIDTHS);
            let mut xs: Vec<Src> = (0..n).map(|_| Src::U(c.pick(256) as u128, w)).collect();
            if c.chance(1, 4) {
                let k = c.idx(n);
                xs[k] = gen_src(c, 0, odd);
            }
            Src::Seq(xs, gen_hint(c, n))
        }
        _ => gen_src(c, d, odd),
    };
    c.note(|| format!("door {door} source {}", cut(&format!("{src:?}"))));
    let mut w = (0, 0, 0);
    weigh(&src, &mut w);
    let bound = 4096 + w.2 * 1024 + w.0 * 160 * 1024 + w.1 * (1 << 20) * 5 / 4;

    #[derive(Debug, PartialEq)]
    enum Got {
        V(V0),
        C(Composite<()>),
        X(Variant<()>),
        P(Primitive),
    }
    let want = match door {
        0 => m_value(&src).map(Got::V),
        1 => m_value(&src).map(Got::V),
        2 => m_comp(&src).map(Got::C),
        3 => m_variant(&src).map(Got::X),
        _ => m_prim(&src).map(Got::P),
    };
    let go = |st: &Rc<Steps>| -> Result<(Result<Got, SimErr>, alloc::Usage), Violation> {
        let de = De { n: &src, st };
        call("deserialize", || {
            alloc::measure(|| match door {
                0 => Value::deserialize(de).map(Got::V),
                1 => ValueDef::deserialize(de).map(|d| Got::V(u0(d))),
                2 => Composite::deserialize(de).map(Got::C),
                3 => Variant::deserialize(de).map(Got::X),
                _ => Primitive::deserialize(de).map(Got::P),
            })
        })
    };
    let st = Steps::new(None);
    let (r, u) = go(&st)?;
    let total = st.n.get();
    c.note(|| format!("-> {} using {} bytes", cut(&format!("{r:?}")), u.peak));
    ensure!(u.peak <= bound, "memory", "{} source nodes and bytes held {} bytes (bound {bound}, biggest request {})", w.2, u.peak, u.biggest);
    match (&want, &r) {
        (Some(a), Ok(b)) => ensure!(a == b, "wrong-value", "the source presents {a:?}, got {b:?}"),
        (None, Err(_)) => c.probe("source_has_no_counterpart"),
        (Some(a), Err(e)) => bail!("rejected-valid", "the source presents {a:?}, got {e:?}"),
        (None, Ok(b)) => bail!("accepted-invalid", "{} has no counterpart but gave {b:?}", cut(&format!("{src:?}"))),
    }
    c.ev(format!("{r:?}").as_bytes());
    let tries = c.range(1, 4);
    for _ in 0..tries {
        let k = c.pick(total.max(1));
        let st = Steps::new(Some(k));
        let (r, u) = go(&st)?;
        c.fault("source_failed");
        c.nontrivial();
        c.note(|| format!("source fails at {k} of {total} -> {r:?}"));
        ensure!(st.failed.get(), "calls-differ", "the failing call {k} of {total} was never made");
        ensure!(st.after.get() == 0, "call-after-failure", "{} call(s) after the source failed at {k}", st.after.get());
        ensure!(r == Err(SimErr(st.msg())), "error-changed", "the source failed with {:?}, the caller got {}", st.msg(), cut(&format!("{r:?}")));
        ensure!(u.peak <= bound, "memory", "failed at {k}: {} bytes held", u.peak);
        c.ev_u(k);
    }
    Ok(())
}

// ------------------------------------------------------------ C18: a scripted consumer

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Any,
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    String,
    Bytes,
    ByteBuf,
    Option,
    Unit,
    UnitStruct,
    Newtype,
    Seq,
    Tuple(usize),
    TupleStruct(usize),
    Map,
    Struct,
    Enum,
    Identifier,
    Ignored,
}
const HINTS: [Hint; 31] = [
    Hint::Any,
    Hint::Bool,
    Hint::I8,
    Hint::I16,
    Hint::I32,
    Hint::I64,
    Hint::I128,
    Hint::U8,
    Hint::U16,
    Hint::U32,
    Hint::U64,
    Hint::U128,
    Hint::F32,
    Hint::F64,
    Hint::Char,
    Hint::Str,
    Hint::String,
    Hint::Bytes,
    Hint::ByteBuf,
    Hint::Option,
    Hint::Unit,
    Hint::UnitStruct,
    Hint::Newtype,
    Hint::Seq,
    Hint::Tuple(0),
    Hint::TupleStruct(0),
    Hint::Map,
    Hint::Struct,
    Hint::Enum,
    Hint::Identifier,
    Hint::Ignored,
];
/// The requests a consumer will make, in order; past the end: Any.
#[derive(Clone, Debug, Default)]
pub struct Asks {
    pub hints: Vec<Hint>,
    pub ways: Vec<u8>,
}
#[derive(Default)]
pub struct CState {
    pub steps: Rc<Steps>,
    pub events: RefCell<Vec<String>>,
    pub asked: Cell<usize>,
    pub varied: Cell<usize>,
    pub asks: Asks,
    pub bad_hint: RefCell<Option<String>>,
}
impl CState {
    fn next(&self) -> Hint {
        let i = self.asked.get();
        self.asked.set(i + 1);
        self.asks.hints.get(i).copied().unwrap_or(Hint::Any)
    }
    fn way(&self) -> u8 {
        let i = self.varied.get();
        self.varied.set(i + 1);
        self.asks.ways.get(i).copied().unwrap_or(0)
    }
    fn ev<E: de::Error>(&self, s: String) -> Result<(), E> {
        self.events.borrow_mut().push(s);
        if self.steps.bad() {
            Err(E::custom(self.steps.msg()))
        } else {
            Ok(())
        }
    }
}
pub fn request<'de, D: Deserializer<'de>>(d: D, st: &CState) -> Result<(), D::Error> {
    let h = st.next();
    let v = Con(st);
    match h {
        Hint::Any => d.deserialize_any(v),
        Hint::Bool => d.deserialize_bool(v),
        Hint::I8 => d.deserialize_i8(v),
        Hint::I16 => d.deserialize_i16(v),
        Hint::I32 => d.deserialize_i32(v),
        Hint::I64 => d.deserialize_i64(v),
        Hint::I128 => d.deserialize_i128(v),
        Hint::U8 => d.deserialize_u8(v),
        Hint::U16 => d.deserialize_u16(v),
        Hint::U32 => d.deserialize_u32(v),
        Hint::U64 => d.deserialize_u64(v),
        Hint::U128 => d.deserialize_u128(v),
        Hint::F32 => d.deserialize_f32(v),
        Hint::F64 => d.deserialize_f64(v),
        Hint::Char => d.deserialize_char(v),
        Hint::Str => d.deserialize_str(v),
        Hint::String => d.deserialize_string(v),
        Hint::Bytes => d.deserialize_bytes(v),
        Hint::ByteBuf => d.deserialize_byte_buf(v),
        Hint::Option => d.deserialize_option(v),
        Hint::Unit => d.deserialize_unit(v),
        Hint::UnitStruct => d.deserialize_unit_struct("U", v),
        Hint::Newtype => d.deserialize_newtype_struct("N", v),
        Hint::Seq => d.deserialize_seq(v),
        Hint::Tuple(n) => d.deserialize_tuple(n, v),
        Hint::TupleStruct(n) => d.deserialize_tuple_struct("T", n, v),
        Hint::Map => d.deserialize_map(v),
        Hint::Struct => d.deserialize_struct("S", &["a", "b"], v),
        Hint::Enum => d.deserialize_enum("E", &["Some", "None"], v),
        Hint::Identifier => d.deserialize_identifier(v),
        Hint::Ignored => d.deserialize_ignored_any(v),
    }
}
struct Con<'s>(&'s CState);
struct Ask<'s>(&'s CState);
impl<'de> DeserializeSeed<'de> for Ask<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        request(d, self.0)
    }
}
/// keys and names are always asked for plainly
struct AskName<'s>(&'s CState);
impl<'de> DeserializeSeed<'de> for AskName<'_> {
    type Value = ();
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(Con(self.0))
    }
}
macro_rules! con_int {
    ($($f:ident $t:ty),*) => {$(
        fn $f<E: de::Error>(self, v: $t) -> Result<(), E> {
            self.0.ev(format!("int {v}"))
        }
    )*};
}
impl<'de> Visitor<'de> for Con<'_> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("whatever comes")
    }
    con_int!(visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128, visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128);
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> {
        self.0.ev(format!("bool {v}"))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<(), E> {
        self.0.ev(format!("f32 {v}"))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        self.0.ev(format!("f64 {v}"))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<(), E> {
        self.0.ev(format!("char {v:?}"))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.0.ev(format!("str {v:?}"))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<(), E> {
        self.0.ev(format!("bytes {v:02x?}"))
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.0.ev("none".into())
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.0.ev("unit".into())
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.ev::<D::Error>("some".into())?;
        request(d, self.0)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.ev::<D::Error>("newtype".into())?;
        request(d, self.0)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.0.ev::<A::Error>("seq".into())?;
        let hint = a.size_hint();
        let mut n = 0;
        while a.next_element_seed(Ask(self.0))?.is_some() {
            n += 1
        }
        self.0.ev::<A::Error>("end".into())?;
        if hint.map(|h| h != n).unwrap_or(false) {
            *self.0.bad_hint.borrow_mut() = Some(format!("a sequence of {n} announced {hint:?}"));
        }
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.0.ev::<A::Error>("map".into())?;
        let hint = a.size_hint();
        let mut n = 0;
        while a.next_key_seed(AskName(self.0))?.is_some() {
            a.next_value_seed(Ask(self.0))?;
            n += 1
        }
        self.0.ev::<A::Error>("end".into())?;
        if hint.map(|h| h != n).unwrap_or(false) {
            *self.0.bad_hint.borrow_mut() = Some(format!("a map of {n} announced {hint:?}"));
        }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        self.0.ev::<A::Error>("enum".into())?;
        let (_, v) = a.variant_seed(AskName(self.0))?;
        let w = self.0.way();
        match w % 4 {
            0 => v.newtype_variant_seed(Ask(self.0)),
            1 => v.unit_variant(),
            2 => v.tuple_variant((w / 4) as usize, Con(self.0)),
            _ => v.struct_variant(&["a", "b"], Con(self.0)),
        }
    }
}

/// The model of a value as a source: what a consumer with these requests is told.
struct Teller<'s> {
    asks: &'s Asks,
    asked: usize,
    varied: usize,
    ev: Vec<String>,
}
enum Item<'v> {
    V(&'v ValueDef<u32>),
    C(&'v Composite<u32>),
    X(&'v Variant<u32>),
    P(&'v Primitive),
    B(bool),
}
type TR = Result<(), ()>;
impl Teller<'_> {
    fn say(&mut self, s: impl Into<String>) -> TR {
        self.ev.push(s.into());
        Ok(())
    }
    fn request(&mut self, it: Item) -> TR {
        let h = self.asks.hints.get(self.asked).copied().unwrap_or(Hint::Any);
        self.asked += 1;
        self.answer(it, h)
    }
    fn one(&mut self, it: Item) -> TR {
        self.say("seq")?;
        self.request(it)?;
        self.say("end")
    }
    fn answer(&mut self, it: Item, h: Hint) -> TR {
        match it {
            // the elements of a bit sequence are plain booleans, which answer every request as such
            Item::B(b) => self.say(format!("bool {b}")),
            Item::V(ValueDef::BitSequence(b)) => match h {
                Hint::Newtype | Hint::Tuple(_) | Hint::TupleStruct(_) | Hint::Unit | Hint::UnitStruct | Hint::Enum | Hint::Bytes | Hint::ByteBuf | Hint::Seq | Hint::Map => Err(()),
                _ => {
                    self.say("map")?;
                    self.say(format!("str {BITS_KEY:?}"))?;
                    let bits = bits_vec(b);
                    self.bools(&bits)?;
                    self.say("end")
                }
            },
            Item::V(ValueDef::Composite(c)) => self.comp(c, h),
            Item::V(ValueDef::Variant(x)) => {
                if h == Hint::Option {
                    if let Composite::Unnamed(vs) = &x.values {
                        if x.name == "Some" && vs.len() == 1 {
                            self.say("some")?;
                            return self.request(Item::V(&vs[0].value));
                        }
                        if x.name == "None" && vs.is_empty() {
                            return self.say("none");
                        }
                    }
                }
                // (a wrapped variant does not pass a struct request on to its fields; a bare one does)
                self.variant(x, if h == Hint::Struct { Hint::Any } else { h })
            }
            Item::V(ValueDef::Primitive(p)) => self.prim(p, h),
            Item::C(c) => self.comp(c, h),
            Item::X(x) => self.variant(x, h),
            Item::P(p) => self.prim(p, h),
        }
    }
    /// the list of bits is a plain list of booleans: a sequence, whatever is asked for
    fn bools(&mut self, bits: &[bool]) -> TR {
        self.asked += 1;
        self.say("seq")?;
        for b in bits {
            self.request(Item::B(*b))?;
        }
        self.say("end")
    }
    fn seq(&mut self, c: &Composite<u32>) -> TR {
        self.say("seq")?;
        for x in crate::refcodec::kids(c) {
            self.request(Item::V(&x.value))?;
        }
        self.say("end")
    }
    fn comp_any(&mut self, c: &Composite<u32>) -> TR {
        match c {
            Composite::Unnamed(_) => self.seq(c),
            Composite::Named(vs) => {
                self.say("map")?;
                for (n, x) in vs {
                    self.say(format!("str {n:?}"))?;
                    self.request(Item::V(&x.value))?;
                }
                self.say("end")
            }
        }
    }
    fn comp(&mut self, c: &Composite<u32>, h: Hint) -> TR {
        match h {
            Hint::Seq => self.seq(c),
            Hint::Tuple(n) | Hint::TupleStruct(n) => {
                if c.len() != n {
                    return Err(());
                }
                self.seq(c)
            }
            Hint::Unit | Hint::UnitStruct => {
                if c.is_empty() {
                    self.say("unit")
                } else {
                    Err(())
                }
            }
            Hint::Newtype => self.one(Item::C(c)),
            Hint::Bytes | Hint::ByteBuf => {
                let b: Option<Vec<u8>> = crate::refcodec::kids(c)
                    .into_iter()
                    .map(|x| match &x.value {
                        ValueDef::Primitive(Primitive::U128(n)) => u8::try_from(*n).ok(),
                        _ => None,
                    })
                    .collect();
                match b {
                    Some(b) => self.say(format!("bytes {b:02x?}")),
                    None => Err(()),
                }
            }
            _ => self.comp_any(c),
        }
    }
    fn variant(&mut self, x: &Variant<u32>, h: Hint) -> TR {
        match h {
            Hint::Newtype => self.one(Item::X(x)),
            Hint::Tuple(_) | Hint::TupleStruct(_) | Hint::Unit | Hint::UnitStruct | Hint::Struct | Hint::Map | Hint::Seq => self.comp(&x.values, h),
            _ => {
                self.say("enum")?;
                self.say(format!("str {:?}", x.name))?;
                let w = self.asks.ways.get(self.varied).copied().unwrap_or(0);
                self.varied += 1;
                match w % 4 {
                    0 => self.request(Item::C(&x.values)),
                    1 => {
                        if x.values.is_empty() {
                            Ok(())
                        } else {
                            Err(())
                        }
                    }
                    2 => self.comp(&x.values, Hint::Tuple((w / 4) as usize)),
                    _ => self.comp_any(&x.values),
                }
            }
        }
    }
    fn prim(&mut self, p: &Primitive, h: Hint) -> TR {
        if h == Hint::Newtype {
            return self.one(Item::P(p));
        }
        // integers are told as they are, whatever width was asked for
        self.say(match p {
            Primitive::Bool(b) => format!("bool {b}"),
            Primitive::Char(x) => format!("char {x:?}"),
            Primitive::String(s) => format!("str {s:?}"),
            Primitive::U128(n) => format!("int {n}"),
            Primitive::I128(n) => format!("int {n}"),
            Primitive::U256(b) | Primitive::I256(b) => format!("bytes {b:02x?}"),
        })
    }
}

/// What deserializing a value into a value has to give: the serde data model has no 256-bit integers,
/// and a map that begins with the marker of bit sequences is one.
fn again(v: &V0) -> M<V0> {
    Some(match &v.value {
        ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)) => Value::from_bytes(b),
        ValueDef::Composite(Composite::Named(vs)) if vs.first().map(|x| x.0 == BITS_KEY).unwrap_or(false) => {
            let x = &vs[0].1;
            let kids = match &x.value {
                ValueDef::Composite(c) => crate::refcodec::kids(c),
                ValueDef::Variant(x) => crate::refcodec::kids(&x.values),
                _ => return None,
            };
            let mut b = scale_value::BitSequence::new();
            for k in kids {
                match &k.value {
                    ValueDef::Primitive(Primitive::Bool(t)) => b.push(*t),
                    _ => return None,
                }
            }
            u0(ValueDef::BitSequence(b))
        }
        ValueDef::Composite(c) => u0(ValueDef::Composite(again_c(c)?)),
        ValueDef::Variant(x) => u0(ValueDef::Variant(Variant { name: x.name.clone(), values: again_c(&x.values)? })),
        _ => v.clone(),
    })
}
fn again_c(c: &Composite<()>) -> M<Composite<()>> {
    Some(match c {
        Composite::Named(vs) => Composite::Named(vs.iter().map(|(n, x)| Some((n.clone(), again(x)?))).collect::<Option<_>>()?),
        Composite::Unnamed(vs) => Composite::Unnamed(vs.iter().map(again).collect::<Option<_>>()?),
    })
}

pub fn gen_asks(c: &mut Ctx) -> Asks {
    let k = c.range(0, 12);
    let odd = c.pick(4);
    let mut hints = vec![];
    for _ in 0..k {
        let mut h = match odd {
            0 => Hint::Any,
            1 | 2 if c.flip() => Hint::Any,
            _ => HINTS[c.idx(HINTS.len())],
        };
        if let Hint::Tuple(n) | Hint::TupleStruct(n) = &mut h {
            *n = c.range(0, 4);
        }
        hints.push(h);
    }
    let ways = (0..6).map(|_| c.pick(20) as u8).collect();
    Asks { hints, ways }
}

pub fn c18(c: &mut Ctx) -> RunResult {
    let mut v = gen_value(c, Shape { depth: 4, big: true });
    let like_option = c.chance(1, 12);
    if like_option {
        // an option, or something that nearly is one
        let name = *c.choose(&["Some", "None", "some", "none", "SOME", "NONE", "Som", "Some ", "Somewhere", "None_", "Just", ""]);
        let n = c.weighted(&[2, 4, 1]);
        let xs: Vec<_> = (0..n).map(|_| gen_value(c, Shape { depth: 1, big: true })).collect();
        let values = if c.chance(1, 6) { Composite::Named(xs.into_iter().enumerate().map(|(i, x)| (i.to_string(), x)).collect()) } else { Composite::Unnamed(xs) };
        v.value = ValueDef::Variant(Variant { name: name.into(), values });
    }
    // a value goes through serde into a value
    let same = strip(&v);
    let door = c.pick(4);
    let r: Result<V0, DeserializerError> = call("deserialize", || match door {
        0 => from_value::<_, V0>(v.clone()),
        1 => Value::deserialize(v.clone()),
        2 => ValueDef::deserialize(v.value.clone()).map(u0),
        _ => match v.value.clone() {
            ValueDef::Composite(x) => Composite::deserialize(x).map(|x| u0(ValueDef::Composite(x))),
            ValueDef::Variant(x) => Variant::deserialize(x).map(|x| u0(ValueDef::Variant(x))),
            ValueDef::Primitive(x) => Primitive::deserialize(x).map(|x| u0(ValueDef::Primitive(x))),
            x => ValueDef::deserialize(x).map(u0),
        },
    })?;
    let want = match (&same.value, door) {
        // asked for a primitive, 256-bit integers come back whole, but unsigned
        (ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b)), 3) => Some(u0(ValueDef::Primitive(Primitive::U256(*b)))),
        (ValueDef::Composite(x), 3) => again_c(x).map(|x| u0(ValueDef::Composite(x))),
        _ => again(&same),
    };
    c.note(|| format!("value {} door {door} -> {}", cut(&format!("{v:?}")), cut(&format!("{r:?}"))));
    match (&want, &r) {
        (Some(a), Ok(b)) => ensure!(a == b, "value-to-value", "{a:?} came back as {b:?}"),
        (None, Err(_)) => {}
        (a, b) => bail!("value-to-value", "{same:?} came back as {b:?}, expected {a:?}"),
    }
    c.ev(format!("{:?}", r.is_ok()).as_bytes());

    // a consumer with requests of its own at every level
    let mut asks = gen_asks(c);
    if like_option && c.chance(2, 3) {
        match asks.hints.first_mut() {
            Some(h) => *h = Hint::Option,
            None => asks.hints.push(Hint::Option),
        }
    }
    // at times a tuple of just the right length, or nearly
    if let (ValueDef::Composite(x) | ValueDef::Variant(Variant { values: x, .. }), Some(Hint::Tuple(n) | Hint::TupleStruct(n))) = (&v.value, asks.hints.first_mut()) {
        if c.flip() {
            *n = match c.pick(4) {
                0 => x.len() + 1,
                1 => x.len().saturating_sub(1),
                _ => x.len(),
            };
        }
    }
    let part = c.chance(1, 4);
    let mut t = Teller { asks: &asks, asked: 0, varied: 0, ev: vec![] };
    let it = match (&v.value, part) {
        (ValueDef::Composite(x), true) => Item::C(x),
        (ValueDef::Variant(x), true) => Item::X(x),
        (ValueDef::Primitive(x), true) => Item::P(x),
        (x, _) => Item::V(x),
    };
    let want = t.request(it);
    let told = t.ev;
    let go = |fail: Option<u64>| -> Result<(Result<(), DeserializerError>, CState), Violation> {
        let st = CState { steps: Steps::new(fail), asks: asks.clone(), ..Default::default() };
        let r = call("deserialize", || match (v.value.clone(), part) {
            (ValueDef::Composite(x), true) => request(x, &st),
            (ValueDef::Variant(x), true) => request(x, &st),
            (ValueDef::Primitive(x), true) => request(x, &st),
            (x, true) => request(x, &st),
            (_, false) => request(v.clone(), &st),
        })?;
        Ok((r, st))
    };
    let (r, st) = go(None)?;
    c.note(|| format!("requests {asks:?} -> {r:?} {:?}", st.events.borrow()));
    ensure!(*st.events.borrow() == told, "wrong-events", "{} with {asks:?}: told {:?}, expected {told:?}", cut(&format!("{same:?}")), st.events.borrow());
    ensure!(r.is_ok() == want.is_ok(), "wrong-outcome", "{} with {asks:?}: {r:?}, expected {want:?}", cut(&format!("{same:?}")));
    if let Some(b) = st.bad_hint.borrow().as_ref() {
        bail!("wrong-hint", "{} with {asks:?}: {b}", cut(&format!("{same:?}")));
    }
    if want.is_err() {
        c.probe("incompatible_request_refused");
        c.nontrivial();
    }
    c.ev(told.join(";").as_bytes());
    c.ev_u(r.is_ok() as u64);
    let total = st.steps.n.get();
    let tries = c.range(1, 3);
    for _ in 0..tries {
        if total == 0 {
            break;
        }
        let k = c.pick(total);
        let (r, st) = go(Some(k))?;
        c.fault("consumer_failed");
        c.nontrivial();
        c.note(|| format!("consumer fails at {k} of {total} -> {r:?}"));
        ensure!(st.steps.failed.get(), "calls-differ", "the failing event {k} of {total} was never delivered");
        ensure!(st.steps.after.get() == 0, "event-after-failure", "{} event(s) after the consumer failed at {k}", st.steps.after.get());
        let msg = st.steps.msg();
        match &r {
            Err(e) if e.to_string() == msg => {}
            other => bail!("error-changed", "the consumer failed with {msg:?}, the caller got {other:?}"),
        }
        c.ev_u(k);
    }
    Ok(())
}

// ------------------------------------------------------------ C19: a scripted serializable source

#[derive(Debug, Clone)]
pub enum Ser {
    Bool(bool),
    I(i128, u8),
    U(u128, u8),
    F32,
    F64,
    Char(char),
    Str(String),
    Shown(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Ser>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    NewtypeStruct(Box<Ser>),
    NewtypeVariant(&'static str, Box<Ser>),
    Seq(Option<usize>, Vec<Ser>),
    Tuple(usize, Vec<Ser>),
    TupleStruct(usize, Vec<Ser>),
    TupleVariant(&'static str, usize, Vec<Ser>),
    /// true: whole entries; false: key and value apart
    Map(Option<usize>, Vec<(Ser, Ser)>, bool),
    Struct(usize, Vec<(&'static str, Option<Ser>)>),
    StructVariant(&'static str, usize, Vec<(&'static str, Option<Ser>)>),
}
pub struct Node<'a> {
    pub n: &'a Ser,
    pub st: &'a Steps,
}
impl Node<'_> {
    fn step<E: ser::Error>(&self) -> Result<(), E> {
        if self.st.bad() {
            Err(E::custom(self.st.msg()))
        } else {
            Ok(())
        }
    }
    fn at<'b>(&'b self, n: &'b Ser) -> Node<'b> {
        Node { n, st: self.st }
    }
}
impl Serialize for Node<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        self.step()?;
        macro_rules! seq {
            ($q:expr, $f:ident, $xs:expr) => {{
                let mut q = $q?;
                for x in $xs {
                    self.step::<S::Error>()?;
                    q.$f(&self.at(x))?;
                }
                self.step::<S::Error>()?;
                q.end()
            }};
        }
        macro_rules! fields {
            ($q:expr, $xs:expr) => {{
                let mut q = $q?;
                for (k, x) in $xs {
                    self.step::<S::Error>()?;
                    match x {
                        Some(x) => q.serialize_field(k, &self.at(x))?,
                        None => q.skip_field(k)?,
                    }
                }
                self.step::<S::Error>()?;
                q.end()
            }};
        }
        match self.n {
            Ser::Bool(b) => s.serialize_bool(*b),
            Ser::I(n, 8) => s.serialize_i8(*n as i8),
            Ser::I(n, 16) => s.serialize_i16(*n as i16),
            Ser::I(n, 32) => s.serialize_i32(*n as i32),
            Ser::I(n, 64) => s.serialize_i64(*n as i64),
            Ser::I(n, _) => s.serialize_i128(*n),
            Ser::U(n, 8) => s.serialize_u8(*n as u8),
            Ser::U(n, 16) => s.serialize_u16(*n as u16),
            Ser::U(n, 32) => s.serialize_u32(*n as u32),
            Ser::U(n, 64) => s.serialize_u64(*n as u64),
            Ser::U(n, _) => s.serialize_u128(*n),
            Ser::F32 => s.serialize_f32(1.0),
            Ser::F64 => s.serialize_f64(1.0),
            Ser::Char(x) => s.serialize_char(*x),
            Ser::Str(x) => s.serialize_str(x),
            Ser::Shown(x) => s.collect_str(x),
            Ser::Bytes(x) => s.serialize_bytes(x),
            Ser::None => s.serialize_none(),
            Ser::Some(x) => s.serialize_some(&self.at(x)),
            Ser::Unit => s.serialize_unit(),
            Ser::UnitStruct => s.serialize_unit_struct("U"),
            Ser::UnitVariant(n) => s.serialize_unit_variant("E", 3, n),
            Ser::NewtypeStruct(x) => s.serialize_newtype_struct("N", &self.at(x)),
            Ser::NewtypeVariant(n, x) => s.serialize_newtype_variant("E", 3, n, &self.at(x)),
            Ser::Seq(l, xs) => seq!(s.serialize_seq(*l), serialize_element, xs),
            Ser::Tuple(l, xs) => seq!(s.serialize_tuple(*l), serialize_element, xs),
            Ser::TupleStruct(l, xs) => seq!(s.serialize_tuple_struct("T", *l), serialize_field, xs),
            Ser::TupleVariant(n, l, xs) => seq!(s.serialize_tuple_variant("E", 3, n, *l), serialize_field, xs),
            Ser::Map(l, xs, whole) => {
                let mut q = s.serialize_map(*l)?;
                for (k, x) in xs {
                    self.step::<S::Error>()?;
                    if *whole {
                        q.serialize_entry(&self.at(k), &self.at(x))?;
                    } else {
                        q.serialize_key(&self.at(k))?;
                        self.step::<S::Error>()?;
                        q.serialize_value(&self.at(x))?;
                    }
                }
                self.step::<S::Error>()?;
                q.end()
            }
            Ser::Struct(l, xs) => fields!(s.serialize_struct("S", *l), xs),
            Ser::StructVariant(n, l, xs) => fields!(s.serialize_struct_variant("E", 3, n, *l), xs),
        }
    }
}
const STATICS: [&str; 8] = ["a", "b", "Some", "None", "has space", "é", "", "x"];
/// names in Rust code are static; those of the dictionary are made so once
pub fn static_words() -> &'static [&'static str] {
    static WORDS: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| crate::dict::get().strs.iter().map(|s| &*s.clone().leak()).collect())
}
fn a_static(c: &mut Ctx) -> &'static str {
    let w = static_words();
    if !w.is_empty() && c.chance(1, 16) {
        c.probe("word_of_the_code");
        return w[c.idx(w.len())];
    }
    *c.choose(&STATICS)
}
pub fn gen_ser(c: &mut Ctx, d: usize, odd: bool) -> Ser {
    let p = if d > 0 { 1 } else { 0 };
    let o = if odd { 1 } else { 0 };
    let len = |c: &mut Ctx, n: usize| -> usize {
        if c.chance(1, 4) {
            c.fault("declared_length_lied");
            *c.choose(&[0usize, 1, 1 << 20, 1 << 40, usize::MAX / 2, usize::MAX])
        } else {
            n
        }
    };
    let (n, d) = if d > 0 && c.chance(1, 300) {
        c.probe("wide");
        let n = *c.choose(&[8usize, 9, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025, 1100]);
        let n = crate::dict::count(c, 1500).filter(|_| c.chance(1, 8)).unwrap_or(n);
        (if c.chance(1, 400) { huge(c) } else { n }, 1)
    } else {
        (c.weighted(&[2, 4, 3, 2]), d)
    };
    match c.weighted(&[3, 3, 2, 2, 3, 1, o, o, 1, 1, 1, 1, 1, 2 * p, 2 * p, 2 * p, 5 * p, 3 * p, 2 * p, 3 * p, 5 * p, 4 * p, 3 * p]) {
        0 => {
            let (n, w) = gen_u(c);
            Ser::U(n, w)
        }
        1 => {
            let (n, w) = gen_i(c);
            Ser::I(n, w)
        }
        2 => Ser::Bool(c.flip()),
        3 => Ser::Char(gen_char(c)),
        4 => Ser::Str(gen_string(c)),
        5 => Ser::Shown(gen_string(c)),
        6 => Ser::F32,
        7 => Ser::F64,
        8 => {
            let n = match c.weighted(&[8, 4, 1]) {
                0 => c.range(0, 5),
                1 => *c.choose(&[16usize, 31, 32, 33, 64]),
                _ if c.chance(1, 2000) => huge(c),
                _ => crate::dict::count(c, 300).unwrap_or(1),
            };
            // sometimes such as also make a text, or digits
            let (lo, n_of) = *c.choose(&[(0u64, 256u64), (0, 256), (0, 256), (0x20, 0x5f), (0x30, 10), (0, 2)]);
            Ser::Bytes((0..n).map(|_| (lo + c.pick(n_of)) as u8).collect())
        }
        9 => Ser::Unit,
        10 => Ser::UnitStruct,
        11 => Ser::None,
        12 => Ser::UnitVariant(a_static(c)),
        13 => Ser::Some(Box::new(gen_ser(c, d - 1, odd))),
        14 => Ser::NewtypeStruct(Box::new(gen_ser(c, d - 1, odd))),
        15 => Ser::NewtypeVariant(a_static(c), Box::new(gen_ser(c, d - 1, odd))),
        16 => {
            let xs = (0..n).map(|_| gen_ser(c, d - 1, odd)).collect();
            let l = if c.flip() { Some(len(c, n)) } else { None };
            Ser::Seq(l, xs)
        }
        17 => {
            let xs = (0..n).map(|_| gen_ser(c, d - 1, odd)).collect();
            Ser::Tuple(len(c, n), xs)
        }
        18 => {
            let xs = (0..n).map(|_| gen_ser(c, d - 1, odd)).collect();
            Ser::TupleStruct(len(c, n), xs)
        }
        19 => {
            let xs = (0..n).map(|_| gen_ser(c, d - 1, odd)).collect();
            Ser::TupleVariant(a_static(c), len(c, n), xs)
        }
        20 => {
            let xs = (0..n)
                .map(|_| {
                    let k = match c.weighted(&[8, 1, 1, 2 * o]) {
                        0 => Ser::Str(gen_name(c)),
                        1 => Ser::Char(gen_char(c)),
                        2 => Ser::Shown(gen_name(c)),
                        _ => gen_ser(c, 1, odd),
                    };
                    (k, gen_ser(c, d - 1, odd))
                })
                .collect();
            let l = if c.flip() { Some(len(c, n)) } else { None };
            Ser::Map(l, xs, c.flip())
        }
        k => {
            let xs = (0..n)
                .map(|_| {
                    let name = a_static(c);
                    let x = if c.chance(1, 6) { None } else { Some(gen_ser(c, d - 1, odd)) };
                    (name, x)
                })
                .collect();
            if k == 21 {
                Ser::Struct(len(c, n), xs)
            } else {
                Ser::StructVariant(a_static(c), len(c, n), xs)
            }
        }
    }
}
fn ms(s: &Ser) -> M<V0> {
    let p = |p| Some(u0(ValueDef::Primitive(p)));
    let un = |xs: Vec<V0>| Some(u0(ValueDef::Composite(Composite::Unnamed(xs))));
    let all = |xs: &[Ser]| xs.iter().map(ms).collect::<Option<Vec<_>>>();
    let var = |n: &str, values| Some(u0(ValueDef::Variant(Variant { name: n.into(), values })));
    let named = |xs: &[(&'static str, Option<Ser>)]| -> M<Composite<()>> {
        let v: Option<Vec<_>> = xs.iter().filter_map(|(k, x)| x.as_ref().map(|x| Some((k.to_string(), ms(x)?)))).collect();
        Some(Composite::Named(v?))
    };
    match s {
        Ser::Bool(b) => p(Primitive::Bool(*b)),
        Ser::I(n, _) => p(Primitive::I128(*n)),
        Ser::U(n, _) => p(Primitive::U128(*n)),
        Ser::F32 | Ser::F64 => None,
        Ser::Char(x) => p(Primitive::Char(*x)),
        Ser::Str(x) | Ser::Shown(x) => p(Primitive::String(x.clone())),
        Ser::Bytes(b) => un(b.iter().map(|x| Value::u128(*x as u128)).collect()),
        Ser::None => var("None", Composite::Unnamed(vec![])),
        Ser::Some(x) => var("Some", Composite::Unnamed(vec![ms(x)?])),
        Ser::Unit | Ser::UnitStruct => un(vec![]),
        Ser::UnitVariant(n) => var(n, Composite::Unnamed(vec![])),
        Ser::NewtypeStruct(x) => un(vec![ms(x)?]),
        Ser::NewtypeVariant(n, x) => var(n, Composite::Unnamed(vec![ms(x)?])),
        Ser::Seq(_, xs) | Ser::Tuple(_, xs) | Ser::TupleStruct(_, xs) => un(all(xs)?),
        Ser::TupleVariant(n, _, xs) => var(n, Composite::Unnamed(all(xs)?)),
        Ser::Map(_, xs, _) => {
            let v: Option<Vec<_>> = xs
                .iter()
                .map(|(k, x)| {
                    let k = match ms(k)?.value {
                        ValueDef::Primitive(Primitive::String(s)) => s,
                        ValueDef::Primitive(Primitive::Char(ch)) => ch.to_string(),
                        _ => return None,
                    };
                    Some((k, ms(x)?))
                })
                .collect();
            Some(u0(ValueDef::Composite(Composite::Named(v?))))
        }
        Ser::Struct(_, xs) => Some(u0(ValueDef::Composite(named(xs)?))),
        Ser::StructVariant(n, _, xs) => var(n, named(xs)?),
    }
}
fn ser_size(s: &Ser) -> usize {
    format!("{s:?}").len()
}

pub fn c19(c: &mut Ctx) -> RunResult {
    let odd = c.chance(1, 4);
    let d = c.range(0, 4);
    let src = gen_ser(c, d, odd);
    let door = c.flip();
    let want = ms(&src);
    let bound = 8192 + ser_size(&src) * 256;
    c.note(|| format!("source {}", cut(&format!("{src:?}"))));
    let go = |st: &Rc<Steps>| -> Result<(Result<V0, SerializerError>, alloc::Usage), Violation> {
        call("to_value", || {
            alloc::measure(|| {
                let n = Node { n: &src, st };
                if door {
                    to_value(n)
                } else {
                    n.serialize(ValueSerializer)
                }
            })
        })
    };
    let st = Steps::new(None);
    let (r, u) = go(&st)?;
    let total = st.n.get();
    c.note(|| format!("-> {} using {} bytes", cut(&format!("{r:?}")), u.peak));
    ensure!(u.peak <= bound, "memory", "{} held {} bytes (bound {bound}, biggest request {})", cut(&format!("{src:?}")), u.peak, u.biggest);
    match (&want, &r) {
        (Some(a), Ok(b)) => ensure!(a == b, "wrong-value", "the source describes {a:?}, got {b:?}"),
        (None, Err(_)) => c.probe("source_has_no_counterpart"),
        (Some(a), Err(e)) => bail!("rejected-valid", "the source describes {a:?}, got {e:?}"),
        (None, Ok(b)) => bail!("accepted-invalid", "{} has no counterpart but gave {b:?}", cut(&format!("{src:?}"))),
    }
    c.ev(format!("{r:?}").as_bytes());
    let tries = c.range(1, 4);
    for _ in 0..tries {
        let k = c.pick(total.max(1));
        let st = Steps::new(Some(k));
        let (r, u) = go(&st)?;
        c.fault("source_failed");
        c.nontrivial();
        c.note(|| format!("source fails at {k} of {total} -> {r:?}"));
        ensure!(st.failed.get(), "calls-differ", "the failing call {k} of {total} was never reached");
        ensure!(st.after.get() == 0, "call-after-failure", "{} call(s) into the source after it failed at {k}", st.after.get());
        ensure!(r == Err(SerializerError::Custom(st.msg())), "error-changed", "the source failed with {:?}, the caller got {}", st.msg(), cut(&format!("{r:?}")));
        ensure!(u.peak <= bound, "memory", "failed at {k}: {} bytes held", u.peak);
        c.ev_u(k);
    }
    Ok(())
}
