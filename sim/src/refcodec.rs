//! Executable reference model of SCALE for the simulated type registry: generator of canonical
//! values, encoder (with the offsets of length prefixes and node boundaries) and decoder (with
//! the path of the failing item and the partial value). Written from the SCALE specification.

use crate::tape::Ctx;
use crate::types::*;
use codec::{Compact, Decode, Encode};
use scale_type_resolver::{BitsOrderFormat as Order, BitsStoreFormat as Store, Primitive as Prim};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

pub type V = Value<Tid>;

pub fn mk<T>(value: ValueDef<T>, context: T) -> Value<T> {
    Value { value, context }
}
pub fn prim(p: Primitive, id: &Tid) -> V {
    mk(ValueDef::Primitive(p), id.clone())
}
pub fn strip<T: Clone>(v: &Value<T>) -> Value<()> {
    fn comp<T: Clone>(c: &Composite<T>) -> Composite<()> {
        match c {
            Composite::Named(x) => Composite::Named(x.iter().map(|(n, v)| (n.clone(), strip(v))).collect()),
            Composite::Unnamed(x) => Composite::Unnamed(x.iter().map(strip).collect()),
        }
    }
    Value {
        value: match &v.value {
            ValueDef::Composite(c) => ValueDef::Composite(comp(c)),
            ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values) }),
            ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
            ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
        },
        context: (),
    }
}
pub fn kids<T>(c: &Composite<T>) -> Vec<&Value<T>> {
    match c {
        Composite::Named(x) => x.iter().map(|(_, v)| v).collect(),
        Composite::Unnamed(x) => x.iter().collect(),
    }
}
pub fn nodes<T>(v: &Value<T>) -> usize {
    1 + match &v.value {
        ValueDef::Composite(c) => kids(c).into_iter().map(nodes).sum(),
        ValueDef::Variant(x) => kids(&x.values).into_iter().map(nodes).sum(),
        _ => 0,
    }
}
pub fn bits_vec(b: &BitSequence) -> Vec<bool> {
    b.iter().collect()
}

// ------------------------------------------------------------ value generation

pub fn uint_max(p: Prim) -> u128 {
    match p {
        Prim::U8 => u8::MAX as u128,
        Prim::U16 => u16::MAX as u128,
        Prim::U32 => u32::MAX as u128,
        Prim::U64 => u64::MAX as u128,
        _ => u128::MAX,
    }
}
pub fn int_range(p: Prim) -> (i128, i128) {
    match p {
        Prim::I8 => (i8::MIN as i128, i8::MAX as i128),
        Prim::I16 => (i16::MIN as i128, i16::MAX as i128),
        Prim::I32 => (i32::MIN as i128, i32::MAX as i128),
        Prim::I64 => (i64::MIN as i128, i64::MAX as i128),
        _ => (i128::MIN, i128::MAX),
    }
}
/// unsigned integers biased to the boundaries of widths and compact modes
pub fn gen_uint(c: &mut Ctx, max: u128) -> u128 {
    let v = match c.weighted(&[15, 12, 9, 2]) {
        3 => crate::dict::number(c).unwrap_or(0),
        0 => c.pick(4) as u128,
        1 => {
            let k = *c.choose(&[6u32, 7, 8, 14, 15, 16, 30, 31, 32, 53, 56, 62, 63, 64, 72, 100, 120, 126, 127, 128]);
            let base = if k == 128 { u128::MAX } else { 1u128 << k };
            match c.pick(3) {
                0 => base,
                1 => base.wrapping_sub(1),
                _ => base.saturating_add(1),
            }
        }
        _ => {
            let w = c.word() as u128 | ((c.word() as u128) << 64);
            w >> c.pick(128)
        }
    };
    if v > max {
        if c.flip() {
            max
        } else if max == u128::MAX {
            v
        } else {
            v % (max + 1)
        }
    } else {
        v
    }
}
pub fn gen_int(c: &mut Ctx, lo: i128, hi: i128) -> i128 {
    let mag = gen_uint(c, hi as u128);
    if c.flip() {
        // -1 - mag covers lo exactly
        (-1i128 - mag as i128).max(lo)
    } else {
        mag as i128
    }
}
pub fn gen_char(c: &mut Ctx) -> char {
    const CS: [char; 48] = [
        'a', 'b', '0', '9', ' ', '_', '"', '\'', '\\', '\n', '\t', '\r', '\0', '{', '}', '(', ')', ',', ':', '<', '>', '+', '-', 'n', 't', 'é', 'ß', '中', '\u{1F600}', '\u{7f}', '\u{80}', '\u{10FFFF}',
        '\u{D7FF}', '\u{E000}',
        // those that text handling likes to drop, trim, fold or normalise
        '\u{FEFF}', '\u{200B}', '\u{200D}', '\u{202E}', '\u{2028}', '\u{85}', '\u{A0}', '\u{3000}', '\u{301}', '\u{AD}', '\u{FFFD}', '\u{FFFF}', 'İ', '\u{1b}',
    ];
    match c.weighted(&[24, 2, 1]) {
        0 => CS[c.idx(CS.len())],
        2 => crate::dict::letter(c).unwrap_or('?'),
        _ => char::from_u32((c.pick(0x110000)) as u32).unwrap_or('?'),
    }
}
pub fn gen_string(c: &mut Ctx) -> String {
    let n = match c.weighted(&[200, 20, 20, 1, 2]) {
        4 => crate::dict::count(c, 600).unwrap_or(0),
        0 => c.range(0, 6),
        1 => *c.choose(&[15usize, 16, 62, 63, 64, 65, 127, 128]),
        2 => c.range(7, 40),
        _ => *c.choose(&[255usize, 256, 257, 1023, 1024, 1025]),
    };
    match c.weighted(&[16, 4, 1]) {
        0 => (0..n).map(|_| gen_char(c)).collect(),
        2 => crate::dict::near_word(c).unwrap_or_default(),
        _ => c.choose(&["true", "false", "null", "None", "Some", "0x", "__bitvec__values__", "a\\nb", "\\", "\"", "//", "v\"x\""]).to_string(),
    }
}
pub fn gen_bits(c: &mut Ctx) -> BitSequence {
    let n = match c.weighted(&[1600, 800, 200, 10, 20, 2]) {
        4 => crate::dict::count(c, 2000).unwrap_or(0),
        5 => match c.flip() {
            true => crate::dict::count(c, 70_000).unwrap_or(0),
            false => *c.choose(&[4095usize, 4096, 4097, 8193, 16383, 16384, 16385, 65535, 65536, 65537]),
        },
        0 => c.range(0, 9),
        1 => *c.choose(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        2 => c.range(0, 200),
        _ => *c.choose(&[255usize, 256, 257, 512, 1023, 1024, 1025, 2049]),
    };
    let mut b = BitSequence::new();
    let mode = c.pick(3);
    let mut w = 0u64;
    for i in 0..n {
        if mode == 2 && i % 60 == 0 {
            w = c.word();
        }
        b.push(match mode {
            0 => i % 3 == 0,
            1 => true,
            _ => (w >> (i % 60)) & 1 == 1,
        });
    }
    b
}

pub struct ValGen<'a> {
    pub reg: &'a Reg,
    pub budget: isize,
    /// also use long sequences around the compact-length boundaries
    pub long: bool,
    /// this many more alternatives are those with fields: recursive types go deep
    press: usize,
    start: isize,
}

impl<'a> ValGen<'a> {
    pub fn new(reg: &'a Reg) -> Self {
        Self::with(reg, 300, true)
    }
    pub fn with(reg: &'a Reg, budget: isize, long: bool) -> Self {
        ValGen { reg, budget, long, press: 0, start: budget }
    }
    fn fields(&mut self, c: &mut Ctx, fs: &[SField]) -> Composite<Tid> {
        let mut vals: Vec<V> = Vec::with_capacity(fs.len());
        for (i, f) in fs.iter().enumerate() {
            let last = if i > 0 && fs[i - 1].id == f.id { vals.last().cloned() } else { None };
            vals.push(self.next(c, &f.id, last.as_ref()));
        }
        fields_composite(fs, vals)
    }
    /// The value following `last` in a list: at times the same again.
    fn next(&mut self, c: &mut Ctx, id: &Tid, last: Option<&V>) -> V {
        match last {
            Some(v) if c.chance(1, 8) => v.clone(),
            _ => self.value(c, id),
        }
    }
    fn list(&mut self, c: &mut Ctx, id: &Tid, n: usize) -> Vec<V> {
        let mut vals: Vec<V> = Vec::with_capacity(n);
        for _ in 0..n {
            let v = self.next(c, id, vals.last());
            vals.push(v);
        }
        vals
    }
    pub fn field_list(&mut self, c: &mut Ctx, fs: &[SField]) -> Composite<Tid> {
        self.fields(c, fs)
    }
    pub fn value(&mut self, c: &mut Ctx, id: &Tid) -> V {
        self.budget -= 1;
        match self.reg.get(id) {
            SType::Prim(p) => prim(gen_prim(c, *p), id),
            SType::Compact(t) => self.value(c, t),
            SType::Bits(..) => mk(ValueDef::BitSequence(gen_bits(c)), id.clone()),
            SType::Seq(t) => {
                let w = self.reg.weight(t) as isize;
                let n = if self.budget <= 0 {
                    0
                } else {
                    let n = match c.weighted(&[10, if self.long { 1 } else { 0 }]) {
                        0 => c.range(0, 4),
                        _ if c.chance(1, 6) => crate::dict::count(c, 300).unwrap_or(5),
                        _ => *c.choose(&[63usize, 64, 65, 256]),
                    };
                    if n as isize * w > self.budget.max(4) {
                        1
                    } else {
                        n
                    }
                };
                let vals = self.list(c, t, n);
                mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone())
            }
            SType::Array(t, n) => {
                let vals = self.list(c, t, *n);
                mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone())
            }
            SType::Tuple(ts) => {
                let mut vals: Vec<V> = Vec::with_capacity(ts.len());
                for (i, t) in ts.iter().enumerate() {
                    let last = if i > 0 && ts[i - 1] == *t { vals.last().cloned() } else { None };
                    vals.push(self.next(c, t, last.as_ref()));
                }
                mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone())
            }
            SType::Composite(fs) => {
                let comp = self.fields(c, fs);
                mk(ValueDef::Composite(comp), id.clone())
            }
            SType::Variant(vs) => {
                if self.press == 0 && self.budget > self.start - 20 && c.chance(1, 60) {
                    self.press = *c.choose(&[16usize, 32, 33, 60, 64, 65, 100, 129]);
                }
                let k = if self.press > 0 {
                    self.press -= 1;
                    let most = vs.iter().map(|v| v.fields.len()).max().unwrap_or(0);
                    vs.iter().position(|v| v.fields.len() == most).unwrap()
                } else if self.budget <= 0 { vs.iter().enumerate().min_by_key(|(_, v)| v.fields.len()).unwrap().0 } else { c.idx(vs.len()) };
                let values = self.fields(c, &vs[k].fields);
                mk(ValueDef::Variant(Variant { name: vs[k].name.clone(), values }), id.clone())
            }
        }
    }
}
/// A type and a value with a count around the limits of 2-byte lengths: where lengths kept in too few bits and
/// pre-allocation caps show.
pub fn gen_bulk(c: &mut Ctx, reg: &mut Reg) -> (Tid, V) {
    let n = *c.choose(&[16383usize, 16384, 16385, 32768, 65535, 65536, 65537, 70001]);
    c.probe("bulk_item");
    let kind = c.pick(6);
    let elem = match c.pick(4) {
        0 => reg.prim(Prim::Bool),
        1 => reg.add(SType::Tuple(vec![])),
        2 => {
            let u = reg.prim(Prim::U8);
            reg.add(SType::Composite(vec![SField { name: Some("x".into()), id: u }]))
        }
        _ => reg.prim(Prim::U8),
    };
    let salt = c.word();
    let one = |i: usize, id: &Tid| -> V {
        let w = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(salt) >> 40;
        match reg.get(id) {
            SType::Prim(Prim::Bool) => prim(Primitive::Bool(w & 1 == 1), id),
            SType::Prim(_) => prim(Primitive::U128(w as u128 & 0xff), id),
            SType::Composite(fs) => {
                mk(ValueDef::Composite(Composite::Named(vec![("x".into(), prim(Primitive::U128(w as u128 & 0xff), &fs[0].id))])), id.clone())
            }
            _ => mk(ValueDef::Composite(Composite::Unnamed(vec![])), id.clone()),
        }
    };
    match kind {
        0 => {
            let v = prim(Primitive::String((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()), &elem);
            let id = reg.prim(Prim::Str);
            (id.clone(), mk(v.value, id))
        }
        1 => {
            let s = *c.choose(&STORES);
            let id = reg.add(SType::Bits(s, Order::Lsb0));
            let mut b = BitSequence::new();
            for i in 0..n {
                b.push((i as u64).wrapping_mul(salt | 1) >> 60 & 1 == 1);
            }
            (id.clone(), mk(ValueDef::BitSequence(b), id))
        }
        2 => {
            let vals: Vec<V> = (0..n).map(|i| one(i, &elem)).collect();
            let id = reg.add(SType::Array(elem, n));
            (id.clone(), mk(ValueDef::Composite(Composite::Unnamed(vals)), id))
        }
        _ => {
            let vals: Vec<V> = (0..n).map(|i| one(i, &elem)).collect();
            let id = reg.add(SType::Seq(elem));
            (id.clone(), mk(ValueDef::Composite(Composite::Unnamed(vals)), id))
        }
    }
}
/// named iff there is at least one field and every field is named
pub fn fields_composite(fs: &[SField], vals: Vec<V>) -> Composite<Tid> {
    if !fs.is_empty() && fs.iter().all(|f| f.name.is_some()) {
        Composite::Named(fs.iter().zip(vals).map(|(f, v)| (f.name.clone().unwrap(), v)).collect())
    } else {
        Composite::Unnamed(vals)
    }
}
pub fn gen_prim(c: &mut Ctx, p: Prim) -> Primitive {
    match p {
        Prim::Bool => Primitive::Bool(c.flip()),
        Prim::Char => Primitive::Char(gen_char(c)),
        Prim::Str => Primitive::String(gen_string(c)),
        Prim::U8 | Prim::U16 | Prim::U32 | Prim::U64 | Prim::U128 => Primitive::U128(gen_uint(c, uint_max(p))),
        Prim::I8 | Prim::I16 | Prim::I32 | Prim::I64 | Prim::I128 => {
            let (lo, hi) = int_range(p);
            Primitive::I128(gen_int(c, lo, hi))
        }
        Prim::U256 => Primitive::U256(gen_b32(c)),
        Prim::I256 => Primitive::I256(gen_b32(c)),
    }
}
pub fn gen_b32(c: &mut Ctx) -> [u8; 32] {
    let mut b = [0u8; 32];
    if c.chance(1, 4) {
        // around the ends of the range, and of the narrower integers
        let (lo, hi) = (if c.flip() { 0xff } else { 0u8 }, if c.flip() { 0xff } else { 0u8 });
        let at = *c.choose(&[0usize, 1, 4, 8, 15, 16, 17, 24, 31, 32]);
        b[..at].fill(lo);
        b[at..].fill(hi);
        let k = *c.choose(&[0usize, 7, 15, 16, 31]);
        b[k] = b[k].wrapping_add(*c.choose(&[0u8, 0, 1, 0x7f, 0x80, 0xff]));
        return b;
    }
    for i in 0..4 {
        let w = if c.flip() { c.word() } else { 0 };
        b[i * 8..i * 8 + 8].copy_from_slice(&w.to_le_bytes());
    }
    b
}

// ------------------------------------------------------------ encoder

#[derive(Default, Clone, Debug)]
pub struct Marks {
    /// offsets where a length prefix starts
    pub lens: Vec<usize>,
    /// offsets where a node starts
    pub starts: Vec<usize>,
}

pub fn enc_bits(bits: &[bool], s: Store, o: Order, out: &mut Vec<u8>) {
    Compact(bits.len() as u32).encode_to(out);
    let w = match s {
        Store::U8 => 8,
        Store::U16 => 16,
        Store::U32 => 32,
        Store::U64 => 64,
    };
    for chunk in bits.chunks(w) {
        let mut word = 0u64;
        for (i, b) in chunk.iter().enumerate() {
            if *b {
                word |= 1u64
                    << match o {
                        Order::Lsb0 => i,
                        Order::Msb0 => w - 1 - i,
                    };
            }
        }
        out.extend_from_slice(&word.to_le_bytes()[..w / 8]);
    }
}

pub fn enc_uint(v: u128, p: Prim, out: &mut Vec<u8>) {
    let n = match p {
        Prim::U8 | Prim::I8 => 1,
        Prim::U16 | Prim::I16 => 2,
        Prim::U32 | Prim::I32 => 4,
        Prim::U64 | Prim::I64 => 8,
        _ => 16,
    };
    out.extend_from_slice(&v.to_le_bytes()[..n]);
}

/// Encode a canonical value (as produced by ValGen / ref_decode).
pub fn ref_encode(reg: &Reg, id: &Tid, v: &V, out: &mut Vec<u8>, m: &mut Marks) {
    ref_encode_c(reg, id, v, false, out, m)
}
fn ref_encode_c(reg: &Reg, id: &Tid, v: &V, compact: bool, out: &mut Vec<u8>, m: &mut Marks) {
    m.starts.push(out.len());
    match (reg.get(id), &v.value) {
        (SType::Compact(t), _) => ref_encode_c(reg, t, v, true, out, m),
        (SType::Prim(_), ValueDef::Primitive(Primitive::U128(n))) if compact => {
            m.lens.push(out.len());
            Compact(*n).encode_to(out)
        }
        (SType::Prim(_), ValueDef::Primitive(Primitive::Bool(b))) => out.push(*b as u8),
        (SType::Prim(_), ValueDef::Primitive(Primitive::Char(ch))) => (*ch as u32).encode_to(out),
        (SType::Prim(_), ValueDef::Primitive(Primitive::String(s))) => {
            m.lens.push(out.len());
            Compact(s.len() as u32).encode_to(out);
            out.extend_from_slice(s.as_bytes());
        }
        (SType::Prim(p), ValueDef::Primitive(Primitive::U128(n))) => enc_uint(*n, *p, out),
        (SType::Prim(p), ValueDef::Primitive(Primitive::I128(n))) => enc_uint(*n as u128, *p, out),
        (SType::Prim(_), ValueDef::Primitive(Primitive::U256(b) | Primitive::I256(b))) => out.extend_from_slice(b),
        (SType::Bits(s, o), ValueDef::BitSequence(b)) => {
            m.lens.push(out.len());
            enc_bits(&bits_vec(b), *s, *o, out)
        }
        (SType::Seq(t), ValueDef::Composite(c)) => {
            m.lens.push(out.len());
            let ks = kids(c);
            Compact(ks.len() as u32).encode_to(out);
            for k in ks {
                ref_encode_c(reg, t, k, false, out, m);
            }
        }
        (SType::Array(t, n), ValueDef::Composite(c)) => {
            let ks = kids(c);
            assert_eq!(ks.len(), *n);
            for k in ks {
                ref_encode_c(reg, t, k, compact, out, m);
            }
        }
        (SType::Tuple(ts), ValueDef::Composite(c)) => {
            let ks = kids(c);
            assert_eq!(ks.len(), ts.len());
            for (t, k) in ts.iter().zip(ks) {
                ref_encode_c(reg, t, k, compact, out, m);
            }
        }
        (SType::Composite(fs), ValueDef::Composite(c)) => ref_encode_fields(reg, fs, c, compact, out, m),
        (SType::Variant(vs), ValueDef::Variant(x)) => {
            let var = vs.iter().find(|v| v.name == x.name).expect("variant exists");
            out.push(var.index);
            ref_encode_fields(reg, &var.fields, &x.values, false, out, m)
        }
        (t, v) => panic!("ref_encode: value {v:?} is not canonical for {t:?}"),
    }
}
pub fn ref_encode_fields(reg: &Reg, fs: &[SField], c: &Composite<Tid>, compact: bool, out: &mut Vec<u8>, m: &mut Marks) {
    let ks = kids(c);
    assert_eq!(ks.len(), fs.len());
    for (f, k) in fs.iter().zip(ks) {
        ref_encode_c(reg, &f.id, k, compact, out, m);
    }
}
pub fn enc(reg: &Reg, id: &Tid, v: &V) -> Vec<u8> {
    let mut o = vec![];
    ref_encode(reg, id, v, &mut o, &mut Marks::default());
    o
}

// ------------------------------------------------------------ decoder

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Idx(usize),
    Field(String),
    Variant(String),
}
#[derive(Clone, Debug)]
pub struct Fail {
    pub path: Vec<Seg>,
    /// everything decoded before the failure; None when the failing item itself is the root
    pub partial: Option<V>,
    /// a resolver lookup failed, as opposed to bad bytes
    pub why: &'static str,
    /// the failure lies inside a sequence that claims more than 100M entries
    pub huge: bool,
}
fn fail<T>(why: &'static str) -> Result<T, Fail> {
    Err(Fail { path: vec![], partial: None, why, huge: false })
}

pub struct RefDec<'a> {
    pub reg: &'a Reg,
    pub unknown: &'a dyn Fn(&Tid) -> bool,
    pub nodes: usize,
    pub max_nodes: usize,
    pub huge: bool,
}

impl<'a> RefDec<'a> {
    pub fn new(reg: &'a Reg) -> Self {
        RefDec { reg, unknown: &|_| false, nodes: 0, max_nodes: 3_000_000, huge: false }
    }
    pub fn decode(&mut self, inp: &mut &[u8], id: &Tid) -> Result<V, Fail> {
        self.dec(inp, id, false)
    }
    fn take<'i>(inp: &mut &'i [u8], n: usize) -> Result<&'i [u8], Fail> {
        if inp.len() < n {
            return fail("input ends");
        }
        let (a, b) = inp.split_at(n);
        *inp = b;
        Ok(a)
    }
    fn compact_len(inp: &mut &[u8], bits: u32) -> Result<u64, Fail> {
        let r = if bits == 64 { Compact::<u64>::decode(inp).map(|c| c.0) } else { Compact::<u32>::decode(inp).map(|c| c.0 as u64) };
        r.or_else(|_| fail("bad length prefix"))
    }
    fn dec(&mut self, inp: &mut &[u8], id: &Tid, compact: bool) -> Result<V, Fail> {
        self.nodes += 1;
        if self.nodes > self.max_nodes {
            return fail("REFERENCE-LIMIT");
        }
        if (self.unknown)(id) {
            return fail("unknown type");
        }
        let Some(ty) = self.reg.try_get(id) else { return fail("unknown type") };
        let p = |x| Ok(prim(x, id));
        match ty {
            SType::Compact(t) => self.dec(inp, t, true),
            SType::Prim(pr) if compact => {
                let v = match pr {
                    Prim::U8 => Compact::<u8>::decode(inp).map(|c| c.0 as u128),
                    Prim::U16 => Compact::<u16>::decode(inp).map(|c| c.0 as u128),
                    Prim::U32 => Compact::<u32>::decode(inp).map(|c| c.0 as u128),
                    Prim::U64 => Compact::<u64>::decode(inp).map(|c| c.0 as u128),
                    Prim::U128 => Compact::<u128>::decode(inp).map(|c| c.0),
                    _ => return fail("type cannot be compact"),
                };
                match v {
                    Ok(v) => p(Primitive::U128(v)),
                    Err(_) => fail("bad compact integer"),
                }
            }
            SType::Prim(pr) => match pr {
                Prim::Bool => match Self::take(inp, 1)?[0] {
                    0 => p(Primitive::Bool(false)),
                    1 => p(Primitive::Bool(true)),
                    _ => fail("bad bool"),
                },
                Prim::Char => {
                    let b = Self::take(inp, 4)?;
                    match char::from_u32(u32::from_le_bytes(b.try_into().unwrap())) {
                        Some(ch) => p(Primitive::Char(ch)),
                        None => fail("bad char"),
                    }
                }
                Prim::Str => {
                    let n = Self::compact_len(inp, 32)?;
                    let b = Self::take(inp, n as usize)?;
                    match std::str::from_utf8(b) {
                        Ok(s) => p(Primitive::String(s.to_string())),
                        Err(_) => fail("bad utf-8"),
                    }
                }
                Prim::U8 | Prim::U16 | Prim::U32 | Prim::U64 | Prim::U128 => {
                    let n = uint_bytes(*pr);
                    let b = Self::take(inp, n)?;
                    let mut x = [0u8; 16];
                    x[..n].copy_from_slice(b);
                    p(Primitive::U128(u128::from_le_bytes(x)))
                }
                Prim::I8 | Prim::I16 | Prim::I32 | Prim::I64 | Prim::I128 => {
                    let n = uint_bytes(*pr);
                    let b = Self::take(inp, n)?;
                    let mut x = [if b[n - 1] & 0x80 != 0 { 0xffu8 } else { 0 }; 16];
                    x[..n].copy_from_slice(b);
                    p(Primitive::I128(i128::from_le_bytes(x)))
                }
                Prim::U256 => p(Primitive::U256(Self::take(inp, 32)?.try_into().unwrap())),
                Prim::I256 => p(Primitive::I256(Self::take(inp, 32)?.try_into().unwrap())),
            },
            SType::Bits(s, o) => {
                if compact {
                    return fail("type cannot be compact");
                }
                let n = Self::compact_len(inp, 32)? as usize;
                if n > 0x1fff_ffff {
                    return fail("too many bits");
                }
                let w = match s {
                    Store::U8 => 8,
                    Store::U16 => 16,
                    Store::U32 => 32,
                    Store::U64 => 64,
                };
                let b = Self::take(inp, n.div_ceil(w) * (w / 8))?;
                let mut bits = BitSequence::new();
                for i in 0..n {
                    let word = &b[i / w * (w / 8)..];
                    let pos = match o {
                        Order::Lsb0 => i % w,
                        Order::Msb0 => w - 1 - i % w,
                    };
                    bits.push(word[pos / 8] >> (pos % 8) & 1 == 1);
                }
                Ok(mk(ValueDef::BitSequence(bits), id.clone()))
            }
            SType::Seq(t) => {
                if compact {
                    return fail("type cannot be compact");
                }
                let n = Self::compact_len(inp, 64)?;
                let mut vals = vec![];
                for i in 0..n {
                    match self.dec(inp, t, false) {
                        Ok(v) => vals.push(v),
                        Err(mut f) => {
                            f.huge |= n > 100_000_000;
                            self.huge |= f.huge;
                            return Err(at_idx(f, i as usize, vals, id));
                        }
                    }
                }
                Ok(mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone()))
            }
            SType::Array(t, n) => {
                if compact {
                    return fail("type cannot be compact");
                }
                let mut vals = vec![];
                for i in 0..*n {
                    match self.dec(inp, t, false) {
                        Ok(v) => vals.push(v),
                        Err(f) => return Err(at_idx(f, i, vals, id)),
                    }
                }
                Ok(mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone()))
            }
            SType::Tuple(ts) => {
                if compact && ts.len() != 1 {
                    return fail("type cannot be compact");
                }
                let mut vals = vec![];
                for (i, t) in ts.iter().enumerate() {
                    match self.dec(inp, t, compact) {
                        Ok(v) => vals.push(v),
                        Err(f) => return Err(at_idx(f, i, vals, id)),
                    }
                }
                Ok(mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone()))
            }
            SType::Composite(fs) => {
                if compact && fs.len() != 1 {
                    return fail("type cannot be compact");
                }
                match self.fields(inp, fs, compact) {
                    Ok(c) => Ok(mk(ValueDef::Composite(c), id.clone())),
                    Err((path, partial, why)) => Err(Fail { path, partial: Some(mk(ValueDef::Composite(partial), id.clone())), why, huge: self.huge }),
                }
            }
            SType::Variant(vs) => {
                if compact {
                    return fail("type cannot be compact");
                }
                let ix = match Self::take(inp, 1) {
                    Ok(b) => b[0],
                    Err(e) => return Err(e),
                };
                let Some(var) = vs.iter().find(|v| v.index == ix) else { return fail("unknown variant") };
                match self.fields(inp, &var.fields, false) {
                    Ok(values) => Ok(mk(ValueDef::Variant(Variant { name: var.name.clone(), values }), id.clone())),
                    Err((mut path, partial, why)) => {
                        path.insert(0, Seg::Variant(var.name.clone()));
                        Err(Fail { path, partial: Some(mk(ValueDef::Variant(Variant { name: var.name.clone(), values: partial }), id.clone())), why, huge: self.huge })
                    }
                }
            }
        }
    }
    #[allow(clippy::type_complexity)]
    pub fn fields(&mut self, inp: &mut &[u8], fs: &[SField], compact: bool) -> Result<Composite<Tid>, (Vec<Seg>, Composite<Tid>, &'static str)> {
        let named = !fs.is_empty() && fs.iter().all(|f| f.name.is_some());
        let mut vals: Vec<V> = vec![];
        for (i, f) in fs.iter().enumerate() {
            match self.dec(inp, &f.id, compact) {
                Ok(v) => vals.push(v),
                Err(e) => {
                    let mut path = e.path;
                    path.insert(0, if named { Seg::Field(f.name.clone().unwrap()) } else { Seg::Idx(i) });
                    let mut part = vals;
                    let mut upto = i;
                    if let Some(p) = e.partial {
                        part.push(p);
                        upto += 1;
                    }
                    let comp = if named {
                        Composite::Named(fs[..upto].iter().zip(part).map(|(f, v)| (f.name.clone().unwrap(), v)).collect())
                    } else {
                        Composite::Unnamed(part)
                    };
                    return Err((path, comp, e.why));
                }
            }
        }
        Ok(fields_composite(fs, vals))
    }
}
fn at_idx(f: Fail, i: usize, mut vals: Vec<V>, id: &Tid) -> Fail {
    let mut path = f.path;
    path.insert(0, Seg::Idx(i));
    if let Some(p) = f.partial {
        vals.push(p);
    }
    Fail { path, partial: Some(mk(ValueDef::Composite(Composite::Unnamed(vals)), id.clone())), why: f.why, huge: f.huge }
}
pub fn uint_bytes(p: Prim) -> usize {
    match p {
        Prim::U8 | Prim::I8 => 1,
        Prim::U16 | Prim::I16 => 2,
        Prim::U32 | Prim::I32 => 4,
        Prim::U64 | Prim::I64 => 8,
        _ => 16,
    }
}
