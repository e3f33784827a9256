//! Simulated type registry ("the remote metadata service") and its resolver seam.

use crate::guard::{Injected, OverBudget};
use crate::tape::Ctx;
use scale_type_resolver::{
    BitsOrderFormat as Order, BitsStoreFormat as Store, Field, Primitive as Prim, ResolvedTypeVisitor, TypeResolver, Variant,
};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;

/// A type id that is deliberately not Copy.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Tid(pub u32);
impl std::fmt::Debug for Tid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "T{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct SField {
    pub name: Option<String>,
    pub id: Tid,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SVariant {
    pub name: String,
    pub index: u8,
    pub fields: Vec<SField>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SType {
    Prim(Prim),
    Compact(Tid),
    Seq(Tid),
    Array(Tid, usize),
    Tuple(Vec<Tid>),
    Composite(Vec<SField>),
    Variant(Vec<SVariant>),
    Bits(Store, Order),
}

#[derive(Clone, Debug, Default)]
pub struct Reg {
    pub types: Vec<SType>,
}
impl Reg {
    pub fn add(&mut self, t: SType) -> Tid {
        self.types.push(t);
        Tid(self.types.len() as u32 - 1)
    }
    pub fn get(&self, id: &Tid) -> &SType {
        &self.types[id.0 as usize]
    }
    pub fn try_get(&self, id: &Tid) -> Option<&SType> {
        self.types.get(id.0 as usize)
    }
    pub fn prim(&mut self, p: Prim) -> Tid {
        self.add(SType::Prim(p))
    }
    /// smallest encoding of the type in bytes (0 = may be empty); recursion through variants counts 1
    pub fn min_size(&self, id: &Tid) -> usize {
        match self.get(id) {
            SType::Prim(_) | SType::Compact(_) | SType::Seq(_) | SType::Variant(_) | SType::Bits(..) => 1,
            SType::Array(t, n) => {
                if *n == 0 {
                    0
                } else {
                    self.min_size(t)
                }
            }
            SType::Tuple(ts) => ts.iter().map(|t| self.min_size(t)).sum(),
            SType::Composite(fs) => fs.iter().map(|f| self.min_size(&f.id)).sum(),
        }
    }
    /// rough number of nodes a value of this type has to have (variants: largest)
    pub fn weight(&self, id: &Tid) -> usize {
        self.weight_v(id, &mut vec![])
    }
    fn weight_v(&self, id: &Tid, visiting: &mut Vec<u32>) -> usize {
        if visiting.contains(&id.0) || visiting.len() > 40 {
            return 1;
        }
        visiting.push(id.0);
        let w = match self.get(id) {
            SType::Prim(_) | SType::Seq(_) | SType::Bits(..) => 1,
            SType::Compact(t) => self.weight_v(t, visiting),
            SType::Array(t, n) => 1 + n * self.weight_v(t, visiting),
            SType::Tuple(ts) => 1 + ts.iter().map(|t| self.weight_v(t, visiting)).sum::<usize>(),
            SType::Composite(fs) => 1 + fs.iter().map(|f| self.weight_v(&f.id, visiting)).sum::<usize>(),
            SType::Variant(vs) => 1 + vs.iter().map(|v| v.fields.iter().map(|f| self.weight_v(&f.id, visiting)).sum::<usize>()).max().unwrap_or(0),
        };
        visiting.pop();
        w
    }
    /// ids reachable from id
    pub fn reach(&self, id: &Tid) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![id.0];
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            match &self.types[i as usize] {
                SType::Prim(_) | SType::Bits(..) => {}
                SType::Compact(t) | SType::Seq(t) | SType::Array(t, _) => todo.push(t.0),
                SType::Tuple(ts) => todo.extend(ts.iter().map(|t| t.0)),
                SType::Composite(fs) => todo.extend(fs.iter().map(|f| f.id.0)),
                SType::Variant(vs) => todo.extend(vs.iter().flat_map(|v| v.fields.iter().map(|f| f.id.0))),
            }
        }
        seen
    }
    pub fn show(&self, id: &Tid) -> String {
        self.show_d(id, 6)
    }
    fn show_d(&self, id: &Tid, d: usize) -> String {
        if d == 0 {
            return format!("{id:?}");
        }
        let fields = |fs: &Vec<SField>| {
            fs.iter()
                .map(|f| match &f.name {
                    Some(n) => format!("{n:?}: {}", self.show_d(&f.id, d - 1)),
                    None => self.show_d(&f.id, d - 1),
                })
                .collect::<Vec<_>>()
                .join(", ")
        };
        let s = match self.try_get(id) {
            None => "?".to_string(),
            Some(SType::Prim(p)) => format!("{p:?}").to_lowercase(),
            Some(SType::Compact(t)) => format!("Compact<{}>", self.show_d(t, d - 1)),
            Some(SType::Seq(t)) => format!("Vec<{}>", self.show_d(t, d - 1)),
            Some(SType::Array(t, n)) => format!("[{}; {n}]", self.show_d(t, d - 1)),
            Some(SType::Tuple(ts)) => format!("({})", ts.iter().map(|t| self.show_d(t, d - 1)).collect::<Vec<_>>().join(", ")),
            Some(SType::Composite(fs)) => format!("struct{{{}}}", fields(fs)),
            Some(SType::Variant(vs)) => {
                format!("enum{{{}}}", vs.iter().map(|v| format!("{:?}#{}({})", v.name, v.index, fields(&v.fields))).collect::<Vec<_>>().join("|"))
            }
            Some(SType::Bits(s, o)) => format!("Bits<{s:?},{o:?}>"),
        };
        format!("T{}={s}", id.0)
    }
}

// ------------------------------------------------------------ the resolver seam

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Outage {
    /// types the service does not know; reported as "not found"
    pub missing: BTreeSet<u32>,
    /// types for which the service reports an error
    pub erroring: BTreeSet<u32>,
    /// the service is down from this lookup on
    pub down_from: Option<u64>,
    /// exactly this lookup fails
    pub down_once: Option<u64>,
    /// so many lookups fail, the first of them no earlier than this one. Spares those with which the dependency
    /// `scale-encode` steps over single-field wrappers: it ignores their failure (known finding).
    pub brief: Option<(u64, u64)>,
    /// .. by saying that there is no such type. Spares all lookups of `scale-encode`: it reports most of them as
    /// a value of the wrong shape (known finding).
    pub brief_missing: bool,
    /// exactly this lookup finds no such type
    pub missing_once: Option<u64>,
    /// panic at this lookup
    pub panic_at: Option<u64>,
}

pub struct SimResolver<'r> {
    pub reg: &'r Reg,
    pub plan: Outage,
    pub lookups: Cell<u64>,
    pub budget: u64,
    pub failed: Cell<u64>,
    pub brief_failed: Cell<u64>,
    pub log: RefCell<Option<Vec<u32>>>,
    pub hook: Option<&'r dyn Fn()>,
}
impl<'r> SimResolver<'r> {
    pub fn new(reg: &'r Reg) -> Self {
        SimResolver {
            reg,
            plan: Outage::default(),
            lookups: Cell::new(0),
            budget: 2_000_000,
            failed: Cell::new(0),
            brief_failed: Cell::new(0),
            log: RefCell::new(None),
            hook: None,
        }
    }
    pub fn with(reg: &'r Reg, plan: Outage) -> Self {
        SimResolver { plan, ..SimResolver::new(reg) }
    }
    pub fn reset(&self) {
        self.lookups.set(0);
        self.failed.set(0);
        self.brief_failed.set(0);
    }
}
/// Does this lookup come from one of the two helpers of `scale-encode` that swallow a failure?
fn swallowed<V>() -> bool {
    let n = std::any::type_name::<V>();
    n.contains("scale_encode::impls::find_single_entry_with_same_repr") || n.contains("scale_encode::impls::composite::skip_through_single_unnamed_fields")
}

#[derive(Debug)]
pub struct ResolveError(pub String);
impl std::fmt::Display for ResolveError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "registry outage: {}", self.0)
    }
}

#[derive(Clone)]
pub struct FieldsIter<'a>(pub std::slice::Iter<'a, SField>);
impl<'a> Iterator for FieldsIter<'a> {
    type Item = Field<'a, Tid>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|f| Field { name: f.name.as_deref(), id: f.id.clone() })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl ExactSizeIterator for FieldsIter<'_> {}

impl<'r> TypeResolver for SimResolver<'r> {
    type TypeId = Tid;
    type Error = ResolveError;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = Tid>>(&'this self, id: Tid, visitor: V) -> Result<V::Value, ResolveError> {
        let n = self.lookups.get();
        self.lookups.set(n + 1);
        if let Some(l) = self.log.borrow_mut().as_mut() {
            l.push(id.0);
        }
        if n >= self.budget {
            std::panic::panic_any(OverBudget(format!("more than {} type lookups", self.budget)));
        }
        if let Some(h) = self.hook {
            h();
        }
        if self.plan.panic_at == Some(n) {
            self.failed.set(self.failed.get() + 1);
            std::panic::panic_any(Injected);
        }
        if self.plan.down_from.map(|k| n >= k).unwrap_or(false) || self.plan.down_once == Some(n) || self.plan.erroring.contains(&id.0) {
            self.failed.set(self.failed.get() + 1);
            return Err(ResolveError(format!("lookup {n} of {id:?}")));
        }
        if let Some((k, m)) = self.plan.brief {
            let done = self.brief_failed.get();
            let spared = if self.plan.brief_missing { in_scale_encode::<V>() } else { swallowed::<V>() };
            if n >= k && done < m && !spared {
                self.brief_failed.set(done + 1);
                self.failed.set(self.failed.get() + 1);
                if self.plan.brief_missing {
                    return Ok(visitor.visit_not_found());
                }
                return Err(ResolveError(format!("lookup {n} of {id:?}")));
            }
        }
        if self.plan.missing.contains(&id.0) || self.plan.missing_once == Some(n) {
            self.failed.set(self.failed.get() + 1);
            return Ok(visitor.visit_not_found());
        }
        let Some(t) = self.reg.try_get(&id) else {
            return Ok(visitor.visit_not_found());
        };
        Ok(match t {
            SType::Prim(p) => visitor.visit_primitive(*p),
            SType::Compact(t) => visitor.visit_compact(t.clone()),
            SType::Seq(t) => visitor.visit_sequence(std::iter::empty(), t.clone()),
            SType::Array(t, n) => visitor.visit_array(t.clone(), *n),
            SType::Tuple(ts) => visitor.visit_tuple(ts.iter().cloned()),
            SType::Composite(fs) => visitor.visit_composite(["sim", "Composite"].into_iter(), FieldsIter(fs.iter())),
            SType::Variant(vs) => visitor.visit_variant(
                ["sim", "Variant"].into_iter(),
                vs.iter().map(|v| Variant { index: v.index, name: &v.name, fields: FieldsIter(v.fields.iter()) }),
            ),
            SType::Bits(s, o) => visitor.visit_bit_sequence(*s, *o),
        })
    }
}

fn in_scale_encode<V>() -> bool {
    std::any::type_name::<V>().contains("scale_encode::impls::")
}

// ------------------------------------------------------------ generation

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub depth: usize,
    /// allow 0-byte types as sequence elements
    pub zero_seq: bool,
    pub recursive: bool,
    pub compact: bool,
    pub chars: bool,
    pub big_arrays: bool,
    /// composites mixing named and unnamed fields (legal in the resolver interface, absent from real metadata)
    pub mixed_fields: bool,
}
impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { depth: 4, zero_seq: false, recursive: true, compact: true, chars: true, big_arrays: true, mixed_fields: false }
    }
}

pub const PRIMS: [Prim; 13] = [
    Prim::U8, Prim::Bool, Prim::U32, Prim::Str, Prim::I8, Prim::U16, Prim::U64, Prim::U128, Prim::I16, Prim::I32, Prim::I64, Prim::I128, Prim::Char,
];
pub const UINTS: [Prim; 5] = [Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128];
pub const STORES: [Store; 4] = [Store::U8, Store::U16, Store::U32, Store::U64];

const NAMES: [&str; 24] = [
    "a", "b", "x", "foo", "bar", "Some", "None", "Ok", "value", "values", "name", "true", "false", "truex", "v", "_a", "A1", "é", "日本", "has space", "q\"uote", "", "x_", "a__",
];

pub fn gen_name(c: &mut Ctx) -> String {
    match c.weighted(&[240, 36, 1, 10]) {
        3 => crate::dict::near_word(c).unwrap_or_default(),
        0 => NAMES[c.idx(NAMES.len())].to_string(),
        2 => {
            // a long one
            let n = *c.choose(&[15usize, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
            let salt = c.pick(26) as usize;
            let other = *c.choose(&['b', '_', '7', 'é']);
            (0..n).map(|i| if i > 0 && i % 3 == 0 { other } else { (b'a' + ((i * 7 + salt) % 26) as u8) as char }).collect()
        }
        _ => {
            let n = c.range(1, 6);
            (0..n).map(|_| *c.choose(&['a', 'z', 'Z', '_', '0', 'é', ' ', '-', '"', '\\', '\n', 'ß', '中', '\u{1F600}', '.', ':'])).collect()
        }
    }
}
/// distinct names
pub fn gen_names(c: &mut Ctx, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for i in 0..n {
        let mut s = gen_name(c);
        if v.contains(&s) {
            s = format!("{s}{i}");
        }
        while v.contains(&s) {
            s.push('_');
        }
        v.push(s);
    }
    v
}

fn gen_fields(c: &mut Ctx, reg: &mut Reg, cfg: &GenCfg, depth: usize, max: usize) -> Vec<SField> {
    let mut n = c.weighted(&[4, 6, 5, 3, 1, 1]).min(max);
    let mut depth = depth;
    if max > 2 && c.chance(1, 60) {
        // a wide record
        n = *c.choose(&[12usize, 16, 17, 20, 33]);
        depth = 0;
    }
    let named = c.flip();
    let mut names = gen_names(c, if named { n } else { 0 });
    names.reverse();
    let mut v = vec![];
    for _ in 0..n {
        let id = gen_type(c, reg, cfg, depth);
        v.push(SField { name: names.pop(), id });
    }
    if cfg.mixed_fields && n > 1 && named && c.chance(1, 4) {
        let k = c.idx(n);
        v[k].name = None;
    }
    v
}

/// an unsigned integer, possibly wrapped in single-field composites/tuples: what Compact may hold
fn gen_compactable(c: &mut Ctx, reg: &mut Reg) -> Tid {
    let p = *c.choose(&UINTS);
    let mut id = reg.prim(p);
    let wraps = c.weighted(&[6, 2, 1]);
    for _ in 0..wraps {
        let t = match c.pick(3) {
            0 => SType::Composite(vec![SField { name: None, id }]),
            1 => SType::Composite(vec![SField { name: Some(gen_name(c)), id }]),
            _ => SType::Tuple(vec![id]),
        };
        id = reg.add(t);
    }
    id
}

/// a scalar type
pub fn gen_leaf(c: &mut Ctx, reg: &mut Reg, cfg: &GenCfg) -> Tid {
    match c.weighted(&[16, if cfg.compact { 3 } else { 0 }, 3]) {
        0 => {
            let n = if cfg.chars { PRIMS.len() } else { PRIMS.len() - 1 };
            let p = PRIMS[c.idx(n)];
            reg.prim(p)
        }
        1 => {
            let t = gen_compactable(c, reg);
            reg.add(SType::Compact(t))
        }
        _ => {
            let s = *c.choose(&STORES);
            let o = if c.flip() { Order::Msb0 } else { Order::Lsb0 };
            reg.add(SType::Bits(s, o))
        }
    }
}

pub fn gen_type(c: &mut Ctx, reg: &mut Reg, cfg: &GenCfg, depth: usize) -> Tid {
    // reuse an existing type now and then: shared ids
    if !reg.types.is_empty() && c.chance(1, 8) {
        let i = c.idx(reg.types.len());
        return Tid(i as u32);
    }
    if depth == 0 {
        return gen_leaf(c, reg, cfg);
    }
    if depth > 1 && c.chance(1, 150) {
        return gen_tower(c, reg, cfg);
    }
    match c.weighted(&[6, 3, 2, 3, 5, 4, if cfg.recursive { 1 } else { 0 }]) {
        0 => gen_leaf(c, reg, cfg),
        1 => {
            let mut t = gen_type(c, reg, cfg, depth - 1);
            if !cfg.zero_seq && reg.min_size(&t) == 0 {
                t = reg.prim(Prim::U8);
            }
            reg.add(SType::Seq(t))
        }
        2 => {
            let t = gen_type(c, reg, cfg, depth - 1);
            let n = match c.weighted(&[6, 3, 1]) {
                0 => c.range(0, 4),
                1 => *c.choose(&[1usize, 2, 16, 20, 32]),
                _ => {
                    if cfg.big_arrays && matches!(reg.get(&t), SType::Prim(_)) {
                        *c.choose(&[33usize, 64, 100, 255, 256])
                    } else {
                        1
                    }
                }
            };
            let n = if n * reg.weight(&t) > 600 { n.min(1) } else { n };
            reg.add(SType::Array(t, n))
        }
        3 => {
            let n = c.weighted(&[2, 3, 4, 3, 1]);
            let ts = (0..n).map(|_| gen_type(c, reg, cfg, depth - 1)).collect();
            reg.add(SType::Tuple(ts))
        }
        4 => {
            let fs = gen_fields(c, reg, cfg, depth - 1, 5);
            reg.add(SType::Composite(fs))
        }
        5 => {
            let mut n = c.weighted(&[0, 3, 4, 3, 1, 1]);
            let wide = c.chance(1, 60);
            if wide {
                // many alternatives, as in the call types of real metadata
                n = *c.choose(&[16usize, 17, 33, 70]);
            }
            let names = if wide { (0..n).map(|i| format!("V{i}")).collect() } else { gen_names(c, n) };
            let mut vs: Vec<SVariant> = vec![];
            for (i, name) in names.into_iter().enumerate() {
                let fields = if wide { gen_fields(c, reg, cfg, 0, 1) } else { gen_fields(c, reg, cfg, depth - 1, 3) };
                let mut index = if c.chance(1, 3) { c.pick(256) as u8 } else { i as u8 };
                while vs.iter().any(|v| v.index == index) {
                    index = index.wrapping_add(1);
                }
                vs.push(SVariant { name, index, fields });
            }
            // declaration order is not index order
            if vs.len() > 1 && c.chance(1, 4) {
                vs.reverse();
            }
            reg.add(SType::Variant(vs))
        }
        _ => {
            // a recursive type: enum { Nil, Cons(payload, self) } with self behind the same id
            let payload = gen_leaf(c, reg, cfg);
            let me = Tid(reg.types.len() as u32);
            let names = gen_names(c, 2);
            let named = c.flip();
            let f = |n: &str, id: Tid| SField { name: if named { Some(n.to_string()) } else { None }, id };
            let cons = SVariant { name: names[0].clone(), index: 1, fields: vec![f("head", payload), f("tail", me)] };
            let nil = SVariant { name: names[1].clone(), index: 0, fields: vec![] };
            reg.add(SType::Variant(vec![nil, cons]))
        }
    }
}

/// A type of many levels, few of them sequences.
fn gen_tower(c: &mut Ctx, reg: &mut Reg, cfg: &GenCfg) -> Tid {
    let n = match c.pick(3) {
        0 => c.range(5, 20),
        1 => *c.choose(&[31usize, 32, 33, 63, 64, 65]),
        _ => c.range(20, 70),
    };
    let mut id = gen_type(c, reg, cfg, 1);
    let mut seqs = 2;
    for _ in 0..n {
        let with = |c: &mut Ctx| if c.flip() { Some(gen_name(c)) } else { None };
        id = match c.weighted(&[3, 3, 2, 3, 3, 1]) {
            0 => {
                let name = with(c);
                reg.add(SType::Composite(vec![SField { name, id }]))
            }
            1 => {
                let side = gen_leaf(c, reg, cfg);
                let mut names = if c.flip() { gen_names(c, 2) } else { vec![] };
                let mut fs = vec![SField { name: names.pop(), id }, SField { name: names.pop(), id: side }];
                if c.flip() {
                    fs.swap(0, 1);
                }
                reg.add(SType::Composite(fs))
            }
            2 => reg.add(SType::Tuple(vec![id])),
            3 => {
                let side = gen_leaf(c, reg, cfg);
                let ts = if c.flip() { vec![id, side] } else { vec![side, id] };
                reg.add(SType::Tuple(ts))
            }
            4 => {
                let name = with(c);
                let k = c.pick(4) as u8;
                let mut vs = vec![SVariant { name: gen_name(c), index: k, fields: vec![SField { name, id }] }];
                if c.chance(1, 4) {
                    let name = format!("{}X", vs[0].name);
                    vs.push(SVariant { name, index: k + 1, fields: vec![] });
                }
                reg.add(SType::Variant(vs))
            }
            _ if seqs > 0 && reg.min_size(&id) > 0 => {
                seqs -= 1;
                let n = c.range(1, 2);
                reg.add(if c.flip() { SType::Seq(id) } else { SType::Array(id, n) })
            }
            _ => id,
        };
    }
    c.probe("tower_type");
    id
}

/// A registry with one root type.
pub fn gen_root(c: &mut Ctx, cfg: &GenCfg) -> (Reg, Tid) {
    let mut reg = Reg::default();
    let d = c.range(0, cfg.depth);
    let id = gen_type(c, &mut reg, cfg, d);
    (reg, id)
}
