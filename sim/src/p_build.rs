//! C34: building values out of what the caller's iterators and conversions deliver, and reading them back.

use crate::guard::{call, guard, Caught, Injected};
use crate::refcodec::*;
use crate::tape::*;
use crate::types::*;
use crate::{bail, ensure};
use scale_value::{At, BitSequence, Composite, Primitive, Value, ValueDef, Variant};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

/// Calls into the caller's code, one of which may panic; and what became of the caller's objects.
#[derive(Default)]
struct Caller {
    calls: Cell<u64>,
    panic_at: Cell<Option<u64>>,
    after: Cell<u64>,
    made: Cell<u64>,
    dropped: RefCell<Vec<u64>>,
}
impl Caller {
    fn tick(&self) {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if let Some(k) = self.panic_at.get() {
            if n == k {
                std::panic::panic_any(Injected);
            }
            if n > k {
                self.after.set(self.after.get() + 1);
            }
        }
    }
}
/// An object of the caller. It counts its drops; cloning it may panic.
struct Token {
    /// which node it belongs to
    at: u64,
    serial: u64,
    caller: Rc<Caller>,
}
impl Token {
    fn new(at: u64, caller: &Rc<Caller>) -> Token {
        let serial = caller.made.get();
        caller.made.set(serial + 1);
        Token { at, serial, caller: caller.clone() }
    }
}
impl Clone for Token {
    fn clone(&self) -> Token {
        self.caller.tick();
        Token::new(self.at, &self.caller)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        self.caller.dropped.borrow_mut().push(self.serial);
    }
}

/// The caller's iterator: promises sizes it does not keep, and may panic.
struct Feed<I> {
    items: VecDeque<I>,
    hint: u64,
    off: usize,
    caller: Rc<Caller>,
}
impl<I> Iterator for Feed<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        self.caller.tick();
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (n.saturating_sub(self.off), Some(n.saturating_sub(self.off))),
            4 => (n + self.off, Some(n + self.off)),
            5 => (n + self.off, Some(n / 2)),
            6 => (0, Some(0)),
            _ => {
                self.caller.tick();
                (n, None)
            }
        }
    }
}
/// The caller's name type
struct Name(String, Rc<Caller>);
impl From<Name> for String {
    fn from(n: Name) -> String {
        n.1.tick();
        n.0
    }
}
/// The caller's value type
struct Conv(Value<()>, Token);
impl From<Conv> for Value<()> {
    fn from(c: Conv) -> Value<()> {
        c.1.caller.tick();
        c.0
    }
}
/// The caller's bytes
struct Raw(Vec<u8>, Rc<Caller>);
impl AsRef<[u8]> for Raw {
    fn as_ref(&self) -> &[u8] {
        self.1.tick();
        &self.0
    }
}

fn feed<I>(c: &mut Ctx, caller: &Rc<Caller>, items: Vec<I>) -> Feed<I> {
    let hint = c.weighted(&[4, 2, 1, 1, 1, 1, 1, 1]) as u64;
    let off = if hint >= 3 { c.often(1, 3, 5000) } else { 0 };
    if (2..=6).contains(&hint) {
        c.fault("wrong_size_promised");
    }
    Feed { items: items.into(), hint, off, caller: caller.clone() }
}

/// the same leaf through the conversions of one source type
struct Doors<T> {
    p: Primitive,
    d: ValueDef<()>,
    v: Value<()>,
    t: ValueDef<T>,
}
fn unsigned<T>(c: &mut Ctx, n: u128) -> Doors<T> {
    macro_rules! go {
        ($($t:ty),*) => {{
            let all: Vec<fn(u128) -> Option<Doors<T>>> = vec![$(|n| <$t>::try_from(n).ok().map(|x| Doors { p: x.into(), d: x.into(), v: x.into(), t: x.into() })),*];
            let k = c.idx(all.len());
            all[k](n)
        }};
    }
    go!(u128, u64, u32, u16, u8, usize).unwrap_or_else(|| Doors { p: Primitive::u128(n), d: n.into(), v: Value::u128(n), t: n.into() })
}
fn signed<T>(c: &mut Ctx, n: i128) -> Doors<T> {
    macro_rules! go {
        ($($t:ty),*) => {{
            let all: Vec<fn(i128) -> Option<Doors<T>>> = vec![$(|n| <$t>::try_from(n).ok().map(|x| Doors { p: x.into(), d: x.into(), v: x.into(), t: x.into() })),*];
            let k = c.idx(all.len());
            all[k](n)
        }};
    }
    go!(i128, i64, i32, i16, i8, isize).unwrap_or_else(|| Doors { p: Primitive::i128(n), d: n.into(), v: Value::i128(n), t: n.into() })
}
fn doors<T>(c: &mut Ctx, p: &Primitive) -> Doors<T> {
    match p.clone() {
        Primitive::Bool(b) => Doors { p: b.into(), d: b.into(), v: if c.flip() { Value::bool(b) } else { b.into() }, t: b.into() },
        Primitive::Char(x) => Doors { p: x.into(), d: x.into(), v: if c.flip() { Value::char(x) } else { x.into() }, t: x.into() },
        Primitive::String(s) => {
            if c.flip() {
                let s = &*s;
                Doors { p: s.into(), d: s.into(), v: s.into(), t: s.into() }
            } else {
                Doors { p: s.clone().into(), d: s.clone().into(), v: s.clone().into(), t: s.into() }
            }
        }
        Primitive::U128(n) => unsigned(c, n),
        Primitive::I128(n) => signed(c, n),
        p => Doors { p: p.clone(), d: p.clone().into(), v: Value::primitive(p.clone()), t: p.into() },
    }
}

/// A value without contexts, through any of the doors
fn plain(c: &mut Ctx, k: &Rc<Caller>, want: &Value<()>, next: &mut u64) -> Value<()> {
    *next += 1;
    match &want.value {
        ValueDef::Primitive(p) => {
            if let (Primitive::String(s), true) = (p, c.flip()) {
                return if c.flip() { Value::string(Name(s.clone(), k.clone())) } else { Value::string(&**s) };
            }
            if let (Primitive::U128(n), true) = (p, c.chance(1, 4)) {
                return Value::u128(*n);
            }
            if let (Primitive::I128(n), true) = (p, c.chance(1, 4)) {
                return Value::i128(*n);
            }
            let d = doors::<()>(c, p);
            match c.pick(4) {
                0 => d.v,
                1 => Value::primitive(d.p),
                2 => Value::without_context(d.d),
                _ => Value::with_context(ValueDef::from(d.p), ()),
            }
        }
        ValueDef::BitSequence(b) => match c.pick(3) {
            0 => Value::bit_sequence(b.clone()),
            1 => b.clone().into(),
            _ => Value::without_context(b.clone().into()),
        },
        ValueDef::Composite(Composite::Named(l)) => {
            let items: Vec<(String, Value<()>)> = l.iter().map(|(n, v)| (n.clone(), plain(c, k, v, next))).collect();
            if c.flip() {
                let it = items.into_iter().map(|(n, v)| (Name(n, k.clone()), v)).collect();
                let it = feed(c, k, it);
                return if c.flip() { Value::named_composite(it) } else { Value::from(Composite::named(it)) };
            }
            if c.chance(1, 3) {
                return Value::named_composite(items);
            }
            let vec: Vec<(Name, Conv)> = items.into_iter().map(|(n, v)| (Name(n, k.clone()), Conv(v, Token::new(0, k)))).collect();
            match c.pick(3) {
                0 => Value::from(vec),
                1 => Value::without_context(vec.into()),
                _ => Composite::from(vec).into(),
            }
        }
        ValueDef::Composite(Composite::Unnamed(l)) => {
            let bytes: Option<Vec<u8>> = l
                .iter()
                .map(|v| match &v.value {
                    ValueDef::Primitive(Primitive::U128(n)) => u8::try_from(*n).ok(),
                    _ => None,
                })
                .collect();
            if let (Some(b), true) = (bytes, c.chance(2, 3)) {
                return match c.pick(4) {
                    0 => Value::from_bytes(b),
                    1 => Value::from_bytes(Raw(b, k.clone())),
                    2 => Value::from(b),
                    _ => Value::from_bytes(&b[..]),
                };
            }
            let items: Vec<Value<()>> = l.iter().map(|v| plain(c, k, v, next)).collect();
            if c.flip() {
                let it = feed(c, k, items);
                return if c.flip() { Value::unnamed_composite(it) } else { Value::from(Composite::unnamed(it)) };
            }
            if c.chance(1, 3) {
                return items.into();
            }
            let vec: Vec<Conv> = items.into_iter().map(|v| Conv(v, Token::new(0, k))).collect();
            match c.pick(3) {
                0 => Value::from(vec),
                1 => Value::without_context(vec.into()),
                _ => Composite::from(vec).into(),
            }
        }
        ValueDef::Variant(Variant { name, values }) => match (values, c.pick(3)) {
            (Composite::Named(l), 0) => {
                let items: Vec<(String, Value<()>)> = l.iter().map(|(n, v)| (n.clone(), plain(c, k, v, next))).collect();
                let it = items.into_iter().map(|(n, v)| (Name(n, k.clone()), v)).collect();
                let it = feed(c, k, it);
                if c.flip() {
                    Value::named_variant(Name(name.clone(), k.clone()), it)
                } else {
                    Variant::named_fields(name.clone(), it).into()
                }
            }
            (Composite::Unnamed(l), 0) => {
                let items: Vec<Value<()>> = l.iter().map(|v| plain(c, k, v, next)).collect();
                let it = feed(c, k, items);
                if c.flip() {
                    Value::unnamed_variant(Name(name.clone(), k.clone()), it)
                } else {
                    Variant::unnamed_fields(name.clone(), it).into()
                }
            }
            (_, d) => {
                let Value { value: ValueDef::Composite(x), .. } = plain(c, k, &Value { value: ValueDef::Composite(values.clone()), context: () }, next) else {
                    panic!("a composite became something else")
                };
                match d {
                    1 => Value::variant(Name(name.clone(), k.clone()), x),
                    _ => Value::variant(&**name, x),
                }
            }
        },
    }
}

/// A value with contexts, each the token of its node (numbered depth first)
fn tagged(c: &mut Ctx, k: &Rc<Caller>, want: &Value<()>, next: &mut u64) -> Value<Token> {
    let mine = Token::new(*next, k);
    *next += 1;
    fn comp(c: &mut Ctx, k: &Rc<Caller>, x: &Composite<()>, next: &mut u64) -> Composite<Token> {
        match x {
            Composite::Named(l) => {
                let items = l.iter().map(|(n, v)| (Name(n.clone(), k.clone()), tagged(c, k, v, next))).collect();
                let it = feed(c, k, items);
                Composite::named(it)
            }
            Composite::Unnamed(l) => {
                let items = l.iter().map(|v| tagged(c, k, v, next)).collect();
                let it = feed(c, k, items);
                Composite::unnamed(it)
            }
        }
    }
    let def: ValueDef<Token> = match &want.value {
        ValueDef::Primitive(p) => {
            let d = doors::<Token>(c, p);
            if c.flip() {
                d.t
            } else {
                d.p.into()
            }
        }
        ValueDef::BitSequence(b) => b.clone().into(),
        ValueDef::Composite(x) => comp(c, k, x, next).into(),
        ValueDef::Variant(Variant { name, values }) => match (values, c.pick(2)) {
            (Composite::Named(l), 0) => {
                let items = l.iter().map(|(n, v)| (n.clone(), tagged(c, k, v, next))).collect();
                let it = feed(c, k, items);
                Variant::named_fields(Name(name.clone(), k.clone()), it).into()
            }
            (Composite::Unnamed(l), 0) => {
                let items = l.iter().map(|v| tagged(c, k, v, next)).collect();
                let it = feed(c, k, items);
                Variant::unnamed_fields(Name(name.clone(), k.clone()), it).into()
            }
            _ => Variant { name: name.clone(), values: comp(c, k, values, next) }.into(),
        },
    };
    Value::with_context(def, mine)
}

fn same_prim(a: &Primitive, b: &Primitive) -> bool {
    match (a, b) {
        (Primitive::Bool(a), Primitive::Bool(b)) => a == b,
        (Primitive::Char(a), Primitive::Char(b)) => a == b,
        (Primitive::String(a), Primitive::String(b)) => a == b,
        (Primitive::U128(a), Primitive::U128(b)) => a == b,
        (Primitive::I128(a), Primitive::I128(b)) => a == b,
        (Primitive::U256(a), Primitive::U256(b)) => a == b,
        (Primitive::I256(a), Primitive::I256(b)) => a == b,
        _ => false,
    }
}
fn same_bits(a: &BitSequence, b: &BitSequence) -> bool {
    a.iter().collect::<Vec<bool>>() == b.iter().collect::<Vec<bool>>()
}
fn same_comp<A, B>(a: &Composite<A>, b: &Composite<B>, f: &mut dyn FnMut(&A, &B) -> bool) -> bool {
    match (a, b) {
        (Composite::Named(a), Composite::Named(b)) => a.len() == b.len() && a.iter().zip(b).all(|((n, v), (m, w))| n == m && same(v, w, f)),
        (Composite::Unnamed(a), Composite::Unnamed(b)) => a.len() == b.len() && a.iter().zip(b).all(|(v, w)| same(v, w, f)),
        _ => false,
    }
}
/// depth first
fn same<A, B>(a: &Value<A>, b: &Value<B>, f: &mut dyn FnMut(&A, &B) -> bool) -> bool {
    f(&a.context, &b.context)
        && match (&a.value, &b.value) {
            (ValueDef::Primitive(a), ValueDef::Primitive(b)) => same_prim(a, b),
            (ValueDef::BitSequence(a), ValueDef::BitSequence(b)) => same_bits(a, b),
            (ValueDef::Composite(a), ValueDef::Composite(b)) => same_comp(a, b, f),
            (ValueDef::Variant(a), ValueDef::Variant(b)) => a.name == b.name && same_comp(&a.values, &b.values, f),
            _ => false,
        }
}
fn any<A, B>(_: &A, _: &B) -> bool {
    true
}
fn kids<T>(v: &Value<T>) -> Option<&Composite<T>> {
    match &v.value {
        ValueDef::Composite(x) => Some(x),
        ValueDef::Variant(x) => Some(&x.values),
        _ => None,
    }
}
fn nth<T>(x: &Composite<T>, i: usize) -> Option<&Value<T>> {
    match x {
        Composite::Named(l) => l.get(i).map(|(_, v)| v),
        Composite::Unnamed(l) => l.get(i),
    }
}
fn count<T>(x: &Composite<T>) -> usize {
    match x {
        Composite::Named(l) => l.len(),
        Composite::Unnamed(l) => l.len(),
    }
}

fn read_back<T>(v: &Value<T>, n: &mut u64) -> RunResult {
    *n += 1;
    let p = match &v.value {
        ValueDef::Primitive(p) => Some(p),
        _ => None,
    };
    if let Some(p) = p {
        let ok = match p {
            Primitive::Bool(b) => p.as_bool() == Some(*b) && p.as_char().is_none() && p.as_u128().is_none() && p.as_i128().is_none() && p.as_str().is_none(),
            Primitive::Char(x) => p.as_char() == Some(*x) && p.as_bool().is_none() && p.as_u128().is_none() && p.as_i128().is_none() && p.as_str().is_none(),
            Primitive::String(s) => p.as_str() == Some(&**s) && p.as_bool().is_none() && p.as_char().is_none() && p.as_u128().is_none() && p.as_i128().is_none(),
            Primitive::U128(x) => p.as_u128() == Some(*x) && p.as_bool().is_none() && p.as_char().is_none() && p.as_str().is_none() && p.as_i128().is_none(),
            Primitive::I128(x) => p.as_i128() == Some(*x) && p.as_bool().is_none() && p.as_char().is_none() && p.as_str().is_none() && p.as_u128().is_none(),
            Primitive::U256(_) | Primitive::I256(_) => p.as_bool().is_none() && p.as_char().is_none() && p.as_u128().is_none() && p.as_i128().is_none() && p.as_str().is_none(),
        };
        ensure!(ok, "accessor-differs", "the accessors of {p:?}");
    }
    let ok = v.as_bool() == p.and_then(|p| p.as_bool())
        && v.as_char() == p.and_then(|p| p.as_char())
        && v.as_u128() == p.and_then(|p| p.as_u128())
        && v.as_i128() == p.and_then(|p| p.as_i128())
        && v.as_str() == p.and_then(|p| p.as_str());
    ensure!(ok, "accessor-differs", "the accessors of a value of {p:?}");
    if let Some(x) = kids(v) {
        let k = count(x);
        ensure!(x.len() == k && x.is_empty() == (k == 0), "count-differs", "{k} stored, len {} and is_empty {}", x.len(), x.is_empty());
        for i in 0..k {
            read_back(nth(x, i).unwrap(), n)?;
        }
    }
    Ok(())
}

/// Takes from an iterator over the stored values as the seed says; at(item, index) tells whether it is the right one.
fn drain<I>(c: &mut Ctx, mut it: impl ExactSizeIterator<Item = I>, n: usize, mut at: impl FnMut(&I, usize) -> bool) -> RunResult {
    let mut i = 0;
    for _ in 0..c.range(0, 4) {
        let left = n - i.min(n);
        match c.pick(4) {
            0 | 1 => {
                let x = it.next();
                let ok = match &x {
                    Some(x) => i < n && at(x, i),
                    None => i >= n,
                };
                ensure!(ok, "iterator-differs", "next() at {i} of {n}: {}", x.is_some());
                i += 1;
            }
            2 => {
                let k = c.range(0, 3);
                let x = it.nth(k);
                i += k;
                let ok = match &x {
                    Some(x) => i < n && at(x, i),
                    None => i >= n,
                };
                ensure!(ok, "iterator-differs", "nth({k}) reaching {i} of {n}: {}", x.is_some());
                i += 1;
            }
            _ => ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "iterator-differs", "{left} of {n} left, len {} and size_hint {:?}", it.len(), it.size_hint()),
        }
    }
    let i = i.min(n);
    match c.pick(6) {
        0 => {
            let k = it.count();
            ensure!(k == n - i, "iterator-differs", "{} of {n} left, count {k}", n - i);
        }
        1 => {
            let l = it.last();
            let ok = match &l {
                Some(x) => i < n && at(x, n - 1),
                None => i == n,
            };
            ensure!(ok, "iterator-differs", "last() with {} of {n} left: {}", n - i, l.is_some());
        }
        2 => {
            let mut j = i;
            let mut bad = false;
            it.for_each(|x| {
                bad |= j >= n || !at(&x, j);
                j += 1;
            });
            ensure!(!bad && j == n, "iterator-differs", "for_each from {i} of {n} ended at {j}, wrong values: {bad}");
        }
        3 => {
            let all: Vec<I> = it.collect();
            ensure!(all.len() == n - i && all.iter().enumerate().all(|(j, x)| at(x, i + j)), "iterator-differs", "collecting from {i} of {n} gave {}", all.len());
        }
        4 => {
            let k = c.idx(n - i + 1);
            let mut j = i;
            let hit = it.find(|x| {
                let ok = at(x, j);
                j += 1;
                !ok || j > i + k
            });
            let ok = match &hit {
                Some(x) => k < n - i && j == i + k + 1 && at(x, i + k),
                None => k >= n - i && j == n,
            };
            ensure!(ok, "iterator-differs", "finding the one at {} of {n} stopped at {j}", i + k);
        }
        // given up
        _ => drop(it),
    }
    Ok(())
}

/// A name close to one that is there
fn near(c: &mut Ctx, x: Option<&Composite<u32>>) -> String {
    if let Some(Composite::Named(l)) = x {
        if !l.is_empty() {
            let n = &l[c.idx(l.len())].0;
            return match c.weighted(&[6, 1, 1, 1, 1]) {
                0 => n.clone(),
                1 => format!("{n} "),
                2 => n.chars().skip(1).collect(),
                3 => n.to_uppercase(),
                _ => c.range(0, 3).to_string(),
            };
        }
    }
    match c.pick(3) {
        0 => String::new(),
        1 => c.range(0, 3).to_string(),
        _ => gen_name(c),
    }
}

fn lookups(c: &mut Ctx, v: &Value<u32>) -> RunResult {
    for _ in 0..c.range(1, 3) {
        let steps = c.range(1, 6);
        chain(c, v, Some(v), steps, String::new())?;
    }
    Ok(())
}
/// what `got`, an option, gives can only be used while that option is there
fn chain(c: &mut Ctx, v: &Value<u32>, got: Option<&Value<u32>>, steps: usize, mut path: String) -> RunResult {
    let here = got.and_then(kids);
    let by_name = c.flip();
    let (next, want) = if by_name {
        let name = near(c, here);
        path += &format!(".at({name:?})");
        let want = match here {
            Some(Composite::Named(l)) => l.iter().filter(|(n, _)| *n == name).map(|(_, v)| v).collect(),
            _ => vec![],
        };
        let next = match (got, c.pick(3)) {
            // through the parts
            (Some(Value { value: ValueDef::Composite(x), .. }), 1) => x.at(&*name),
            (Some(Value { value: ValueDef::Variant(x), .. }), 1) => x.at(&*name),
            (Some(v), 1) => v.at(&*name),
            (_, 2) => got.at(name.clone()),
            _ => got.at(&*name),
        };
        (next, want)
    } else {
        let n = here.map(count).unwrap_or(0);
        let i = match c.weighted(&[6, 1, 1, 1]) {
            0 => c.idx(n + 1),
            1 => n.saturating_sub(1),
            2 => n,
            _ => *c.choose(&[usize::MAX, usize::MAX - 1, 1 << 32, 256, 255, i64::MAX as usize]),
        };
        path += &format!(".at({i})");
        let want = here.and_then(|x| nth(x, i)).into_iter().collect();
        let next = match (got, c.pick(3)) {
            (Some(Value { value: ValueDef::Composite(x), .. }), 1) => x.at(i),
            (Some(Value { value: ValueDef::Variant(x), .. }), 1) => x.at(i),
            (Some(v), 1) => v.at(i),
            (_, 2) => got.at(&i),
            _ => got.at(i),
        };
        (next, want)
    };
    // of fields with equal names, any will do
    let ok = match next {
        None => want.is_empty(),
        Some(got) => want.iter().any(|w| std::ptr::eq(*w, got)),
    };
    ensure!(ok, "lookup-differs", "{path} in {} gave {}", crate::p_decode::show_v(v), next.map(|v| crate::p_decode::show_v(v)).unwrap_or("nothing".into()));
    c.ev_u(steps as u64 * 2 + next.is_some() as u64);
    if next.is_some() {
        c.probe("looked_up");
    }
    if steps > 1 {
        chain(c, v, next, steps - 1, path)?;
    }
    Ok(())
}

/// changes one thing somewhere
fn nudge(c: &mut Ctx, v: &mut Value<u32>) {
    let deeper = match &v.value {
        ValueDef::Composite(x) => count(x) > 0,
        ValueDef::Variant(x) => count(&x.values) > 0,
        _ => false,
    };
    if deeper && c.chance(2, 3) {
        let x = match &mut v.value {
            ValueDef::Composite(x) => x,
            ValueDef::Variant(x) => &mut x.values,
            _ => unreachable!(),
        };
        match x {
            Composite::Named(l) => {
                let i = c.idx(l.len());
                nudge(c, &mut l[i].1)
            }
            Composite::Unnamed(l) => {
                let i = c.idx(l.len());
                nudge(c, &mut l[i])
            }
        }
        return;
    }
    if c.chance(1, 6) {
        v.context ^= 1 << c.pick(32);
        return;
    }
    fn comp(c: &mut Ctx, x: &mut Composite<u32>) {
        match x {
            Composite::Named(l) if !l.is_empty() => {
                let (i, j) = (c.idx(l.len()), c.idx(l.len()));
                match c.pick(5) {
                    0 => l[i].0 = crate::faults::corrupt_text(c, &l[i].0.clone()),
                    1 => l.swap(i, j),
                    2 => drop(l.remove(i)),
                    3 => l.push(l[i].clone()),
                    _ => *x = Composite::Unnamed(l.drain(..).map(|(_, v)| v).collect()),
                }
            }
            Composite::Unnamed(l) if !l.is_empty() => {
                let (i, j) = (c.idx(l.len()), c.idx(l.len()));
                match c.pick(4) {
                    0 => l.swap(i, j),
                    1 => drop(l.remove(i)),
                    2 => l.push(l[i].clone()),
                    _ => *x = Composite::Named(l.drain(..).map(|v| (String::new(), v)).collect()),
                }
            }
            // from empty to empty
            Composite::Named(_) => *x = Composite::Unnamed(vec![]),
            Composite::Unnamed(_) => *x = Composite::Named(vec![]),
        }
    }
    match &mut v.value {
        ValueDef::Composite(x) => {
            if c.chance(1, 4) {
                v.value = ValueDef::Variant(Variant { name: String::new(), values: x.clone() });
            } else {
                comp(c, x)
            }
        }
        ValueDef::Variant(x) => match c.pick(4) {
            0 => x.name = crate::faults::corrupt_text(c, &x.name.clone()),
            1 => v.value = ValueDef::Composite(x.values.clone()),
            _ => comp(c, &mut x.values),
        },
        ValueDef::BitSequence(b) => {
            let mut l: Vec<bool> = b.iter().collect();
            match c.pick(3) {
                0 => l.push(false),
                1 => drop(l.pop()),
                _ => {
                    if !l.is_empty() {
                        let i = c.idx(l.len());
                        l[i] = !l[i]
                    }
                }
            }
            *b = l.into_iter().collect();
        }
        ValueDef::Primitive(p) => {
            *p = match p.clone() {
                Primitive::Bool(b) => match c.pick(2) {
                    0 => Primitive::Bool(!b),
                    _ => Primitive::U128(b as u128),
                },
                Primitive::Char(x) => match c.pick(2) {
                    0 => Primitive::Char(char::from_u32(x as u32 ^ 1).unwrap_or('a')),
                    _ => Primitive::String(x.to_string()),
                },
                Primitive::String(s) => match (c.pick(3), s.chars().next()) {
                    (0, Some(x)) => Primitive::Char(x),
                    _ => Primitive::String(crate::faults::corrupt_text(c, &s)),
                },
                Primitive::U128(n) => match c.pick(3) {
                    0 => Primitive::U128(n ^ 1 << c.pick(128)),
                    1 => Primitive::I128(n as i128),
                    _ => Primitive::U256(wide(n, 0)),
                },
                Primitive::I128(n) => match c.pick(3) {
                    0 => Primitive::I128(n ^ 1 << c.pick(128)),
                    1 => Primitive::U128(n as u128),
                    _ => Primitive::I256(wide(n as u128, if n < 0 { 255 } else { 0 })),
                },
                Primitive::U256(mut b) => {
                    if c.flip() {
                        Primitive::I256(b)
                    } else {
                        b[c.idx(32)] ^= 1 << c.pick(8);
                        Primitive::U256(b)
                    }
                }
                Primitive::I256(mut b) => {
                    if c.flip() {
                        Primitive::U256(b)
                    } else {
                        b[c.idx(32)] ^= 1 << c.pick(8);
                        Primitive::I256(b)
                    }
                }
            }
        }
    }
}
fn wide(n: u128, fill: u8) -> [u8; 32] {
    let mut b = [fill; 32];
    b[..16].copy_from_slice(&n.to_le_bytes());
    b
}

fn dropped_once(k: &Caller) -> RunResult {
    let mut d = k.dropped.borrow().clone();
    let n = d.len();
    d.sort();
    d.dedup();
    ensure!(n as u64 == k.made.get() && d.len() == n, "not-dropped-once", "of {} objects of the caller {} were dropped, {} of them once", k.made.get(), n, d.len());
    Ok(())
}

pub fn c34(c: &mut Ctx) -> RunResult {
    let shape = crate::p_fmt::Shape { depth: 3, big: true };
    let mut model: Value<u32> = crate::p_fmt::gen_value(c, shape);
    if kids(&model).is_none() {
        model = crate::p_fmt::gen_value(c, shape);
    }
    if c.chance(1, 20) {
        // bytes
        let n = c.often(0, 70, 1100);
        let v = (0..n).map(|_| mk(ValueDef::Primitive(Primitive::U128(c.pick(256) as u128)), 0)).collect();
        model = mk(ValueDef::Composite(Composite::Unnamed(v)), 0);
    }
    let want = strip(&model);
    let total = nodes(&want) as u64;
    let show = || crate::p_decode::show_v(&want);
    c.ev(show().as_bytes());

    // building, at times with a failure, then again
    for attempt in 0..c.range(1, 2) {
        let k = Rc::new(Caller::default());
        if attempt == 0 && c.chance(3, 4) {
            k.panic_at.set(Some(c.pick(2 * total)));
        }
        let with_contexts = c.flip();
        c.note(|| format!("build {} ({total} nodes), contexts {with_contexts}, panic at {:?}", show(), k.panic_at.get()));
        let failed = if with_contexts {
            let mut next = 0;
            match guard(|| tagged(c, &k, &want, &mut next)) {
                Ok(v) => {
                    let mut at = 0;
                    let shape = same(&v, &want, &mut |t: &Token, _| {
                        at += 1;
                        t.at == at - 1
                    });
                    ensure!(shape, "stored-differs", "{} was built (with contexts) as {}", show(), crate::p_decode::show_v(&strip_any(&v)));
                    let mut n = 0;
                    call("accessors", || read_back(&v, &mut n))??;
                    // a copy, which may fail
                    k.panic_at.set(if c.flip() { Some(k.calls.get() + c.pick(total + 1)) } else { None });
                    match guard(|| v.clone()) {
                        Ok(w) => {
                            ensure!(k.panic_at.get().map(|n| n >= k.calls.get()).unwrap_or(true), "panic-swallowed", "a context panicked when cloned and a copy came back");
                            ensure!(same(&v, &w, &mut |a: &Token, b: &Token| a.at == b.at && a.serial != b.serial), "copy-differs", "{} was cloned as {}", show(), crate::p_decode::show_v(&strip_any(&w)));
                        }
                        Err(Caught::Injected) => c.fault("clone_panics"),
                        Err(e) => bail!(e.class(), "cloning {}: {}", show(), e.show()),
                    }
                    k.panic_at.set(None);
                    // taken apart
                    if let Value { value: ValueDef::Composite(x) | ValueDef::Variant(Variant { values: x, .. }), context } = v {
                        drop(context);
                        let model = kids(&want).unwrap();
                        call("into_values", || drain(c, x.into_values(), count(model), |v, i| same(v, nth(model, i).unwrap(), &mut any)))??;
                    }
                    None
                }
                Err(e) => Some(e),
            }
        } else {
            let mut next = 0;
            match guard(|| plain(c, &k, &want, &mut next)) {
                Ok(v) => {
                    ensure!(same(&v, &want, &mut any), "stored-differs", "{} was built as {}", show(), crate::p_decode::show_v(&v));
                    ensure!(call("==", || v == want && !(v != want))?, "equality-differs", "{} is not equal to itself", show());
                    None
                }
                Err(e) => Some(e),
            }
        };
        match failed {
            None => c.probe("built"),
            Some(Caught::Injected) => {
                c.fault("callers_code_panics");
                c.nontrivial();
                ensure!(k.after.get() == 0, "caller-called-after-panic", "building {}: {} more calls after the panic", show(), k.after.get());
            }
            Some(e) => bail!(e.class(), "building {}: {}", show(), e.show()),
        }
        c.ev_u(k.calls.get());
        dropped_once(&k)?;
    }

    // reading back
    let mut n = 0;
    call("accessors", || read_back(&model, &mut n))??;
    if let Some(x) = kids(&model) {
        call("values", || drain(c, x.values(), count(x), |v, i| std::ptr::eq(*v, nth(x, i).unwrap())))??;
    }
    call("at", || lookups(c, &model))??;
    // equality
    let mut other = model.clone();
    ensure!(same(&model, &other, &mut |a, b| a == b), "copy-differs", "{} was cloned as {}", crate::p_decode::show_v(&model), crate::p_decode::show_v(&other));
    for _ in 0..c.range(1, 2) {
        nudge(c, &mut other);
    }
    let equal = same(&model, &other, &mut |a, b| a == b);
    let got = call("==", || (model == other, other == model, model != other))?;
    ensure!(got == (equal, equal, !equal), "equality-differs", "{} and {}: {got:?}", crate::p_decode::show_v(&model), crate::p_decode::show_v(&other));
    if !equal {
        c.probe("told_apart");
    }
    Ok(())
}

/// a copy without contexts, for messages
fn strip_any<T>(v: &Value<T>) -> Value<()> {
    fn comp<T>(x: &Composite<T>) -> Composite<()> {
        match x {
            Composite::Named(l) => Composite::Named(l.iter().map(|(n, v)| (n.clone(), strip_any(v))).collect()),
            Composite::Unnamed(l) => Composite::Unnamed(l.iter().map(strip_any).collect()),
        }
    }
    let value = match &v.value {
        ValueDef::Composite(x) => ValueDef::Composite(comp(x)),
        ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values) }),
        ValueDef::BitSequence(b) => ValueDef::BitSequence(b.clone()),
        ValueDef::Primitive(p) => ValueDef::Primitive(p.clone()),
    };
    Value { value, context: () }
}
