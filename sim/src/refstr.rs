//! Executable reference model of the text form: formatter and grammar.

use crate::refcodec::{bits_vec, kids};
use scale_value::{BitSequence, Composite, Primitive, Value, ValueDef, Variant};

pub fn is_ident(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        Some(c) if c.is_alphabetic() => it.all(|c| c.is_alphanumeric() || c == '_'),
        _ => false,
    }
}
pub fn esc(ch: char) -> Option<char> {
    Some(match ch {
        '\n' => 'n',
        '\t' => 't',
        '\r' => 'r',
        '\0' => '0',
        '"' => '"',
        '\'' => '\'',
        '\\' => '\\',
        _ => return None,
    })
}
pub fn unesc(ch: char) -> Option<char> {
    Some(match ch {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        '"' => '"',
        '\'' => '\'',
        '\\' => '\\',
        _ => return None,
    })
}
fn push_esc(o: &mut String, ch: char) {
    match esc(ch) {
        Some(e) => {
            o.push('\\');
            o.push(e)
        }
        None => o.push(ch),
    }
}
pub fn quoted(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        push_esc(&mut o, ch)
    }
    o.push('"');
    o
}

#[derive(Clone, Debug)]
pub struct Style {
    /// Some((indent_by, leading_indent)) for the indented layout
    pub pretty: Option<(String, String)>,
    pub compact: bool,
}
impl Style {
    pub fn normal() -> Style {
        Style { pretty: None, compact: false }
    }
}

type CtxFn<'a, T> = Option<&'a dyn Fn(&T, &mut String)>;

/// Text form of a value. `custom` may write a replacement and return true.
/// 256-bit integers render as nothing (callers exclude them).
pub fn render<T>(v: &Value<T>, st: &Style, ctx: CtxFn<T>, custom: &dyn Fn(&Value<T>, &mut String) -> bool) -> String {
    let mut o = String::new();
    value(v, st, ctx, custom, 0, &mut o);
    o
}
pub fn plain<T>(v: &Value<T>, st: &Style) -> String {
    render(v, st, None, &|_, _| false)
}
fn nl(st: &Style, depth: usize, o: &mut String) {
    if let Some((by, lead)) = &st.pretty {
        o.push('\n');
        o.push_str(lead);
        for _ in 0..depth {
            o.push_str(by);
        }
    }
}
fn sep(st: &Style, depth: usize, o: &mut String) {
    if st.pretty.is_some() {
        nl(st, depth, o)
    } else if !st.compact {
        o.push(' ')
    }
}
fn value<T>(v: &Value<T>, st: &Style, ctx: CtxFn<T>, custom: &dyn Fn(&Value<T>, &mut String) -> bool, d: usize, o: &mut String) {
    if let Some(f) = ctx {
        o.push('<');
        f(&v.context, o);
        o.push_str("> ");
    }
    if custom(v, o) {
        return;
    }
    match &v.value {
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Primitive::Char(ch) => {
                o.push('\'');
                push_esc(o, *ch);
                o.push('\'')
            }
            Primitive::String(s) => o.push_str(&quoted(s)),
            Primitive::U128(n) => o.push_str(&n.to_string()),
            Primitive::I128(n) => o.push_str(&n.to_string()),
            Primitive::U256(_) | Primitive::I256(_) => {}
        },
        ValueDef::BitSequence(b) => {
            o.push('<');
            for x in bits_vec(b) {
                o.push(if x { '1' } else { '0' })
            }
            o.push('>')
        }
        ValueDef::Composite(c) => comp(c, st, ctx, custom, d, o),
        ValueDef::Variant(x) => {
            if is_ident(&x.name) && x.name != "true" && x.name != "false" {
                o.push_str(&x.name)
            } else {
                o.push('v');
                o.push_str(&quoted(&x.name))
            }
            if !st.compact {
                o.push(' ')
            }
            comp(&x.values, st, ctx, custom, d, o)
        }
    }
}
fn comp<T>(c: &Composite<T>, st: &Style, ctx: CtxFn<T>, custom: &dyn Fn(&Value<T>, &mut String) -> bool, d: usize, o: &mut String) {
    match c {
        Composite::Named(v) if v.is_empty() => o.push_str("{}"),
        Composite::Unnamed(v) if v.is_empty() => o.push_str("()"),
        Composite::Named(v) => {
            o.push('{');
            sep(st, d + 1, o);
            for (i, (n, x)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    sep(st, d + 1, o);
                }
                if is_ident(n) {
                    o.push_str(n)
                } else {
                    o.push_str(&quoted(n))
                }
                o.push(':');
                if !st.compact {
                    o.push(' ')
                }
                value(x, st, ctx, custom, d + 1, o);
            }
            sep(st, d, o);
            o.push('}')
        }
        Composite::Unnamed(v) => {
            o.push('(');
            nl(st, d + 1, o);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    sep(st, d + 1, o);
                }
                value(x, st, ctx, custom, d + 1, o);
            }
            nl(st, d, o);
            o.push(')')
        }
    }
}

/// what the hex formatter does: non-empty unnamed composites of unsigned integers below 256
pub fn ref_hex<T>(v: &Value<T>, o: &mut String) -> bool {
    let ValueDef::Composite(Composite::Unnamed(vals)) = &v.value else { return false };
    if vals.is_empty() {
        return false;
    }
    let mut s = String::from("0x");
    for x in vals {
        match &x.value {
            ValueDef::Primitive(Primitive::U128(n)) if *n < 256 => s.push_str(&format!("{n:02X}")),
            _ => return false,
        }
    }
    o.push_str(&s);
    true
}
pub fn ref_big<T>(v: &Value<T>, _o: &mut String) -> bool {
    matches!(&v.value, ValueDef::Primitive(Primitive::U256(_) | Primitive::I256(_)))
}
pub fn has_256<T>(v: &Value<T>) -> bool {
    match &v.value {
        ValueDef::Primitive(p) => matches!(p, Primitive::U256(_) | Primitive::I256(_)),
        ValueDef::Composite(c) => kids(c).into_iter().any(has_256),
        ValueDef::Variant(x) => kids(&x.values).into_iter().any(has_256),
        ValueDef::BitSequence(_) => false,
    }
}

// ------------------------------------------------------------ grammar

/// Answer of a custom parser, as the model sees it: bytes consumed and the value.
pub enum Custom {
    Declined,
    Value(Value<()>, usize),
    Error(String),
}

pub struct P<'s, 'c> {
    pub s: &'s str,
    pub at: usize,
    /// offered (absolute offset) at each value start; called once per registered parser in order
    pub customs: usize,
    pub custom: &'c mut dyn FnMut(usize, usize) -> Custom,
    pub depth: usize,
    /// where the error of a custom parser stopped the parse: (offset of that value, message)
    pub custom_err: Option<(usize, String)>,
}
/// No(_) = this production does not apply
pub enum PErr {
    No,
    Bad(&'static str),
}
type PR<T> = Result<T, PErr>;

impl<'s, 'c> P<'s, 'c> {
    fn rest(&self) -> &'s str {
        &self.s[self.at..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn next(&mut self) -> Option<char> {
        let ch = self.peek()?;
        self.at += ch.len_utf8();
        Some(ch)
    }
    fn eat(&mut self, ch: char) -> bool {
        if self.peek() == Some(ch) {
            self.at += ch.len_utf8();
            true
        } else {
            false
        }
    }
    fn ws(&mut self) {
        while self.peek().map(|c| c.is_whitespace()).unwrap_or(false) {
            self.next();
        }
    }
    /// separator with optional space around it; restores the position when absent
    fn separator(&mut self, ch: char) -> bool {
        let at = self.at;
        self.ws();
        if self.eat(ch) {
            self.ws();
            true
        } else {
            self.at = at;
            false
        }
    }
    pub fn value(&mut self) -> PR<Value<()>> {
        for i in 0..self.customs {
            match (self.custom)(i, self.at) {
                Custom::Declined => {}
                Custom::Value(v, n) => {
                    self.at += n;
                    return Ok(v);
                }
                Custom::Error(m) => {
                    self.custom_err = Some((self.at, m));
                    return Err(PErr::Bad("custom parser"));
                }
            }
        }
        let u = |d: ValueDef<()>| Ok(Value { value: d, context: () });
        let pr = |p| u(ValueDef::Primitive(p));
        for (w, b) in [("true", true), ("false", false)] {
            if let Some(r) = self.rest().strip_prefix(w) {
                // a keyword only as a whole word; otherwise it starts an identifier
                if !r.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
                    self.at += w.len();
                    return pr(Primitive::Bool(b));
                }
            }
        }
        match self.peek() {
            Some('\'') => {
                self.next();
                let ch = self.next().ok_or(PErr::Bad("char"))?;
                let ch = if ch == '\\' { self.next().and_then(unesc).ok_or(PErr::Bad("escape"))? } else { ch };
                if !self.eat('\'') {
                    return Err(PErr::Bad("char quote"));
                }
                pr(Primitive::Char(ch))
            }
            Some('"') => {
                let s = self.string()?;
                pr(Primitive::String(s))
            }
            Some(ch) if ch.is_ascii_digit() || ch == '+' || ch == '-' => {
                let neg = ch == '-';
                if ch == '+' || ch == '-' {
                    self.next();
                }
                let mut d = String::new();
                while let Some(ch) = self.peek() {
                    if ch.is_ascii_digit() {
                        d.push(ch)
                    } else if !(ch == '_' && !d.is_empty()) {
                        break;
                    }
                    self.next();
                }
                if d.is_empty() {
                    return Err(PErr::Bad("digit"));
                }
                if neg {
                    format!("-{d}").parse::<i128>().map_err(|_| PErr::Bad("range")).and_then(|n| pr(Primitive::I128(n)))
                } else {
                    d.parse::<u128>().map_err(|_| PErr::Bad("range")).and_then(|n| pr(Primitive::U128(n)))
                }
            }
            Some('{') | Some('(') => {
                let c = self.composite()?;
                u(ValueDef::Composite(c))
            }
            Some('<') => {
                self.next();
                let mut b = BitSequence::new();
                loop {
                    match self.next() {
                        Some('0') => b.push(false),
                        Some('1') => b.push(true),
                        Some('>') => break,
                        _ => return Err(PErr::Bad("bits")),
                    }
                }
                u(ValueDef::BitSequence(b))
            }
            _ => {
                let start = self.at;
                match self.variant() {
                    Err(PErr::No) => {
                        self.at = start;
                        Err(PErr::Bad("expected a value"))
                    }
                    Ok(v) => u(ValueDef::Variant(v)),
                    Err(e) => Err(e),
                }
            }
        }
    }
    fn variant(&mut self) -> PR<Variant<()>> {
        let start = self.at;
        let mut name = None;
        if self.eat('v') && self.peek() == Some('"') {
            name = self.string().ok();
        }
        if name.is_none() {
            self.at = start;
            name = self.ident();
        }
        let Some(name) = name else { return Err(PErr::No) };
        self.ws();
        match self.peek() {
            Some('{') | Some('(') => Ok(Variant { name, values: self.composite()? }),
            _ => Err(PErr::No),
        }
    }
    fn ident(&mut self) -> Option<String> {
        let start = self.at;
        if !self.peek()?.is_alphabetic() {
            return None;
        }
        while self.peek().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
            self.next();
        }
        Some(self.s[start..self.at].to_string())
    }
    fn string(&mut self) -> PR<String> {
        self.next();
        let mut o = String::new();
        loop {
            match self.next() {
                None => return Err(PErr::Bad("string")),
                Some('"') => return Ok(o),
                Some('\\') => o.push(self.next().and_then(unesc).ok_or(PErr::Bad("escape"))?),
                Some(ch) => o.push(ch),
            }
        }
    }
    fn composite(&mut self) -> PR<Composite<()>> {
        let named = self.next() == Some('{');
        let close = if named { '}' } else { ')' };
        self.ws();
        let mut ns = vec![];
        let mut us = vec![];
        if !self.eat(close) {
            loop {
                if named {
                    let name = if self.peek() == Some('"') { self.string()? } else { self.ident().ok_or(PErr::Bad("field name"))? };
                    if !self.separator(':') {
                        return Err(PErr::Bad("field separator"));
                    }
                    let v = self.value()?;
                    ns.push((name, v));
                } else {
                    let v = self.value()?;
                    us.push(v);
                }
                if !self.separator(',') {
                    break;
                }
            }
            self.ws();
            if !self.eat(close) {
                return Err(PErr::Bad("closer"));
            }
        }
        Ok(if named { Composite::Named(ns) } else { Composite::Unnamed(us) })
    }
}

/// Parse with the built-in grammar only: Some((value, bytes consumed)).
pub fn parse(s: &str) -> Option<(Value<()>, usize)> {
    let mut none = |_: usize, _: usize| Custom::Declined;
    let mut p = P { s, at: 0, customs: 0, custom: &mut none, depth: 0, custom_err: None };
    p.value().ok().map(|v| (v, p.at))
}
