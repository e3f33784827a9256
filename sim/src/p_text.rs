//! C11 (round trip and damaged text), C12 (custom parsers), C13 (error positions), C15 (literals).

use crate::faults::corrupt_text;
use crate::guard::{self, Caught, Injected};
use crate::p_fmt::{cut, gen_layout, gen_value, model, Layout, Plan, Shape, N};
use crate::refcodec::{bits_vec, mk, strip};
use crate::refstr::{self, Custom, P};
use crate::tape::{Ctx, RunResult};
use crate::{bail, ensure};
use blake2::{Blake2b512, Digest};
use scale_value::stringify::{self, custom_formatters::format_hex, custom_parsers, FromStrBuilder, ParseComplexError, ParseError, ParseErrorKind, ParseNumberError};
use scale_value::{Composite, Primitive, Value, ValueDef, Variant};
use std::cell::RefCell;
use std::rc::Rc;

pub type V0 = Value<()>;

/// A non-negative signed integer is read back as unsigned.
fn norm(v: &V0) -> V0 {
    let comp = |x: &Composite<()>| match x {
        Composite::Named(vs) => Composite::Named(vs.iter().map(|(n, x)| (n.clone(), norm(x))).collect()),
        Composite::Unnamed(vs) => Composite::Unnamed(vs.iter().map(norm).collect()),
    };
    mk(
        match &v.value {
            ValueDef::Primitive(Primitive::I128(n)) if *n >= 0 => ValueDef::Primitive(Primitive::U128(*n as u128)),
            ValueDef::Composite(x) => ValueDef::Composite(comp(x)),
            ValueDef::Variant(x) => ValueDef::Variant(Variant { name: x.name.clone(), values: comp(&x.values) }),
            other => other.clone(),
        },
        (),
    )
}

// ------------------------------------------------------------ sloppy text: everything the grammar allows

fn ws(c: &mut Ctx, o: &mut String) {
    const W: [&str; 8] = [" ", "\n", "\t", "  ", "\r\n", "\u{a0}", "\u{2003}", "\u{85}"];
    if c.chance(1, 3) {
        o.push_str(c.choose(&W));
    }
}
fn sloppy_str(c: &mut Ctx, s: &str, o: &mut String) {
    o.push('"');
    for ch in s.chars() {
        // only the quote and the backslash have to be escaped
        match refstr::esc(ch) {
            Some(e) if ch == '"' || ch == '\\' || c.flip() => {
                o.push('\\');
                o.push(e)
            }
            _ => o.push(ch),
        }
    }
    o.push('"');
}
/// `lit`: may write a composite of bytes as a hex literal
pub fn sloppy<T>(c: &mut Ctx, v: &Value<T>, lit: bool, o: &mut String) {
    match &v.value {
        ValueDef::Primitive(p) => match p {
            Primitive::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Primitive::Char(ch) => {
                o.push('\'');
                match refstr::esc(*ch) {
                    Some(e) if *ch == '\\' || c.flip() => {
                        o.push('\\');
                        o.push(e)
                    }
                    _ => o.push(*ch),
                }
                o.push('\'')
            }
            Primitive::String(s) => sloppy_str(c, s, o),
            Primitive::U128(n) => {
                if c.chance(1, 4) {
                    o.push('+')
                }
                sloppy_digits(c, &n.to_string(), o)
            }
            Primitive::I128(n) => {
                if *n < 0 {
                    o.push('-');
                    sloppy_digits(c, &n.to_string()[1..], o)
                } else {
                    sloppy_digits(c, &n.to_string(), o)
                }
            }
            _ => {}
        },
        ValueDef::BitSequence(b) => {
            o.push('<');
            for x in bits_vec(b) {
                o.push(if x { '1' } else { '0' })
            }
            o.push('>')
        }
        ValueDef::Composite(x) => {
            if lit && c.flip() {
                let mut s = String::new();
                if refstr::ref_hex(v, &mut s) {
                    o.push_str(&s);
                    return;
                }
            }
            sloppy_comp(c, x, lit, o)
        }
        ValueDef::Variant(x) => {
            if refstr::is_ident(&x.name) && x.name != "true" && x.name != "false" && !c.chance(1, 5) {
                o.push_str(&x.name)
            } else {
                o.push('v');
                sloppy_str(c, &x.name, o)
            }
            ws(c, o);
            sloppy_comp(c, &x.values, lit, o)
        }
    }
}
fn sloppy_digits(c: &mut Ctx, d: &str, o: &mut String) {
    if c.chance(1, 8) {
        o.push('0')
    }
    for (i, ch) in d.chars().enumerate() {
        o.push(ch);
        if i % 3 == 2 && c.chance(1, 6) {
            o.push('_')
        }
    }
}
fn sloppy_comp<T>(c: &mut Ctx, x: &Composite<T>, lit: bool, o: &mut String) {
    match x {
        Composite::Named(vs) => {
            o.push('{');
            ws(c, o);
            for (i, (n, v)) in vs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(c, o);
                }
                if refstr::is_ident(n) && !c.chance(1, 5) {
                    o.push_str(n)
                } else {
                    sloppy_str(c, n, o)
                }
                ws(c, o);
                o.push(':');
                ws(c, o);
                sloppy(c, v, lit, o);
                ws(c, o);
            }
            o.push('}')
        }
        Composite::Unnamed(vs) => {
            o.push('(');
            ws(c, o);
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                    ws(c, o);
                }
                sloppy(c, v, lit, o);
                ws(c, o);
            }
            o.push(')')
        }
    }
}
/// Text that tends to be near the grammar but belongs to no value.
pub fn scraps(c: &mut Ctx) -> String {
    const T: [&str; 44] = [
        "(", ")", "{", "}", ",", ":", "<", ">", "<01", "true", "false", "truex", "v\"a\"", "v\"", "v", "Some", "None", "a", "_", "+", "-", "-1", "+1", "1", "0x", "0x0", "0xAB", "0xzz", "'", "'a'", "'\\",
        "'\\n'", "\"", "\"a\"", "\\", " ", "\n", "é", "\u{1F600}", "a: 1", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "\u{660}", "日本",
    ];
    let n = c.range(0, 10);
    let mut s = String::new();
    for _ in 0..n {
        match c.weighted(&[36, 2, 1, 1]) {
            1 => s.push_str(&crate::dict::word(c).unwrap_or_default()),
            2 => s.extend(crate::dict::letter(c)),
            3 => s.push_str(&crate::dict::number(c).unwrap_or(0).to_string()),
            _ => s.push_str(*c.choose(&T)),
        }
    }
    s
}

fn show(r: &Result<V0, ParseError>) -> String {
    match r {
        Ok(v) => format!("Ok({})", cut(&format!("{v:?}"))),
        Err(e) => format!("Err({e:?})"),
    }
}
fn parse_doors(c: &mut Ctx, s: &str) -> Result<(Result<V0, ParseError>, usize), crate::tape::Violation> {
    let by_builder = c.flip();
    let (r, rest) = guard::call("from_str", || if by_builder { stringify::from_str_custom().parse(s) } else { stringify::from_str(s) })?;
    let at = position(s, rest)?;
    Ok((r, at))
}
/// where in `s` its tail `rest` starts; anything that is not a tail of the very same text is a violation
fn position(s: &str, rest: &str) -> Result<usize, crate::tape::Violation> {
    let a = s.as_ptr() as usize;
    let b = rest.as_ptr() as usize;
    let at = s.len().wrapping_sub(rest.len());
    if at <= s.len() && (rest.is_empty() || b == a + at) && s.ends_with(rest) {
        return Ok(at);
    }
    crate::tape::viol("rest", format!("the remainder {:?} is not a tail of {:?}", cut(rest), cut(s)))
}

// ------------------------------------------------------------ C11

pub fn c11(c: &mut Ctx) -> RunResult {
    let v = gen_value(c, Shape { depth: 4, big: false });
    let want = norm(&strip(&v));
    let lay = gen_layout(c, true);
    // the layout as the formatter writes it, or any other spelling the grammar allows
    let text = if c.chance(1, 3) {
        let mut s = String::new();
        sloppy(c, &v, false, &mut s);
        s
    } else {
        let plain = lay == Layout { compact: false, pretty: false, lead: None, by: None };
        let s = if plain && c.flip() {
            guard::call("to_string", || v.to_string())?
        } else {
            let mut s = String::new();
            guard::call("write", || lay.apply(stringify::to_writer_custom()).write(&v, &mut s))?.map_err(|_| crate::tape::Violation {
                class: "format-error".into(),
                msg: format!("formatting {} failed", cut(&format!("{v:?}"))),
            })?;
            s
        };
        let m = model(&v, &lay, &Plan::default()).text;
        ensure!(s == m, "wrong-text", "formatted as {:?}, expected {:?}", cut(&s), cut(&m));
        s
    };
    c.note(|| format!("layout {lay:?} text {:?}", cut(&text)));
    // intact
    let (r, at) = parse_doors(c, &text)?;
    match &r {
        Ok(got) => ensure!(*got == want, "round-trip", "{:?} parsed to {}, expected {want:?}", cut(&text), show(&r)),
        Err(_) => bail!("round-trip", "{:?} did not parse: {}", cut(&text), show(&r)),
    }
    ensure!(at == text.len(), "rest", "{:?} left {:?} unconsumed", cut(&text), cut(&text[at..]));
    c.ev(text.as_bytes());

    // damaged in transit
    let n = c.range(1, 3);
    for _ in 0..n {
        let bad = match c.weighted(&[6, 2, 1]) {
            0 => corrupt_text(c, &text),
            1 => {
                // concatenated with whatever came next
                c.fault("text_concatenated");
                let next = match c.pick(3) {
                    0 => text.clone(),
                    1 => scraps(c),
                    _ => c.choose(&[",", ")", " ", "}", "x", "1", "\u{0}", "é"]).to_string(),
                };
                format!("{text}{next}")
            }
            _ => {
                c.fault("text_replaced");
                scraps(c)
            }
        };
        compare(c, &bad)?;
    }
    Ok(())
}
/// The built-in grammar: the library and the reference agree on value, rest and rejection.
fn compare(c: &mut Ctx, s: &str) -> RunResult {
    let want = refstr::parse(s);
    let (r, at) = parse_doors(c, s)?;
    c.note(|| format!("damaged {:?} -> {} at {at}", cut(s), show(&r)));
    c.nontrivial();
    match (&want, &r) {
        (Some((w, n)), Ok(g)) => {
            ensure!(g == w, "wrong-value", "{:?} parsed to {}, but denotes {w:?}", cut(s), show(&r));
            ensure!(at == *n, "rest", "{:?}: rest starts at {at}, expected {n}", cut(s));
            c.probe("damaged_text_still_a_value");
        }
        (None, Err(_)) => c.probe("damaged_text_rejected"),
        (Some(_), Err(e)) => bail!("rejected-valid", "{:?} was rejected: {e:?}", cut(s)),
        (None, Ok(_)) => bail!("accepted-invalid", "{:?} is not in the grammar but gave {}", cut(s), show(&r)),
    }
    c.ev(s.as_bytes());
    c.ev_u(at as u64 ^ (r.is_ok() as u64) << 40);
    Ok(())
}

// ------------------------------------------------------------ scripted custom parsers

/// What a custom parser does when it is offered text.
#[derive(Clone, Debug)]
pub enum Do {
    Decline,
    /// move the cursor, then decline (sometimes to text that is not even from here)
    DeclineMoved(usize),
    DeclineElsewhere,
    /// take this many characters and give a marked value
    Take(usize, u32),
    /// fail at this offset (characters), possibly with an end, after moving the cursor
    Fail { start: usize, end: Option<usize>, moved: usize, msg: u32 },
    Panic,
    Hex,
    Ss58,
}
pub fn marker(n: u32) -> V0 {
    mk(ValueDef::Variant(Variant { name: format!("parsed by custom {n}"), values: Composite::Unnamed(vec![Value::u128(n as u128)]) }), ())
}
fn chars_to_bytes(s: &str, n: usize) -> usize {
    s.char_indices().nth(n).map(|(i, _)| i).unwrap_or(s.len())
}
/// decision tables: parser -> call number -> action; past the end, the last action repeats as Decline
pub type Script = Vec<Vec<Do>>;

pub fn gen_script(c: &mut Ctx, panics: bool, lits: bool) -> Script {
    let k = match c.weighted(&[0, 80, 60, 40, 1]) {
        4 => c.range(4, 12),
        k => k,
    };
    let mut mark = 0;
    (0..k)
        .map(|_| {
            let w: [u64; 8] = match c.pick(4) {
                0 => [1, 0, 0, 0, 0, 0, 0, 0],
                1 => [6, 3, 1, 1, 0, 0, 0, 0],
                2 => [8, 2, 1, 2, 1, if panics { 1 } else { 0 }, 0, 0],
                _ => [2, 2, 0, 3, 1, 0, if lits { 2 } else { 0 }, if lits { 2 } else { 0 }],
            };
            let always = if lits && c.chance(1, 4) {
                Some(if c.flip() { Do::Hex } else { Do::Ss58 })
            } else {
                None
            };
            (0..12)
                .map(|_| {
                    if let Some(a) = &always {
                        return a.clone();
                    }
                    mark += 1;
                    let few = |c: &mut Ctx| match c.weighted(&[6, 1]) {
                        0 => c.range(0, 6),
                        _ => c.range(0, 60),
                    };
                    match c.weighted(&w) {
                        0 => Do::Decline,
                        1 => Do::DeclineMoved(few(c)),
                        2 => Do::DeclineElsewhere,
                        3 => Do::Take(few(c), mark),
                        4 => {
                            let start = few(c);
                            let end = if c.flip() { Some(start + c.range(0, 3)) } else { None };
                            Do::Fail { start, end, moved: few(c), msg: mark }
                        }
                        5 => Do::Panic,
                        6 => Do::Hex,
                        _ => Do::Ss58,
                    }
                })
                .collect()
        })
        .collect()
}
pub fn table(s: &Script, i: usize, call: usize) -> Do {
    match s[i].get(call) {
        Some(d) => d.clone(),
        // the literal parsers answer for ever
        None => match s[i].last() {
            Some(d @ (Do::Hex | Do::Ss58)) if s[i].iter().all(|x| matches!((x, d), (Do::Hex, Do::Hex) | (Do::Ss58, Do::Ss58))) => d.clone(),
            _ => Do::Decline,
        },
    }
}

#[derive(Default)]
pub struct Seen {
    /// (parser, offered text length, offered text is a tail of the whole)
    pub offers: Vec<(usize, usize)>,
    pub bad: Option<String>,
    pub calls: Vec<usize>,
    pub text: String,
    pub hook: Option<Rc<dyn Fn()>>,
}
pub type SeenRc = Rc<RefCell<Seen>>;

pub fn build_parsers(mut b: FromStrBuilder, script: &Script, seen: &SeenRc) -> FromStrBuilder {
    seen.borrow_mut().calls = vec![0; script.len()];
    for i in 0..script.len() {
        let sc = script.clone();
        let seen = seen.clone();
        b = b.add_custom_parser(move |s: &mut &str| {
            let (call, hook) = {
                let mut g = seen.borrow_mut();
                let n = s.len();
                if !g.text.ends_with(*s) && g.bad.is_none() {
                    g.bad = Some(format!("parser {i} was offered {:?}, which is no tail of the text", cut(s)));
                }
                g.offers.push((i, n));
                g.calls[i] += 1;
                (g.calls[i] - 1, g.hook.clone())
            };
            if let Some(h) = hook {
                h()
            }
            match table(&sc, i, call) {
                Do::Decline => None,
                Do::DeclineMoved(n) => {
                    let k = chars_to_bytes(s, n);
                    *s = &s[k..];
                    None
                }
                Do::DeclineElsewhere => {
                    *s = "(somewhere, else)";
                    None
                }
                Do::Take(n, m) => {
                    let k = chars_to_bytes(s, n);
                    *s = &s[k..];
                    Some(Ok(marker(m)))
                }
                Do::Fail { start, end, moved, msg } => {
                    let a = chars_to_bytes(s, start);
                    let z = end.map(|e| chars_to_bytes(s, e));
                    let k = chars_to_bytes(s, moved);
                    *s = &s[k..];
                    let kind = failure(msg);
                    Some(Err(match z {
                        Some(z) => kind.between(a, z),
                        None => kind.at(a),
                    }))
                }
                Do::Panic => std::panic::panic_any(Injected),
                Do::Hex => custom_parsers::parse_hex(s),
                Do::Ss58 => custom_parsers::parse_ss58(s),
            }
        });
    }
    b
}

/// The error a custom parser fails with: of its own, or of a kind that the parser uses itself (as from a nested parse)
pub fn failure(msg: u32) -> ParseErrorKind {
    match msg % 5 {
        0 => ParseErrorKind::ExpectedValue,
        1 => ParseComplexError::ExpectedCloserToMatch(')', msg as usize).into(),
        2 => ParseNumberError::ExpectedDigit.into(),
        _ => ParseErrorKind::custom(format!("custom failure {msg}")),
    }
}

/// What the parse has to give.
#[derive(Debug)]
pub enum Outcome {
    Value(V0, usize),
    /// a custom parser failed: (start, end, message); None for the literal parsers, whose wording is their own
    CustomErr(Option<(usize, Option<usize>, ParseErrorKind)>),
    Reject,
    Panicked,
}
pub fn model_parse(s: &str, script: &Script) -> (Outcome, Vec<(usize, usize)>) {
    let mut offers = vec![];
    let mut calls = vec![0; script.len()];
    let mut failed = None;
    let mut lit_failed = false;
    let mut panicked = false;
    let mut f = |i: usize, at: usize| {
        let rest = &s[at..];
        offers.push((i, rest.len()));
        calls[i] += 1;
        match table(script, i, calls[i] - 1) {
            Do::Decline | Do::DeclineMoved(_) | Do::DeclineElsewhere => Custom::Declined,
            Do::Take(n, m) => Custom::Value(marker(m), chars_to_bytes(rest, n)),
            Do::Fail { start, end, msg, .. } => {
                failed = Some((at + chars_to_bytes(rest, start), end.map(|e| at + chars_to_bytes(rest, e)), failure(msg)));
                Custom::Error(format!("custom failure {msg}"))
            }
            Do::Panic => {
                panicked = true;
                Custom::Error("panic".into())
            }
            Do::Hex => match ref_parse_hex(rest) {
                Lit::No => Custom::Declined,
                Lit::Bytes(b, n) => Custom::Value(Value::from_bytes(b), n),
                Lit::Bad => {
                    lit_failed = true;
                    Custom::Error("hex".into())
                }
            },
            Do::Ss58 => match ref_parse_ss58(rest) {
                Lit::Bytes(b, n) => Custom::Value(Value::from_bytes(b), n),
                _ => Custom::Declined,
            },
        }
    };
    let mut p = P { s, at: 0, customs: script.len(), custom: &mut f, depth: 0, custom_err: None };
    let r = p.value().ok().map(|v| (v, p.at));
    let o = match r {
        Some((v, n)) => Outcome::Value(v, n),
        None if panicked => Outcome::Panicked,
        None if failed.is_some() => Outcome::CustomErr(failed),
        None if lit_failed => Outcome::CustomErr(None),
        None => Outcome::Reject,
    };
    (o, offers)
}

/// `rest` is a suffix, an error lies inside the text.
fn sane(s: &str, r: &Result<V0, ParseError>) -> RunResult {
    let Err(e) = r else { return Ok(()) };
    ensure!(e.start_loc <= s.len(), "error-outside", "{:?}: error starts at {} of {}: {e:?}", cut(s), e.start_loc, s.len());
    ensure!(s.is_char_boundary(e.start_loc), "error-mid-char", "{:?}: error starts inside a character: {e:?}", cut(s));
    if let Some(z) = e.end_loc {
        ensure!(z >= e.start_loc, "error-backwards", "{:?}: error ends at {z}, before it starts: {e:?}", cut(s));
        // (custom parsers report whatever place they like)
        let own = !matches!(e.err, ParseErrorKind::Custom(_));
        ensure!(!own || z <= s.len() + 1, "error-outside", "{:?}: error ends at {z}, the text at {}: {e:?}", cut(s), s.len());
    }
    let shown = guard::call("Display of ParseError", || e.to_string())?;
    ensure!(!shown.is_empty(), "error-display", "{e:?} has no text");
    Ok(())
}

/// One parse with scripted parsers against the model. Returns whether any parser was offered anything.
pub fn one_parse(c: &mut Ctx, b: &FromStrBuilder, script: &Script, seen: &SeenRc, s: &str) -> RunResult {
    {
        let mut g = seen.borrow_mut();
        g.offers.clear();
        g.bad = None;
        g.calls = vec![0; script.len()];
        g.text = s.to_string();
    }
    let (want, offers) = model_parse(s, script);
    let r = guard::guard(|| {
        let (r, rest) = b.parse(s);
        (r, rest)
    });
    let g = seen.borrow();
    c.note(|| {
        format!(
            "text {:?} script {script:?} -> {}; offers {:?}",
            cut(s),
            match &r {
                Ok((r, rest)) => format!("{} rest {:?}", show(r), cut(rest)),
                Err(e) => e.show(),
            },
            g.offers
        )
    });
    if let Some(b) = &g.bad {
        bail!("offered-text", "{b}; text {:?}", cut(s));
    }
    if let Err(e) = &r {
        ensure!(*e == Caught::Injected && matches!(want, Outcome::Panicked), e.class(), "{:?}: {}", cut(s), e.show());
        ensure!(g.offers == offers, "offers", "{:?}: parsers were offered {:?}, expected {offers:?} (parser, bytes left)", cut(s), g.offers);
        c.fault("parser_panicked");
        return Ok(());
    }
    let (r, rest) = r.unwrap();
    let at = position(s, rest)?;
    sane(s, &r)?;
    ensure!(g.offers == offers, "offers", "{:?}: parsers were offered {:?}, expected {offers:?} (parser, bytes left)", cut(s), g.offers);
    match (&want, &r) {
        (Outcome::Value(w, n), Ok(v)) => {
            ensure!(v == w, "wrong-value", "{:?} parsed to {}, expected {w:?}", cut(s), show(&r));
            ensure!(at == *n, "rest", "{:?}: rest starts at {at}, expected {n}", cut(s));
        }
        (Outcome::CustomErr(Some((a, z, m))), Err(e)) => {
            ensure!(e.err == *m, "wrong-error", "{:?}: error {e:?}, expected {m:?}", cut(s));
            ensure!((e.start_loc, e.end_loc) == (*a, *z), "error-place", "{:?}: error at {}..{:?}, expected {a}..{z:?}", cut(s), e.start_loc, e.end_loc);
            c.fault("parser_failed");
        }
        (Outcome::CustomErr(None), Err(e)) => {
            ensure!(matches!(e.err, ParseErrorKind::Custom(_)), "wrong-error", "{:?}: error {e:?}, expected that of the literal parser", cut(s));
            c.fault("literal_failed");
        }
        (Outcome::Reject, Err(e)) => {
            ensure!(!matches!(e.err, ParseErrorKind::Custom(_)), "wrong-error", "{:?}: error {e:?}, but no custom parser failed", cut(s));
        }
        (w, _) => bail!("wrong-outcome", "{:?}: got {}, expected {w:?}", cut(s), show(&r)),
    }
    c.ev(s.as_bytes());
    c.ev_u(at as u64);
    c.ev_u(g.offers.len() as u64);
    Ok(())
}

pub fn gen_text(c: &mut Ctx, lits: bool) -> String {
    let mut s = match c.weighted(&[8, 2]) {
        0 => {
            let v = gen_value(c, Shape { depth: 3, big: false });
            let mut s = String::new();
            sloppy(c, &v, lits, &mut s);
            s
        }
        _ => scraps(c),
    };
    if lits && c.chance(1, 3) {
        // an address or a literal somewhere
        let l = if c.flip() { gen_address(c).1 } else { gen_hex(c).1 };
        let k = chars_to_bytes(&s, c.idx(s.len() + 1));
        s.insert_str(k, &l);
    }
    if c.chance(1, 3) {
        s = corrupt_text(c, &s);
    }
    s
}

// ------------------------------------------------------------ C12

pub fn c12(c: &mut Ctx) -> RunResult {
    let script = gen_script(c, true, true);
    let seen: SeenRc = Default::default();
    let b = build_parsers(stringify::from_str_custom(), &script, &seen);
    let n = c.range(1, 2);
    for _ in 0..n {
        let s = gen_text(c, true);
        one_parse(c, &b, &script, &seen, &s)?;
        if !seen.borrow().offers.is_empty() {
            c.nontrivial();
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C13

pub fn c13(c: &mut Ctx) -> RunResult {
    // a configuration with or without parsers, used on a history of texts
    let with = c.flip();
    let fresh = |c: &mut Ctx| -> u64 { c.pick(3) };
    let kind = if with { fresh(c) } else { 3 };
    let mk_b = || match kind {
        0 => stringify::from_str_custom().add_custom_parser(custom_parsers::parse_hex),
        1 => stringify::from_str_custom().add_custom_parser(custom_parsers::parse_ss58),
        2 => stringify::from_str_custom().add_custom_parser(custom_parsers::parse_hex).add_custom_parser(custom_parsers::parse_ss58),
        _ => stringify::from_str_custom(),
    };
    let shared = mk_b();
    let n = c.often(1, 4, 80);
    let mut hist: Vec<String> = vec![];
    for _ in 0..n {
        let s = match c.weighted(&[5, 3, 1]) {
            0 => {
                let s = gen_text(c, with);
                corrupt_text(c, &s)
            }
            1 => {
                let mut s = scraps(c);
                if c.flip() {
                    s = corrupt_text(c, &s)
                }
                s
            }
            _ if !hist.is_empty() => hist[c.idx(hist.len())].clone(),
            _ => String::new(),
        };
        let (r, rest) = guard::call("parse", || shared.parse(&s))?;
        c.note(|| format!("text {:?} -> {} rest {:?}", cut(&s), show(&r), cut(rest)));
        let at = position(&s, rest)?;
        sane(&s, &r)?;
        if r.is_err() {
            c.nontrivial();
        }
        // the same with a configuration that has no history
        let (r2, rest2) = guard::call("parse", || mk_b().parse(&s))?;
        ensure!(r == r2 && rest == rest2, "history", "{:?}: {} after a history, {} without", cut(&s), show(&r), show(&r2));
        c.ev(s.as_bytes());
        c.ev_u(at as u64);
        if let Err(e) = &r {
            c.ev(format!("{e:?}").as_bytes());
        }
        hist.push(s);
    }
    Ok(())
}
/// Deeply nested text: the parser recurses once per level.
pub fn probe_deep_text() -> RunResult {
    let s = "(".repeat(2_000_000);
    let (r, _) = guard::call("from_str of 2,000,000 opening brackets", || stringify::from_str(&s))?;
    ensure!(r.is_err(), "accepted-invalid", "unbalanced brackets were accepted");
    Ok(())
}

// ------------------------------------------------------------ C15

#[derive(Debug, Clone, PartialEq)]
pub enum Lit {
    No,
    Bytes(Vec<u8>, usize),
    Bad,
}
pub fn ref_parse_hex(s: &str) -> Lit {
    let Some(r) = s.strip_prefix("0x") else { return Lit::No };
    let body: String = r.chars().take_while(|ch| ch.is_ascii_alphanumeric()).collect();
    let mut out = vec![];
    let digits: Option<Vec<u32>> = body.chars().map(|ch| ch.to_digit(16)).collect();
    let Some(d) = digits else { return Lit::Bad };
    if d.len() % 2 == 1 {
        return Lit::Bad;
    }
    for p in d.chunks(2) {
        out.push((p[0] * 16 + p[1]) as u8)
    }
    Lit::Bytes(out, 2 + body.len())
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub fn b58_encode(b: &[u8]) -> String {
    let mut d: Vec<u8> = vec![];
    for &x in b {
        let mut carry = x as u32;
        for y in d.iter_mut() {
            carry += (*y as u32) << 8;
            *y = (carry % 58) as u8;
            carry /= 58;
        }
        while carry > 0 {
            d.push((carry % 58) as u8);
            carry /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut s = "1".repeat(zeros);
    s.extend(d.iter().rev().map(|x| B58[*x as usize] as char));
    s
}
pub fn b58_decode(s: &str) -> Option<Vec<u8>> {
    let mut b: Vec<u8> = vec![];
    for ch in s.bytes() {
        let mut carry = B58.iter().position(|x| *x == ch)? as u32;
        for y in b.iter_mut() {
            carry += *y as u32 * 58;
            *y = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            b.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.bytes().take_while(|x| *x == b'1').count();
    b.extend(std::iter::repeat_n(0, zeros));
    b.reverse();
    Some(b)
}
fn checksum(data: &[u8]) -> [u8; 2] {
    let mut h = Blake2b512::new();
    h.update(b"SS58PRE");
    h.update(data);
    let r = h.finalize();
    [r[0], r[1]]
}
pub fn ref_parse_ss58(s: &str) -> Lit {
    let n = s.find(|ch: char| !ch.is_ascii_alphanumeric()).unwrap_or(s.len());
    let word = &s[..n];
    // nothing that long is an address
    if word.is_empty() || word.len() > 132 || word == "true" || word == "false" || word.bytes().all(|x| x.is_ascii_digit()) {
        return Lit::No;
    }
    // what is followed by fields is a variant name
    if s[n..].trim_start().starts_with(['(', '{']) {
        return Lit::No;
    }
    let Some(b) = b58_decode(word) else { return Lit::No };
    let p = match b.first() {
        Some(0..=63) => 1,
        Some(64..=127) => 2,
        _ => return Lit::No,
    };
    if b.len() < p + 2 {
        return Lit::No;
    }
    let (data, sum) = b.split_at(b.len() - 2);
    if checksum(data) != sum {
        return Lit::No;
    }
    Lit::Bytes(data[p..].to_vec(), n)
}
/// a literal of an account address and the account
pub fn gen_address(c: &mut Ctx) -> (Vec<u8>, String) {
    let acc: Vec<u8> = match c.weighted(&[6, 1, 1]) {
        0 => (0..4).flat_map(|_| c.word().to_le_bytes()).collect(),
        1 => vec![0; 32],
        _ => vec![0xff; 32],
    };
    let mut b: Vec<u8> = match c.weighted(&[4, 4, 3]) {
        0 => vec![42],
        1 => vec![c.pick(64) as u8],
        _ => {
            let f = 64 + c.pick(64) as u8;
            vec![f, c.pick(256) as u8]
        }
    };
    b.extend(&acc);
    let sum = checksum(&b);
    b.extend(sum);
    (acc, b58_encode(&b))
}
pub fn gen_hex(c: &mut Ctx) -> (Vec<u8>, String) {
    let n = match c.weighted(&[12, 4, 2, 1]) {
        0 => c.range(0, 6),
        1 => *c.choose(&[20usize, 31, 32, 33, 64, 128, 129, 255, 256, 257, 512, 600]),
        3 => crate::dict::count(c, 300).unwrap_or(1),
        _ => c.range(7, 80),
    };
    let b: Vec<u8> = (0..n).map(|_| *c.choose(&[0u8, 1, 0x0f, 0xf0, 0xff, 0x9a, 0xa9, 0x10, 0xab, 0x7e])).collect();
    let case = c.pick(3);
    let mut s = String::from("0x");
    for (i, x) in b.iter().enumerate() {
        match (case, i % 2) {
            (0, _) | (2, 0) => s.push_str(&format!("{x:02X}")),
            _ => s.push_str(&format!("{x:02x}")),
        }
    }
    (b, s)
}

pub fn c15(c: &mut Ctx) -> RunResult {
    let addr = c.flip();
    let (bytes, lit) = if addr { gen_address(c) } else { gen_hex(c) };
    let both = c.chance(1, 3);
    let swap = c.flip();
    let mk_b = || {
        let b = stringify::from_str_custom();
        match (both, swap, addr) {
            (true, false, _) => b.add_custom_parser(custom_parsers::parse_hex).add_custom_parser(custom_parsers::parse_ss58),
            (true, true, _) => b.add_custom_parser(custom_parsers::parse_ss58).add_custom_parser(custom_parsers::parse_hex),
            (false, _, true) => b.add_custom_parser(custom_parsers::parse_ss58),
            (false, _, false) => b.add_custom_parser(custom_parsers::parse_hex),
        }
    };
    let script: Script = match (both, swap, addr) {
        (true, false, _) => vec![vec![Do::Hex], vec![Do::Ss58]],
        (true, true, _) => vec![vec![Do::Ss58], vec![Do::Hex]],
        (false, _, true) => vec![vec![Do::Ss58]],
        (false, _, false) => vec![vec![Do::Hex]],
    };
    let b = mk_b();
    let want = Value::from_bytes(bytes.clone());
    c.note(|| format!("literal {lit} of {bytes:02x?}"));

    // intact, alone and in surroundings; exactly the literal is consumed
    const TAILS: [&str; 14] = ["", " ", ",", ")", "}", ", 1", "-1", "_", "\"", "é", "\u{1F600}", "\n", ":", "."];
    let tail = *c.choose(&TAILS);
    let text = format!("{lit}{tail}");
    let (r, rest) = guard::call("parse", || b.parse(&text))?;
    ensure!(r.as_ref() == Ok(&want), "wrong-bytes", "{text:?} gave {}, expected {bytes:02x?}", show(&r));
    ensure!(rest == tail, "rest", "{text:?} left {rest:?}, expected {tail:?}");
    // directly: the cursor moves past the literal
    let mut cur: &str = &text;
    let r = guard::call("parser", || if addr { custom_parsers::parse_ss58(&mut cur) } else { custom_parsers::parse_hex(&mut cur) })?;
    ensure!(r == Some(Ok(want.clone())) && cur == tail, "wrong-bytes", "parser on {text:?} gave {r:?} leaving {cur:?}");
    c.ev(text.as_bytes());
    // nested among other values
    let (pre, post, build): (&str, &str, fn(V0) -> V0) = match c.pick(4) {
        0 => ("(1, ", ", true)", |v| Value::unnamed_composite([Value::u128(1), v, Value::bool(true)])),
        1 => ("{ a: ", " }", |v| Value::named_composite([("a", v)])),
        2 => ("Foo(", ")", |v| Value::unnamed_variant("Foo", [v])),
        _ => ("{\"é\":(", "),b:'x'}", |v| Value::named_composite([("é", Value::unnamed_composite([v])), ("b", Value::char('x'))])),
    };
    let text = format!("{pre}{lit}{post}");
    let (r, rest) = guard::call("parse", || b.parse(&text))?;
    let w = build(want.clone());
    ensure!(r.as_ref() == Ok(&w) && rest.is_empty(), "wrong-bytes", "{text:?} gave {} leaving {rest:?}, expected {w:?}", show(&r));
    // a literal in the place of a variant name is one
    if addr && c.chance(1, 4) {
        let sp = *c.choose(&["", " ", "\n\t", "\u{a0}"]);
        let text = format!("{lit}{sp}(1)");
        one_lit(c, &b, &script, &text)?;
    }

    // hex formats back to the same literal (in the formatter's case)
    if !addr && !bytes.is_empty() {
        let mut s = String::new();
        let r = guard::call("format_hex", || format_hex(&want, &mut s))?;
        ensure!(r == Some(Ok(())) && s.eq_ignore_ascii_case(&lit), "format-hex", "{lit} formatted back as {s:?} ({r:?})");
        let mut s = String::new();
        guard::call("write", || stringify::to_writer_custom().add_custom_formatter(|v: &V0, w: &mut &mut String| format_hex(v, w)).write(&w, &mut s))?.ok();
        ensure!(s.to_lowercase().contains(&lit.to_lowercase()), "format-hex", "{w:?} formatted as {s:?}, without {lit}");
        let (r, rest) = guard::call("parse", || mk_b().parse(&s))?;
        ensure!(r.as_ref() == Ok(&w) && rest.is_empty(), "format-hex", "{s:?} gave {} leaving {rest:?}", show(&r));
    }

    // damaged in transit
    let n = c.range(1, 4);
    for _ in 0..n {
        let bad = damage_lit(c, &lit, addr);
        c.nontrivial();
        // the parser alone
        let mut cur: &str = &bad;
        let r = guard::call("parser", || if addr { custom_parsers::parse_ss58(&mut cur) } else { custom_parsers::parse_hex(&mut cur) })?;
        let want = if addr { ref_parse_ss58(&bad) } else { ref_parse_hex(&bad) };
        c.note(|| format!("damaged {bad:?} -> {r:?} leaving {cur:?}; reference {want:?}"));
        match (&want, &r) {
            (Lit::Bytes(b, n), Some(Ok(v))) => {
                ensure!(*v == Value::from_bytes(b.clone()), "wrong-bytes", "{bad:?} gave {v:?}, expected {b:02x?}");
                ensure!(cur == &bad[*n..], "rest", "{bad:?} left {cur:?}, expected {:?}", &bad[*n..]);
                c.probe("damaged_literal_still_valid");
            }
            (Lit::Bytes(b, _), other) if !addr || b.len() == 32 => bail!("rejected-valid", "{bad:?} is a valid literal but gave {other:?}"),
            (Lit::No, None) | (Lit::Bytes(..), None) | (Lit::Bytes(..), Some(Err(_))) => {
                c.probe("damaged_literal_declined");
            }
            (Lit::Bad, Some(Err(e))) => {
                ensure!(cur == bad, "cursor-moved", "{bad:?}: failed but moved to {cur:?}");
                ensure!(e.start_loc <= bad.len() && bad.is_char_boundary(e.start_loc), "error-outside", "{bad:?}: {e:?}");
                c.probe("damaged_literal_failed");
            }
            (_, other) => bail!("accepted-damaged", "{bad:?} gave {other:?}, expected {want:?}"),
        }
        c.ev(bad.as_bytes());
        // and in place
        let text = match c.pick(3) {
            0 => bad,
            1 => format!("{pre}{bad}{post}"),
            _ => format!("{bad}{tail}"),
        };
        one_lit(c, &b, &script, &text)?;
    }
    Ok(())
}
fn one_lit(c: &mut Ctx, b: &FromStrBuilder, script: &Script, s: &str) -> RunResult {
    let (want, _) = model_parse(s, script);
    let (r, rest) = guard::call("parse", || b.parse(s))?;
    let at = position(s, rest)?;
    sane(s, &r)?;
    c.note(|| format!("in place {:?} -> {} rest {:?}", cut(s), show(&r), cut(rest)));
    match (&want, &r) {
        (Outcome::Value(w, n), Ok(v)) => {
            ensure!(v == w, "wrong-value", "{s:?} gave {v:?}, expected {w:?}");
            ensure!(at == *n, "rest", "{s:?}: rest starts at {at}, expected {n}");
        }
        (Outcome::Value(..), Err(_)) => bail!("rejected-valid", "{s:?} gave {}, expected {want:?}", show(&r)),
        (_, Ok(_)) => bail!("accepted-damaged", "{s:?} gave {}, expected {want:?}", show(&r)),
        (_, Err(_)) => {}
    }
    c.ev_u(at as u64);
    Ok(())
}
/// something that has a right checksum and a wrong length (any, down to nothing)
fn odd_address(c: &mut Ctx) -> String {
    if c.chance(1, 6) {
        // as long as the base58 decoder can take, or a little longer: leading ones are worth a byte each
        let n = c.range(126, 140);
        let mut s: Vec<u8> = vec![b'1'; n];
        for _ in 0..c.range(1, 3) {
            s.push(B58[c.idx(58)]);
        }
        c.fault("literal_of_other_length");
        return String::from_utf8(s).expect("ascii");
    }
    let n = *c.choose(&[0usize, 1, 2, 3, 4, 8, 30, 31, 33, 34, 64]);
    let mut b: Vec<u8> = (0..n).map(|_| c.pick(256) as u8).collect();
    if n > 0 {
        b[0] = *c.choose(&[0u8, 1, 42, 63, 64, 65, 100, 127, 128, 255]);
    }
    let sum = checksum(&b);
    let keep = c.weighted(&[1, 1, 8]);
    b.extend(&sum[..keep]);
    c.fault("literal_of_other_length");
    b58_encode(&b)
}
fn damage_lit(c: &mut Ctx, lit: &str, addr: bool) -> String {
    if addr && c.chance(1, 8) {
        return odd_address(c);
    }
    let mut v: Vec<char> = lit.chars().collect();
    let n = c.weighted(&[8, 1]) + 1;
    for _ in 0..n {
        if v.is_empty() {
            break;
        }
        let at = c.idx(v.len());
        match c.weighted(&[15, 9, 6, 6, 6, 3, 3, 1]) {
            0 => {
                v[at] = if addr { B58[c.idx(58)] as char } else { *c.choose(&['0', '1', '9', 'a', 'f', 'A', 'F', 'g', 'x', 'G']) };
                c.fault("literal_char_replaced");
            }
            1 => {
                v.truncate(at);
                c.fault("literal_torn");
            }
            2 => {
                v[at] = *c.choose(&['0', 'O', 'I', 'l', '_', ' ', 'é', '/', ':', '@', '[', '`', '{', 'Z', 'z', '\u{660}', '\u{ff21}']);
                c.fault("literal_char_replaced");
            }
            3 => {
                v.remove(at);
                c.fault("literal_char_lost");
            }
            4 => {
                let x = v[at];
                v.insert(at, x);
                c.fault("literal_char_duplicated");
            }
            5 => {
                if at + 1 < v.len() {
                    v.swap(at, at + 1);
                    c.fault("literal_chars_swapped");
                }
            }
            7 => {
                // a stuck sender: one character over and over
                let x = if c.flip() { '1' } else { v[at] };
                let n = c.range(1, 300);
                v.splice(at..at, std::iter::repeat_n(x, n));
                c.fault("literal_char_stuck");
            }
            _ => {
                let x = v[at];
                v[at] = if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                c.fault("literal_case_changed");
            }
        }
    }
    v.into_iter().collect()
}
#[allow(dead_code)]
fn _unused(_: &N) {}
