//! Running code of the system under test so that a panic is an observation, not the end.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Payload of a panic injected by the simulator.
pub struct Injected;
/// Payload of a panic raised because a step budget of a simulated seam was exhausted.
pub struct OverBudget(pub String);

#[derive(Debug, Clone, PartialEq)]
pub enum Caught {
    Injected,
    OverBudget(String),
    Panic(String),
}
impl Caught {
    pub fn show(&self) -> String {
        match self {
            Caught::Injected => "injected panic".into(),
            Caught::OverBudget(s) => format!("step budget exhausted: {s}"),
            Caught::Panic(s) => format!("panic: {s}"),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Caught::Injected => "injected-panic-leaked",
            Caught::OverBudget(_) => "work",
            Caught::Panic(_) => "panic",
        }
    }
}

pub fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| q.get()) > 0;
        if quiet {
            let metered = crate::alloc::set_on(false);
            let msg = payload_str(info.payload());
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    *l = format!("{msg}{loc}")
                }
            });
            drop((msg, loc));
            crate::alloc::set_on(metered);
        } else {
            default(info)
        }
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string payload>".into()
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    QUIET.with(|q| q.set(q.get() + 1));
    let metered = crate::alloc::is_on();
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            // closes a measurement that was opened inside and left open by the panic
            crate::alloc::set_on(metered);
            if p.is::<Injected>() {
                Err(Caught::Injected)
            } else if let Some(b) = p.downcast_ref::<OverBudget>() {
                Err(Caught::OverBudget(b.0.clone()))
            } else {
                Err(Caught::Panic(LAST.with(|l| l.borrow().clone())))
            }
        }
    }
}

/// Guard a call of the system under test, turning any unexpected unwinding into a violation.
pub fn call<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, crate::tape::Violation> {
    guard(f).map_err(|c| crate::tape::Violation { class: c.class().into(), msg: format!("{what}: {}", c.show()) })
}
