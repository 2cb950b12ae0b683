//! C29: everything allocated is released exactly once.
//!
//! Histories of all other properties are run with every block of memory
//! followed from allocation to release, and with environment calls that may
//! panic. Released blocks are poisoned and kept until the end.

use crate::core::{Ctx, Exploded, R};
use crate::heap;
use crate::model::dbus::Gen;
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::mown::Mown;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Arc;
use tmp::fmt::dbus::Sig;
use tmp::fmt::dbus::signature::Cursor;

pub const C29: Prop = Prop {
    id: "C29",
    units: 30_000,
    sweep: true,
    run: run_c29,
    real: "tmp::fmt::dbus::{dvar, signature}, tmp::fmt::json::{token, stream}, tmp::io::{map, stream}, osi::json::token, osi::args, osi::compat, osi::mown",
    stub: "allocator (follows, poisons, always moves on growth); callers and environment calls that may panic at any point; memory, streams, report consumers, writers",
    rule: "one evaluation = one history of one of the other properties, or of signatures alone, with all blocks followed; distinct = distinct event logs",
    assumptions: &["bounds of the histories are those of the property they are taken from; nothing is leaked on purpose by the caller"],
};

const OTHERS: [&str; 18] = [
    "C22", "C22", "C04", "C09", "C11", "C12", "C07", "C08", "C10", "C02", "C05", "C06", "C14", "C15", "C18", "C19", "C20", "C21",
];

fn run_c29(ctx: &Ctx) -> R {
    let k = ctx.below(OTHERS.len() + 2);
    let f = if k < 2 { signatures } else { crate::props::find(OTHERS[k - 2]).unwrap().run };
    ctx.ev("history", k as u64, 0);
    ctx.describe(|| if k < 2 { "signatures".into() } else { format!("history of {}", OTHERS[k - 2]) });
    ctx.set_explode();
    let (r, blocks, error) = heap::follow(|| match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(Ok(())) => None,
        // Keep it from being counted as left behind.
        Ok(Err(e)) => Some(heap::quiet(|| e.0.clone())),
        Err(e) if e.is::<Exploded>() => {
            ctx.probe("unwound");
            None
        }
        Err(_) => Some(heap::quiet(|| crate::runner::panicked())),
    });
    ctx.ev("blocks", blocks, 0);
    if blocks > 0 {
        ctx.probe("history_with_blocks");
    }
    if let Some(e) = error {
        fail!("{e}");
    }
    if let Some(m) = r {
        // Wrong results are the business of that property, unless they come
        // from memory that was used after its release or before being set.
        let again = Ctx::from_tape(ctx.taken(), false);
        let _ = again.below(OTHERS.len() + 2);
        again.set_explode();
        if let Ok(Ok(())) = catch_unwind(AssertUnwindSafe(|| f(&again))) {
            fail!("with released memory overwritten: {m}");
        }
        ctx.probe("other_failure");
    }
    Ok(())
}

/// Something that keeps a signature.
enum Keep {
    Boxed(Box<Sig>),
    Shared(Arc<Sig>),
    BoxPos(Cursor<'static, Box<Sig>>),
    ArcPos(Cursor<'static, Arc<Sig>>),
}

impl Keep {
    fn sig(&self) -> &Sig {
        match self {
            Keep::Boxed(v) => v,
            Keep::Shared(v) => v,
            Keep::BoxPos(v) => v.root(),
            Keep::ArcPos(v) => v.root(),
        }
    }
}

/// Signatures that are created, shared, copied and dropped.
fn signatures(ctx: &Ctx) -> R {
    let mut all: Vec<(Keep, String)> = Vec::new();
    for _ in 0..ctx.range(3, 40) {
        ctx.tick();
        let op = ctx.below(10);
        ctx.ev("op", op as u64, all.len() as u64);
        if op < 3 || all.is_empty() {
            let g = Gen::new(ctx);
            let mut s = g.ty(true).sig();
            if ctx.chance(1, 5) {
                // Likely invalid.
                let i = ctx.below(s.len());
                match ctx.draw(3) {
                    0 => s.truncate(i),
                    1 => s[i] = *ctx.pick(b"(){}auzv\xff"),
                    _ => s.insert(i, *ctx.pick(b"(){}au")),
                }
            }
            let text = String::from_utf8_lossy(&s).into_owned();
            let k = if ctx.chance(1, 2) {
                Sig::new(&s).map(Keep::Boxed)
            } else {
                Sig::arc(&s).map(Keep::Shared)
            };
            match k {
                Ok(k) => all.push((k, text)),
                Err(_) => ctx.probe("invalid_signature"),
            }
            continue;
        }
        let i = ctx.below(all.len());
        match op {
            3 | 4 => {
                let (k, text) = &all[i];
                let k = match k {
                    Keep::Boxed(v) if ctx.chance(1, 2) => Keep::Boxed(v.clone()),
                    Keep::Shared(v) if ctx.chance(2, 3) => Keep::Shared(v.clone()),
                    Keep::BoxPos(v) if ctx.chance(1, 2) => Keep::BoxPos(v.clone()),
                    Keep::ArcPos(v) if ctx.chance(1, 2) => Keep::ArcPos(v.clone()),
                    _ if ctx.chance(1, 2) => Keep::Boxed(k.sig().to_owned()),
                    _ => Keep::Boxed(k.sig().clone()),
                };
                let text = text.clone();
                all.push((k, text));
            }
            5 => {
                let (k, text) = all.swap_remove(i);
                let k = match k {
                    Keep::Boxed(v) => Keep::BoxPos(Cursor::new_owned(v)),
                    Keep::Shared(v) if ctx.chance(1, 2) => Keep::ArcPos(Cursor::new(Mown::new_owned(v))),
                    Keep::Shared(v) => Keep::ArcPos(Cursor::new_owned(v)),
                    v => v,
                };
                all.push((k, text));
            }
            6 => {
                let (k, text) = &mut all[i];
                // A part becomes a signature of its own.
                let at = ctx.below(text.len() + 1);
                let part = match k {
                    Keep::BoxPos(c) => c.move_to(at.min(c.root().len())).sig().map(|s| s.clone()),
                    Keep::ArcPos(c) => c.move_to(at.min(c.root().len())).sig().map(|s| s.clone()),
                    k => k.sig().at(at).map(|s| s.clone()),
                };
                if let Some(p) = part {
                    let n = p.len();
                    ensure!(at + n <= text.len(), "part of {n} at {at} of {text}");
                    let t = text[at..at + n].to_string();
                    all.push((Keep::Boxed(p), t));
                }
            }
            7 => {
                let j = ctx.below(all.len());
                let eq = all[i].0.sig() == all[j].0.sig();
                ensure!(eq == (all[i].1 == all[j].1), "{} and {} compare wrong", all[i].1, all[j].1);
            }
            _ => drop(all.swap_remove(i)),
        }
        if let Some((k, text)) = all.get(i) {
            ensure!(k.sig().to_string() == *text, "{text} became {}", k.sig().to_string());
        }
    }
    Ok(())
}
