//! C24: histories of several random number generators.

use crate::core::{Ctx, R};
use crate::ensure;
use crate::model::rng::{Split, Wide};
use crate::runner::Prop;
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

pub const C24: Prop = Prop {
    id: "C24",
    units: 120_000,
    sweep: true,
    run: run_c24,
    real: "osi::rng::{Mix64, SplitMix64, Xoshiro256pp}",
    stub: "callers (interleaving of up to 6 generators; copy, split, convert, jump and drop points); reference is SplitMix64 as published and xoshiro256++ as a 256x256 matrix over GF(2), jumps by repeated squaring",
    rule: "one evaluation = one history of up to 60 operations on up to 6 generators; distinct = distinct event logs (every operation with its result)",
    assumptions: &["jumps are followed by up to about 60 draws"],
};

#[derive(Clone, Debug, PartialEq)]
enum Real {
    Mix(Mix64),
    Split(SplitMix64),
    Wide(Xoshiro256pp),
}

#[derive(Clone, Debug, PartialEq)]
enum Model {
    Split(Split),
    Wide(Wide),
}

type Pair = (Real, Model);

fn word(ctx: &Ctx) -> u64 {
    match ctx.draw(5) {
        // Some steps before a round number is reached.
        4 => {
            let to = *ctx.pick(&[0u64, 1, u64::MAX, 1 << 63, 1 << 32, u32::MAX as u64]);
            to.wrapping_sub((ctx.range(1, 60) as u64).wrapping_mul(0x9e3779b97f4a7c15))
        }
        0 => 0,
        1 => ctx.draw(4),
        2 => u64::MAX - ctx.draw(3),
        _ => ctx.u64(),
    }
}

fn fresh(ctx: &Ctx) -> Pair {
    match ctx.draw(3) {
        0 => {
            let s = word(ctx);
            (Real::Mix(Mix64::with_seed(s)), Model::Split(Split::new(s)))
        }
        1 => {
            let s = word(ctx);
            (Real::Split(SplitMix64::with_seed(s)), Model::Split(Split::new(s)))
        }
        _ => {
            let s = if ctx.chance(1, 4) { [0; 4] } else { [word(ctx), word(ctx), word(ctx), word(ctx)] };
            (Real::Wide(Xoshiro256pp::with_seed(s)), Model::Wide(Wide::new(s)))
        }
    }
}

fn draw(ctx: &Ctx, (r, m): &mut Pair, i: usize) -> R {
    let narrow = ctx.chance(1, 3);
    let (got, want) = match (r, m) {
        (Real::Mix(r), Model::Split(m)) if narrow => (r.next32() as u64, m.next32() as u64),
        (Real::Mix(r), Model::Split(m)) => (r.next64(), m.next64()),
        (Real::Split(r), Model::Split(m)) if narrow => (r.next32() as u64, m.next32() as u64),
        (Real::Split(r), Model::Split(m)) => (r.next64(), m.next64()),
        (Real::Wide(r), Model::Wide(m)) => (r.next64(), m.next64()),
        _ => unreachable!(),
    };
    ctx.ev("draw", i as u64, got);
    ensure!(got == want, "generator {i} draws {got:#x}, expected {want:#x}");
    Ok(())
}

fn run_c24(ctx: &Ctx) -> R {
    let mut gens = vec![fresh(ctx)];
    let steps = ctx.range(4, 60);
    ctx.describe(|| format!("{steps} steps, starting with {:?}", gens[0].0));
    for step in 0..steps {
        ctx.tick();
        if gens.len() < 6 && ctx.fault("copied", 1, 16) {
            let i = ctx.below(gens.len());
            let c = gens[i].clone();
            ensure!(c.0 == gens[i].0, "a copy differs from its original");
            gens.push(c);
        }
        if gens.len() > 1 && ctx.fault("dropped", 1, 24) {
            let i = ctx.below(gens.len());
            gens.swap_remove(i);
        }
        let i = ctx.below(gens.len());
        let kind = match &gens[i].0 {
            Real::Mix(_) => 0,
            Real::Split(_) => 1,
            Real::Wide(_) => 2,
        };
        let op = ctx.weighted(&[8, 2, 2, 1]);
        ctx.state(kind, op as u64, gens.len() as u64 | (step as u64).min(7) << 8);
        match op {
            0 => {
                for _ in 0..ctx.range(1, 5) {
                    draw(ctx, &mut gens[i], i)?;
                }
            }
            // Derive another one.
            1 => {
                let new = match &mut gens[i] {
                    (Real::Mix(r), Model::Split(m)) => (Real::Split(r.split()), Model::Split(m.split())),
                    (Real::Split(r), Model::Split(m)) => (Real::Split(r.split()), Model::Split(m.split())),
                    (Real::Wide(r), Model::Wide(m)) => {
                        let c = (Real::Wide(r.clone()), Model::Wide(m.clone()));
                        r.jump128();
                        m.jump128();
                        ctx.probe("jump128");
                        c
                    }
                    _ => unreachable!(),
                };
                if let Model::Split(m) = &new.1 {
                    ctx.probe("split");
                    if m.corrected() {
                        ctx.probe("split_corrected_increment");
                    }
                }
                ctx.ev("derive", i as u64, 0);
                if gens.len() < 6 {
                    gens.push(new);
                } else {
                    let k = ctx.below(gens.len());
                    gens[k] = new;
                }
            }
            // Convert.
            2 => {
                ctx.ev("convert", i as u64, kind);
                match &mut gens[i] {
                    (g @ Real::Mix(_), _) => {
                        let Real::Mix(r) = *g else { unreachable!() };
                        *g = Real::Split(if ctx.chance(1, 2) { r.into() } else { SplitMix64::from_mix64(r) });
                    }
                    (Real::Split(r), Model::Split(m)) => {
                        ctx.probe("seeded_from_split");
                        let new = if ctx.chance(1, 2) {
                            // By value: the original is unchanged.
                            (Real::Wide((*r).into()), Model::Wide(Wide::from_split(&mut m.clone())))
                        } else {
                            (Real::Wide(Xoshiro256pp::from_splitmix64(r)), Model::Wide(Wide::from_split(m)))
                        };
                        if gens.len() < 6 {
                            gens.push(new);
                        } else {
                            gens[i] = new;
                        }
                    }
                    (Real::Wide(r), Model::Wide(m)) => {
                        r.jump192();
                        m.jump192();
                        ctx.probe("jump192");
                    }
                    _ => unreachable!(),
                }
            }
            _ => {
                let new = fresh(ctx);
                if gens.len() < 6 {
                    gens.push(new);
                } else {
                    gens[i] = new;
                }
            }
        }
        // Generators in the same state are equal, others are not.
        if step % 8 == 7 {
            let (a, b) = (ctx.below(gens.len()), ctx.below(gens.len()));
            let same = matches!(
                (&gens[a].0, &gens[b].0),
                (Real::Mix(_), Real::Mix(_)) | (Real::Split(_), Real::Split(_)) | (Real::Wide(_), Real::Wide(_))
            );
            if same {
                ensure!(
                    (gens[a].0 == gens[b].0) == (gens[a].1 == gens[b].1),
                    "generators {a} and {b} compare wrongly"
                );
            }
        }
    }
    for (i, g) in gens.iter_mut().enumerate() {
        draw(ctx, g, i)?;
    }
    Ok(())
}
