//! C16: SHA-256 streaming. C17: HMAC reuse.

use crate::core::{Ctx, R};
use crate::ensure;
use crate::model::sha;
use crate::runner::Prop;
use osi::hash::Engine as _;

pub const C16: Prop = Prop {
    id: "C16",
    units: 80_000,
    sweep: true,
    run: run_sha,
    real: "osi::hash::sha256::Engine, osi::hash::hash, osi::hash::Hash",
    stub: "callers (split, interleaving, reset/drop/copy points); reference digest is an independent one-shot SHA-256",
    rule: "one evaluation = one history of up to 24 operations on up to 4 interleaved engines; distinct = distinct event logs (every operation with its arguments and every digest)",
    assumptions: &["messages up to 600 bytes, rarely up to 1 MiB and beyond 2^32 zeros; totals beyond 2^61 bits are not reachable"],
};

pub const C17: Prop = Prop {
    id: "C17",
    units: 60_000,
    sweep: true,
    run: run_hmac,
    real: "osi::hmac::Hmac, osi::hash::sha256::Engine",
    stub: "callers (split, interleaving, reset/drop points); a toy hash engine besides SHA-256; reference MAC is an independent RFC 2104 computation",
    rule: "one evaluation = one history of up to 24 operations on up to 4 interleaved MAC engines; distinct = distinct event logs (every operation with its arguments and every MAC)",
    assumptions: &["keys up to 200 bytes and messages up to 600 bytes, rarely keys up to 128 KiB and messages up to 1 MiB"],
};

/// Lengths biased to block boundaries given the current fill level, and in
/// runs with long messages to powers of two.
fn length(ctx: &Ctx, have: usize, long: bool) -> usize {
    if long && ctx.chance(1, 3) {
        let target = (1usize << ctx.range(9, 17)) + ctx.range(0, 2) * 64;
        return (target - have % 64 + ctx.range(0, 2)).saturating_sub(ctx.range(0, 2));
    }
    match ctx.draw(4) {
        0 => ctx.range(0, 3),
        1 => {
            // Land near a boundary that matters: end of block or of padding.
            let target = *ctx.pick(&[64usize, 63, 62, 65, 55, 56, 57, 119, 120, 128, 127]);
            let fill = have % 64;
            if target >= fill { target - fill } else { target + 64 - fill }
        }
        2 => ctx.range(0, 70),
        _ => ctx.range(0, 300),
    }
}

// State after absorbing 2^29 zero bytes.
const BIG: u64 = 1 << 29;
fn big_state() -> [u32; 8] {
    static S: std::sync::OnceLock<[u32; 8]> = std::sync::OnceLock::new();
    *S.get_or_init(|| {
        let mut s = sha::init();
        for _ in 0..BIG / 64 {
            sha::block(&mut s, &[0; 64]);
        }
        s
    })
}

// State after absorbing 2^32 zero bytes, computed with the reference.
const HUGE: u64 = 1 << 32;
const HUGE_STATE: [u32; 8] = [
    0x8ffe48e8, 0xfe681595, 0x06d4999e, 0xe2b1ac4c, 0x3e5b953c, 0xd5f8bb95, 0xe8082d4e, 0x8df5e99a,
];

fn run_sha(ctx: &Ctx) -> R {
    // The bit count exceeds 32 bits only for huge messages; visit rarely.
    if ctx.chance(1, 30_000) {
        ctx.probe("message_beyond_2^32_bits");
        let tail = ctx.bytes(ctx.range(0, 130));
        let huge = ctx.chance(1, 2);
        let (big, state) = if huge { (HUGE, HUGE_STATE) } else { (BIG, big_state()) };
        if huge {
            ctx.probe("message_beyond_2^32_bytes");
        }
        let mut e = osi::hash::sha256::Engine::default();
        let lead = ctx.range(0, 200);
        e.push_zero(lead);
        e.push_zero(big as usize - lead);
        e.push(&tail);
        ctx.tick();
        ensure!(
            *e.finalize().as_bytes() == sha::sha256_from(state, big, &tail),
            "wrong digest for {big} zeros and {} bytes", tail.len()
        );
        ensure!(e.is_reset(), "not reset after finalization");
        return Ok(());
    }

    let long = ctx.chance(1, 400);
    if long {
        ctx.probe("long_messages");
    }
    let n = ctx.range(1, 4);
    let mut engines: Vec<(osi::hash::sha256::Engine, Vec<u8>)> =
        (0..n).map(|_| (Default::default(), Vec::new())).collect();
    let steps = ctx.range(1, 24);
    ctx.describe(|| format!("{n} engines, {steps} steps"));
    for _ in 0..steps {
        let i = ctx.below(engines.len());
        ctx.tick();
        let fill = engines[i].1.len();
        ctx.state(1, fill as u64 % 64, engines.len() as u64);
        // Disturbances come first: they are what the sweep enumerates.
        if ctx.fault("reset_midstream", 1, 12) {
            let (e, m) = &mut engines[i];
            e.reset();
            m.clear();
            ctx.ev("reset", i as u64, fill as u64);
        }
        if engines.len() > 1 && ctx.fault("drop_midstream", 1, 24) {
            engines.remove(i);
            ctx.ev("drop", i as u64, 0);
            continue;
        }
        match ctx.weighted(&[6, 3, 3, 1, 1]) {
            0 => {
                let (e, m) = &mut engines[i];
                let d = ctx.bytes(length(ctx, m.len(), long));
                e.push(&d);
                m.extend_from_slice(&d);
                ctx.ev("push", i as u64, d.len() as u64);
            }
            1 => {
                let (e, m) = &mut engines[i];
                let l = length(ctx, m.len(), long);
                e.push_zero(l);
                m.resize(m.len() + l, 0);
                ctx.ev("push_zero", i as u64, l as u64);
            }
            2 => {
                let (e, m) = &mut engines[i];
                let h = e.finalize();
                ctx.ev_bytes("digest", h.as_bytes());
                ensure!(
                    *h.as_bytes() == sha::sha256(m),
                    "engine {i}: wrong digest of {} bytes: {}", m.len(), h.to_hex()
                );
                let hex: String = h.0.iter().map(|b| format!("{b:02x}")).collect();
                ensure!(h.to_hex() == hex, "wrong hex form {}", h.to_hex());
                m.clear();
            }
            3 => {
                if engines.len() < 6 {
                    let c = engines[i].clone();
                    engines.push(c);
                    ctx.ev("clone", i as u64, 0);
                }
            }
            _ => {
                let d = ctx.bytes(length(ctx, 0, long));
                let h = osi::hash::hash::<osi::hash::sha256::Engine>(&d);
                ctx.ev_bytes("oneshot", h.as_bytes());
                ensure!(*h.as_bytes() == sha::sha256(&d), "wrong one-shot digest of {} bytes", d.len());
            }
        }
        for (j, (e, m)) in engines.iter().enumerate() {
            ensure!(
                e.is_reset() == m.is_empty(),
                "engine {j}: reports reset={} after {} bytes", e.is_reset(), m.len()
            );
        }
    }
    for (i, (mut e, m)) in engines.into_iter().enumerate() {
        ensure!(
            *e.finalize().as_bytes() == sha::sha256(&m),
            "engine {i}: wrong final digest of {} bytes", m.len()
        );
        ensure!(e.is_reset(), "engine {i}: not reset after finalization");
        ensure!(
            *e.finalize().as_bytes() == sha::sha256(b""),
            "engine {i}: finalization leaves a state behind"
        );
    }
    Ok(())
}

/// A toy engine with a different block and hash size, default `push_zero()`.
#[derive(Default, Clone)]
struct Toy(Vec<u8>);

fn toy(data: &[u8]) -> [u8; 5] {
    let mut h = [7u8, 11, 13, 17, 19];
    for (i, b) in data.iter().enumerate() {
        let j = i % 5;
        h[j] = h[j].wrapping_mul(31).wrapping_add(*b).rotate_left(3) ^ h[(j + 1) % 5];
    }
    h
}

impl osi::hash::Engine for Toy {
    type Hash = osi::hash::Hash<5>;
    fn is_reset(&self) -> bool {
        self.0.is_empty()
    }
    fn reset(&mut self) {
        self.0.clear()
    }
    fn push(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
    fn finalize(&mut self) -> Self::Hash {
        let h = toy(&self.0);
        self.0.clear();
        osi::hash::Hash(h)
    }
}

fn toy_hmac(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 8 { toy(key).to_vec() } else { key.to_vec() };
    k.resize(8, 0);
    let mut i: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    i.extend_from_slice(data);
    let mut o: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    o.extend_from_slice(&toy(&i));
    toy(&o).to_vec()
}

enum Mac {
    Sha(osi::hmac::HmacSha256),
    Toy(osi::hmac::Hmac<8, Toy>),
}

impl Mac {
    fn push(&mut self, d: &[u8]) {
        match self {
            Mac::Sha(v) => v.push(d),
            Mac::Toy(v) => v.push(d),
        }
    }
    fn push_zero(&mut self, n: usize) {
        match self {
            Mac::Sha(v) => v.push_zero(n),
            Mac::Toy(v) => v.push_zero(n),
        }
    }
    fn reset(&mut self) {
        match self {
            Mac::Sha(v) => v.reset(),
            Mac::Toy(v) => v.reset(),
        }
    }
    fn finalize(&mut self) -> Vec<u8> {
        match self {
            Mac::Sha(v) => v.finalize().as_bytes().to_vec(),
            Mac::Toy(v) => v.finalize().as_bytes().to_vec(),
        }
    }
    fn model(&self, key: &[u8], data: &[u8]) -> Vec<u8> {
        match self {
            Mac::Sha(_) => sha::hmac(key, data).to_vec(),
            Mac::Toy(_) => toy_hmac(key, data),
        }
    }
}

fn run_hmac(ctx: &Ctx) -> R {
    let long = ctx.chance(1, 400);
    if long {
        ctx.probe("long_messages");
    }
    let make = || {
        let use_toy = ctx.chance(1, 5);
        let n = match ctx.draw(3) {
            _ if long && ctx.chance(1, 3) => length(ctx, 0, true),
            0 => ctx.range(0, 20),
            1 if use_toy => ctx.range(6, 10),
            1 => *ctx.pick(&[64usize, 63, 65, 31, 32, 33, 128, 127, 129]),
            _ => ctx.range(0, 200),
        };
        let key = ctx.bytes(n);
        ctx.ev_bytes("key", &key);
        let mac = if use_toy {
            Mac::Toy(osi::hmac::Hmac::with_engine(&key, Toy::default()))
        } else if ctx.chance(1, 3) {
            // A used, but reset engine must do.
            let mut e = osi::hash::sha256::Engine::default();
            e.push(&ctx.bytes(ctx.range(0, 80)));
            if ctx.chance(1, 2) { e.reset() } else { e.finalize(); }
            Mac::Sha(osi::hmac::Hmac::with_engine(&key, e))
        } else {
            Mac::Sha(osi::hmac::HmacSha256::new(&key))
        };
        (mac, key, Vec::<u8>::new())
    };
    let n = ctx.range(1, 4);
    let mut macs: Vec<_> = (0..n).map(|_| make()).collect();
    let steps = ctx.range(1, 24);
    ctx.describe(|| format!("{n} engines, {steps} steps"));
    for _ in 0..steps {
        let i = ctx.below(macs.len());
        ctx.tick();
        ctx.state(2, macs[i].2.len() as u64 % 64, macs[i].1.len() as u64);
        if ctx.fault("reset_midstream", 1, 8) {
            let (e, _, m) = &mut macs[i];
            e.reset();
            ctx.ev("reset", i as u64, m.len() as u64);
            m.clear();
        }
        if ctx.fault("drop_midstream", 1, 24) {
            macs[i] = make();
            ctx.ev("drop", i as u64, 0);
        }
        let (e, k, m) = &mut macs[i];
        match ctx.weighted(&[5, 2, 3]) {
            0 => {
                let d = ctx.bytes(length(ctx, m.len(), long));
                e.push(&d);
                m.extend_from_slice(&d);
                ctx.ev("push", i as u64, d.len() as u64);
            }
            1 => {
                let l = length(ctx, m.len(), long);
                e.push_zero(l);
                m.resize(m.len() + l, 0);
                ctx.ev("push_zero", i as u64, l as u64);
            }
            _ => {
                let h = e.finalize();
                ctx.ev_bytes("mac", &h);
                ensure!(
                    h == e.model(k, m),
                    "engine {i}: wrong MAC for a key of {} and a message of {} bytes", k.len(), m.len()
                );
                m.clear();
            }
        }
    }
    for (i, (mut e, k, m)) in macs.into_iter().enumerate() {
        ensure!(
            e.finalize() == e.model(&k, &m),
            "engine {i}: wrong final MAC for a key of {} and a message of {} bytes", k.len(), m.len()
        );
        ensure!(e.finalize() == e.model(&k, b""), "engine {i}: finalization leaves a state behind");
    }
    Ok(())
}
