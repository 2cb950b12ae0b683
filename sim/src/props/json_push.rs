//! C08: any split of the text. C09: aborts, resets and copies.

use crate::core::{Ctx, R};
use crate::model::jchar::{Rep, lex};
use crate::model::jgen;
use crate::runner::Prop;
use crate::{ensure, fail};
use osi::json::token::{Error, Report, Status, Token, Tokenizer};
use std::ops::ControlFlow;

pub const C08: Prop = Prop {
    id: "C08", units: 120_000, sweep: true, run: run_c08,
    real: "osi::json::token::Tokenizer",
    stub: "text source with seeded splits and entry points; report consumer",
    rule: "one evaluation = one text under one split and flag set; distinct = distinct event logs (every push with its length, every report)",
    assumptions: &["texts up to about 10000 characters"],
};
pub const C09: Prop = Prop {
    id: "C09", units: 60_000, sweep: true, run: run_c09,
    real: "osi::json::token::Tokenizer",
    stub: "text source with seeded splits; report consumer that aborts; up to 4 copies in use side by side",
    rule: "one evaluation = texts pushed into a tokenizer and its copies with one sequence of aborts, resets and copies; distinct = distinct event logs",
    assumptions: &["texts up to 200 characters, rarely up to 75000"],
};

/// A value the tokenizer cannot make up.
type Val = u64;

struct Sink<'a> {
    ctx: &'a Ctx,
    /// Expected reports still to come, by the number of characters.
    want: &'a [(Rep, usize)],
    got: usize,
    abort: bool,
    aborted: Option<Val>,
    err: Option<String>,
}

impl Sink<'_> {
    fn on(&mut self, r: Rep) -> ControlFlow<Val> {
        self.ctx.tick();
        if let Some(v) = self.aborted {
            self.err.get_or_insert(format!("{r:?} delivered after abort {v}"));
        }
        match self.want.get(self.got) {
            Some((w, _)) if *w == r => {}
            Some((w, _)) => {
                self.err.get_or_insert(format!("report {} is {r:?}, expected {w:?}", self.got));
            }
            None => {
                self.err.get_or_insert(format!("report {} is {r:?}, expected none", self.got));
            }
        }
        self.ctx.ev("report", self.got as u64, matches!(r, Rep::Error(_)) as u64);
        self.got += 1;
        if self.abort && self.aborted.is_none() && self.ctx.fault("consumer_aborts", 1, 24) {
            let v = self.ctx.u64();
            self.aborted = Some(v);
            return ControlFlow::Break(v);
        }
        ControlFlow::Continue(())
    }
}

impl Report<Val> for Sink<'_> {
    fn report_error(&mut self, e: Error<'_>) -> ControlFlow<Val> {
        self.on(Rep::Error(e.own()))
    }
    fn report_token(&mut self, t: Token<'_>) -> ControlFlow<Val> {
        self.on(Rep::Token(t.own()))
    }
}

#[derive(Clone, Copy, Debug)]
enum How {
    Push,
    Str,
    Parse,
    End,
}

fn apply(tk: &mut Tokenizer, sink: &mut Sink<'_>, how: How, part: &[char]) -> ControlFlow<Val, Option<Status>> {
    match how {
        How::Push => {
            let mut s = None;
            for c in part {
                s = Some(tk.push(sink, Some(*c))?);
            }
            ControlFlow::Continue(s)
        }
        How::Str => ControlFlow::Continue(Some(tk.push_str(sink, &part.iter().collect::<String>())?)),
        How::Parse => {
            ControlFlow::Continue(Some(tk.parse_str(sink, &part.iter().collect::<String>())?))
        }
        How::End => ControlFlow::Continue(Some(tk.push(sink, None)?)),
    }
}

fn make(ctx: &Ctx) -> (Tokenizer, u32) {
    let flags = ctx.draw(4) as u32;
    (if flags == 0 { Tokenizer::new() } else { Tokenizer::with_flags(flags) }, flags)
}

fn run_c08(ctx: &Ctx) -> R {
    let text: Vec<char> = jgen::text(ctx).chars().collect();
    let (mut tk, flags) = make(ctx);
    ctx.describe(|| format!("flags {flags} text {:?}", text.iter().collect::<String>()));
    // Cut the text into pushes, and those into inputs with an end each.
    let fine = ctx.draw(4);
    let mut at = 0;
    let mut base = 0;
    let mut ops: Vec<(How, usize, usize)> = Vec::new();
    let mut inputs: Vec<(Vec<(How, usize, usize)>, usize, usize)> = Vec::new();
    while at < text.len() {
        let left = text.len() - at;
        let n = match fine {
            0 => left,
            1 => 1,
            2 => ctx.range(0, left.min(5)),
            _ => ctx.range(0, left),
        };
        let how = match ctx.draw(3) {
            0 => How::Str,
            _ => How::Push,
        };
        ops.push((how, at, at + n));
        at += n;
        if at < text.len() && inputs.len() < 6 && ctx.fault("end_of_input", 1, 24) {
            if ctx.chance(1, 2) {
                ops.last_mut().unwrap().0 = How::Parse;
            } else {
                ops.push((How::End, at, at));
            }
            inputs.push((std::mem::take(&mut ops), base, at));
            base = at;
        }
        ctx.tick();
    }
    match ops.last_mut() {
        Some(v) if ctx.chance(1, 2) => v.0 = How::Parse,
        _ => ops.push((How::End, at, at)),
    }
    inputs.push((ops, base, at));

    for (ops, base, end) in inputs {
        let input = &text[base..end];
        let want = lex(input, flags, true);
        let mut sink = Sink { ctx, want: &want.reps, got: 0, abort: false, aborted: None, err: None };
        let shown = || input.iter().collect::<String>();
        for (how, a, b) in ops {
            ctx.ev("push", how as u64, (b - a) as u64);
            let mut one = |sink: &mut Sink<'_>, how: How, part: &[char], k: usize| -> R {
                let r = apply(&mut tk, sink, how, part);
                if let Some(e) = sink.err.take() {
                    fail!("{e} (flags {flags}, text {:?})", shown());
                }
                let ControlFlow::Continue(s) = r else { fail!("break without abort") };
                let done = matches!(how, How::Parse | How::End);
                let due = k + done as usize;
                let n = want.reps.partition_point(|v| v.1 <= due);
                ensure!(
                    sink.got == n,
                    "{} reports after {k} characters of {:?}, expected {n} (flags {flags})",
                    sink.got, shown()
                );
                let busy = if !done && want.busy[k] { Status::Busy } else { Status::Done };
                ensure!(tk.status() == busy, "status {:?} after {k} characters of {:?}", tk.status(), shown());
                ensure!(s.is_none_or(|v| v == busy), "status {s:?} returned after {k} characters of {:?}", shown());
                ctx.state(how as u64, busy as u64, (n.min(8)) as u64);
                Ok(())
            };
            if let How::Push = how {
                for i in a..b {
                    one(&mut sink, how, &text[i..i + 1], i + 1 - base)?;
                }
            } else {
                one(&mut sink, how, &text[a..b], b - base)?;
            }
        }
        ctx.ev("input", sink.got as u64, want.reps.len() as u64);
    }
    Ok(())
}

struct Inst {
    tk: Tokenizer,
    flags: u32,
    /// Input since the last end, abort or reset.
    text: Vec<char>,
    got: usize,
    source: Vec<char>,
    pos: usize,
}

fn run_c09(ctx: &Ctx) -> R {
    let source = |ctx: &Ctx| {
        let mut t: Vec<char> = jgen::text(ctx).chars().collect();
        t.truncate(if ctx.chance(1, 100) { 6000 } else { 200 });
        t
    };
    let (tk, flags) = make(ctx);
    let mut insts = vec![Inst { tk, flags, text: Vec::new(), got: 0, source: source(ctx), pos: 0 }];
    ctx.describe(|| format!("flags {flags} text {:?}", insts[0].source.iter().collect::<String>()));
    let mut refills = 0;
    for _ in 0..40 {
        ctx.tick();
        if insts.len() < 4 && ctx.fault("copied", 1, 20) {
            let i = ctx.below(insts.len());
            let s = source(ctx);
            let src = &insts[i];
            let copy = if ctx.chance(1, 2) {
                // The same text follows in both.
                (src.source.clone(), src.pos)
            } else {
                (s, 0)
            };
            let new = Inst {
                tk: src.tk.clone(),
                flags: src.flags,
                text: src.text.clone(),
                got: src.got,
                source: copy.0,
                pos: copy.1,
            };
            insts.push(new);
        }
        if insts.len() > 1 && ctx.fault("copy_dropped", 1, 40) {
            let i = ctx.below(insts.len());
            insts.remove(i);
        }
        let i = ctx.below(insts.len());
        let v = &mut insts[i];
        if ctx.fault("reset", 1, 20) {
            v.tk.reset();
            ensure!(v.tk.status() == Status::Done, "busy after reset");
            ctx.probe(if v.text.is_empty() { "reset_clean" } else { "reset_used" });
            v.text.clear();
            v.got = 0;
        }
        let left = v.source.len() - v.pos;
        if left == 0 {
            if refills >= 3 {
                break;
            }
            refills += 1;
            v.source = source(ctx);
            v.pos = 0;
        }
        let left = v.source.len() - v.pos;
        let n = ctx.size(left);
        let how = match ctx.weighted(&[4, 4, 2, 2]) {
            0 => How::Str,
            1 => How::Push,
            2 => How::Parse,
            _ => How::End,
        };
        let n = if let How::End = how { 0 } else { n };
        let part = v.source[v.pos..v.pos + n].to_vec();
        v.pos += n;
        ctx.ev("op", (i as u64) << 8 | how as u64, n as u64);
        let done = matches!(how, How::Parse | How::End);
        v.text.extend_from_slice(&part);
        let want = lex(&v.text, v.flags, done);
        let mut sink = Sink { ctx, want: &want.reps, got: v.got, abort: true, aborted: None, err: None };
        let r = apply(&mut v.tk, &mut sink, how, &part);
        let shown = v.text.iter().collect::<String>();
        if let Some(e) = sink.err.take() {
            fail!("{e} (flags {}, text {shown:?})", v.flags);
        }
        match (r, sink.aborted) {
            (ControlFlow::Break(a), Some(b)) => {
                ensure!(a == b, "consumer aborted with {b}, caller got {a}");
                ensure!(v.tk.status() == Status::Done, "busy after abort");
                let (_, need) = &want.reps[sink.got - 1];
                ctx.state(1, *need as u64 & 63, sink.got as u64 & 63);
                v.text.clear();
                v.got = 0;
            }
            (ControlFlow::Continue(s), None) => {
                ensure!(sink.got == want.reps.len(), "{} reports for {shown:?}, expected {}", sink.got, want.reps.len());
                v.got = sink.got;
                let busy = if !done && want.busy[v.text.len()] { Status::Busy } else { Status::Done };
                ensure!(v.tk.status() == busy, "status {:?} after {shown:?}", v.tk.status());
                ensure!(s.is_none_or(|s| s == busy), "status {s:?} returned after {shown:?}");
                if done {
                    v.text.clear();
                    v.got = 0;
                }
                if v.text.len() > 400 && ctx.chance(1, 2) {
                    v.tk.reset();
                    v.text.clear();
                    v.got = 0;
                }
            }
            (ControlFlow::Break(a), None) => fail!("break {a} without abort"),
            (ControlFlow::Continue(_), Some(b)) => fail!("abort {b} was swallowed"),
        }
    }
    Ok(())
}
