//! C10: tokens under any arrival. C11: end of stream. C12: structure.

use crate::core::{Ctx, R};
use crate::env::stream::{Feed, SimStream};
use crate::model::jgen;
use crate::model::jtok::{Item, Lex, Tok, lex, structure};
use crate::runner::Prop;
use crate::{ensure, fail};
use std::ops::ControlFlow as Flow;
use tmp::fmt::json::{stream, token};
use token::{Error, Sign, Token};

pub const C10: Prop = Prop {
    id: "C10", units: 60_000, sweep: true, run: run_c10,
    real: "tmp::fmt::json::token::Dec::pop, tmp::io::stream map_while",
    stub: "stream (Read) with seeded arrival, mapped extents, relocation; byte source; caller",
    rule: "one evaluation = one byte stream tokenized under one arrival pattern; distinct = distinct event logs (every mapping, delivery, discard and token)",
    assumptions: &["streams up to about 10 kB"],
};
pub const C11: Prop = Prop {
    id: "C11", units: 50_000, sweep: true, run: run_c11,
    real: "tmp::fmt::json::token::Dec::{pop, complete}",
    stub: "stream (Read) with seeded arrival, end of stream at any byte; byte source; caller",
    rule: "one evaluation = one byte stream ended at one place, then the rest as a new stream; distinct = distinct event logs",
    assumptions: &["streams up to about 10 kB"],
};
pub const C12: Prop = Prop {
    id: "C12", units: 60_000, sweep: true, run: run_c12,
    real: "tmp::fmt::json::stream::Dec, tmp::fmt::json::token::Dec",
    stub: "stream (Read) with seeded arrival; documents with damaged tokens; caller",
    rule: "one evaluation = one document decoded under one arrival pattern; distinct = distinct event logs",
    assumptions: &["documents nested up to 400 deep"],
};

fn own(t: Token<'_>) -> Tok {
    match t {
        Token::Error(e) => match e {
            Error::BufferRemaining => Tok::BufferRemaining,
            Error::BufferChanged => Tok::BufferChanged,
            Error::ItemNonUtf8 { raw, error } => Tok::ItemNonUtf8(raw.to_vec(), error),
            Error::ItemUnknown { raw, str } => {
                if raw == str.as_bytes() { Tok::ItemUnknown(raw.to_vec()) } else { Tok::BufferChanged }
            }
            Error::NumberIncomplete => Tok::NumberIncomplete,
            Error::NumberLeadingPlus => Tok::LeadingPlus,
            Error::NumberMultipleSigns => Tok::MultipleSigns,
            Error::NumberRangeEmpty => Tok::RangeEmpty,
            Error::StringIncomplete => Tok::StringIncomplete,
            Error::StringNonUtf8 { raw, str, error } => Tok::StringNonUtf8(raw.to_vec(), str.to_vec(), error),
            Error::StringUnescaped { code } => Tok::Unescaped(code),
            Error::StringEscapeUnknown { code } => Tok::EscapeUnknown(code),
            Error::StringEscapeInvalid => Tok::EscapeInvalid,
            Error::StringEscapeUnpairedLeadSurrogate { lead } => Tok::Lead(lead),
            Error::StringEscapeUnpairedTrailSurrogate { trail } => Tok::Trail(trail),
        },
        Token::Whitespace { raw, str } => {
            if raw == str.as_bytes() { Tok::Whitespace(raw.to_vec()) } else { Tok::BufferChanged }
        }
        Token::Colon => Tok::Colon,
        Token::Comma => Tok::Comma,
        Token::ArrayOpen => Tok::ArrayOpen,
        Token::ArrayClose => Tok::ArrayClose,
        Token::ObjectOpen => Tok::ObjectOpen,
        Token::ObjectClose => Tok::ObjectClose,
        Token::Null => Tok::Null,
        Token::False => Tok::False,
        Token::True => Tok::True,
        Token::Number(n) => Tok::Number {
            raw: n.raw.to_vec(),
            minus: n.sign == Sign::Minus,
            int: n.integer.into(),
            frac: n.fraction.map(|v| v.into()),
            exp: n.exponent.map(|(s, v)| (s == Sign::Minus, v.into())),
        },
        Token::String { raw, str } => Tok::Str(raw.to_vec(), str.into()),
    }
}

/// Position in the expected token sequence of the data from `base` on.
struct Expect<'a> {
    data: &'a [u8],
    base: usize,
    lex: Lex,
    k: usize,
    /// End of the last complete token handed out, absolute.
    out: usize,
}

impl<'a> Expect<'a> {
    fn at(data: &'a [u8], base: usize) -> Self {
        Self { data, base, lex: lex(&data[base..]), k: 0, out: base }
    }
    fn text(&self) -> String {
        self.data[self.base..].escape_ascii().to_string()
    }
    fn token(&mut self, ctx: &Ctx, got: Tok, avail: usize, pos: usize) -> R {
        ctx.ev_str("token", kind(&got));
        let Some(e) = self.lex.evs.get(self.k) else {
            fail!("{got:?} after all tokens of {:?}", self.text());
        };
        ensure!(e.tok == got, "token {} of {:?} is {got:?}, expected {:?}", self.k, self.text(), e.tok);
        ensure!(
            self.base + e.need <= avail,
            "token {got:?} before it was decided: needs {} bytes, {} available",
            e.need, avail - self.base
        );
        ensure!(pos <= self.base + e.start, "bytes of {got:?} were discarded before it was handed out");
        if let Some(e) = e.end {
            self.out = self.base + e;
        }
        self.k += 1;
        ctx.state(self.lex.evs[self.k - 1].end.is_some() as u64, disc(&got), 0);
        Ok(())
    }
    fn starved(&self, ctx: &Ctx, min: usize, avail: usize, pos: usize) -> R {
        ctx.ev("starved", min as u64, avail as u64);
        if let Some(e) = self.lex.evs.get(self.k) {
            ensure!(self.base + e.need > avail, "asks for more although {:?} of {:?} is decided", e.tok, self.text());
        }
        let have = avail - pos;
        ensure!(min > have, "asks for {min} bytes with {have} buffered");
        ensure!(min == have + 1, "asks for {min} bytes with {have} buffered, one more would do");
        ensure!(pos <= self.out, "{} undelivered bytes were discarded", pos - self.out);
        Ok(())
    }
    /// In the middle of a token, after an inline error.
    fn inside(&self) -> bool {
        self.k > 0 && self.lex.evs[self.k - 1].end.is_none()
    }
}

fn disc(t: &Tok) -> u64 {
    kind(t).bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64))
}

fn kind(t: &Tok) -> &'static str {
    match t {
        Tok::BufferRemaining => "BufferRemaining",
        Tok::BufferChanged => "BufferChanged",
        Tok::ItemNonUtf8(..) => "ItemNonUtf8",
        Tok::ItemUnknown(_) => "ItemUnknown",
        Tok::NumberIncomplete => "NumberIncomplete",
        Tok::LeadingPlus => "LeadingPlus",
        Tok::MultipleSigns => "MultipleSigns",
        Tok::RangeEmpty => "RangeEmpty",
        Tok::StringIncomplete => "StringIncomplete",
        Tok::StringNonUtf8(..) => "StringNonUtf8",
        Tok::Unescaped(_) => "Unescaped",
        Tok::EscapeUnknown(_) => "EscapeUnknown",
        Tok::EscapeInvalid => "EscapeInvalid",
        Tok::Lead(_) => "Lead",
        Tok::Trail(_) => "Trail",
        Tok::Whitespace(_) => "Whitespace",
        Tok::Colon => "Colon",
        Tok::Comma => "Comma",
        Tok::ArrayOpen => "ArrayOpen",
        Tok::ArrayClose => "ArrayClose",
        Tok::ObjectOpen => "ObjectOpen",
        Tok::ObjectClose => "ObjectClose",
        Tok::Null => "Null",
        Tok::False => "False",
        Tok::True => "True",
        Tok::Number { .. } => "Number",
        Tok::Str(..) => "Str",
    }
}

fn run_c10(ctx: &Ctx) -> R {
    let data = jgen::bytes(ctx);
    ctx.describe(|| format!("stream {:?}", data.escape_ascii().to_string()));
    let mut s = SimStream::new(ctx, data.clone());
    let sh = s.sh.clone();
    let feed = Feed::draw(ctx);
    let mut dec = token::Dec::with(&mut s);
    let mut e = Expect::at(&data, 0);
    loop {
        ctx.tick();
        match dec.pop() {
            Flow::Continue(t) => {
                let t = own(t);
                e.token(ctx, t, sh.avail.get(), sh.pos.get())?;
            }
            Flow::Break(m) => {
                e.starved(ctx, m.min, sh.avail.get(), sh.pos.get())?;
                if !feed.feed(ctx, &sh, m.min) {
                    break;
                }
            }
        }
        if let Some(e) = sh.err.borrow_mut().take() {
            fail!("{e}");
        }
    }
    ensure!(e.k == e.lex.evs.len(), "only {} of {} tokens of {:?}", e.k, e.lex.evs.len(), e.text());
    Ok(())
}

fn run_c11(ctx: &Ctx) -> R {
    let mut data = jgen::bytes(ctx);
    data.truncate(if ctx.chance(1, 40) { 20_000 } else { 3000 });
    ctx.describe(|| format!("stream {:?}", data.escape_ascii().to_string()));
    let mut s = SimStream::new(ctx, data.clone());
    let sh = s.sh.clone();
    let feed = Feed::draw(ctx);
    let mut dec = token::Dec::with(&mut s);
    let mut e = Expect::at(&data, 0);
    let mut ends = 0;
    let mut early = 0;
    loop {
        ctx.tick();
        if let Some(e) = sh.err.borrow_mut().take() {
            fail!("{e}");
        }
        match dec.pop() {
            Flow::Continue(t) => {
                let t = own(t);
                e.token(ctx, t, sh.avail.get(), sh.pos.get())?;
                if early < 4 && ctx.fault("finalized_with_buffered_data", 1, 24) {
                    early += 1;
                    if let Some(at) = flush_early(ctx, &mut dec, &e, &sh)? {
                        e = Expect::at(&data, at);
                    }
                }
            }
            Flow::Break(m) => {
                e.starved(ctx, m.min, sh.avail.get(), sh.pos.get())?;
                let end = sh.rest() == 0 || (ends < 4 && ctx.fault("end_of_stream", 1, 12));
                if !end {
                    feed.feed(ctx, &sh, m.min);
                    continue;
                }
                ends += 1;
                // The stream ends here.
                let avail = sh.avail.get();
                let tail = lex(&data[e.base..avail]).tail;
                ctx.probe(if tail.is_empty() { "end_at_boundary" } else { "end_in_token" });
                for want in &tail {
                    ctx.tick();
                    let got = dec.complete().map(own);
                    ensure!(
                        got.as_ref() == Some(want),
                        "finalizing {:?} yields {got:?}, expected {want:?}",
                        data[e.base..avail].escape_ascii().to_string()
                    );
                }
                for _ in 0..2 {
                    ctx.tick();
                    let got = dec.complete().map(own);
                    ensure!(got.is_none(), "finalizing {:?} again yields {got:?}", data[e.base..avail].escape_ascii().to_string());
                    ensure!(sh.pos.get() == avail, "{} bytes left after finalizing", avail - sh.pos.get());
                }
                ctx.state(2, tail.len() as u64, tail.first().map_or(0, disc));
                if sh.rest() == 0 {
                    return Ok(());
                }
                // Whatever follows is a new stream.
                e = Expect::at(&data, avail);
            }
        }
    }
}

/// Finalize although tokens are still to be fetched. Returns where tokens
/// start anew, if in another place.
fn flush_early(
    ctx: &Ctx,
    dec: &mut token::Dec<'_>,
    e: &Expect<'_>,
    sh: &crate::env::stream::Shared,
) -> R<Option<usize>> {
    let avail = sh.avail.get();
    if !e.inside() {
        ctx.probe("early_at_boundary");
        let want = (e.out < avail).then_some(Tok::BufferRemaining);
        for _ in 0..ctx.range(1, 2) {
            let got = dec.complete().map(own);
            ensure!(got == want, "finalizing with {} bytes buffered yields {got:?}", avail - e.out);
            ensure!(sh.pos.get() == e.out, "consumed {} instead of {}", sh.pos.get(), e.out);
        }
        return Ok(None);
    }
    // The token in progress ends with what was looked at so far.
    ctx.probe("early_in_token");
    let start = e.base + e.lex.evs[e.k - 1].start;
    let string = e.data[start] == b'"';
    let mut seen = Vec::new();
    let left = loop {
        ctx.tick();
        match dec.complete().map(own) {
            None => break false,
            Some(Tok::BufferRemaining) => break true,
            Some(t) => seen.push(t),
        }
        ensure!(seen.len() <= 2, "finalizing does not end: {seen:?}");
    };
    let pos = sh.pos.get();
    ensure!(pos > start && pos <= avail && left == (pos < avail), "finalizing consumed up to {pos} of {start}..{avail}");
    if string {
        ensure!(seen == [Tok::StringIncomplete], "finalizing a string yields {seen:?}");
    } else {
        match seen.as_slice() {
            [Tok::Number { raw, .. }] | [Tok::RangeEmpty, Tok::Number { raw, .. }] => {
                ensure!(*raw == e.data[start..pos], "finalizing a number yields {raw:?}")
            }
            _ => fail!("finalizing a number yields {seen:?}"),
        }
    }
    Ok(Some(pos))
}

fn item(v: stream::Item<'_>) -> Item {
    match v {
        stream::Item::Error(_) => Item::Error,
        stream::Item::Prim => Item::Prim,
        stream::Item::Key => Item::Key,
        stream::Item::ArrayOpen => Item::ArrayOpen,
        stream::Item::ArrayClose => Item::ArrayClose,
        stream::Item::ObjectOpen => Item::ObjectOpen,
        stream::Item::ObjectClose => Item::ObjectClose,
    }
}

fn run_c12(ctx: &Ctx) -> R {
    let mut data = jgen::structured(ctx);
    if ctx.chance(1, 2) {
        // Make the last token decidable.
        data.push(b' ');
    }
    ctx.describe(|| format!("document {:?}", data.escape_ascii().to_string()));
    let toks = lex(&data);
    let want = structure(&toks.evs);
    let bad = want.last().is_some_and(|v| v.0 == Item::Error);
    ctx.probe(if bad { "invalid" } else { "valid" });
    // Beyond the first error only the independence from arrival is known.
    let mut all = want.clone();
    if bad {
        let mut whole: &[u8] = &data;
        let mut dec = stream::Dec::with(&mut whole);
        let mut k = 0;
        while let Flow::Continue(v) = dec.pop() {
            let v = item(v);
            if k >= all.len() {
                all.push((v, 0));
            }
            k += 1;
            ctx.tick();
        }
    }
    let mut s = SimStream::new(ctx, data.clone());
    let sh = s.sh.clone();
    let feed = Feed::draw(ctx);
    let mut dec = stream::Dec::with(&mut s);
    let mut k = 0;
    loop {
        ctx.tick();
        match dec.pop() {
            Flow::Continue(v) => {
                let v = item(v);
                ctx.ev("item", v as u64, k as u64);
                let Some(w) = all.get(k) else { fail!("{v:?} after the end of {:?}", data.escape_ascii().to_string()) };
                ensure!(w.0 == v, "item {k} of {:?} is {v:?}, expected {:?}", data.escape_ascii().to_string(), w.0);
                ensure!(w.1 <= sh.avail.get(), "item {k} before it was decided");
                ctx.state(v as u64, k.min(40) as u64, bad as u64);
                k += 1;
            }
            Flow::Break(m) => {
                let have = sh.buffered();
                ctx.ev("starved", m.min as u64, have as u64);
                ensure!(m.min > have, "asks for {} bytes with {have} buffered", m.min);
                if let Some(w) = all.get(k) {
                    ensure!(w.1 == 0 || w.1 > sh.avail.get(), "asks for more although item {k} is decided");
                }
                if !feed.feed(ctx, &sh, m.min) {
                    break;
                }
            }
        }
        if let Some(e) = sh.err.borrow_mut().take() {
            fail!("{e}");
        }
    }
    ensure!(k == all.len(), "only {k} of {} items of {:?}", all.len(), data.escape_ascii().to_string());
    Ok(())
}
