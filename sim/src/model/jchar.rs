//! Reference for the character-fed JSON tokenizer: looks at a whole text at
//! once and tells each report, and after how many characters it is due.

use osi::json::token::{Error, FLAG_ALLOW_LEADING_ZERO, FLAG_ALLOW_PLUS_SIGN, Flag, Sign, Token};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Rep {
    Token(Token<'static>),
    Error(Error<'static>),
}

#[derive(Clone, Debug)]
pub struct Lex {
    /// Reports with the number of characters that decide them. The end of
    /// the input counts as one more character.
    pub reps: Vec<(Rep, usize)>,
    /// Whether a token is in progress after so many characters.
    pub busy: Vec<bool>,
}

struct L<'a> {
    c: &'a [char],
    flags: Flag,
    eof: bool,
    out: Vec<(Rep, usize)>,
}

fn text(c: &[char]) -> std::borrow::Cow<'static, str> {
    c.iter().collect::<String>().into()
}

fn digits(c: &[char]) -> std::borrow::Cow<'static, [u8]> {
    c.iter().map(|v| *v as u8 - b'0').collect::<Vec<u8>>().into()
}

fn simple(c: char) -> Option<char> {
    Some(match c {
        'b' => '\x08',
        'f' => '\x0c',
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '"' | '\\' | '/' => c,
        _ => return None,
    })
}

fn json_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

impl L<'_> {
    fn tok(&mut self, t: Token<'static>, need: usize) {
        self.out.push((Rep::Token(t), need));
    }
    fn err(&mut self, t: Error<'static>, need: usize) {
        self.out.push((Rep::Error(t), need));
    }
    fn find(&self, from: usize, f: impl Fn(char) -> bool) -> usize {
        self.c[from..].iter().position(|v| !f(*v)).map_or(self.c.len(), |n| from + n)
    }
    /// Whether a token ending at `e` is decided.
    fn ends(&self, e: usize) -> bool {
        e < self.c.len() || self.eof
    }

    /// Handle the token starting at `at`. Returns the position of the
    /// character that decides its end, and where to continue.
    fn token(&mut self, at: usize) -> Option<(usize, usize)> {
        let c = self.c[at];
        let t = match c {
            ':' => Some(Token::Colon),
            ',' => Some(Token::Comma),
            '[' => Some(Token::ArrayOpen),
            ']' => Some(Token::ArrayClose),
            '{' => Some(Token::ObjectOpen),
            '}' => Some(Token::ObjectClose),
            '=' => {
                self.err(Error::CharacterStray('='), at + 1);
                Some(Token::Colon)
            }
            _ => None,
        };
        if let Some(t) = t {
            self.tok(t, at + 1);
            return Some((at, at + 1));
        }
        match c {
            '+' if self.flags & FLAG_ALLOW_PLUS_SIGN == 0 => {
                self.err(Error::CharacterStray('+'), at + 1);
                Some((at, at + 1))
            }
            '+' | '-' | '0'..='9' => self.number(at),
            '"' => self.string(at),
            '#' => self.comment(at, at + 1),
            '/' if self.c.get(at + 1) == Some(&'/') => self.comment(at, at),
            '/' if at + 1 == self.c.len() && !self.eof => None,
            c if c.is_whitespace() => {
                let e = self.find(at, char::is_whitespace);
                for i in at..e {
                    if !json_ws(self.c[i]) {
                        self.err(Error::CharacterStray(self.c[i]), i + 1);
                    }
                }
                if !self.ends(e) {
                    return None;
                }
                let raw: Vec<char> = self.c[at..e].iter().copied().filter(|v| json_ws(*v)).collect();
                self.tok(Token::Whitespace { raw: text(&raw) }, e + 1);
                Some((e, e))
            }
            _ => {
                let e = self.find(at + 1, |v| !v.is_whitespace() && !":,[]{}-\"#/+=".contains(v));
                if !self.ends(e) {
                    return None;
                }
                let w = text(&self.c[at..e]);
                match &*w {
                    "null" => self.tok(Token::Null, e + 1),
                    "true" => self.tok(Token::True, e + 1),
                    "false" => self.tok(Token::False, e + 1),
                    _ => self.err(Error::KeywordUnknown(w), e + 1),
                }
                Some((e, e))
            }
        }
    }

    fn comment(&mut self, _at: usize, from: usize) -> Option<(usize, usize)> {
        let e = self.find(from, |v| v != '\n');
        if !self.ends(e) {
            return None;
        }
        self.err(Error::Comment(text(&self.c[from..e])), e + 1);
        Some((e, e))
    }

    fn number(&mut self, at: usize) -> Option<(usize, usize)> {
        let digit = |v: char| v.is_ascii_digit();
        let sign = |v: char| if v == '-' { Sign::Minus } else { Sign::Plus };
        let integer_sign = sign(self.c[at]);
        let i0 = if digit(self.c[at]) { at } else { at + 1 };
        let i1 = self.find(i0, digit);
        if i1 - i0 > 1 && self.c[i0] == '0' && self.flags & FLAG_ALLOW_LEADING_ZERO == 0 {
            self.err(Error::CharacterStray(self.c[i0 + 1]), i0 + 2);
        }
        let (mut f0, mut f1, mut e0, mut e1) = (i1, i1, i1, i1);
        let mut exponent_sign = Sign::Plus;
        let mut end = i1;
        let mut bad = i0 == i1;
        if !bad && self.c.get(end) == Some(&'.') {
            f0 = end + 1;
            f1 = self.find(f0, digit);
            end = f1;
            bad = f0 == f1;
        }
        if !bad && matches!(self.c.get(end), Some('e' | 'E')) {
            e0 = end + 1;
            if let Some(s @ ('+' | '-')) = self.c.get(e0) {
                exponent_sign = sign(*s);
                e0 += 1;
            }
            e1 = self.find(e0, digit);
            end = e1;
            bad = e0 == e1;
        }
        if !self.ends(end) {
            return None;
        }
        if bad {
            self.err(Error::NumberIncomplete, end + 1);
        }
        self.tok(
            Token::Number {
                raw: text(&self.c[at..end]),
                integer: digits(&self.c[i0..i1]),
                fraction: digits(&self.c[f0..f1]),
                exponent: digits(&self.c[e0..e1]),
                integer_sign,
                exponent_sign,
            },
            end + 1,
        );
        Some((end, end))
    }

    fn string(&mut self, start: usize) -> Option<(usize, usize)> {
        let r = self.string_inner(start);
        if r.is_none() && self.eof {
            let n = self.c.len();
            self.err(Error::StringIncomplete, n + 1);
            return Some((n, n));
        }
        r
    }

    fn hex(&self, at: usize) -> (usize, u32) {
        let n = (0..4).take_while(|k| self.c.get(at + k).is_some_and(|v| v.is_ascii_hexdigit())).count();
        (n, (0..n).fold(0, |a, k| a * 16 + self.c[at + k].to_digit(16).unwrap()))
    }

    fn string_inner(&mut self, start: usize) -> Option<(usize, usize)> {
        let mut s = String::new();
        let mut i = start + 1;
        loop {
            let c = *self.c.get(i)?;
            if c == '"' {
                let raw = text(&self.c[start + 1..i]);
                self.tok(Token::String { raw, chars: s.into() }, i + 1);
                return Some((i, i + 1));
            }
            if c != '\\' {
                if c < ' ' {
                    self.err(Error::StringCharacterInvalid(c), i + 1);
                }
                s.push(c);
                i += 1;
                continue;
            }
            let e = *self.c.get(i + 1)?;
            if e != 'u' {
                if simple(e).is_none() {
                    self.err(Error::StringEscapeInvalid(e), i + 2);
                }
                s.push(simple(e).unwrap_or(e));
                i += 2;
                continue;
            }
            let (n, code) = self.hex(i + 2);
            i += 2 + n;
            if n < 4 {
                self.c.get(i)?;
                self.err(Error::StringEscapeIncomplete, i + 1);
                continue;
            }
            match code {
                0xdc00..=0xdfff => self.err(Error::StringSurrogateUnpaired, i),
                0xd800..=0xdbff => {
                    if *self.c.get(i)? != '\\' {
                        self.err(Error::StringSurrogateUnpaired, i + 1);
                        continue;
                    }
                    let e = *self.c.get(i + 1)?;
                    i += 2;
                    if e != 'u' {
                        self.err(Error::StringSurrogateUnpaired, i);
                        if simple(e).is_none() {
                            self.err(Error::StringEscapeInvalid(e), i);
                        }
                        s.push(simple(e).unwrap_or(e));
                        continue;
                    }
                    let (n, trail) = self.hex(i);
                    i += n;
                    if n < 4 {
                        self.c.get(i)?;
                        self.err(Error::StringEscapeIncomplete, i + 1);
                    } else if (0xdc00..=0xdfff).contains(&trail) {
                        s.push(char::from_u32(0x10000 + (code - 0xd800) * 0x400 + trail - 0xdc00).unwrap());
                    } else {
                        self.err(Error::StringSurrogateUnpaired, i);
                    }
                }
                v => s.push(char::from_u32(v).unwrap()),
            }
        }
    }
}

pub fn lex(c: &[char], flags: Flag, eof: bool) -> Lex {
    let mut l = L { c, flags, eof, out: Vec::new() };
    let mut busy = vec![false; c.len() + 1];
    let mut at = 0;
    while at < c.len() {
        let (dec, next) = l.token(at).unwrap_or((c.len(), c.len()));
        for b in &mut busy[at + 1..=dec.max(at)] {
            *b = true;
        }
        at = next;
    }
    Lex { reps: l.out, busy }
}
