//! Parsers and conversions as a user of the library writes them. They exercise the trait's
//! default method and every buffer operation; conversions can be told to fail hard.
use crate::source::El;
use crate::track::user_step;
use crate::val::{ToVal, Val};
use nommy::{bytes, eyre, text, Buffer, Parse};
use std::convert::{TryFrom, TryInto};
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

/// How the parsers of the simulator fail.
#[derive(Debug)]
pub struct UserErr {
    pub what: &'static str,
    pub found: Option<u32>,
}
impl fmt::Display for UserErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} ({:?})", self.what, self.found)
    }
}
impl Error for UserErr {}
fn fail<X>(what: &'static str, found: Option<u32>) -> eyre::Result<X> {
    Err(UserErr { what, found }.into())
}
/// One error of a chain, the simulator's own marked as what they are.
pub fn cause_text(e: &(dyn Error + 'static)) -> String {
    if let Some(u) = e.downcast_ref::<UserErr>() {
        format!("UserErr {}", u)
    } else if let Some(c) = e.downcast_ref::<ConvError>() {
        format!("ConvError {}", c)
    } else if let Some(c) = e.downcast_ref::<std::num::ParseIntError>() {
        format!("ParseIntError {}", c)
    } else {
        e.to_string()
    }
}

/// `"` anything but `"` `"`, reading the input as an iterator.
pub struct Quoted(pub Vec<u32>);
impl<T: El> Parse<T> for Quoted {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        user_step();
        let first = input.next().map(|c| c.code());
        if first != Some(34) {
            return fail("starting quote not found", first);
        }
        let mut out = vec![];
        for c in input {
            if c.code() == 34 {
                return Ok(Quoted(out));
            }
            out.push(c.code());
        }
        fail("ending quote not found", None)
    }
    fn peek(input: &mut impl Buffer<T>) -> bool {
        user_step();
        if input.next().map(|c| c.code()) != Some(34) {
            return false;
        }
        for c in input {
            if c.code() == 34 {
                return true;
            }
        }
        false
    }
}
impl ToVal for Quoted {
    fn to_val(self) -> Val {
        Val::Str(self.0)
    }
}

/// A decimal number; peeks by parsing (the trait's default).
pub struct Num(pub u64);
impl<T: El> Parse<T> for Num {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        user_step();
        let mut s = String::new();
        while let Some(c) = input.peek_ahead(0) {
            if !(48..58).contains(&c.code()) {
                break;
            }
            s.push((c.code() as u8) as char);
            input.fast_forward(1);
        }
        Ok(Num(s.parse()?))
    }
}
impl ToVal for Num {
    fn to_val(self) -> Val {
        Val::Num(self.0)
    }
}

/// A digit n, then n elements, whatever they are: looks ahead and skips.
pub struct LenPre(pub Vec<u32>);
impl<T: El> Parse<T> for LenPre {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        user_step();
        let n = match input.peek_ahead(0).map(|c| c.code()) {
            Some(c) if (48..58).contains(&c) => (c - 48) as usize,
            c => return fail("no length", c),
        };
        if n > 0 && input.peek_ahead(n).is_none() {
            return fail("too short", None);
        }
        let mut ahead = input.cursor();
        ahead.fast_forward(1);
        let body: Vec<u32> = ahead.by_ref().take(n).map(|c| c.code()).collect();
        let pos = ahead.position();
        input.fast_forward(pos);
        Ok(LenPre(body))
    }
    fn peek(input: &mut impl Buffer<T>) -> bool {
        user_step();
        let n = match input.peek_ahead(0).map(|c| c.code()) {
            Some(c) if (48..58).contains(&c) => (c - 48) as usize,
            _ => return false,
        };
        if n > 0 && input.peek_ahead(n).is_none() {
            return false;
        }
        input.fast_forward(n + 1);
        true
    }
}
impl ToVal for LenPre {
    fn to_val(self) -> Val {
        Val::Str(self.0)
    }
}

/// Any element.
pub struct AnyEl(pub u32);
impl<T: El> Parse<T> for AnyEl {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        user_step();
        match input.next() {
            Some(c) => Ok(AnyEl(c.code())),
            None => fail("nothing left", None),
        }
    }
}
impl ToVal for AnyEl {
    fn to_val(self) -> Val {
        Val::Ch(self.0)
    }
}

/// Nothing at all.
pub struct Never;
impl<T: El> Parse<T> for Never {
    fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
        fail("never", None)
    }
}
impl ToVal for Never {
    fn to_val(self) -> Val {
        Val::Unit
    }
}

/// Succeeds without reading.
pub struct Nothing;
impl<T: El> Parse<T> for Nothing {
    fn parse(_: &mut impl Buffer<T>) -> eyre::Result<Self> {
        Ok(Nothing)
    }
}
impl ToVal for Nothing {
    fn to_val(self) -> Val {
        Val::Unit
    }
}

/// Succeeds without consuming, but looks at one element.
pub struct LookOnly;
impl<T: El> Parse<T> for LookOnly {
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        let _ = input.peek_ahead(0);
        let _ = input.cursor().next();
        Ok(LookOnly)
    }
}
impl ToVal for LookOnly {
    fn to_val(self) -> Val {
        Val::Unit
    }
}

#[derive(Debug)]
pub struct ConvError(pub &'static str);
impl fmt::Display for ConvError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for ConvError {}

/// A number below 100.
pub struct Small(pub u64);
impl<const S: &'static str> TryFrom<text::AnyOf1<S>> for Small {
    type Error = ConvError;
    fn try_from(v: text::AnyOf1<S>) -> Result<Self, ConvError> {
        user_step();
        let s = String::from(v);
        match s.parse::<u64>() {
            Ok(n) if n < 100 => Ok(Small(n)),
            _ => Err(ConvError("not a small number")),
        }
    }
}
impl ToVal for Small {
    fn to_val(self) -> Val {
        Val::Num(self.0)
    }
}

/// Anything but an X.
pub struct NoX(pub u32);
impl<const S: &'static str> TryFrom<text::OneOf<S>> for NoX {
    type Error = ConvError;
    fn try_from(v: text::OneOf<S>) -> Result<Self, ConvError> {
        user_step();
        match char::from(v) {
            'X' => Err(ConvError("an X")),
            c => Ok(NoX(c as u32)),
        }
    }
}
impl<const S: &'static [u8]> TryFrom<bytes::OneOf<S>> for NoX {
    type Error = ConvError;
    fn try_from(v: bytes::OneOf<S>) -> Result<Self, ConvError> {
        user_step();
        match u8::from(v) {
            b'X' => Err(ConvError("an X")),
            c => Ok(NoX(u32::from(c))),
        }
    }
}
impl ToVal for NoX {
    fn to_val(self) -> Val {
        Val::Ch(self.0)
    }
}

/// The list functions, called directly. K: 0 plain, 1 separated, 2 trailing, 3 maybe trailing.
pub struct Lst<P, Q, S, I, const MAX: usize, const K: u8>(Vec<Q>, PhantomData<(P, S, I)>);
impl<T, P, Q, S, I, const MAX: usize, const K: u8> Parse<T> for Lst<P, Q, S, I, MAX, K>
where
    P: Parse<T> + TryInto<Q>,
    <P as TryInto<Q>>::Error: Error + Send + Sync + 'static,
    S: Parse<T>,
    I: Parse<T>,
{
    fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
        use nommy::vec::*;
        let v = match K {
            0 => parse_vec::<P, Q, I, T, _>(MAX, input)?,
            1 => parse_vec_seperated_by::<P, Q, S, I, T, _>(MAX, input)?,
            2 => parse_vec_seperated_by_trailing::<P, Q, S, I, T, _>(MAX, input)?,
            _ => parse_vec_seperated_by_maybe_trailing::<P, Q, S, I, T, _>(MAX, input)?,
        };
        Ok(Lst(v, PhantomData))
    }
}
impl<P, Q: ToVal, S, I, const MAX: usize, const K: u8> ToVal for Lst<P, Q, S, I, MAX, K> {
    fn to_val(self) -> Val {
        self.0.to_val()
    }
}
