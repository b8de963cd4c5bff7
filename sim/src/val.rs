//! Parsed values in a form the reference model can produce too.
use crate::source::El;
use crate::track::Tok;
use nommy::{bytes, text, Vec1};

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Unit,
    Ch(u32),
    Str(Vec<u32>),
    Num(u64),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    Rec(Vec<Val>),
    Var(usize, Vec<Val>),
}

pub trait ToVal {
    fn to_val(self) -> Val;
}
impl ToVal for char {
    fn to_val(self) -> Val {
        Val::Ch(self.code())
    }
}
impl ToVal for u8 {
    fn to_val(self) -> Val {
        Val::Ch(self.code())
    }
}
impl ToVal for Tok {
    fn to_val(self) -> Val {
        Val::Ch(self.code)
    }
}
impl ToVal for usize {
    fn to_val(self) -> Val {
        Val::Num(self as u64)
    }
}
impl ToVal for String {
    fn to_val(self) -> Val {
        Val::Str(self.chars().map(|c| c as u32).collect())
    }
}
impl<const S: &'static str> ToVal for text::Tag<S> {
    fn to_val(self) -> Val {
        Val::Unit
    }
}
impl<const S: &'static str> ToVal for text::OneOf<S> {
    fn to_val(self) -> Val {
        let c: char = self.into();
        c.to_val()
    }
}
impl<const S: &'static str> ToVal for text::AnyOf<S> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl<const S: &'static str> ToVal for text::AnyOf1<S> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl<const S: &'static str> ToVal for text::WhileNot1<S> {
    fn to_val(self) -> Val {
        String::from(self).to_val()
    }
}
impl ToVal for text::LineEnding {
    fn to_val(self) -> Val {
        Val::Unit
    }
}
impl ToVal for text::Space {
    fn to_val(self) -> Val {
        Val::Unit
    }
}
impl ToVal for text::WhiteSpace {
    fn to_val(self) -> Val {
        Val::Unit
    }
}
impl<const S: &'static [u8]> ToVal for bytes::Tag<S> {
    fn to_val(self) -> Val {
        Val::Unit
    }
}
impl<const S: &'static [u8]> ToVal for bytes::OneOf<S> {
    fn to_val(self) -> Val {
        u8::from(self).to_val()
    }
}
impl<const S: &'static [u8]> ToVal for bytes::AnyOf1<S> {
    fn to_val(self) -> Val {
        Vec::<u8>::from(self).to_val()
    }
}
impl<P: ToVal> ToVal for Option<P> {
    fn to_val(self) -> Val {
        Val::Opt(self.map(|p| Box::new(p.to_val())))
    }
}
impl<P: ToVal> ToVal for Vec<P> {
    fn to_val(self) -> Val {
        Val::List(self.into_iter().map(ToVal::to_val).collect())
    }
}
impl<P: ToVal> ToVal for Vec1<P> {
    fn to_val(self) -> Val {
        Vec::from(self).to_val()
    }
}
impl<P: ToVal, const N: usize> ToVal for [P; N] {
    fn to_val(self) -> Val {
        Val::List(std::array::IntoIter::new(self).map(ToVal::to_val).collect())
    }
}
impl<P: ToVal> ToVal for Box<P> {
    fn to_val(self) -> Val {
        (*self).to_val()
    }
}
