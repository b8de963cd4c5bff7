//! The executable reference: grammars, what parsing means on a given list of elements, and
//! generators of (nearly) matching inputs. Nothing in here uses the library.
use crate::ch::Ch;
use crate::val::Val;

/// A grammar; stands for the Rust type the zoo pairs it with.
#[derive(Clone, Debug)]
pub enum G {
    Tag(Vec<u32>),
    One(Vec<u32>),
    /// the longest run inside (neg: outside) the set; min1: at least one; list: the value is a
    /// list of elements rather than a string
    Run { set: Vec<u32>, neg: bool, min1: bool, list: bool },
    LineEnding,
    Space,
    WhiteSpace,
    Opt(Box<G>),
    Vec(Box<G>),
    Vec1(Box<G>),
    Arr(Box<G>, usize),
    Boxed(Box<G>),
    /// user-written parsers of the simulator
    Quoted,
    Number,
    LenPre,
    AnyEl,
    Never,
    /// succeeds without consuming; true: after looking at one element
    Nothing(bool),
    List(Box<ListG>),
    Ty(usize),
}

#[derive(Clone, Debug)]
pub struct ListG {
    pub g: G,
    pub cv: Cv,
    pub sep: Option<G>,
    pub trailing: Tr,
    pub ignore: Vec<G>,
    pub max: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tr {
    No,
    Yes,
    Maybe,
}

/// Conversion of a parsed value into a field's type.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cv {
    No,
    Usize,
    /// at most two digits' worth, else an error
    Small,
    /// fails for upper-case 'X'
    NotX,
    /// of a pair of letters: fails for "bd"
    Duo,
    /// of a list of records of a number: their sum, if below 150
    Sum,
}

#[derive(Clone, Debug, Default)]
pub struct Attrs {
    pub ignore: Vec<G>,
    pub prefix: Option<G>,
    pub suffix: Option<G>,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: &'static str,
    pub prefix: Option<G>,
    pub suffix: Option<G>,
    pub body: Body,
}
#[derive(Clone, Debug)]
pub enum Body {
    Plain(G, Cv),
    List { g: G, cv: Cv, sep: Option<G>, trailing: Tr },
}
#[derive(Clone, Debug)]
pub struct Variant {
    pub name: &'static str,
    pub what: &'static str,
    pub attrs: Attrs,
    pub fields: Vec<Field>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Struct(Vec<Field>),
    Enum(Vec<Variant>),
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: &'static str,
    pub attrs: Attrs,
    pub kind: Kind,
}

/// One line of the error chain that has to be there.
#[derive(Clone, Debug, PartialEq)]
pub enum Lab {
    Field(&'static str),
    /// which ("prefix"/"suffix"), of what ("field", "struct", "enum", ...), name
    Fix(&'static str, &'static str, &'static str),
    NoVariant(&'static str),
    Elem(usize),
}
impl Lab {
    pub fn matches(&self, msg: &str) -> bool {
        let quoted = |n: &str| {
            let plain = n.trim_start_matches("r#");
            msg.contains(&format!("`{}`", plain)) || msg.contains(&format!("`r#{}`", plain))
        };
        match self {
            Lab::Field(n) => {
                msg.contains("field") && quoted(n) && !msg.contains("prefix") && !msg.contains("suffix")
            }
            Lab::Fix(which, of, n) => msg.contains(which) && msg.contains(of) && quoted(n),
            Lab::NoVariant(n) => msg.contains("variant") && msg.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == *n),
            Lab::Elem(i) => msg.contains("element") && msg.split(|c: char| !c.is_ascii_digit()).any(|w| w == i.to_string()),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Why {
    Mismatch,
    Eof,
    Conv,
}
/// What user-written code says is wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cause {
    User(&'static str, Option<u32>),
    Conv(&'static str),
    Int,
}
impl Cause {
    pub fn is(&self, msg: &str) -> bool {
        match self {
            Cause::User(what, found) => msg == format!("UserErr {} ({:?})", what, found),
            Cause::Conv(what) => msg == format!("ConvError {}", what),
            Cause::Int => msg.starts_with("ParseIntError "),
        }
    }
}
/// A failed parse; labels are innermost first.
#[derive(Clone, Debug)]
pub struct Fail {
    pub labels: Vec<Lab>,
    pub why: Why,
    /// the user's own error that made it fail
    pub cause: Option<Cause>,
}

pub struct Model<'a> {
    pub defs: &'a [Def],
    pub s: &'a [u32],
    /// one past the furthest element looked at (the end of the input counts as an element)
    pub maxread: usize,
    pub steps: usize,
    /// elements looked at, each time
    pub looks: usize,
    /// too much work for one run: no verdict
    pub over: bool,
    depth: usize,
    /// the deepest nesting of parts
    pub deepest: usize,
    /// speculative attempts given up after reading at least one element
    pub backtracks: usize,
    /// ... of those, because the input ended
    pub cut_backtracks: usize,
    /// conversions that failed
    pub conv_failed: usize,
    /// conversions to numbers
    pub spelled: usize,
    pub reached_end: bool,
    /// a repetition or ignored part succeeded without consuming anything
    pub zero: bool,
}

type R = Result<(Val, usize), Fail>;

impl<'a> Model<'a> {
    pub fn new(defs: &'a [Def], s: &'a [u32]) -> Self {
        Model {
            defs,
            s,
            maxread: 0,
            steps: 0,
            looks: 0,
            over: false,
            depth: 0,
            deepest: 0,
            backtracks: 0,
            cut_backtracks: 0,
            conv_failed: 0,
            spelled: 0,
            reached_end: false,
            zero: false,
        }
    }
    fn at(&mut self, i: usize) -> Option<u32> {
        self.looks += 1;
        self.maxread = self.maxread.max(i + 1);
        if i >= self.s.len() {
            self.reached_end = true;
        }
        self.s.get(i).copied()
    }
    fn miss<T>(&self, at: Option<u32>) -> Result<T, Fail> {
        Err(Fail { labels: vec![], why: if at.is_none() { Why::Eof } else { Why::Mismatch }, cause: None })
    }
    fn user<T>(&self, what: &'static str, at: Option<u32>) -> Result<T, Fail> {
        self.miss(at).map_err(|f| Fail { cause: Some(Cause::User(what, at)), ..f })
    }
    /// Parse (or peek: conversions are not attempted) at `pos`.
    pub fn run(&mut self, g: &G, pos: usize, peek: bool) -> R {
        self.steps += 1;
        if self.steps > 60_000 || self.depth > 150 {
            self.over = true;
        }
        if self.over {
            return self.miss(Some(0));
        }
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        let r = self.run_inner(g, pos, peek);
        self.depth -= 1;
        r
    }
    fn run_inner(&mut self, g: &G, pos: usize, peek: bool) -> R {
        match g {
            G::Tag(t) => {
                // a tag may look at as many elements as it has
                for i in 0..t.len() {
                    let c = self.at(pos + i);
                    if c != Some(t[i]) {
                        self.maxread = self.maxread.max(pos + t.len());
                        self.looks += t.len() - i - 1;
                        return self.miss(c);
                    }
                }
                Ok((Val::Unit, pos + t.len()))
            }
            G::One(set) => match self.at(pos) {
                Some(c) if set.contains(&c) => Ok((Val::Ch(c), pos + 1)),
                c => self.miss(c),
            },
            G::Run { set, neg, min1, list } => {
                let mut end = pos;
                let last;
                loop {
                    let c = self.at(end);
                    match c {
                        Some(x) if set.contains(&x) != *neg => end += 1,
                        _ => {
                            last = c;
                            break;
                        }
                    }
                }
                if *min1 && end == pos {
                    return self.miss(last);
                }
                let got = self.s[pos..end].to_vec();
                let v = if *list { Val::List(got.into_iter().map(Val::Ch).collect()) } else { Val::Str(got) };
                Ok((v, end))
            }
            G::LineEnding | G::Space | G::WhiteSpace => {
                let (nl, sp) = (!matches!(g, G::Space), !matches!(g, G::LineEnding));
                match self.at(pos) {
                    Some(0x20) | Some(0x09) if sp => Ok((Val::Unit, pos + 1)),
                    Some(0x0a) if nl => Ok((Val::Unit, pos + 1)),
                    Some(0x0d) if nl => match self.at(pos + 1) {
                        Some(0x0a) => Ok((Val::Unit, pos + 2)),
                        c => self.miss(c),
                    },
                    c => self.miss(c),
                }
            }
            G::Opt(p) => match self.attempt(p, pos, peek) {
                Some((v, e)) => {
                    // debug builds refuse an optional part that is there without being there
                    if e == pos {
                        self.over = true;
                    }
                    Ok((Val::Opt(Some(Box::new(v))), e))
                }
                None => Ok((Val::Opt(None), pos)),
            },
            G::Vec(p) => Ok(self.many(p, vec![], pos, peek)),
            G::Vec1(p) => {
                let (v, e) = self.run(p, pos, peek)?;
                Ok(self.many(p, vec![v], e, peek))
            }
            G::Arr(p, n) => {
                let mut vs = vec![];
                let mut e = pos;
                for i in 0..*n {
                    match self.run(p, e, peek) {
                        Ok((v, e2)) => {
                            vs.push(v);
                            e = e2;
                        }
                        Err(mut f) => {
                            f.labels.push(Lab::Elem(i));
                            return Err(f);
                        }
                    }
                }
                Ok((Val::List(vs), e))
            }
            G::Boxed(p) => self.run(p, pos, peek),
            G::Quoted => {
                let q = u32::from('"');
                let c = self.at(pos);
                if c != Some(q) {
                    return self.user("starting quote not found", c);
                }
                let mut e = pos + 1;
                loop {
                    match self.at(e) {
                        Some(c) if c == q => break,
                        Some(_) => e += 1,
                        None => return self.user("ending quote not found", None),
                    }
                }
                Ok((Val::Str(self.s[pos + 1..e].to_vec()), e + 1))
            }
            G::Number => {
                let mut e = pos;
                while matches!(self.at(e), Some(c) if (48..58).contains(&c)) {
                    e += 1;
                }
                if e == pos {
                    let c = self.at(pos);
                    return self.miss(c).map_err(|f| Fail { cause: Some(Cause::Int), ..f });
                }
                let t: String = self.s[pos..e].iter().map(|c| (*c as u8) as char).collect();
                match t.parse::<u64>() {
                    Ok(n) => Ok((Val::Num(n), e)),
                    Err(_) => {
                        // not a conversion of a recognised value: this parser itself fails
                        Err(Fail { labels: vec![], why: Why::Mismatch, cause: Some(Cause::Int) })
                    }
                }
            }
            G::LenPre => {
                // a digit n, then n elements of any kind
                let c = self.at(pos);
                let n = match c {
                    Some(c) if (48..58).contains(&c) => (c - 48) as usize,
                    _ => return self.user("no length", c),
                };
                if n > 0 && self.at(pos + n).is_none() {
                    return self.user("too short", None);
                }
                Ok((Val::Str(self.s[pos + 1..pos + 1 + n].to_vec()), pos + 1 + n))
            }
            G::AnyEl => match self.at(pos) {
                Some(c) => Ok((Val::Ch(c), pos + 1)),
                None => self.user("nothing left", None),
            },
            G::Never => self.user("never", None).map_err(|f| Fail { why: Why::Mismatch, ..f }),
            G::Nothing(look) => {
                if *look {
                    self.at(pos);
                }
                Ok((Val::Unit, pos))
            }
            G::List(l) => self
                .list(&l.g, l.cv, l.sep.as_ref(), l.trailing, &l.ignore, l.max, pos, false)
                .map(|(v, e)| (Val::List(v), e)),
            G::Ty(i) => self.ty(*i, pos, peek),
        }
    }
    /// A speculative attempt: a failure is forgotten.
    fn attempt(&mut self, g: &G, pos: usize, peek: bool) -> Option<(Val, usize)> {
        let outer = self.maxread;
        self.maxread = pos;
        let r = self.run(g, pos, peek);
        let read = self.maxread;
        self.maxread = outer.max(read);
        match r {
            Ok(x) => Some(x),
            Err(f) => {
                if read > pos + 1 {
                    self.backtracks += 1;
                    if f.why == Why::Eof {
                        self.cut_backtracks += 1;
                    }
                }
                None
            }
        }
    }
    fn many(&mut self, g: &G, mut vs: Vec<Val>, mut pos: usize, peek: bool) -> (Val, usize) {
        loop {
            match self.attempt(g, pos, peek) {
                // Without progress the real code is told not to go on either.
                Some((_, e)) if e == pos => {
                    self.zero |= !self.over;
                    self.over = true;
                    return (Val::List(vs), pos);
                }
                Some((v, e)) => {
                    vs.push(v);
                    pos = e;
                }
                None => return (Val::List(vs), pos),
            }
        }
    }
    fn skip(&mut self, ignore: &[G], mut pos: usize) -> usize {
        'again: loop {
            for g in ignore {
                if let Some((_, e)) = self.attempt(g, pos, true) {
                    if e == pos {
                        self.zero |= !self.over;
                        self.over = true;
                        return pos;
                    }
                    pos = e;
                    continue 'again;
                }
            }
            return pos;
        }
    }
    fn conv(&mut self, v: Val, cv: Cv, peek: bool) -> Result<Val, Fail> {
        if peek {
            return Ok(v);
        }
        if cv == Cv::Usize {
            self.spelled += 1;
        }
        let r = convert(v, cv);
        if r.is_none() {
            self.conv_failed += 1;
        }
        let cause = match cv {
            Cv::No => None,
            Cv::Usize => Some(Cause::Int),
            Cv::Small => Some(Cause::Conv("not a small number")),
            Cv::NotX => Some(Cause::Conv("an X")),
            Cv::Duo => Some(Cause::Conv("bd")),
            Cv::Sum => Some(Cause::Conv("too much")),
        };
        r.ok_or(Fail { labels: vec![], why: Why::Conv, cause })
    }
    #[allow(clippy::too_many_arguments)]
    fn list(
        &mut self, g: &G, cv: Cv, sep: Option<&G>, tr: Tr, ignore: &[G], max: usize, pos: usize, peek: bool,
    ) -> Result<(Vec<Val>, usize), Fail> {
        let mut vs = vec![];
        let mut at = pos; // everything before is accepted
        let mut from = pos; // where the next element is expected
        while vs.len() < max {
            let (v, e) = match self.attempt(g, from, peek) {
                Some(x) => x,
                None => break,
            };
            let v = self.conv(v, cv, peek)?;
            if self.over || (e == from && sep.is_none()) {
                self.over = true;
                break;
            }
            match (sep, tr) {
                (None, _) => {
                    vs.push(v);
                    at = e;
                    if vs.len() < max {
                        from = self.skip(ignore, e);
                    }
                }
                (Some(s), Tr::No) => {
                    vs.push(v);
                    at = e;
                    if vs.len() < max {
                        let e = self.skip(ignore, e);
                        match self.attempt(s, e, true) {
                            Some((_, e)) => from = self.skip(ignore, e),
                            None => break,
                        }
                    }
                }
                (Some(s), Tr::Yes) => {
                    let e = self.skip(ignore, e);
                    match self.attempt(s, e, true) {
                        Some((_, e)) => {
                            vs.push(v);
                            at = self.skip(ignore, e);
                            from = at;
                        }
                        None => break,
                    }
                }
                (Some(s), Tr::Maybe) => {
                    vs.push(v);
                    at = self.skip(ignore, e);
                    match self.attempt(s, at, true) {
                        Some((_, e)) => {
                            at = self.skip(ignore, e);
                            from = at;
                        }
                        None => break,
                    }
                }
            }
        }
        Ok((vs, at))
    }
    fn fix(
        &mut self, g: &Option<G>, which: &'static str, of: &'static str, name: &'static str, ignore: &[G],
        pos: usize,
    ) -> Result<usize, Fail> {
        match g {
            None => Ok(pos),
            Some(g) => match self.run(g, pos, true) {
                Ok((_, e)) => Ok(self.skip(ignore, e)),
                // prefixes and suffixes are only recognised: nothing further inside is named
                Err(f) => Err(Fail { labels: vec![Lab::Fix(which, of, name)], why: f.why, cause: None }),
            },
        }
    }
    fn seq(
        &mut self, attrs: &Attrs, ignore: &[G], fields: &[Field], what: &'static str, name: &'static str,
        pos: usize, peek: bool,
    ) -> Result<(Vec<Val>, usize), Fail> {
        let mut vs = vec![];
        let mut e = self.fix(&attrs.prefix, "prefix", what, name, ignore, pos)?;
        for f in fields {
            e = self.fix(&f.prefix, "prefix", "field", f.name, ignore, e)?;
            match &f.body {
                Body::Plain(g, cv) => match self.run(g, e, peek) {
                    Ok((v, e2)) => {
                        vs.push(self.conv(v, *cv, peek)?);
                        e = e2;
                    }
                    Err(mut x) => {
                        x.labels.push(Lab::Field(f.name));
                        return Err(x);
                    }
                },
                Body::List { g, cv, sep, trailing } => {
                    let (v, e2) = self.list(g, *cv, sep.as_ref(), *trailing, ignore, usize::MAX, e, peek)?;
                    vs.push(Val::List(v));
                    e = e2;
                }
            }
            e = self.skip(ignore, e);
            e = self.fix(&f.suffix, "suffix", "field", f.name, ignore, e)?;
        }
        e = self.fix(&attrs.suffix, "suffix", what, name, ignore, e)?;
        Ok((vs, e))
    }
    fn ty(&mut self, i: usize, pos: usize, peek: bool) -> R {
        let defs = self.defs;
        let d = &defs[i];
        match &d.kind {
            Kind::Struct(fields) => self
                .seq(&d.attrs, &d.attrs.ignore, fields, "struct", d.name, pos, peek)
                .map(|(v, e)| (Val::Rec(v), e)),
            Kind::Enum(vars) => {
                let e = self.fix(&d.attrs.prefix, "prefix", "enum", d.name, &d.attrs.ignore, pos)?;
                for (k, v) in vars.iter().enumerate() {
                    let mut ignore = v.attrs.ignore.clone();
                    ignore.extend(d.attrs.ignore.iter().cloned());
                    let outer = self.maxread;
                    self.maxread = e;
                    let r = self.seq(&v.attrs, &ignore, &v.fields, v.what, v.name, e, peek);
                    let read = self.maxread;
                    self.maxread = outer.max(read);
                    if self.over {
                        return self.miss(Some(0));
                    }
                    match r {
                        Ok((vals, e)) => {
                            let e = self.fix(&d.attrs.suffix, "suffix", "enum", d.name, &d.attrs.ignore, e)?;
                            return Ok((Val::Var(k, vals), e));
                        }
                        Err(f) => {
                            if read > e + 1 {
                                self.backtracks += 1;
                                if f.why == Why::Eof {
                                    self.cut_backtracks += 1;
                                }
                            }
                        }
                    }
                }
                let why = if self.reached_end { Why::Eof } else { Why::Mismatch };
                Err(Fail { labels: vec![Lab::NoVariant(d.name)], why, cause: None })
            }
        }
    }
}

/// The number that a run of characters spells in decimal, in front of which a plus may stand.
pub fn spelled(run: &[u32]) -> Option<u64> {
    let digits = if run.len() > 1 && run[0] == 43 { &run[1..] } else { run };
    let mut n: u128 = 0;
    for c in digits {
        if *c < 48 || *c > 57 {
            return None;
        }
        n = n * 10 + u128::from(*c - 48);
        if n > u128::from(u64::MAX) {
            return None;
        }
    }
    if digits.is_empty() {
        None
    } else {
        Some(n as u64)
    }
}

pub fn convert(v: Val, cv: Cv) -> Option<Val> {
    let digits = |v: &Val| -> Option<u64> {
        if let Val::Str(s) = v {
            spelled(s)
        } else {
            None
        }
    };
    match cv {
        Cv::No => Some(v),
        Cv::Usize => digits(&v).map(Val::Num),
        Cv::Small => digits(&v).filter(|n| *n < 100).map(Val::Num),
        Cv::Duo => Some(v).filter(|v| *v != Val::Rec(vec![Val::Ch(u32::from('b')), Val::Ch(u32::from('d'))])),
        Cv::Sum => {
            let list = if let Val::List(l) = v { l } else { return None };
            let mut sum = 0;
            for d in &list {
                match d {
                    Val::Rec(f) => match f[..] {
                        [Val::Num(n)] => sum += n, // (each below 100)
                        _ => return None,
                    },
                    _ => return None,
                }
            }
            Some(Val::Num(sum)).filter(|_| sum < 150)
        }
        Cv::NotX => Some(v).filter(|v| *v != Val::Ch(u32::from('X'))),
    }
}

/// Whether user-written code can be what makes it fail.
pub fn blames(g: &G, defs: &[Def], seen: &mut Vec<usize>) -> bool {
    match g {
        G::Quoted | G::Number | G::LenPre | G::AnyEl | G::Never => true,
        G::Vec1(p) | G::Arr(p, _) | G::Boxed(p) => blames(p, defs, seen),
        G::List(l) => l.cv != Cv::No,
        G::Ty(i) => {
            if seen.contains(i) {
                return false;
            }
            seen.push(*i);
            match &defs[*i].kind {
                Kind::Struct(fields) => fields.iter().any(|f| match &f.body {
                    Body::Plain(g, cv) => *cv != Cv::No || blames(g, defs, seen),
                    Body::List { cv, .. } => *cv != Cv::No,
                }),
                Kind::Enum(_) => false,
            }
        }
        _ => false,
    }
}

/// Whether numbers are made of what it recognises.
pub fn spells(g: &G, defs: &[Def], seen: &mut Vec<usize>) -> bool {
    match g {
        G::Vec(p) | G::Vec1(p) | G::Arr(p, _) | G::Boxed(p) | G::Opt(p) => spells(p, defs, seen),
        G::List(l) => l.cv == Cv::Usize || spells(&l.g, defs, seen),
        G::Ty(i) => {
            if seen.contains(i) {
                return false;
            }
            seen.push(*i);
            let mut fields = |fs: &[Field]| {
                fs.iter().any(|f| match &f.body {
                    Body::Plain(g, cv) => *cv == Cv::Usize || spells(g, defs, seen),
                    Body::List { cv, g, .. } => *cv == Cv::Usize || spells(g, defs, seen),
                })
            };
            match &defs[*i].kind {
                Kind::Struct(fs) => fields(fs),
                Kind::Enum(vs) => vs.iter().any(|v| fields(&v.fields)),
            }
        }
        _ => false,
    }
}

/// Smallest nesting needed to write a sentence.
pub fn heights(defs: &[Def]) -> Vec<u32> {
    const INF: u32 = 1_000_000;
    let mut h = vec![INF; defs.len()];
    fn fix(g: &Option<G>, h: &[u32]) -> u32 {
        g.as_ref().map_or(0, |g| height(g, h))
    }
    fn fields(a: &Attrs, fs: &[Field], h: &[u32]) -> u32 {
        let mut m = fix(&a.prefix, h).max(fix(&a.suffix, h));
        for f in fs {
            m = m.max(fix(&f.prefix, h)).max(fix(&f.suffix, h));
            if let Body::Plain(g, _) = &f.body {
                m = m.max(height(g, h));
            }
        }
        m
    }
    loop {
        let old = h.clone();
        for (i, d) in defs.iter().enumerate() {
            h[i] = INF.min(
                1 + match &d.kind {
                    Kind::Struct(fs) => fields(&d.attrs, fs, &h),
                    Kind::Enum(vs) => fields(&d.attrs, &[], &h).max(
                        vs.iter().map(|v| fields(&v.attrs, &v.fields, &h)).min().unwrap_or(INF),
                    ),
                },
            );
        }
        if h == old {
            return h;
        }
    }
}
fn height(g: &G, h: &[u32]) -> u32 {
    match g {
        G::Vec1(p) | G::Arr(p, _) | G::Boxed(p) => height(p, h),
        G::Ty(i) => h[*i],
        _ => 0,
    }
}

/// Elements worth confusing each other with.
pub fn alphabet(g: &G, defs: &[Def]) -> Vec<u32> {
    fn add(g: &G, defs: &[Def], seen: &mut Vec<usize>, out: &mut Vec<u32>) {
        match g {
            G::Tag(t) => out.extend(t),
            G::One(t) | G::Run { set: t, .. } => out.extend(t.iter().take(12)),
            G::LineEnding | G::Space | G::WhiteSpace => out.extend(&[10, 13, 32, 9]),
            G::Opt(p) | G::Vec(p) | G::Vec1(p) | G::Boxed(p) | G::Arr(p, _) => add(p, defs, seen, out),
            G::Quoted => out.push(34),
            G::Number | G::LenPre => out.extend(&[48, 49, 50, 51, 57]),
            G::AnyEl | G::Never | G::Nothing(_) => {}
            G::List(l) => {
                add(&l.g, defs, seen, out);
                for s in l.sep.iter().chain(&l.ignore) {
                    add(s, defs, seen, out);
                }
            }
            G::Ty(i) => {
                if seen.contains(i) {
                    return;
                }
                seen.push(*i);
                let d = &defs[*i];
                let at = |a: &Attrs, seen: &mut Vec<usize>, out: &mut Vec<u32>| {
                    for g in a.ignore.iter().chain(&a.prefix).chain(&a.suffix) {
                        add(g, defs, seen, out);
                    }
                };
                let fl = |fs: &[Field], seen: &mut Vec<usize>, out: &mut Vec<u32>| {
                    for f in fs {
                        for g in f.prefix.iter().chain(&f.suffix) {
                            add(g, defs, seen, out);
                        }
                        match &f.body {
                            Body::Plain(g, _) => add(g, defs, seen, out),
                            Body::List { g, sep, .. } => {
                                add(g, defs, seen, out);
                                if let Some(s) = sep {
                                    add(s, defs, seen, out);
                                }
                            }
                        }
                    }
                };
                at(&d.attrs, seen, out);
                match &d.kind {
                    Kind::Struct(fs) => fl(fs, seen, out),
                    Kind::Enum(vs) => {
                        for v in vs {
                            at(&v.attrs, seen, out);
                            fl(&v.fields, seen, out);
                        }
                    }
                }
            }
        }
    }
    let mut out = vec![];
    add(g, defs, &mut vec![], &mut out);
    out.sort_unstable();
    out.dedup();
    out
}

/// Writes sentences of a grammar (nearly: repetition is greedy and choice ordered, so a sentence
/// can still be read differently, or fail).
pub struct Gen<'a> {
    pub defs: &'a [Def],
    pub h: &'a [u32],
    /// no more than this many elements, roughly
    pub budget: usize,
    /// how many repetitions are usual
    pub reps: usize,
    pub depth: usize,
    pub bytes: bool,
    pub out: Vec<u32>,
}
const POOL: &[u32] = &[97, 98, 122, 48, 45, 95, 233, 0x161, 0x221a, 0x1d11e, 0x130, 0x2c, 0x20];

impl<'a> Gen<'a> {
    pub fn reps(&mut self, ch: &mut Ch, lo: usize) -> usize {
        if self.out.len() > self.budget || self.depth > 60 {
            return lo;
        }
        lo + match ch.below(8) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => 2,
            5 => 3,
            6 => ch.range(0, 6),
            _ => ch.range(0, self.reps),
        }
    }
    fn outside(&self, ch: &mut Ch, set: &[u32]) -> u32 {
        for _ in 0..4 {
            let c = *ch.pick(POOL);
            let c = if self.bytes { c & 0xff } else { c };
            if !set.contains(&c) {
                return c;
            }
        }
        if set.contains(&97) { 113 } else { 97 }
    }
    /// Digits that make a number near a limit, with zeros in front, or of any length.
    fn number(&mut self, ch: &mut Ch, set: &[u32]) {
        const LIMITS: &[u128] = &[0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63, 1 << 64, 10_000_000_000_000_000_000, 100_000_000_000_000_000_000, (1 << 64) * 10, 1 << 65, 1 << 127];
        if ch.chance(1, 6) {
            let c = *ch.pick(set);
            self.out.push(c);
        }
        if ch.chance(1, 3) {
            let n = ch.range(1, 30);
            self.out.extend((0..n).map(|_| 48));
        }
        if ch.chance(1, 3) {
            for _ in 0..ch.range(1, 45) {
                let c = ch.range(48, 57) as u32;
                self.out.push(c);
            }
        } else {
            let n = (ch.pick(LIMITS) + 12).saturating_sub(u128::from(ch.below(25)));
            self.out.extend(n.to_string().bytes().map(u32::from));
        }
        if ch.chance(1, 12) {
            let c = *ch.pick(set);
            self.out.push(c);
        }
    }
    pub fn gen(&mut self, ch: &mut Ch, g: &G) {
        if self.depth > 150 {
            return; // no finite input of this grammar: an input that is cut off, then
        }
        match g {
            G::Tag(t) => self.out.extend(t),
            G::One(set) => {
                let c = *ch.pick(set);
                self.out.push(c);
            }
            G::Run { set, neg: false, .. } if (48..58).all(|d| set.contains(&d)) && ch.chance(1, 4) => self.number(ch, set),
            G::Run { set, neg, min1, .. } => {
                let n = self.reps(ch, usize::from(*min1));
                for _ in 0..n {
                    let c = if *neg { self.outside(ch, set) } else { *ch.pick(set) };
                    self.out.push(c);
                }
            }
            G::LineEnding | G::Space | G::WhiteSpace => {
                let all: &[&[u32]] = match g {
                    G::LineEnding => &[&[10], &[13, 10]],
                    G::Space => &[&[32], &[9]],
                    _ => &[&[32], &[10], &[9], &[13, 10]],
                };
                let t: &[u32] = *ch.pick::<&[u32]>(all);
                self.out.extend(t);
            }
            G::Opt(p) => {
                if self.out.len() < self.budget && self.depth < 30 && ch.chance(1, 2) {
                    self.gen(ch, p);
                }
            }
            G::Vec(p) | G::Vec1(p) => {
                let n = self.reps(ch, usize::from(matches!(g, G::Vec1(_))));
                self.depth += 1;
                for _ in 0..n {
                    self.gen(ch, p);
                }
                self.depth -= 1;
            }
            G::Arr(p, n) => {
                for _ in 0..*n {
                    self.gen(ch, p);
                }
            }
            G::Boxed(p) => self.gen(ch, p),
            G::Quoted => {
                self.out.push(34);
                let n = self.reps(ch, 0);
                for _ in 0..n {
                    let c = self.outside(ch, &[34]);
                    self.out.push(c);
                }
                self.out.push(34);
            }
            G::Number => {
                let n = self.reps(ch, 1);
                for _ in 0..n {
                    let c = ch.range(48, 57) as u32;
                    self.out.push(c);
                }
            }
            G::LenPre => {
                let n = ch.range(0, 9);
                self.out.push(48 + n as u32);
                for _ in 0..n {
                    let c = self.outside(ch, &[]);
                    self.out.push(c);
                }
            }
            G::AnyEl => {
                let c = self.outside(ch, &[]);
                self.out.push(c);
            }
            G::Never | G::Nothing(_) => {}
            G::List(l) => {
                let n = self.reps(ch, 0);
                self.list(ch, &l.g, l.sep.as_ref(), l.trailing, &l.ignore, n);
            }
            G::Ty(i) => self.ty(ch, *i),
        }
    }
    fn list(&mut self, ch: &mut Ch, g: &G, sep: Option<&G>, tr: Tr, ignore: &[G], n: usize) {
        self.depth += 1;
        for i in 0..n {
            self.gen(ch, g);
            self.ignored(ch, ignore);
            if let Some(s) = sep {
                let last = i + 1 == n;
                let with = !last || if tr == Tr::Yes { !ch.chance(1, 6) } else { ch.chance(1, 3) };
                if with {
                    self.gen(ch, s);
                    self.ignored(ch, ignore);
                }
            }
        }
        self.depth -= 1;
    }
    fn ignored(&mut self, ch: &mut Ch, ignore: &[G]) {
        if ignore.is_empty() || self.depth > 60 {
            return;
        }
        let n = ch.weighted(&[5, 3, 1, 1]);
        for _ in 0..n {
            let g = ch.pick(ignore).clone();
            self.gen(ch, &g);
        }
    }
    fn fix(&mut self, ch: &mut Ch, g: &Option<G>, ignore: &[G]) {
        if let Some(g) = g {
            self.gen(ch, g);
            self.ignored(ch, ignore);
        }
    }
    fn seq(&mut self, ch: &mut Ch, a: &Attrs, ignore: &[G], fields: &[Field]) {
        self.fix(ch, &a.prefix, ignore);
        for f in fields {
            self.fix(ch, &f.prefix, ignore);
            match &f.body {
                Body::Plain(g, _) => self.gen(ch, g),
                Body::List { g, sep, trailing, .. } => {
                    let n = self.reps(ch, 0);
                    self.list(ch, g, sep.as_ref(), *trailing, ignore, n);
                }
            }
            self.ignored(ch, ignore);
            self.fix(ch, &f.suffix, ignore);
        }
        self.fix(ch, &a.suffix, ignore);
    }
    fn ty(&mut self, ch: &mut Ch, i: usize) {
        let defs = self.defs;
        let d = &defs[i];
        self.depth += 1;
        match &d.kind {
            Kind::Struct(fs) => self.seq(ch, &d.attrs, &d.attrs.ignore, fs),
            Kind::Enum(vs) => {
                self.fix(ch, &d.attrs.prefix, &d.attrs.ignore);
                let k = if self.out.len() > self.budget || self.depth > 24 {
                    // the variant that ends soonest
                    let mut best = (u32::MAX, 0);
                    for (k, v) in vs.iter().enumerate() {
                        let m = v
                            .fields
                            .iter()
                            .map(|f| if let Body::Plain(g, _) = &f.body { height(g, self.h) } else { 0 })
                            .max()
                            .unwrap_or(0);
                        if m < best.0 {
                            best = (m, k);
                        }
                    }
                    best.1
                } else {
                    ch.below(vs.len() as u32) as usize
                };
                let v = &vs[k];
                let mut ignore = v.attrs.ignore.clone();
                ignore.extend(d.attrs.ignore.iter().cloned());
                self.seq(ch, &v.attrs, &ignore, &v.fields);
                self.fix(ch, &d.attrs.suffix, &d.attrs.ignore);
            }
        }
        self.depth -= 1;
    }
}
