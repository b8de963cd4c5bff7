//! What arrives at the parser: sentences of a grammar, damaged on the way.
use crate::ch::Ch;
use crate::model::{Def, Gen, G};
use crate::run::Cx;

pub struct Wire<'a> {
    pub defs: &'a [Def],
    pub h: &'a [u32],
    pub alpha: Vec<u32>,
    pub bytes: bool,
}

/// Look-alikes: same low byte, other case, combining, line ends, quotes.
const ODD: &[u32] =
    &[0x161, 0x162, 0x12c, 0x222c, 0x301, 0x1f600, 0xfffd, 0, 10, 13, 32, 9, 34, 92, 0xe9, 0xa0, 65, 88, 57, 45, 44];

impl<'a> Wire<'a> {
    pub fn sentence(&self, ch: &mut Ch, g: &G, budget: usize, reps: usize) -> Vec<u32> {
        let mut gen = Gen { defs: self.defs, h: self.h, budget, reps, depth: 0, bytes: self.bytes, out: vec![] };
        gen.gen(ch, g);
        gen.out.truncate(20_000);
        gen.out
    }
    pub fn element(&self, ch: &mut Ch) -> u32 {
        let c = if !self.alpha.is_empty() && !ch.chance(1, 4) {
            let c = *ch.pick(&self.alpha);
            if ch.chance(1, 12) {
                // its neighbours in one way or another
                match ch.below(6) {
                    0 | 1 if !self.bytes => c + 0x100,
                    2 if !self.bytes => c + 0x1_0000,
                    2 => c ^ 0x80,
                    3 => c ^ 0x20,
                    4 => c + 1,
                    _ => c.saturating_sub(1),
                }
            } else {
                c
            }
        } else {
            *ch.pick(ODD)
        };
        let c = if self.bytes { c & 0xff } else { c };
        if std::char::from_u32(c).is_some() {
            c
        } else {
            97
        }
    }
    /// Damage on the way; `other` makes more sentences.
    pub fn damage(&self, ch: &mut Ch, cx: &mut Cx, s: &mut Vec<u32>, from: usize, g: &G, max: u32) {
        let n = match ch.weighted(&[8, 7, 3, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            _ => ch.range(1, 5) as u32,
        };
        for _ in 0..n.min(max) {
            let len = s.len() - from;
            // mostly anywhere, sometimes right at the end
            let i = if len > 0 && ch.chance(1, 5) { s.len() - 1 } else { from + ch.range(0, len.saturating_sub(1)) };
            match ch.below(9) {
                0 if len > 0 => {
                    s.truncate(i);
                    cx.fault("input-cut-off");
                }
                1 if len > 0 => {
                    s[i] = self.element(ch);
                    cx.fault("element-corrupted");
                }
                2 if len > 0 => {
                    s.remove(i);
                    cx.fault("element-lost");
                }
                3 if len > 0 => {
                    let c = s[i];
                    s.insert(i, c);
                    cx.fault("element-duplicated");
                }
                4 if len > 1 => {
                    let j = i.max(from + 1);
                    s.swap(j - 1, j);
                    cx.fault("elements-reordered");
                }
                5 => {
                    let c = self.element(ch);
                    s.insert(i, c);
                    cx.fault("element-inserted");
                }
                6 if len > 0 => {
                    // the rest is from some other message
                    s.truncate(i);
                    let o = self.sentence(ch, g, 12, 4);
                    let k = ch.range(0, o.len());
                    s.extend(&o[k..]);
                    cx.fault("messages-spliced");
                }
                7 if len > 0 => {
                    let j = (i + ch.range(1, 4)).min(s.len());
                    let seg = s[i..j].to_vec();
                    for (k, c) in seg.into_iter().enumerate() {
                        s.insert(j + k, c);
                    }
                    cx.fault("segment-duplicated");
                }
                _ => {
                    let k = ch.range(1, 3);
                    for _ in 0..k {
                        let c = self.element(ch);
                        s.push(c);
                    }
                    cx.fault("surplus-elements");
                }
            }
        }
    }
    pub fn size(ch: &mut Ch) -> (usize, usize) {
        match ch.weighted(&[500, 160, 24, 3]) {
            0 => (16, 6),
            1 => (60, 14),
            2 => (300, 90),
            _ => (3000, 900),
        }
    }
    pub fn stream(&self, ch: &mut Ch, cx: &mut Cx, g: &G, junk: usize) -> Vec<u32> {
        let mut s = vec![];
        for _ in 0..junk {
            let c = self.element(ch);
            s.push(c);
        }
        let (budget, reps) = if junk > 5 && ch.chance(1, 2) { (300, 90) } else { Self::size(ch) };
        let n = match ch.below(10) {
            0 => 0,
            1 | 2 => 2,
            3 => 3,
            _ => 1,
        };
        for _ in 0..n {
            let t = self.sentence(ch, g, budget, reps);
            s.extend(t);
        }
        if n == 0 {
            for _ in 0..ch.range(0, 8) {
                let c = self.element(ch);
                s.push(c);
            }
        }
        self.damage(ch, cx, &mut s, junk, g, 9);
        s
    }
}

pub fn show(s: &[u32], bytes: bool) -> String {
    if bytes {
        let b: Vec<String> = s
            .iter()
            .map(|c| match *c as u8 {
                b if (33..127).contains(&b) => (b as char).to_string(),
                b => format!("\\x{:02x}", b),
            })
            .collect();
        format!("b\"{}\"", b.concat())
    } else {
        let t: String = s.iter().map(|c| std::char::from_u32(*c).unwrap_or('\u{fffd}')).collect();
        format!("{:?}", t)
    }
}
