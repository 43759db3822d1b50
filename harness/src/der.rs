//! A strict DER reader (reference) and a DER tree for building hostile variants.
use crate::ecref::B;
use harness::Rng;

/// One TLV of strict DER (definite, minimal length). Returns (tag, content, rest).
pub fn tlv(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let tag = *b.first()?;
    if tag & 0x1f == 0x1f {
        return None;
    }
    let l = *b.get(1)? as usize;
    let (len, off) = if l < 0x80 {
        (l, 2)
    } else {
        let n = l & 0x7f;
        if n == 0 || n > 4 || b.len() < 2 + n || b[2] == 0 {
            return None;
        }
        let len = b[2..2 + n].iter().fold(0usize, |a, x| a << 8 | *x as usize);
        if len < 0x80 {
            return None;
        }
        (len, 2 + n)
    };
    if b.len() - off < len {
        return None;
    }
    Some((tag, &b[off..off + len], &b[off + len..]))
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn peek(&self) -> Option<u8> {
        self.0.first().copied()
    }
    pub fn take(&mut self, tag: u8) -> Option<&'a [u8]> {
        let (t, c, r) = tlv(self.0)?;
        if t != tag {
            return None;
        }
        self.0 = r;
        Some(c)
    }
    pub fn end(&self) -> Option<()> {
        self.0.is_empty().then_some(())
    }
    /// non-negative minimal INTEGER
    pub fn uint(&mut self) -> Option<B> {
        let c = self.take(2)?;
        if c.is_empty() || c[0] & 0x80 != 0 || (c.len() > 1 && c[0] == 0 && c[1] & 0x80 == 0) {
            return None;
        }
        Some(B::from_bytes_be(c))
    }
    pub fn bits(c: &'a [u8]) -> Option<&'a [u8]> {
        match c.split_first() {
            Some((0, r)) => Some(r),
            _ => None,
        }
    }
}

/// A tree that serialises to DER, with deliberate errors possible at any node.
#[derive(Clone, Debug)]
pub struct Node {
    pub tag: u8,
    pub prim: Vec<u8>,
    pub kids: Vec<Node>,
    /// how to write the length: 0 minimal, 1..=5 that many extra length octets form, 9 indefinite
    pub lenform: u8,
    pub lenadd: i64,
    pub junk: Vec<u8>,
}

impl Node {
    pub fn p(tag: u8, c: &[u8]) -> Self {
        Node { tag, prim: c.to_vec(), kids: vec![], lenform: 0, lenadd: 0, junk: vec![] }
    }
    pub fn c(tag: u8, kids: Vec<Node>) -> Self {
        Node { tag, prim: vec![], kids, lenform: 0, lenadd: 0, junk: vec![] }
    }
    /// whole input as a tree (descending into OCTET STRINGs and BIT STRINGs that hold DER)
    pub fn parse(b: &[u8]) -> Option<Node> {
        let (tag, c, r) = tlv(b)?;
        if !r.is_empty() {
            return None;
        }
        let kids = |mut c: &[u8]| -> Option<Vec<Node>> {
            let mut v = vec![];
            while !c.is_empty() {
                let (_, _, rest) = tlv(c)?;
                v.push(Node::parse(&c[..c.len() - rest.len()])?);
                c = rest;
            }
            Some(v)
        };
        if tag & 0x20 != 0 {
            return Some(Node::c(tag, kids(c)?));
        }
        if tag == 4 && c.len() > 8 {
            if let Some(k) = kids(c) {
                if k.len() == 1 {
                    return Some(Node::c(4, k));
                }
            }
        }
        Some(Node::p(tag, c))
    }
    pub fn write(&self) -> Vec<u8> {
        let mut c = self.prim.clone();
        for k in &self.kids {
            c.extend(k.write());
        }
        c.extend(&self.junk);
        let n = (c.len() as i64 + self.lenadd).max(0) as usize;
        let mut v = vec![self.tag];
        match self.lenform {
            0 => {
                if n < 128 {
                    v.push(n as u8)
                } else {
                    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
                    v.push(0x80 | b.len() as u8);
                    v.extend(b);
                }
            }
            9 => v.push(0x80),
            k => {
                let b = (n as u128).to_be_bytes();
                v.push(0x80 | k);
                v.extend(&b[16 - k as usize..]);
            }
        }
        v.extend(c);
        if self.lenform == 9 {
            v.extend([0, 0]);
        }
        v
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn get(&mut self, i: &mut usize) -> Option<&mut Node> {
        if *i == 0 {
            return Some(self);
        }
        *i -= 1;
        for k in self.kids.iter_mut() {
            let n = k.count();
            if *i < n {
                return k.get(i);
            }
            *i -= n;
        }
        None
    }
}

/// Systematic single-node changes of a DER encoding.
pub fn node_variants(base: &[u8], r: &mut Rng) -> Vec<(String, Vec<u8>)> {
    let Some(t) = Node::parse(base) else { return vec![] };
    let mut out = vec![];
    for i in 0..t.count() {
        let mut ed = |what: &str, f: &mut dyn FnMut(&mut Node)| {
            let mut x = t.clone();
            let mut k = i;
            let n = x.get(&mut k).unwrap();
            f(n);
            let w = x.write();
            if w != base {
                out.push((format!("node {i} {what}"), w));
            }
        };
        for f in [1u8, 2, 3, 4, 5, 8, 9] {
            ed(&format!("length form {f}"), &mut |n| n.lenform = f);
        }
        for a in [-1i64, 1, 2, 127, 1 << 15, 1 << 20] {
            ed(&format!("length off by {a}"), &mut |n| n.lenadd = a);
        }
        for v in [0u64, 0x7fff_ffff, 0xffff_ffff, 1 << 40, u64::MAX] {
            ed(&format!("length claims {v:x}"), &mut |n| {
                let b = n.prim.len() + n.kids.iter().map(|k| k.write().len()).sum::<usize>();
                n.lenform = if v > u32::MAX as u64 { 8 } else { 4 };
                n.lenadd = (v as i64).wrapping_sub(b as i64);
            });
        }
        for j in [vec![0u8], vec![5, 0], vec![2, 1, 0], vec![0; 9]] {
            ed(&format!("junk {j:02x?} inside"), &mut |n| n.junk = j.clone());
        }
        for tg in [0u8, 1, 2, 3, 4, 5, 6, 0x0c, 0x10, 0x11, 0x1f, 0x22, 0x24, 0x23, 0x30, 0x31, 0x80, 0x81, 0x82, 0xa0, 0xa1, 0xa2, 0xff] {
            ed(&format!("tag {tg:02x}"), &mut |n| n.tag = tg);
        }
        ed("emptied", &mut |n| {
            n.prim.clear();
            n.kids.clear();
        });
        ed("shortened", &mut |n| {
            n.prim.pop();
            n.kids.pop();
        });
        ed("headless", &mut |n| {
            if !n.prim.is_empty() {
                n.prim.remove(0);
            }
            if !n.kids.is_empty() {
                n.kids.remove(0);
            }
        });
        ed("lead 00", &mut |n| n.prim.insert(0, 0));
        ed("lead 00 00", &mut |n| {
            n.prim.insert(0, 0);
            n.prim.insert(0, 0)
        });
        ed("lead ff", &mut |n| n.prim.insert(0, 0xff));
        ed("lead 01", &mut |n| n.prim.insert(0, 1));
        ed("all zero", &mut |n| n.prim.fill(0));
        ed("all ff", &mut |n| n.prim.fill(0xff));
        ed("zero", &mut |n| n.prim = vec![0]);
        ed("one", &mut |n| n.prim = vec![1]);
        ed("two", &mut |n| n.prim = vec![2]);
        ed("minus one", &mut |n| n.prim = vec![0xff]);
        ed("sign flipped", &mut |n| {
            if let Some(b) = n.prim.first_mut() {
                *b ^= 0x80
            }
        });
        ed("last bit", &mut |n| {
            if let Some(b) = n.prim.last_mut() {
                *b ^= 1
            }
        });
        ed("wrapped in sequence", &mut |n| {
            let c = n.clone();
            *n = Node::c(0x30, vec![c]);
        });
        ed("wrapped in octets", &mut |n| {
            let c = n.clone();
            *n = Node::c(4, vec![c]);
        });
        ed("doubled", &mut |n| {
            let k = n.kids.clone();
            n.kids.extend(k);
            let p = n.prim.clone();
            n.prim.extend(p);
        });
        ed("kids swapped", &mut |n| {
            if n.kids.len() > 1 {
                let a = r.below(n.kids.len() - 1);
                n.kids.swap(a, a + 1);
            }
        });
    }
    out
}
