//! Hash-consed bit-vector expressions with on-the-fly simplification.
//!
//! Every symbolic input is an 8-bit variable; everything else is built from those.

use std::collections::HashMap;

pub const MAXV: usize = 256;
pub type Sup = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct E {
    pub v: u128,
    /// 0: concrete constant `v`; otherwise the node index.
    pub id: u32,
    pub w: u16,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl E {
    #[inline]
    pub const fn raw(w: u16, v: u128) -> E {
        E { v, id: 0, w }
    }
    #[inline]
    pub fn c(w: u16, v: u128) -> E {
        E { v: v & mask(w), id: 0, w }
    }
    #[inline]
    pub fn b(v: bool) -> E {
        E { v: v as u128, id: 0, w: 1 }
    }
    #[inline]
    pub fn is_c(&self) -> bool {
        self.id == 0
    }
    pub fn is_true(&self) -> bool {
        self.id == 0 && self.v == 1 && self.w == 1
    }
    pub fn is_false(&self) -> bool {
        self.id == 0 && self.v == 0 && self.w == 1
    }
    fn is_zero(&self) -> bool {
        self.id == 0 && self.v == 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    map: HashMap<Node, u32, crate::exec::FxB>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

const Z: E = E::raw(1, 0);

impl Arena {
    pub fn new() -> Self {
        let n = Node { op: Op::Var, w: 0, a: Z, b: Z, c: Z };
        Arena {
            nodes: vec![n],
            sup: vec![[0; 4]],
            map: Default::default(),
            memo: vec![(0, 0)],
            epoch: 0,
        }
    }

    fn mk(&mut self, op: Op, w: u16, a: E, b: E, c: E) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&id) = self.map.get(&n) {
            return E { v: 0, id, w };
        }
        let id = self.nodes.len() as u32;
        let mut s = [0u64; 4];
        if op == Op::Var {
            let i = a.v as usize;
            s[i / 64] |= 1 << (i % 64);
        } else {
            for e in [a, b, c] {
                if e.id != 0 {
                    let t = self.sup[e.id as usize];
                    for k in 0..4 {
                        s[k] |= t[k];
                    }
                }
            }
        }
        self.nodes.push(n);
        self.sup.push(s);
        self.memo.push((0, 0));
        self.map.insert(n, id);
        E { v: 0, id, w }
    }

    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e.id as usize]
    }
    fn is(&self, e: E, op: Op) -> bool {
        e.id != 0 && self.nodes[e.id as usize].op == op
    }
    pub fn support(&self, e: E) -> Sup {
        self.sup[e.id as usize]
    }

    pub fn var(&mut self, idx: usize) -> E {
        assert!(idx < MAXV, "too many symbolic bytes");
        self.mk(Op::Var, 8, E::raw(16, idx as u128), Z, Z)
    }

    /// Splits `e` into (lo, width, piece) parts, least significant first.
    fn pieces(&self, e: E, lo: u16, out: &mut Vec<(u16, E)>) {
        if e.id != 0 {
            let n = self.n(e);
            match n.op {
                Op::Concat => {
                    self.pieces(n.b, lo, out);
                    self.pieces(n.a, lo + n.b.w, out);
                    return;
                }
                Op::ZExt => {
                    self.pieces(n.a, lo, out);
                    out.push((lo + n.a.w, E::c(e.w - n.a.w, 0)));
                    return;
                }
                _ => {}
            }
        }
        out.push((lo, e));
    }

    fn cut_points(&self, p: &[(u16, E)], cuts: &mut Vec<u16>) {
        for (lo, e) in p {
            cuts.push(*lo);
            cuts.push(*lo + e.w);
        }
    }

    fn piece_at(&mut self, p: &[(u16, E)], lo: u16, w: u16) -> E {
        for &(l, e) in p {
            if lo >= l && lo + w <= l + e.w {
                return self.extract(e, lo - l, w);
            }
        }
        unreachable!()
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        debug_assert_eq!(a.w, b.w, "{:?}", op);
        let w = a.w;
        if a.id == 0 && b.id == 0 {
            return Self::fold(op, w, a.v, b.v);
        }
        match op {
            Op::Add => {
                if a.id == 0 {
                    return self.bin(Op::Add, b, a);
                }
                if b.is_zero() {
                    return a;
                }
                if b.id == 0 {
                    let n = self.n(a);
                    if n.op == Op::Add && n.b.id == 0 {
                        let k = E::c(w, n.b.v.wrapping_add(b.v));
                        return self.bin(Op::Add, n.a, k);
                    }
                    if n.op == Op::Ite && n.b.id == 0 && n.c.id == 0 {
                        let (x, y) = (E::c(w, n.b.v.wrapping_add(b.v)), E::c(w, n.c.v.wrapping_add(b.v)));
                        return self.ite(n.a, x, y);
                    }
                } else {
                    let n = self.n(b);
                    if n.op == Op::Add && n.b.id == 0 {
                        let s = self.bin(Op::Add, a, n.a);
                        return self.bin(Op::Add, s, n.b);
                    }
                    let n = self.n(a);
                    if n.op == Op::Add && n.b.id == 0 {
                        let s = self.bin(Op::Add, n.a, b);
                        return self.bin(Op::Add, s, n.b);
                    }
                    // x + (k - x) style cancellation
                    let nb = self.n(b);
                    if nb.op == Op::Sub && nb.b == a {
                        return nb.a;
                    }
                    let na = self.n(a);
                    if na.op == Op::Sub && na.b == b {
                        return na.a;
                    }
                    if a.id > b.id {
                        return self.mk(op, w, b, a, Z);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return E::c(w, 0);
                }
                if b.id == 0 {
                    return self.bin(Op::Add, a, E::c(w, b.v.wrapping_neg()));
                }
                if a.id != 0 {
                    let (na, nb) = (self.n(a), self.n(b));
                    // (x + c1) - (x + c2)
                    let (xa, ca) = if na.op == Op::Add && na.b.id == 0 { (na.a, na.b.v) } else { (a, 0) };
                    let (xb, cb) = if nb.op == Op::Add && nb.b.id == 0 { (nb.a, nb.b.v) } else { (b, 0) };
                    if xa == xb {
                        return E::c(w, ca.wrapping_sub(cb));
                    }
                }
            }
            Op::Mul => {
                if a.id == 0 {
                    return self.bin(Op::Mul, b, a);
                }
                if b.id == 0 {
                    if b.v == 0 {
                        return b;
                    }
                    if b.v == 1 {
                        return a;
                    }
                    if b.v.is_power_of_two() {
                        let k = b.v.trailing_zeros() as u128;
                        return self.bin(Op::Shl, a, E::c(w, k));
                    }
                }
            }
            Op::UDiv => {
                if b.id == 0 && b.v == 1 {
                    return a;
                }
                if b.id == 0 && b.v.is_power_of_two() {
                    return self.bin(Op::LShr, a, E::c(w, b.v.trailing_zeros() as u128));
                }
            }
            Op::URem => {
                if b.id == 0 && b.v.is_power_of_two() {
                    return self.bin(Op::And, a, E::c(w, b.v - 1));
                }
            }
            Op::And => {
                if a.id == 0 {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return a;
                }
                if b.id == 0 {
                    if b.v == 0 {
                        return b;
                    }
                    if b.v == mask(w) {
                        return a;
                    }
                    let n = self.n(a);
                    if n.op == Op::Ite && n.b.id == 0 && n.c.id == 0 {
                        return self.ite(n.a, E::c(w, n.b.v & b.v), E::c(w, n.c.v & b.v));
                    }
                    // split the mask into runs
                    let mut runs: Vec<(u16, u16, bool)> = vec![];
                    let mut i = 0;
                    while i < w {
                        let bit = (b.v >> i) & 1 == 1;
                        let mut j = i;
                        while j < w && ((b.v >> j) & 1 == 1) == bit {
                            j += 1;
                        }
                        runs.push((i, j - i, bit));
                        i = j;
                    }
                    if runs.len() <= 4 {
                        let mut acc: Option<E> = None;
                        for (lo, len, bit) in runs {
                            let p = if bit { self.extract(a, lo, len) } else { E::c(len, 0) };
                            acc = Some(match acc {
                                None => p,
                                Some(l) => self.concat(p, l),
                            });
                        }
                        return acc.unwrap();
                    }
                } else if w == 1 {
                    if self.not(a) == b {
                        return E::b(false);
                    }
                }
                if b.id != 0 && a.id > b.id {
                    return self.mk(op, w, b, a, Z);
                }
            }
            Op::Or | Op::Xor => {
                if a.id == 0 {
                    return self.bin(op, b, a);
                }
                if a == b {
                    return if op == Op::Or { a } else { E::c(w, 0) };
                }
                if b.is_zero() {
                    return a;
                }
                if b.id == 0 && b.v == mask(w) {
                    if op == Op::Or {
                        return b;
                    }
                    if w == 1 {
                        // negation
                        let n = self.n(a);
                        match n.op {
                            Op::Ult => return self.cmp(Op::Ule, n.b, n.a),
                            Op::Ule => return self.cmp(Op::Ult, n.b, n.a),
                            Op::Slt => return self.cmp(Op::Sle, n.b, n.a),
                            Op::Sle => return self.cmp(Op::Slt, n.b, n.a),
                            Op::Xor if n.b.id == 0 => return n.a,
                            _ => {}
                        }
                        return self.mk(Op::Xor, 1, a, b, Z);
                    }
                }
                if w == 1 && op == Op::Or && b.id != 0 && self.not(a) == b {
                    return E::b(true);
                }
                if w > 1 {
                    let (mut pa, mut pb) = (vec![], vec![]);
                    self.pieces(a, 0, &mut pa);
                    self.pieces(b, 0, &mut pb);
                    if pa.len() > 1 || pb.len() > 1 {
                        let mut cuts = vec![];
                        self.cut_points(&pa, &mut cuts);
                        self.cut_points(&pb, &mut cuts);
                        cuts.sort();
                        cuts.dedup();
                        let mut parts = vec![];
                        let mut ok = true;
                        for k in cuts.windows(2) {
                            let (lo, len) = (k[0], k[1] - k[0]);
                            let x = self.piece_at(&pa, lo, len);
                            let y = self.piece_at(&pb, lo, len);
                            if x.is_zero() {
                                parts.push(y);
                            } else if y.is_zero() {
                                parts.push(x);
                            } else if x.id == 0 && y.id == 0 {
                                parts.push(Self::fold(op, len, x.v, y.v));
                            } else {
                                ok = false;
                                break;
                            }
                        }
                        if ok {
                            let mut acc = parts[0];
                            for p in &parts[1..] {
                                acc = self.concat(*p, acc);
                            }
                            return acc;
                        }
                    }
                }
                if b.id == 0 && op == Op::Xor {
                    let n = self.n(a);
                    if n.op == Op::Xor && n.b.id == 0 {
                        return self.bin(Op::Xor, n.a, E::c(w, n.b.v ^ b.v));
                    }
                }
                if b.id != 0 && a.id > b.id {
                    return self.mk(op, w, b, a, Z);
                }
            }
            Op::Shl => {
                if b.id == 0 {
                    if b.v == 0 {
                        return a;
                    }
                    if b.v >= w as u128 {
                        return E::c(w, 0);
                    }
                    let k = b.v as u16;
                    let h = self.extract(a, 0, w - k);
                    return self.concat(h, E::c(k, 0));
                }
            }
            Op::LShr => {
                if b.id == 0 {
                    if b.v == 0 {
                        return a;
                    }
                    if b.v >= w as u128 {
                        return E::c(w, 0);
                    }
                    let k = b.v as u16;
                    let h = self.extract(a, k, w - k);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if b.id == 0 {
                    if b.v == 0 {
                        return a;
                    }
                    if b.v < w as u128 {
                        let k = b.v as u16;
                        let h = self.extract(a, k, w - k);
                        return self.sext(h, w);
                    }
                }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => return self.cmp(op, a, b),
            _ => {}
        }
        self.mk(op, w, a, b, Z)
    }

    pub fn fold(op: Op, w: u16, a: u128, b: u128) -> E {
        let (sa, sb) = (sext128(a, w), sext128(b, w));
        let v = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    mask(w)
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                if b == 0 {
                    if sa < 0 {
                        1
                    } else {
                        mask(w)
                    }
                } else {
                    sa.wrapping_div(sb) as u128
                }
            }
            Op::SRem => {
                if b == 0 {
                    a
                } else {
                    sa.wrapping_rem(sb) as u128
                }
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => (sa >> b.min(w as u128 - 1).min(127)) as u128,
            Op::Eq => return E::b(a == b),
            Op::Ult => return E::b(a < b),
            Op::Ule => return E::b(a <= b),
            Op::Slt => return E::b(sa < sb),
            Op::Sle => return E::b(sa <= sb),
            _ => unreachable!(),
        };
        E::c(w, v)
    }

    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(a.w, 1);
        self.bin(Op::Xor, a, E::b(true))
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Op::Eq, a, b)
    }

    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        debug_assert_eq!(a.w, b.w);
        let w = a.w;
        if a.id == 0 && b.id == 0 {
            return Self::fold(op, w, a.v, b.v);
        }
        if a == b {
            return E::b(matches!(op, Op::Eq | Op::Ule | Op::Sle));
        }
        if op == Op::Eq {
            if a.id == 0 {
                return self.cmp(op, b, a);
            }
            if w == 1 && b.id == 0 {
                return if b.v == 1 { a } else { self.not(a) };
            }
            let n = self.n(a);
            if b.id == 0 {
                match n.op {
                    Op::Ite if n.b.id == 0 || n.c.id == 0 => {
                        let x = self.cmp(op, n.b, b);
                        let y = self.cmp(op, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                    Op::Add if n.b.id == 0 => {
                        return self.cmp(op, n.a, E::c(w, b.v.wrapping_sub(n.b.v)));
                    }
                    Op::Xor if n.b.id == 0 => {
                        return self.cmp(op, n.a, E::c(w, b.v ^ n.b.v));
                    }
                    Op::SExt => {
                        let lo = E::c(n.a.w, b.v);
                        if E::c(w, sext128(lo.v, lo.w) as u128).v == b.v {
                            return self.cmp(op, n.a, lo);
                        }
                        return E::b(false);
                    }
                    _ => {}
                }
            }
            let (mut pa, mut pb) = (vec![], vec![]);
            self.pieces(a, 0, &mut pa);
            self.pieces(b, 0, &mut pb);
            if pa.len() > 1 || pb.len() > 1 {
                let mut cuts = vec![];
                self.cut_points(&pa, &mut cuts);
                self.cut_points(&pb, &mut cuts);
                cuts.sort();
                cuts.dedup();
                let mut acc = E::b(true);
                for k in cuts.windows(2) {
                    let (lo, len) = (k[0], k[1] - k[0]);
                    let x = self.piece_at(&pa, lo, len);
                    let y = self.piece_at(&pb, lo, len);
                    let c = self.cmp(Op::Eq, x, y);
                    acc = self.and(acc, c);
                    if acc.is_false() {
                        return acc;
                    }
                }
                return acc;
            }
            if b.id != 0 && a.id > b.id {
                return self.mk(op, 1, b, a, Z);
            }
            return self.mk(op, 1, a, b, Z);
        }
        // orderings
        let top = |s: &Self, e: E| -> Option<u16> {
            // number of known-zero most significant bits
            if e.id == 0 {
                let used = 128 - e.v.leading_zeros() as u16;
                return Some(e.w - used);
            }
            let n = s.n(e);
            if n.op == Op::ZExt {
                return Some(e.w - n.a.w);
            }
            None
        };
        if let (Some(x), Some(y)) = (top(self, a), top(self, b)) {
            let z = x.min(y);
            if z > 0 && z < w {
                let (na, nb) = (self.extract(a, 0, w - z), self.extract(b, 0, w - z));
                let uop = match op {
                    Op::Slt => Op::Ult,
                    Op::Sle => Op::Ule,
                    o => o,
                };
                return self.cmp(uop, na, nb);
            }
        }
        match op {
            Op::Ult => {
                if b.is_zero() || (a.id == 0 && a.v == mask(w)) {
                    return E::b(false);
                }
                if b.id == 0 && b.v == 1 {
                    return self.cmp(Op::Eq, a, E::c(w, 0));
                }
                if a.id == 0 && a.v == 0 {
                    let e = self.cmp(Op::Eq, b, a);
                    return self.not(e);
                }
                if a.id != 0 && self.is(a, Op::ZExt) && b.id == 0 {
                    let n = self.n(a);
                    if b.v > mask(n.a.w) {
                        return E::b(true);
                    }
                }
                if b.id != 0 && self.is(b, Op::ZExt) && a.id == 0 {
                    let n = self.n(b);
                    if a.v >= mask(n.a.w) {
                        return E::b(false);
                    }
                }
            }
            Op::Ule => {
                if a.is_zero() || (b.id == 0 && b.v == mask(w)) {
                    return E::b(true);
                }
                if a.id == 0 {
                    // a <= b  ==  !(b < a)  ==  a-1 < b
                    return self.cmp(Op::Ult, E::c(w, a.v - 1), b);
                }
                if b.id == 0 {
                    return self.cmp(Op::Ult, a, E::c(w, b.v + 1));
                }
            }
            Op::Slt | Op::Sle => {
                // push constant comparison into ite of constants
            }
            _ => {}
        }
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            if x.id != 0 && y.id == 0 {
                let n = self.n(x);
                if n.op == Op::Ite && (n.b.id == 0 || n.c.id == 0) {
                    let (p, q) = if left {
                        (self.cmp(op, n.b, y), self.cmp(op, n.c, y))
                    } else {
                        (self.cmp(op, y, n.b), self.cmp(op, y, n.c))
                    };
                    return self.ite(n.a, p, q);
                }
            }
        }
        self.mk(op, 1, a, b, Z)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        if lo == 0 && w == a.w {
            return a;
        }
        if a.id == 0 {
            return E::c(w, a.v >> lo);
        }
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b.v as u16, w),
            Op::Concat => {
                let bw = n.b.w;
                if lo >= bw {
                    return self.extract(n.a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, bw - lo);
                let h = self.extract(n.a, 0, w - (bw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let bw = n.a.w;
                if lo >= bw {
                    return E::c(w, 0);
                }
                if lo + w <= bw {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, bw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let bw = n.a.w;
                if lo + w <= bw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Ite if n.b.id == 0 || n.c.id == 0 => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, E::raw(16, lo as u128), Z)
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let w = hi.w + lo.w;
        if hi.id == 0 && lo.id == 0 {
            return E::c(w, (hi.v << lo.w) | lo.v);
        }
        if hi.is_zero() {
            return self.zext(lo, w);
        }
        if hi.id != 0 {
            let n = self.n(hi);
            if n.op == Op::Concat {
                let l = self.concat(n.b, lo);
                return self.concat(n.a, l);
            }
            if n.op == Op::ZExt {
                let l = self.concat(n.a, lo);
                return self.zext(l, w);
            }
        }
        // try to merge `hi` with the head of `lo`
        let (head, rest) = if self.is(lo, Op::Concat) {
            let n = self.n(lo);
            (n.a, Some(n.b))
        } else {
            (lo, None)
        };
        let merged = if hi.id == 0 && head.id == 0 {
            Some(E::c(hi.w + head.w, (hi.v << head.w) | head.v))
        } else if hi.id != 0 && head.id != 0 {
            let (nh, nl) = (self.n(hi), self.n(head));
            if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b.v == nl.b.v + head.w as u128 {
                Some(self.extract(nh.a, nl.b.v as u16, hi.w + head.w))
            } else if nh.op == Op::Extract && nh.a == head && nh.b.v == head.w as u128 {
                None
            } else {
                None
            }
        } else {
            None
        };
        if let Some(m) = merged {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.mk(Op::Concat, w, hi, lo, Z)
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        if a.w == w {
            return a;
        }
        if a.id == 0 {
            return E::c(w, a.v);
        }
        let n = self.n(a);
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if n.b.id == 0 && n.c.id == 0 => return self.ite(n.a, E::c(w, n.b.v), E::c(w, n.c.v)),
            _ => {}
        }
        self.mk(Op::ZExt, w, a, Z, Z)
    }

    pub fn sext(&mut self, a: E, w: u16) -> E {
        if a.w == w {
            return a;
        }
        if a.id == 0 {
            return E::c(w, sext128(a.v, a.w) as u128);
        }
        let n = self.n(a);
        match n.op {
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if n.b.id == 0 && n.c.id == 0 => {
                return self.ite(
                    n.a,
                    E::c(w, sext128(n.b.v, a.w) as u128),
                    E::c(w, sext128(n.c.v, a.w) as u128),
                )
            }
            _ => {}
        }
        if a.w == 1 {
            return self.ite(a, E::c(w, mask(w)), E::c(w, 0));
        }
        self.mk(Op::SExt, w, a, Z, Z)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(a.w, b.w);
        if c.id == 0 {
            return if c.v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let n = self.n(c);
        if n.op == Op::Xor && n.b.id == 0 {
            return self.ite(n.a, b, a);
        }
        if a.w == 1 {
            if a.is_true() {
                return self.or(c, b);
            }
            if a.is_false() {
                let nc = self.not(c);
                return self.and(nc, b);
            }
            if b.is_true() {
                let nc = self.not(c);
                return self.or(nc, a);
            }
            if b.is_false() {
                return self.and(c, a);
            }
        }
        if self.is(a, Op::Ite) {
            let m = self.n(a);
            if m.a == c {
                return self.ite(c, m.b, b);
            }
        }
        if self.is(b, Op::Ite) {
            let m = self.n(b);
            if m.a == c {
                return self.ite(c, a, m.c);
            }
        }
        self.mk(Op::Ite, a.w, c, a, b)
    }

    /// Evaluates `e` under a concrete assignment.
    pub fn eval(&mut self, e: E, m: &[u8]) -> u128 {
        if e.id == 0 {
            return e.v;
        }
        self.epoch = self.epoch.wrapping_add(1);
        if self.epoch == 0 {
            self.memo.iter_mut().for_each(|x| x.0 = 0);
            self.epoch = 1;
        }
        self.ev(e, m)
    }

    fn ev(&mut self, e: E, m: &[u8]) -> u128 {
        if e.id == 0 {
            return e.v;
        }
        let i = e.id as usize;
        if self.memo[i].0 == self.epoch {
            return self.memo[i].1;
        }
        let n = self.nodes[i];
        let r = match n.op {
            Op::Var => m[n.a.v as usize] as u128,
            Op::Concat => {
                let h = self.ev(n.a, m);
                let l = self.ev(n.b, m);
                (h << n.b.w) | l
            }
            Op::Extract => (self.ev(n.a, m) >> n.b.v) & mask(n.w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => sext128(self.ev(n.a, m), n.a.w) as u128 & mask(n.w),
            Op::Ite => {
                if self.ev(n.a, m) == 1 {
                    self.ev(n.b, m)
                } else {
                    self.ev(n.c, m)
                }
            }
            op => {
                let a = self.ev(n.a, m);
                let b = self.ev(n.b, m);
                Self::fold(op, n.a.w, a, b).v
            }
        };
        self.memo[i] = (self.epoch, r);
        r
    }
}
