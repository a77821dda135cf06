//! Reference model of the DNS wire format, written from RFC 1035 / RFC 6762 and not from the
//! implementation.  It works on absolute offsets into the message.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum E {
    Eof,
    Loop,
    Invalid,
}

pub const MAXL: usize = 24;

/// A decoded name: (offset, length) of each label in the message.
#[derive(Clone, Copy)]
pub struct Name {
    pub n: usize,
    pub l: [(usize, usize); MAXL],
    /// offset of the first byte behind the name in its own place
    pub next: usize,
}

/// Decodes the name that starts at `pos`; bytes at or after `end` do not exist.
pub fn name(m: &[u8], end: usize, pos: usize) -> Result<Name, E> {
    let mut out = Name { n: 0, l: [(0, 0); MAXL], next: 0 };
    let mut seg = pos; // start of the run of labels being read
    let mut p = pos;
    let mut jumped = false;
    loop {
        if p >= end {
            return Err(E::Eof);
        }
        let b = m[p];
        if b & 0xC0 == 0xC0 {
            if p + 1 >= end {
                return Err(E::Eof);
            }
            let t = (((b & 0x3F) as usize) << 8) | m[p + 1] as usize;
            if t >= seg {
                return Err(E::Loop);
            }
            if !jumped {
                out.next = p + 2;
                jumped = true;
            }
            seg = t;
            p = t;
        } else if b & 0xC0 != 0 {
            return Err(E::Invalid);
        } else {
            let len = b as usize;
            p += 1;
            if len == 0 {
                if !jumped {
                    out.next = p;
                }
                return Ok(out);
            }
            if p + len > end {
                return Err(E::Eof);
            }
            if out.n < MAXL {
                out.l[out.n] = (p, len);
            }
            out.n += 1;
            p += len;
        }
    }
}

pub fn be16(m: &[u8], end: usize, p: usize) -> Result<u16, E> {
    if p + 2 > end {
        return Err(E::Eof);
    }
    Ok((m[p] as u16) << 8 | m[p + 1] as u16)
}
pub fn be32(m: &[u8], end: usize, p: usize) -> Result<u32, E> {
    if p + 4 > end {
        return Err(E::Eof);
    }
    Ok((m[p] as u32) << 24 | (m[p + 1] as u32) << 16 | (m[p + 2] as u32) << 8 | m[p + 3] as u32)
}

pub struct Q {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub next: usize,
}

pub fn question(m: &[u8], pos: usize) -> Result<Q, E> {
    let n = name(m, m.len(), pos)?;
    let ty = be16(m, m.len(), n.next)?;
    let class = be16(m, m.len(), n.next + 2)?;
    Ok(Q { next: n.next + 4, name: n, ty, class })
}

pub struct Rr {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub ttl: u32,
    pub rdata: usize,
    pub rdlen: usize,
    pub next: usize,
}

pub fn rr(m: &[u8], pos: usize) -> Result<Rr, E> {
    let n = name(m, m.len(), pos)?;
    let p = n.next;
    let ty = be16(m, m.len(), p)?;
    let class = be16(m, m.len(), p + 2)?;
    let ttl = be32(m, m.len(), p + 4)?;
    let rdlen = be16(m, m.len(), p + 8)? as usize;
    let rdata = p + 10;
    if rdata + rdlen > m.len() {
        return Err(E::Eof);
    }
    Ok(Rr { name: n, ty, class, ttl, rdata, rdlen, next: rdata + rdlen })
}

pub fn need(end: usize, p: usize, n: usize) -> Result<usize, E> {
    if p + n > end {
        Err(E::Eof)
    } else {
        Ok(p + n)
    }
}

/// A sequence of character-strings filling `p..end` exactly.
pub fn strings(m: &[u8], end: usize, mut p: usize) -> Result<usize, E> {
    while p < end {
        p = need(end, p + 1, m[p] as usize)?;
    }
    Ok(p)
}

/// The state of a record's data: complete, malformed, or complete with bytes left over.
#[derive(Clone, Copy, PartialEq)]
pub enum Data {
    Good,
    Bad,
    Left,
    /// a type that is not decoded
    Other,
}

pub fn rdata(m: &[u8], s: &Rr) -> Data {
    let end = s.rdata + s.rdlen;
    let p = s.rdata;
    let used = match s.ty {
        1 => need(end, p, 4),
        28 => need(end, p, 16),
        2 | 5 | 12 => name(m, end, p).map(|n| n.next),
        15 => need(end, p, 2).and_then(|q| name(m, end, q)).map(|n| n.next),
        33 => need(end, p, 6).and_then(|q| name(m, end, q)).map(|n| n.next),
        6 => name(m, end, p).and_then(|n| name(m, end, n.next)).and_then(|n| need(end, n.next, 20)),
        16 => strings(m, end, p),
        _ => return Data::Other,
    };
    match used {
        Err(_) => Data::Bad,
        Ok(u) if u == end => Data::Good,
        Ok(_) => Data::Left,
    }
}
