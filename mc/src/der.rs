//! DER building blocks and a strict DER reader, for reference encodings.
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len(body.len()));
    o.extend_from_slice(body);
    o
}
pub fn len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b = n.to_be_bytes();
    let b: Vec<u8> = b.iter().copied().skip_while(|x| *x == 0).collect();
    let mut o = vec![0x80 | b.len() as u8];
    o.extend(b);
    o
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
/// non-negative integer from big-endian magnitude
pub fn uint(be: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = be.iter().copied().skip_while(|x| *x == 0).collect();
    if v.is_empty() || v[0] & 0x80 != 0 {
        v.insert(0, 0);
    }
    tlv(2, &v)
}
pub fn int_raw(b: &[u8]) -> Vec<u8> {
    tlv(2, b)
}
pub fn octets(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(b);
    tlv(3, &v)
}
pub fn null() -> Vec<u8> {
    vec![5, 0]
}
pub fn oid(body: &[u8]) -> Vec<u8> {
    tlv(6, body)
}
pub const OID_EC: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x02, 0x01];
pub const OID_P256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x03, 0x01, 0x07];
pub const OID_P384: &[u8] = &[0x2b, 0x81, 0x04, 0x00, 0x22];
pub const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01];
pub const OID_ED25519: &[u8] = &[0x2b, 0x65, 0x70];

/// Strict DER reader.
#[derive(Clone, Copy)]
pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn peek(&self) -> Option<u8> {
        self.0.first().copied()
    }
    pub fn take(&mut self, tag: u8) -> Option<&'a [u8]> {
        if *self.0.first()? != tag {
            return None;
        }
        self.any().map(|x| x.1)
    }
    pub fn any(&mut self) -> Option<(u8, &'a [u8])> {
        let tag = *self.0.first()?;
        if tag & 0x1f == 0x1f {
            return None;
        }
        let l = *self.0.get(1)? as usize;
        let (n, h) = if l < 0x80 {
            (l, 2)
        } else {
            let k = l & 0x7f;
            if k == 0 || k > 4 {
                return None;
            }
            let b = self.0.get(2..2 + k)?;
            if b[0] == 0 {
                return None;
            }
            let n = b.iter().fold(0usize, |a, x| a << 8 | *x as usize);
            if n < 0x80 {
                return None;
            }
            (n, 2 + k)
        };
        let body = self.0.get(h..h.checked_add(n)?)?;
        self.0 = &self.0[h + n..];
        Some((tag, body))
    }
    pub fn seq(&mut self) -> Option<R<'a>> {
        self.take(0x30).map(R)
    }
    /// minimal INTEGER, raw content octets
    pub fn int(&mut self) -> Option<&'a [u8]> {
        let b = self.take(2)?;
        if b.is_empty() {
            return None;
        }
        if b.len() > 1 && ((b[0] == 0 && b[1] & 0x80 == 0) || (b[0] == 0xff && b[1] & 0x80 != 0)) {
            return None;
        }
        Some(b)
    }
    /// minimal non-negative INTEGER as magnitude without leading zeros
    pub fn uint(&mut self) -> Option<&'a [u8]> {
        let b = self.int()?;
        if b[0] & 0x80 != 0 {
            return None;
        }
        Some(if b[0] == 0 { &b[1..] } else { b })
    }
    /// BIT STRING with no unused bits
    pub fn bits(&mut self) -> Option<&'a [u8]> {
        let b = self.take(3)?;
        if *b.first()? != 0 {
            return None;
        }
        Some(&b[1..])
    }
}
