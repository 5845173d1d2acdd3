//! A small PNG encoder (every colour type of up to 8 bits, interlacing, filters) and a strict decoder
//! with its own inflate, independent of libpng and zlib.

lazy_static::lazy_static! {
    static ref CRC: Vec<u32> = (0..256u32)
        .map(|n| (0..8).fold(n, |c, _| if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 }))
        .collect();
}

pub fn crc(parts: &[&[u8]]) -> u32 {
    let mut c = !0u32;
    for p in parts {
        for b in *p {
            c = CRC[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8)
        }
    }
    !c
}

fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}

// ------------------------------------------------------------------ inflate

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    bit: u32,
}
impl<'a> Bits<'a> {
    fn bits(&mut self, n: u32) -> Result<u32, String> {
        let mut v = 0;
        for i in 0..n {
            let b = *self.d.get(self.pos).ok_or("deflate data ends early")?;
            v |= ((b as u32 >> self.bit) & 1) << i;
            self.bit += 1;
            if self.bit == 8 {
                self.bit = 0;
                self.pos += 1
            }
        }
        Ok(v)
    }
}

struct Huffman {
    counts: [u16; 16],
    symbols: Vec<u16>,
}
impl Huffman {
    fn new(lengths: &[u8]) -> Huffman {
        let mut counts = [0; 16];
        for l in lengths {
            counts[*l as usize] += 1
        }
        counts[0] = 0;
        let mut offs = [0; 16];
        for i in 1..16 {
            offs[i] = offs[i - 1] + counts[i - 1]
        }
        let mut symbols = vec![0; lengths.len()];
        for (s, l) in lengths.iter().enumerate() {
            if *l != 0 {
                symbols[offs[*l as usize] as usize] = s as u16;
                offs[*l as usize] += 1
            }
        }
        Huffman { counts, symbols }
    }
    fn read(&self, b: &mut Bits) -> Result<u16, String> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.bits(1)? as i32;
            let count = self.counts[len] as i32;
            if code - count < first {
                return Ok(self.symbols[(index + code - first) as usize]);
            }
            index += count;
            first = (first + count) << 1;
            code <<= 1
        }
        Err("bad Huffman code".into())
    }
}

pub fn inflate_zlib(d: &[u8]) -> Result<Vec<u8>, String> {
    if d.len() < 6 || d[0] & 15 != 8 || (d[0] as u32 * 256 + d[1] as u32) % 31 != 0 || d[1] & 0x20 != 0 {
        return Err("bad zlib header".into());
    }
    let mut b = Bits { d: &d[2..], pos: 0, bit: 0 };
    let mut out: Vec<u8> = vec![];
    loop {
        let last = b.bits(1)?;
        match b.bits(2)? {
            0 => {
                if b.bit > 0 {
                    b.bit = 0;
                    b.pos += 1
                }
                let len = b.bits(16)?;
                let nlen = b.bits(16)?;
                if len != !nlen & 0xffff {
                    return Err("bad stored block".into());
                }
                for _ in 0..len {
                    let x = b.bits(8)?;
                    out.push(x as u8)
                }
            }
            k @ 1..=2 => {
                let (lit, dist) = if k == 1 {
                    let mut l = vec![8u8; 144];
                    l.extend(vec![9; 112]);
                    l.extend(vec![7; 24]);
                    l.extend(vec![8; 8]);
                    (Huffman::new(&l), Huffman::new(&[5; 30]))
                } else {
                    let hlit = b.bits(5)? as usize + 257;
                    let hdist = b.bits(5)? as usize + 1;
                    let hclen = b.bits(4)? as usize + 4;
                    let order = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                    let mut cl = [0u8; 19];
                    for o in &order[..hclen] {
                        cl[*o] = b.bits(3)? as u8
                    }
                    let h = Huffman::new(&cl);
                    let mut ls: Vec<u8> = vec![];
                    while ls.len() < hlit + hdist {
                        match h.read(&mut b)? {
                            16 => {
                                let x = *ls.last().ok_or("repeat without previous")?;
                                let n = 3 + b.bits(2)?;
                                ls.extend((0..n).map(|_| x))
                            }
                            17 => {
                                let n = 3 + b.bits(3)?;
                                ls.extend((0..n).map(|_| 0))
                            }
                            18 => {
                                let n = 11 + b.bits(7)?;
                                ls.extend((0..n).map(|_| 0))
                            }
                            s => ls.push(s as u8),
                        }
                    }
                    if ls.len() != hlit + hdist {
                        return Err("bad code lengths".into());
                    }
                    (Huffman::new(&ls[..hlit]), Huffman::new(&ls[hlit..]))
                };
                loop {
                    let s = lit.read(&mut b)? as usize;
                    if s < 256 {
                        out.push(s as u8)
                    } else if s == 256 {
                        break;
                    } else {
                        let base = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
                        let extra = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
                        let dbase = [
                            1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289,
                            16385, 24577,
                        ];
                        let dextra = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];
                        let len = base.get(s - 257).ok_or("bad length")? + b.bits(extra[s - 257])?;
                        let ds = dist.read(&mut b)? as usize;
                        let dd = (dbase.get(ds).ok_or("bad distance")? + b.bits(dextra[ds])?) as usize;
                        if dd > out.len() {
                            return Err("distance too far".into());
                        }
                        for _ in 0..len {
                            let x = out[out.len() - dd];
                            out.push(x)
                        }
                    }
                }
            }
            _ => return Err("bad block type".into()),
        }
        if last == 1 {
            break;
        }
    }
    if b.bit > 0 {
        b.pos += 1
    }
    let rest = &b.d[b.pos..];
    if rest != adler(&out).to_be_bytes() {
        return Err("bad Adler-32 or data after it".into());
    }
    Ok(out)
}

pub fn deflate_stored(data: &[u8], block: usize) -> Vec<u8> {
    let mut out = vec![0x78, 0x01];
    let n = ((data.len() + block - 1) / block).max(1);
    for i in 0..n {
        let part = &data[i * block..((i + 1) * block).min(data.len())];
        out.push((i + 1 == n) as u8);
        out.extend_from_slice(&(part.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(part.len() as u16)).to_le_bytes());
        out.extend_from_slice(part)
    }
    out.extend_from_slice(&adler(data).to_be_bytes());
    out
}

// ------------------------------------------------------------------ PNG

/// One pixel: red, green, blue, alpha, not premultiplied
pub type Rgba = [u8; 4];

fn paeth(a: u8, b: u8, c: u8) -> u8 {
    let p = a as i32 + b as i32 - c as i32;
    let (pa, pb, pc) = ((p - a as i32).abs(), (p - b as i32).abs(), (p - c as i32).abs());
    if pa <= pb && pa <= pc {
        a
    } else if pb <= pc {
        b
    } else {
        c
    }
}

fn channels(color_type: u8) -> usize {
    match color_type {
        0 | 3 => 1,
        2 => 3,
        4 => 2,
        _ => 4,
    }
}

const PASSES: [(usize, usize, usize, usize); 7] = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)];

fn passes(w: usize, h: usize, interlaced: bool) -> Vec<(usize, usize, usize, usize)> {
    if interlaced {
        PASSES.iter().cloned().filter(|p| p.0 < w && p.1 < h).collect()
    } else {
        vec![(0, 0, 1, 1)]
    }
}

/// Samples (not packed) of the pixels, row by row
pub struct Raw {
    pub w: usize,
    pub h: usize,
    pub color_type: u8,
    pub depth: u8,
    pub interlaced: bool,
    pub samples: Vec<u8>,
    pub palette: Vec<[u8; 3]>,
    /// alpha of palette entries, or the transparent sample values
    pub trns: Option<Vec<u8>>,
}

impl Raw {
    pub fn chunk(out: &mut Vec<u8>, kind: &[u8], data: &[u8]) {
        out.extend_from_slice(&(data.len() as u32).to_be_bytes());
        out.extend_from_slice(kind);
        out.extend_from_slice(data);
        out.extend_from_slice(&crc(&[kind, data]).to_be_bytes())
    }

    /// `filter` gives the filter of each row, `cuts` the sizes of IDAT chunks, `extra` other chunks before IDAT and after.
    pub fn encode(&self, mut filter: impl FnMut() -> u8, block: usize, idat: usize, extra: &[(&[u8], Vec<u8>, bool)]) -> Vec<u8> {
        let ch = channels(self.color_type);
        let bits = ch * self.depth as usize;
        let bpp = (bits / 8).max(1);
        let mut data = vec![];
        for (x0, y0, dx, dy) in passes(self.w, self.h, self.interlaced) {
            let mut prev: Vec<u8> = vec![];
            for y in (y0..self.h).step_by(dy) {
                let mut row = vec![];
                let (mut acc, mut n) = (0u32, 0);
                for x in (x0..self.w).step_by(dx) {
                    for c in 0..ch {
                        let s = self.samples[(y * self.w + x) * ch + c];
                        acc = acc << self.depth | s as u32;
                        n += self.depth as u32;
                        if n == 8 {
                            row.push(acc as u8);
                            acc = 0;
                            n = 0
                        }
                    }
                }
                if n > 0 {
                    row.push((acc << (8 - n)) as u8)
                }
                prev.resize(row.len(), 0);
                let f = filter();
                data.push(f);
                for i in 0..row.len() {
                    let a = if i >= bpp { row[i - bpp] } else { 0 };
                    let b = prev[i];
                    let c = if i >= bpp { prev[i - bpp] } else { 0 };
                    let p = match f {
                        0 => 0,
                        1 => a,
                        2 => b,
                        3 => ((a as u32 + b as u32) / 2) as u8,
                        _ => paeth(a, b, c),
                    };
                    data.push(row[i].wrapping_sub(p))
                }
                prev = row
            }
        }
        let z = deflate_stored(&data, block);
        let mut out = b"\x89PNG\r\n\x1a\n".to_vec();
        let mut ihdr = vec![];
        ihdr.extend_from_slice(&(self.w as u32).to_be_bytes());
        ihdr.extend_from_slice(&(self.h as u32).to_be_bytes());
        ihdr.extend_from_slice(&[self.depth, self.color_type, 0, 0, self.interlaced as u8]);
        Self::chunk(&mut out, b"IHDR", &ihdr);
        if !self.palette.is_empty() {
            let p: Vec<u8> = self.palette.iter().flat_map(|c| c.to_vec()).collect();
            Self::chunk(&mut out, b"PLTE", &p)
        }
        if let Some(t) = &self.trns {
            let t = match self.color_type {
                3 => t.clone(),
                _ => t.iter().flat_map(|s| vec![0, *s]).collect(),
            };
            Self::chunk(&mut out, b"tRNS", &t)
        }
        for (k, d, before) in extra {
            if *before {
                Self::chunk(&mut out, k, d)
            }
        }
        for c in z.chunks(idat.max(1)) {
            Self::chunk(&mut out, b"IDAT", c)
        }
        for (k, d, before) in extra {
            if !*before {
                Self::chunk(&mut out, k, d)
            }
        }
        Self::chunk(&mut out, b"IEND", &[]);
        out
    }

    pub fn has_alpha(&self) -> bool {
        self.trns.is_some() || self.color_type == 4 || self.color_type == 6
    }

    pub fn pixels(&self) -> Vec<Rgba> {
        let ch = channels(self.color_type);
        let max = (1u32 << self.depth) - 1;
        self.samples
            .chunks(ch)
            .map(|s| {
                let key = self.color_type != 3 && self.trns.as_ref().map_or(false, |t| &t[..] == s);
                let a = if key { 0 } else { 255 };
                let wide = |v: u8| (v as u32 * 255 / max) as u8;
                match self.color_type {
                    0 => [wide(s[0]), wide(s[0]), wide(s[0]), a],
                    2 => [s[0], s[1], s[2], a],
                    3 => {
                        let c = self.palette[s[0] as usize];
                        let a = self.trns.as_ref().and_then(|t| t.get(s[0] as usize)).cloned().unwrap_or(255);
                        [c[0], c[1], c[2], a]
                    }
                    4 => [s[0], s[0], s[0], s[1]],
                    _ => [s[0], s[1], s[2], s[3]],
                }
            })
            .collect()
    }
}

/// Strict decoding of a PNG file of 8 bits per sample, RGB or RGBA (what cairo writes)
pub fn decode(bytes: &[u8]) -> Result<(usize, usize, bool, Vec<Rgba>), String> {
    if bytes.get(..8) != Some(b"\x89PNG\r\n\x1a\n") {
        return Err("bad signature".into());
    }
    let mut i = 8;
    let mut header: Option<(usize, usize, u8)> = None;
    let mut z = vec![];
    let mut idat = 0;
    loop {
        let len = u32::from_be_bytes(bytes.get(i..i + 4).ok_or("no chunk length")?.to_vec()[..].try_into().unwrap()) as usize;
        let kind = bytes.get(i + 4..i + 8).ok_or("no chunk type")?;
        let data = bytes.get(i + 8..i + 8 + len).ok_or("chunk too long")?;
        let c = bytes.get(i + 8 + len..i + 12 + len).ok_or("no CRC")?;
        if c != crc(&[kind, data]).to_be_bytes() {
            return Err("bad CRC".into());
        }
        i += 12 + len;
        match kind {
            b"IHDR" => {
                let n = |k: usize| u32::from_be_bytes(data[k..k + 4].try_into().unwrap()) as usize;
                if header.is_some() || len != 13 || data[8] != 8 || data[10..] != [0, 0, 0] {
                    return Err(format!("unexpected IHDR {:?}", data));
                }
                header = Some((n(0), n(4), data[9]))
            }
            b"IDAT" => {
                if idat == 2 {
                    return Err("IDAT chunks apart".into());
                }
                idat = 1;
                z.extend_from_slice(data)
            }
            b"IEND" => break,
            k => {
                if idat == 1 {
                    idat = 2
                }
                if k[0] & 0x20 == 0 {
                    return Err("unexpected critical chunk".into());
                }
            }
        }
    }
    if i != bytes.len() {
        return Err("data after IEND".into());
    }
    let (w, h, ct) = header.ok_or("no IHDR")?;
    let alpha = match ct {
        2 => false,
        6 => true,
        _ => return Err(format!("colour type {}", ct)),
    };
    let ch = channels(ct);
    let data = inflate_zlib(&z)?;
    if data.len() != h * (1 + w * ch) {
        return Err("wrong amount of data".into());
    }
    let mut prev = vec![0u8; w * ch];
    let mut out = vec![];
    for r in data.chunks(1 + w * ch) {
        let mut row = r[1..].to_vec();
        for i in 0..row.len() {
            let a = if i >= ch { row[i - ch] } else { 0 };
            let b = prev[i];
            let c = if i >= ch { prev[i - ch] } else { 0 };
            let p = match r[0] {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u32 + b as u32) / 2) as u8,
                4 => paeth(a, b, c),
                _ => return Err("bad filter".into()),
            };
            row[i] = row[i].wrapping_add(p)
        }
        out.extend(row.chunks(ch).map(|p| [p[0], p[1], p[2], if alpha { p[3] } else { 255 }]));
        prev = row
    }
    Ok((w, h, alpha, out))
}
use std::convert::TryInto;
