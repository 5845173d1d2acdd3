//! Reference TrueType model: generator of valid fonts together with their meaning, and an
//! independent reader for the font that Victor ships.
use crate::engine::G;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum SegKind {
    /// glyph = code + delta (mod 2^16)
    Delta(u16),
    /// explicit glyph array (raw value, 0 = missing) plus delta
    Array(u16, Vec<u16>),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub start: u16,
    pub end: u16,
    pub kind: SegKind,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub start: u32,
    pub end: u32,
    pub glyph: u32,
}

#[derive(Clone, Debug)]
pub enum Sub {
    F4(Vec<Seg>),
    F12(Vec<Group>),
    /// an unsupported format, with junk contents
    Other(u16),
}

#[derive(Clone, Debug)]
pub struct CmapRec {
    pub platform: u16,
    pub encoding: u16,
    pub sub: Sub,
}

#[derive(Clone, Debug)]
pub struct NameRec {
    pub platform: u16,
    pub encoding: u16,
    pub name_id: u16,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub scaler: u32,
    pub upem: u16,
    pub ascender: i16,
    pub descender: i16,
    pub bbox: [i16; 4],
    pub glyph_count: u16,
    /// long metrics; glyphs past the end use the last one
    pub advances: Vec<u16>,
    pub cmaps: Vec<CmapRec>,
    pub names: Vec<NameRec>,
    pub ps_name: Option<String>,
    pub extra_tables: Vec<([u8; 4], Vec<u8>)>,
    pub missing: Option<[u8; 4]>,
    pub pad: usize,
    /// tables are laid out in the file in this rotation of tag order
    pub rotate: usize,
    pub layout: Layout,
}

/// What the format leaves open about where things are inside of a table
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// between the name records and the strings
    pub name_gap: usize,
    /// strings in reverse order
    pub names_reversed: bool,
    /// equal strings, and equal character maps, are stored once
    pub share: bool,
    /// between the subtable records and the subtables
    pub cmap_gap: usize,
    pub cmaps_reversed: bool,
    /// before the glyph array of format 4, and language fields
    pub f4_gap: usize,
    pub language: u16,
    /// equal glyph arrays of format 4 are stored once
    pub share_arrays: bool,
}

fn seg_glyph(s: &Seg, c: u16) -> u16 {
    match &s.kind {
        SegKind::Delta(d) => c.wrapping_add(*d),
        SegKind::Array(d, a) => {
            let raw = a[(c - s.start) as usize];
            if raw == 0 {
                0
            } else {
                raw.wrapping_add(*d)
            }
        }
    }
}

impl Spec {
    /// The encoding record a conforming reader prefers: the last supported one.
    pub fn chosen(&self) -> Option<&Sub> {
        self.cmaps
            .iter()
            .rev()
            .find(|r| match (r.platform, r.encoding, &r.sub) {
                (3, 1, Sub::F4(_)) => true,
                (3, 10, Sub::F12(_)) => true,
                _ => false,
            })
            .map(|r| &r.sub)
    }
    pub fn glyph(&self, ch: char) -> u16 {
        let c = ch as u32;
        match self.chosen() {
            Some(Sub::F4(segs)) => {
                if c > 0xffff {
                    return 0;
                }
                let c = c as u16;
                // the first segment whose end code is >= c
                match segs.iter().find(|s| s.end >= c) {
                    Some(s) if s.start <= c => seg_glyph(s, c),
                    _ => 0,
                }
            }
            Some(Sub::F12(groups)) => groups
                .iter()
                .find(|g| g.start <= c && c <= g.end)
                .map(|g| g.glyph as u64 + (c - g.start) as u64)
                .filter(|g| *g <= 0xffff)
                .map_or(0, |g| g as u16),
            _ => 0,
        }
    }
    /// every (character, glyph) with a non-zero glyph
    pub fn all(&self) -> BTreeMap<char, u16> {
        let mut m = BTreeMap::new();
        let mut put = |c: u32| {
            if let Some(ch) = std::char::from_u32(c) {
                let g = self.glyph(ch);
                if g != 0 {
                    m.insert(ch, g);
                }
            }
        };
        match self.chosen() {
            Some(Sub::F4(segs)) => {
                for s in segs {
                    for c in s.start as u32..=s.end as u32 {
                        put(c)
                    }
                }
            }
            Some(Sub::F12(groups)) => {
                for g in groups {
                    for c in g.start..=g.end.min(0x10ffff) {
                        put(c)
                    }
                }
            }
            _ => {}
        }
        m
    }
    pub fn advance_units(&self, glyph: u16) -> Option<u16> {
        let last = self.advances.len().checked_sub(1)?;
        Some(self.advances[(glyph as usize).min(last)])
    }
    /// in em
    pub fn advance(&self, glyph: u16) -> Option<f64> {
        Some(self.advance_units(glyph)? as f64 / self.upem as f64)
    }

    pub fn build(&self) -> Vec<u8> {
        let mut tables: Vec<([u8; 4], Vec<u8>)> = vec![
            (*b"cmap", self.cmap_table()),
            (*b"head", self.head()),
            (*b"hhea", self.hhea()),
            (*b"hmtx", self.hmtx()),
            (*b"maxp", {
                let mut v = vec![];
                p32(&mut v, 0x00010000);
                p16(&mut v, self.glyph_count);
                v.extend(&[0; 26]);
                v
            }),
            (*b"name", self.name_table()),
        ];
        tables.extend(self.extra_tables.iter().cloned());
        if let Some(m) = self.missing {
            tables.retain(|t| t.0 != m);
        }
        tables.sort();
        tables.dedup_by_key(|t| t.0);
        let n = tables.len();
        let mut v = vec![];
        p32(&mut v, self.scaler);
        p16(&mut v, n as u16);
        let es = (n as f64).log2() as u16;
        p16(&mut v, (1 << es) * 16);
        p16(&mut v, es);
        p16(&mut v, (n as u16) * 16 - (1 << es) * 16);
        let dir = v.len();
        v.resize(dir + 16 * n, 0);
        for k in 0..n {
            let i = (k + self.rotate) % n;
            while v.len() % 4 != 0 {
                v.push(0)
            }
            for _ in 0..self.pad {
                v.push(0xAA)
            }
            while v.len() % 4 != 0 {
                v.push(0)
            }
            let off = v.len() as u32;
            let t = &tables[i];
            v.extend(&t.1);
            let e = dir + 16 * i;
            v[e..e + 4].copy_from_slice(&t.0);
            v[e + 4..e + 8].copy_from_slice(&0xdeadbeefu32.to_be_bytes());
            v[e + 8..e + 12].copy_from_slice(&off.to_be_bytes());
            v[e + 12..e + 16].copy_from_slice(&(t.1.len() as u32).to_be_bytes());
        }
        v.extend(&[0; 4]);
        v
    }

    fn head(&self) -> Vec<u8> {
        let mut v = vec![];
        p32(&mut v, 0x00010000);
        p32(&mut v, 0x00020000);
        p32(&mut v, 0x12345678);
        p32(&mut v, 0x5F0F3CF5);
        p16(&mut v, 0x000b);
        p16(&mut v, self.upem);
        v.extend(&[1, 2, 3, 4, 5, 6, 7, 8]);
        v.extend(&[8, 7, 6, 5, 4, 3, 2, 1]);
        for b in &self.bbox {
            p16(&mut v, *b as u16)
        }
        p16(&mut v, 3);
        p16(&mut v, 9);
        p16(&mut v, 2);
        p16(&mut v, 1);
        p16(&mut v, 0);
        v
    }
    fn hhea(&self) -> Vec<u8> {
        let mut v = vec![];
        p32(&mut v, 0x00010000);
        p16(&mut v, self.ascender as u16);
        p16(&mut v, self.descender as u16);
        p16(&mut v, 77); // lineGap
        p16(&mut v, 1234); // advanceWidthMax
        for x in &[5, 6, 7, 1, 0, 0] {
            p16(&mut v, *x) // min lsb, min rsb, max extent, caret rise, run, offset
        }
        for _ in 0..4 {
            p16(&mut v, 0)
        }
        p16(&mut v, 0); // metricDataFormat
        p16(&mut v, self.advances.len() as u16);
        assert_eq!(v.len(), 36);
        v
    }
    fn hmtx(&self) -> Vec<u8> {
        let mut v = vec![];
        for (i, a) in self.advances.iter().enumerate() {
            p16(&mut v, *a);
            p16(&mut v, (i as u16).wrapping_mul(31)); // lsb
        }
        for i in self.advances.len()..self.glyph_count as usize {
            p16(&mut v, (i as u16).wrapping_mul(17));
        }
        v
    }
    fn name_table(&self) -> Vec<u8> {
        let l = &self.layout;
        let count = self.names.len();
        let mut storage: Vec<u8> = vec![];
        let mut at = vec![None; count];
        for k in 0..count {
            let i = if l.names_reversed { count - 1 - k } else { k };
            let bytes = &self.names[i].bytes;
            let same = (0..count).find(|&j| at[j].is_some() && self.names[j].bytes == *bytes);
            at[i] = match same {
                Some(j) if l.share => at[j],
                _ => {
                    storage.extend(bytes);
                    Some(storage.len() - bytes.len())
                }
            };
        }
        let mut v = vec![];
        p16(&mut v, 0);
        p16(&mut v, count as u16);
        p16(&mut v, (6 + 12 * count + l.name_gap) as u16);
        for (i, n) in self.names.iter().enumerate() {
            p16(&mut v, n.platform);
            p16(&mut v, n.encoding);
            p16(&mut v, if n.platform == 3 { 0x409 } else { 0 });
            p16(&mut v, n.name_id);
            p16(&mut v, n.bytes.len() as u16);
            p16(&mut v, at[i].unwrap() as u16);
        }
        v.extend((0..l.name_gap).map(|i| b"Gap"[i % 3]));
        v.extend(storage);
        v
    }
    fn cmap_table(&self) -> Vec<u8> {
        let l = &self.layout;
        let count = self.cmaps.len();
        let mut body = vec![];
        let mut at: Vec<Option<(usize, Vec<u8>)>> = vec![None; count];
        for k in 0..count {
            let i = if l.cmaps_reversed { count - 1 - k } else { k };
            let mut sub = vec![];
            match &self.cmaps[i].sub {
                Sub::F4(segs) => sub.extend(f4(segs, l)),
                Sub::F12(groups) => {
                    p16(&mut sub, 12);
                    p16(&mut sub, 0);
                    p32(&mut sub, 16 + 12 * groups.len() as u32);
                    p32(&mut sub, l.language as u32);
                    p32(&mut sub, groups.len() as u32);
                    for g in groups {
                        p32(&mut sub, g.start);
                        p32(&mut sub, g.end);
                        p32(&mut sub, g.glyph);
                    }
                }
                Sub::Other(f) => {
                    p16(&mut sub, *f);
                    p16(&mut sub, 262);
                    p16(&mut sub, 0);
                    for i in 0..256u32 {
                        sub.push((i * 7) as u8)
                    }
                }
            }
            let same = at.iter().flatten().find(|(_, s)| *s == sub).map(|(o, _)| *o);
            let offset = match same {
                Some(o) if l.share => o,
                _ => {
                    while body.len() % 4 != 0 {
                        body.push(0)
                    }
                    let o = body.len();
                    body.extend(&sub);
                    o
                }
            };
            at[i] = Some((offset, sub));
        }
        let mut v = vec![];
        p16(&mut v, 0);
        p16(&mut v, count as u16);
        for (i, r) in self.cmaps.iter().enumerate() {
            p16(&mut v, r.platform);
            p16(&mut v, r.encoding);
            p32(&mut v, (4 + 8 * count + l.cmap_gap + at[i].as_ref().unwrap().0) as u32);
        }
        v.extend((0..l.cmap_gap).map(|i| [0, 4, 0, 12][i % 4]));
        v.extend(body);
        v
    }
}

fn f4(segs: &[Seg], l: &Layout) -> Vec<u8> {
    let n = segs.len();
    let mut v = vec![];
    let mut glyphs: Vec<u16> = vec![0x0101; l.f4_gap];
    let mut ros = vec![];
    for (i, s) in segs.iter().enumerate() {
        match &s.kind {
            SegKind::Delta(_) => ros.push(0),
            SegKind::Array(_, a) => {
                // offset from the position of this idRangeOffset word
                let shared = (l.f4_gap..glyphs.len()).find(|&k| l.share_arrays && glyphs[k..].starts_with(a));
                let start = shared.unwrap_or(glyphs.len());
                ros.push((2 * (n - i) + 2 * start) as u16);
                if shared.is_none() {
                    glyphs.extend(a)
                }
            }
        }
    }
    let len = 16 + 8 * n + 2 * glyphs.len();
    p16(&mut v, 4);
    p16(&mut v, len.min(0xffff) as u16);
    p16(&mut v, l.language);
    p16(&mut v, 2 * n as u16);
    let es = (n as f64).log2() as u16;
    p16(&mut v, 2 << es);
    p16(&mut v, es);
    p16(&mut v, (2 * n as u16).wrapping_sub(2 << es));
    for s in segs {
        p16(&mut v, s.end)
    }
    p16(&mut v, 0);
    for s in segs {
        p16(&mut v, s.start)
    }
    for s in segs {
        p16(
            &mut v,
            match s.kind {
                SegKind::Delta(d) => d,
                SegKind::Array(d, _) => d,
            },
        )
    }
    for r in ros {
        p16(&mut v, r)
    }
    for g in glyphs {
        p16(&mut v, g)
    }
    v
}

fn p16(v: &mut Vec<u8>, x: u16) {
    v.extend(&x.to_be_bytes())
}
fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend(&x.to_be_bytes())
}

// ------------------------------------------------------------------ generator

fn gen_f4(g: &mut G, glyph_count: u16) -> Vec<Seg> {
    let mut segs: Vec<Seg> = vec![];
    let mut at: u32 = match g.weighted(&[6, 1]) {
        0 => *g.pick(&[0x20u32, 0, 0x41, 0x61, 0x300]),
        _ => *g.pick(&[0x7f00u32, 0x8000, 0xd7f0, 0xe000, 0xfe00, 0xfff0]),
    };
    let most = *g.pick(&[2usize, 3, 6, 20]);
    // now and then a great many short segments
    let many = g.chance(4);
    let n = if many { g.us(100, 1200) } else { g.us(0, most) };
    for _ in 0..n {
        if many {
            let start = at + g.upto(3) as u32;
            let end = start + g.upto(2) as u32;
            if end >= 0xffff {
                break;
            }
            let first = g.upto(glyph_count as u64 - 1) as u16;
            let kind = if first as u32 + (end - start) < glyph_count as u32 {
                SegKind::Delta(first.wrapping_sub(start as u16))
            } else {
                SegKind::Array(0, (start..=end).map(|_| first).collect())
            };
            segs.push(Seg { start: start as u16, end: end as u16, kind });
            at = end + 1;
            continue;
        }
        let gap = match g.weighted(&[4, 2, 3, 2, 1]) {
            0 => 0,
            1 => 1,
            2 => g.int(0, 20) as u32,
            3 => g.int(0, 3000) as u32,
            _ => g.int(0, 30000) as u32,
        };
        let len = match g.weighted(&[3, 6, 3, 1]) {
            0 => 1,
            1 => g.int(1, 12) as u32,
            2 => g.int(1, 120) as u32,
            _ => g.int(1, 2500) as u32,
        };
        let start = at + gap;
        let end = start + len - 1;
        if end >= 0xffff {
            break;
        }
        let (start, end) = (start as u16, end as u16);
        let kind = if len <= glyph_count as u32 && g.chance(50) {
            // consecutive glyphs; may include glyph 0 at its first code
            let first = g.int(0, glyph_count as i64 - len as i64) as u16;
            SegKind::Delta(first.wrapping_sub(start))
        } else {
            let delta = match g.weighted(&[4, 2, 1]) {
                0 => 0,
                1 => g.int(1, 50) as u16,
                _ => (-g.int(1, 50)) as i16 as u16,
            };
            let a = (0..len)
                .map(|i| {
                    if len > 200 {
                        // cheap deterministic contents for long segments
                        let target = (i.wrapping_mul(7) % glyph_count as u32) as u16;
                        return if target == 0 { 0 } else { raw_for(target, delta) };
                    }
                    if g.chance(15) {
                        0
                    } else {
                        raw_for(g.int(0, glyph_count as i64 - 1) as u16, delta)
                    }
                })
                .collect();
            SegKind::Array(delta, a)
        };
        segs.push(Seg { start, end, kind });
        at = end as u32 + 1;
    }
    // mandatory last segment
    segs.push(Seg { start: 0xffff, end: 0xffff, kind: SegKind::Delta(1) });
    segs
}

/// raw array value that yields `target` (target 0 with a raw non-zero value is legal when
/// delta != 0 but 0 then means a mapping to .notdef)
fn raw_for(target: u16, delta: u16) -> u16 {
    target.wrapping_sub(delta)
}

fn gen_f12(g: &mut G, glyph_count: u16) -> Vec<Group> {
    let mut v = vec![];
    let mut at: u32 = *g.pick(&[0x20u32, 0, 0x41, 0x61, 0xfff0, 0x1f600]);
    let most = *g.pick(&[2usize, 3, 6, 20]);
    let many = g.chance(4);
    let n = if many { g.us(100, 1200) } else { g.us(0, most) };
    for _ in 0..n {
        if many {
            let start = at + g.upto(3) as u32;
            let end = start + g.upto(2) as u32;
            let glyph = g.upto(glyph_count as u64 - 1) as u32;
            if end > 0x10ffff {
                break;
            }
            if glyph + (end - start) < glyph_count as u32 {
                v.push(Group { start, end, glyph });
            }
            at = end + 1;
            continue;
        }
        let gap = match g.weighted(&[4, 2, 3, 2, 1, 1]) {
            0 => 0,
            1 => 1,
            2 => g.int(0, 20) as u32,
            3 => g.int(0, 3000) as u32,
            4 => g.int(0, 30000) as u32,
            _ => g.int(0, 0x80000) as u32,
        };
        let len = match g.weighted(&[3, 6, 3, 1]) {
            0 => 1,
            1 => g.int(1, 12) as u32,
            2 => g.int(1, 120) as u32,
            _ => g.int(1, 2500) as u32,
        };
        let start = at + gap;
        let end = start + len - 1;
        if end > 0x10ffff {
            break;
        }
        let glyph = if glyph_count as u32 > len {
            g.int(0, (glyph_count as u32 - len) as i64) as u32
        } else {
            0
        };
        if glyph + len > 0x10000 {
            break;
        }
        v.push(Group { start, end, glyph });
        at = end + 1;
    }
    v
}

pub fn ps_name(g: &mut G) -> String {
    // ASCII, as OpenType says; but fonts do not always keep to "no delimiters"
    let chars: Vec<char> = "ABCxyz019-_.+#&'*,:;=?@^`|~!\"$\\%/()<>[]{} ".chars().collect();
    g.list(1, 6, 20, |g| match g.weighted(&[12, 7, 1]) {
        0 => *g.pick(&['A', 'b', '7', '-']),
        1 => *g.pick(&chars),
        _ => g.int(1, 0x7f) as u8 as char,
    })
    .into_iter()
    .collect()
}

pub fn gen(g: &mut G) -> Spec {
    let glyph_count = match g.weighted(&[50, 30, 10, 2]) {
        0 => g.int(1, 40),
        1 => g.int(1, 300),
        2 => g.int(1, 3000),
        _ => g.int(3000, 65535),
    } as u16;
    let nhm = match g.weighted(&[4, 3, 1]) {
        0 => glyph_count,
        1 => g.int(1, glyph_count as i64) as u16,
        _ => 1,
    };
    let advances: Vec<u16> = (0..nhm)
        .map(|i| {
            if nhm > 400 {
                (i.wrapping_mul(37)) % 2048
            } else {
                match g.weighted(&[6, 1, 1]) {
                    0 => g.int(0, 2048) as u16,
                    1 => 0,
                    _ => g.int(0, 65535) as u16,
                }
            }
        })
        .collect();
    let upem = match g.weighted(&[3, 3, 3, 1]) {
        0 => 1000,
        1 => 2048,
        2 => g.int(16, 16384) as u16,
        _ => g.int(1, 65535) as u16,
    };
    let mut cmaps = vec![];
    if g.chance(40) {
        cmaps.push(CmapRec { platform: 0, encoding: 3, sub: Sub::F4(gen_f4(g, glyph_count)) });
    }
    if g.chance(40) {
        cmaps.push(CmapRec { platform: 1, encoding: 0, sub: Sub::Other(*g.pick(&[0u16, 6])) });
    }
    if g.chance(15) {
        cmaps.push(CmapRec { platform: 3, encoding: 0, sub: Sub::F4(gen_f4(g, glyph_count)) });
    }
    let which = g.weighted(&[5, 3, 3]);
    if which == 0 || which == 2 {
        let sub = match cmaps.get(0) {
            Some(r) if r.platform == 0 && g.chance(30) => r.sub.clone(),
            _ => Sub::F4(gen_f4(g, glyph_count)),
        };
        cmaps.push(CmapRec { platform: 3, encoding: 1, sub });
    } else if g.chance(20) {
        // the format is not the one supported for this encoding
        let sub = if g.chance(50) { Sub::Other(*g.pick(&[6u16, 0, 2])) } else { Sub::F12(gen_f12(g, glyph_count)) };
        cmaps.push(CmapRec { platform: 3, encoding: 1, sub });
    }
    if which == 0 && g.chance(20) {
        let sub = if g.chance(50) { Sub::Other(*g.pick(&[13u16, 10, 8, 6])) } else { Sub::F4(gen_f4(g, glyph_count)) };
        cmaps.push(CmapRec { platform: 3, encoding: 10, sub });
    }
    if which == 1 || which == 2 {
        cmaps.push(CmapRec { platform: 3, encoding: 10, sub: Sub::F12(gen_f12(g, glyph_count)) });
    }
    if g.chance(10) {
        cmaps.push(CmapRec { platform: 3, encoding: 11, sub: Sub::Other(13) });
    }
    let name = ps_name(g);
    let mut names = vec![];
    let mac = g.chance(60);
    // the name is in ASCII, whatever the script
    let mac_encoding = if g.chance(25) { *g.pick(&[1u16, 2, 7, 25, 32]) } else { 0 };
    let ms = !mac || g.chance(60);
    let ucs2 = |s: &str| s.encode_utf16().flat_map(|u| u.to_be_bytes().to_vec()).collect::<Vec<u8>>();
    for id in 0..8u16 {
        if mac && (id == 6 || g.chance(25)) {
            names.push(NameRec {
                platform: 1,
                encoding: mac_encoding,
                name_id: id,
                bytes: if id == 6 { name.clone().into_bytes() } else { b"Some other string"[..].to_vec() },
            });
        }
    }
    for id in 0..8u16 {
        if ms && (id == 6 || g.chance(25)) {
            names.push(NameRec {
                platform: 3,
                encoding: 1,
                name_id: id,
                bytes: if id == 6 { ucs2(&name) } else { ucs2("Another string") },
            });
        }
    }
    if g.chance(20) {
        // (0, 3) comes first in sort order and is not a supported encoding for the name
        names.insert(0, NameRec { platform: 0, encoding: 3, name_id: 6, bytes: ucs2("Wrong") });
    }
    let mut extra_tables = vec![];
    for t in &[*b"OS/2", *b"glyf", *b"loca", *b"post", *b"cvt ", *b"zzzz"] {
        if g.chance(35) {
            let n = g.us(0, 40);
            extra_tables.push((*t, vec![0x55; n]));
        }
    }
    Spec {
        scaler: *g.pick(&[0x00010000u32, 0x74727565]),
        upem,
        ascender: g.int(-200, 3000) as i16,
        descender: g.int(-3000, 200) as i16,
        bbox: [
            g.int(-3000, 100) as i16,
            g.int(-3000, 100) as i16,
            g.int(0, 8000) as i16,
            g.int(0, 8000) as i16,
        ],
        glyph_count,
        advances,
        cmaps,
        names,
        ps_name: Some(name),
        extra_tables,
        missing: None,
        pad: *g.pick(&[0usize, 4, 20]),
        rotate: g.us(0, 5),
        layout: if g.chance(40) {
            Layout::default()
        } else {
            Layout {
                name_gap: *g.pick(&[0usize, 0, 1, 6, 12, 37]),
                names_reversed: g.chance(50),
                share: g.chance(50),
                cmap_gap: *g.pick(&[0usize, 0, 4, 8, 20]),
                cmaps_reversed: g.chance(50),
                f4_gap: *g.pick(&[0usize, 0, 1, 5]),
                language: *g.pick(&[0u16, 0, 1, 12]),
                share_arrays: g.chance(50),
            }
        },
    }
}

/// A small fully-mapped font for layout-like uses: every ASCII printable character has a glyph.
pub fn gen_simple(g: &mut G) -> Spec {
    let mut s = gen(g);
    let n = 96u16;
    s.glyph_count = n;
    s.advances = (0..n).map(|_| g.int(0, 1500) as u16).collect();
    s.cmaps = vec![CmapRec {
        platform: 3,
        encoding: 1,
        sub: Sub::F4(vec![
            Seg { start: 0x20, end: 0x7e, kind: SegKind::Delta(1u16.wrapping_sub(0x20)) },
            Seg { start: 0xffff, end: 0xffff, kind: SegKind::Delta(1) },
        ]),
    }];
    s
}

// ------------------------------------------------------------------ independent reader

fn r16(b: &[u8], o: usize) -> u16 {
    (b[o] as u16) << 8 | b[o + 1] as u16
}
fn r32(b: &[u8], o: usize) -> u32 {
    (r16(b, o) as u32) << 16 | r16(b, o + 2) as u32
}

pub struct RefFont {
    pub upem: f64,
    pub ascender: f64,
    pub descender: f64,
    pub map: BTreeMap<char, u16>,
    pub advances: Vec<f64>,
    pub glyph_count: u16,
}

impl RefFont {
    /// well-formed fonts only
    pub fn read(b: &[u8]) -> RefFont {
        let n = r16(b, 4) as usize;
        let table = |tag: &[u8; 4]| -> usize {
            (0..n)
                .map(|i| 12 + 16 * i)
                .find(|o| &b[*o..*o + 4] == tag)
                .map(|o| r32(b, o + 8) as usize)
                .expect("table")
        };
        let head = table(b"head");
        let hhea = table(b"hhea");
        let hmtx = table(b"hmtx");
        let maxp = table(b"maxp");
        let cmap = table(b"cmap");
        let upem = r16(b, head + 18) as f64;
        let nhm = r16(b, hhea + 34) as usize;
        let glyph_count = r16(b, maxp + 4);
        let advances = (0..glyph_count as usize)
            .map(|i| r16(b, hmtx + 4 * i.min(nhm - 1)) as f64 / upem)
            .collect();
        let mut map = BTreeMap::new();
        for i in 0..r16(b, cmap + 2) as usize {
            let e = cmap + 4 + 8 * i;
            if r16(b, e) == 3 && r16(b, e + 2) == 1 {
                let t = cmap + r32(b, e + 4) as usize;
                if r16(b, t) == 4 {
                    let sc = r16(b, t + 6) as usize / 2;
                    for s in 0..sc {
                        let end = r16(b, t + 14 + 2 * s);
                        let start = r16(b, t + 16 + 2 * sc + 2 * s);
                        let delta = r16(b, t + 16 + 4 * sc + 2 * s);
                        let rop = t + 16 + 6 * sc + 2 * s;
                        let ro = r16(b, rop) as usize;
                        for c in start as u32..=end as u32 {
                            let g = if ro == 0 {
                                (c as u16).wrapping_add(delta)
                            } else {
                                let p = rop + ro + 2 * (c - start as u32) as usize;
                                if p + 2 > b.len() {
                                    0
                                } else {
                                    match r16(b, p) {
                                        0 => 0,
                                        g => g.wrapping_add(delta),
                                    }
                                }
                            };
                            if g != 0 && c != 0xffff {
                                if let Some(ch) = std::char::from_u32(c) {
                                    map.insert(ch, g);
                                }
                            }
                        }
                    }
                }
            }
        }
        RefFont {
            upem,
            ascender: r16(b, hhea + 4) as i16 as f64 / upem,
            descender: r16(b, hhea + 6) as i16 as f64 / upem,
            map,
            advances,
            glyph_count,
        }
    }
    pub fn glyph(&self, c: char) -> u16 {
        self.map.get(&c).cloned().unwrap_or(0)
    }
    pub fn adv(&self, c: char) -> f64 {
        self.advances[self.glyph(c) as usize]
    }
    pub fn width(&self, s: &str) -> f64 {
        s.chars().map(|c| self.adv(c)).sum()
    }
    pub fn glyphs(&self, s: &str) -> Vec<u16> {
        s.chars().map(|c| self.glyph(c)).collect()
    }
}

lazy_static::lazy_static! {
    pub static ref VERA: RefFont = RefFont::read(include_bytes!("../../../../repo/victor/fonts/vera/Vera.ttf"));
}
