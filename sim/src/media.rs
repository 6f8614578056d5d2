//! Media files for the command-line worlds: the same samples in many containers.

use crate::rng::Rng;

pub const CONTAINERS: i64 = 12;
pub const FLAC: i64 = 5;
pub const MKV: i64 = 11;

/// Are the samples of this container written as FLAC blocks?
pub fn is_flac(k: i64) -> bool {
    [FLAC, MKV].contains(&k.rem_euclid(CONTAINERS))
}

/// The channel count nearest to `n` that the container can declare.
pub fn channels_in(k: i64, n: usize) -> usize {
    match (k.rem_euclid(CONTAINERS), n) {
        (MKV, 4 | 5) => 3,
        (MKV, 7..) => 6,
        _ => n,
    }
}

pub fn container_name(k: i64) -> &'static str {
    ["wav16", "wav8", "wav24", "wavf32", "aiff16", "flac", "caf16", "wav-extensible", "wav32", "aiff24", "caf16le", "mkv"]
        [k.rem_euclid(CONTAINERS) as usize]
}

pub struct Media {
    pub bytes: Vec<u8>,
    /// What a decoder must hand out: interleaved samples.
    pub samples: Vec<i16>,
    pub channels: usize,
    /// First byte of audio data.
    pub data: u64,
    /// Byte offset at which the k-th packet ends, and the frames delivered up to there.
    pub packets: Vec<(u64, usize)>,
    pub ext: &'static str,
}

impl Media {
    pub fn frames(&self) -> usize {
        self.samples.len() / self.channels
    }
    /// Is the audio delivered in whole blocks only?
    fn blocks(&self) -> bool {
        self.ext == "flac" || self.ext == "mkv"
    }
    /// Largest packet, in frames.
    pub fn max_packet(&self) -> usize {
        let mut last = 0;
        let mut m = 0;
        for p in &self.packets {
            m = m.max(p.1 - last);
            last = p.1;
        }
        m
    }
    /// Frames whose bytes (for FLAC: whose block) end at or before `off`.
    pub fn frames_before(&self, off: u64) -> usize {
        let (mut f0, mut o0) = (0usize, self.data);
        for &(o, f) in &self.packets {
            if o <= off {
                f0 = f;
                o0 = o;
            } else {
                if !self.blocks() && off > o0 {
                    let n = (f - f0) as u64;
                    f0 += ((off - o0) * n / (o - o0)) as usize;
                }
                break;
            }
        }
        f0
    }
    /// Byte offset that must have been delivered before frame number `f` - 1 can be complete.
    pub fn offset_of(&self, f: usize) -> u64 {
        let (mut f0, mut o0) = (0usize, self.data);
        for &(o, g) in &self.packets {
            if f <= g {
                if self.blocks() {
                    return if f == f0 { o0 } else { o };
                }
                return o0 + (o - o0) * (f - f0) as u64 / (g - f0) as u64;
            }
            f0 = g;
            o0 = o;
        }
        o0
    }
    /// Byte offset of the end of the packet that holds frame `f` - 1.
    pub fn packet_end(&self, f: usize) -> u64 {
        for &(o, g) in &self.packets {
            if f <= g {
                return o;
            }
        }
        self.packets.last().map_or(self.data, |p| p.0)
    }
}

pub struct Spec<'a> {
    pub container: i64,
    pub rate: u32,
    pub channels: usize,
    pub samples: &'a [i16],
    /// FLAC block sizes, used in turn.
    pub blocks: &'a [usize],
    /// Bytes of unrelated chunks before and after the audio.
    pub before: usize,
    pub after: usize,
    /// Blocks that cannot be decoded: number of the block, how it is damaged, where in the block.
    pub damage: &'a [(usize, i64, usize)],
    /// Frames announced by the header when the file holds more or repeats (0: the true number).
    pub announced: u64,
}

fn chunk(out: &mut Vec<u8>, id: &[u8; 4], body: &[u8], big: bool) {
    out.extend(id);
    let n = body.len() as u32;
    out.extend(if big { n.to_be_bytes() } else { n.to_le_bytes() });
    out.extend(body);
    if body.len() % 2 == 1 {
        out.push(0);
    }
}

fn junk(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 37 % 251) as u8).collect()
}

fn crc8(b: &[u8]) -> u8 {
    let mut c = 0u8;
    for &x in b {
        c ^= x;
        for _ in 0..8 {
            c = if c & 0x80 != 0 { (c << 1) ^ 0x07 } else { c << 1 };
        }
    }
    c
}

fn crc16(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for &x in b {
        c ^= (x as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
        }
    }
    c
}

fn utf8_like(out: &mut Vec<u8>, v: u64) {
    if v < 0x80 {
        out.push(v as u8);
        return;
    }
    let mut n = 2;
    while n < 7 && v >= 1u64 << (5 * n + 1) {
        n += 1;
    }
    let lead = if n == 7 { 0xFE } else { (!0u8 << (8 - n)) | (v >> (6 * (n - 1))) as u8 };
    out.push(lead);
    for k in (0..n - 1).rev() {
        out.push(0x80 | ((v >> (6 * k)) & 0x3F) as u8);
    }
}

/// 80-bit extended float of a whole number, for AIFF.
fn ext80(rate: u32) -> [u8; 10] {
    let mut o = [0u8; 10];
    let sh = rate.leading_zeros();
    let exp = 16383 + 31 - sh as u16;
    let man = (rate as u64) << (32 + sh);
    o[..2].copy_from_slice(&exp.to_be_bytes());
    o[2..].copy_from_slice(&man.to_be_bytes());
    o
}

fn pcm_packets(data: u64, frames: usize, bpf: usize) -> Vec<(u64, usize)> {
    let mut v = vec![];
    let mut f = 0;
    while f < frames {
        f = (f + 1152).min(frames);
        v.push((data + (f * bpf) as u64, f));
    }
    v
}

fn biggest_block(blocks: &[usize]) -> usize {
    blocks.iter().copied().max().unwrap_or(4096).clamp(16, 65535)
}

/// How many frames each block holds.
fn block_sizes(blocks: &[usize], frames: usize) -> Vec<usize> {
    let blocks: Vec<usize> = if blocks.is_empty() { vec![4096] } else { blocks.to_vec() };
    let biggest = biggest_block(&blocks);
    let mut v = vec![];
    let (mut f, mut i) = (0, 0);
    while f < frames {
        let mut n = blocks[i % blocks.len()].clamp(16, 65535).min(frames - f);
        // a tail shorter than 16 frames is not a legal block except at the very end
        if frames - f - n > 0 && frames - f - n < 16 {
            n = (frames - f).min(biggest);
        }
        i += 1;
        f += n;
        v.push(n);
    }
    v
}

fn stream_info(blocks: &[usize], rate: u32, ch: usize, frames: usize) -> Vec<u8> {
    let mut si = vec![];
    si.extend(16u16.to_be_bytes());
    // equal sizes would announce fixed-size blocks
    si.extend((biggest_block(blocks).max(17) as u16).to_be_bytes());
    si.extend([0; 6]);
    let x = ((rate as u64) << 44) | ((ch as u64 - 1) << 41) | (15u64 << 36) | frames as u64;
    si.extend(x.to_be_bytes());
    si.extend([0; 16]);
    si
}

/// Frames `f`..`f + n` as one FLAC block.
fn flac_frame(samples: &[i16], ch: usize, f: usize, n: usize) -> Vec<u8> {
    let mut out = vec![0xFF, 0xF9]; // variable block size
    out.push(0x70); // 16-bit block size, rate from the stream info
    out.push(((ch as u8 - 1) << 4) | (4 << 1));
    utf8_like(&mut out, f as u64);
    out.extend(((n - 1) as u16).to_be_bytes());
    let c = crc8(&out);
    out.push(c);
    for c in 0..ch {
        let first = samples[f * ch + c];
        if (f..f + n).all(|t| samples[t * ch + c] == first) {
            out.push(0);
            out.extend(first.to_be_bytes());
        } else {
            out.push(2); // verbatim
            for t in f..f + n {
                out.extend(samples[t * ch + c].to_be_bytes());
            }
        }
    }
    let c = crc16(&out);
    out.extend(c.to_be_bytes());
    out
}

pub const DAMAGES: i64 = 7;
/// The damage that not just a block but the container cannot be followed beyond.
pub const BAD_LACING: i64 = 6;

pub fn damage_name(kind: i64) -> &'static str {
    ["reserved-subframe", "subframe-padding", "short-block", "empty-block", "bad-header", "zeroed-block", "bad-lacing"]
        [kind.rem_euclid(DAMAGES) as usize]
}

/// In a bare FLAC stream a block that fails its own checksums is dropped by the demuxer and nobody
/// can know of it; only the first kinds, which keep the checksums right, are possible there.
pub fn damages_of(k: i64) -> i64 {
    if k.rem_euclid(CONTAINERS) == MKV {
        DAMAGES
    } else {
        3
    }
}

/// As `flac_frame`, but impossible to decode.
fn damaged_frame(samples: &[i16], ch: usize, f: usize, n: usize, kind: i64, at: usize) -> Vec<u8> {
    let mut out = flac_frame(samples, ch, f, n);
    let mut head = vec![];
    utf8_like(&mut head, f as u64);
    let head = 4 + head.len() + 3;
    let body = out.len() - 2;
    match kind {
        0 | 1 => {
            // the header of one channel's subframe
            let mut p = head;
            for c in 0..at % ch {
                let first = samples[f * ch + c];
                let constant = (f..f + n).all(|t| samples[t * ch + c] == first);
                p += if constant { 3 } else { 1 + 2 * n };
            }
            out[p] = if kind == 0 { 0x04 } else { out[p] | 0x80 };
        }
        2 => {
            // the two bytes of the checksum would do for a sample
            let keep = head + (body - head) * (at % 100) / 100;
            out.truncate(keep.min(body - 3));
            out.extend([0, 0]);
        }
        3 => return vec![],
        4 => {
            out[head - 1] ^= 0x55;
            return out;
        }
        _ => return vec![0; out.len()],
    }
    let end = out.len() - 2;
    let c = crc16(&out[..end]);
    out[end..].copy_from_slice(&c.to_be_bytes());
    out
}

/// Block `i` of the file, damaged or not.
fn flac_block(s: &Spec, samples: &[i16], i: usize, f: usize, n: usize) -> Vec<u8> {
    match s.damage.iter().find(|d| d.0 == i) {
        Some(&(_, kind, at)) if kind != BAD_LACING => damaged_frame(samples, s.channels, f, n, kind, at),
        _ => flac_frame(samples, s.channels, f, n),
    }
}

/// One EBML element; the length always takes eight bytes.
fn element(out: &mut Vec<u8>, id: u32, body: &[u8]) {
    let b = id.to_be_bytes();
    out.extend(&b[b.iter().position(|x| *x != 0).unwrap_or(3)..]);
    out.extend(((1u64 << 56) | body.len() as u64).to_be_bytes());
    out.extend(body);
}

/// A Matroska file: the audio as FLAC, with the `before` option behind a video track and with the
/// `after` option beside a second audio track, several blocks to a cluster, some laced together.
fn matroska(s: &Spec, samples: &[i16]) -> (Vec<u8>, u64, Vec<(u64, usize)>) {
    let ch = s.channels;
    let frames = samples.len() / ch;
    let (video, other) = (s.before > 0, s.after > 0);
    let track = |number: u8, kind: u8, codec: &[u8], audio: Option<(u32, usize)>| {
        let mut t = vec![];
        element(&mut t, 0xD7, &[number]);
        element(&mut t, 0x73C5, &[number]);
        element(&mut t, 0x83, &[kind]);
        element(&mut t, 0x86, codec);
        if let Some((rate, ch)) = audio {
            let mut p = b"fLaC".to_vec();
            let si = stream_info(s.blocks, rate, ch, frames);
            p.push(0x80);
            p.extend(&(si.len() as u32).to_be_bytes()[1..]);
            p.extend(si);
            element(&mut t, 0x63A2, &p);
            let mut a = vec![];
            element(&mut a, 0xB5, &(rate as f64).to_be_bytes());
            element(&mut a, 0x9F, &[ch as u8]);
            element(&mut a, 0x6264, &[16]);
            element(&mut t, 0xE1, &a);
        }
        t
    };
    let mut tracks = vec![];
    if video {
        element(&mut tracks, 0xAE, &track(1, 1, b"V_MPEG4/ISO/AVC", None));
    }
    element(&mut tracks, 0xAE, &track(2, 2, b"A_FLAC", Some((s.rate, ch))));
    if other {
        element(&mut tracks, 0xAE, &track(3, 2, b"A_FLAC", Some((s.rate, 1))));
    }
    let mut segment = vec![];
    let mut info = vec![];
    element(&mut info, 0x2AD7B1, &1_000_000u32.to_be_bytes());
    element(&mut segment, 0x1549A966, &info);
    if s.before > 0 {
        element(&mut segment, 0xEC, &junk(s.before));
    }
    element(&mut segment, 0x1654AE6B, &tracks);
    let first = segment.len();
    let block = |out: &mut Vec<u8>, track: u8, parts: &[Vec<u8>]| {
        let mut b = vec![0x80 | track, 0, 0];
        if parts.len() == 1 {
            b.push(0x80);
        } else {
            // Xiph lacing
            b.push(0x82);
            b.push(parts.len() as u8 - 1);
            for p in &parts[..parts.len() - 1] {
                b.extend(vec![255; p.len() / 255]);
                b.push((p.len() % 255) as u8);
            }
        }
        for p in parts {
            b.extend(p);
        }
        element(out, 0xA3, &b);
    };
    let mut packets = vec![];
    let (mut f, mut i) = (0, 0);
    let sizes = block_sizes(s.blocks, frames);
    while i < sizes.len() {
        let mut cluster = vec![];
        element(&mut cluster, 0xE7, &[0]);
        // offsets within the cluster, its header being 12 bytes
        let mut ends = vec![];
        for g in 0..3 {
            if i >= sizes.len() {
                break;
            }
            if video && g != 1 {
                block(&mut cluster, 1, &[junk(700)]);
            }
            if other && g != 0 {
                let n = sizes[i].min(5000);
                let x: Vec<i16> = (0..n).map(|k| ((k * 7919) % 20000) as i16 & !1).map(|x| x - 10000).collect();
                // what the other track holds is of no concern, decodable or not
                let x = if s.damage.is_empty() { flac_frame(&x, 1, 0, n) } else { junk(n) };
                block(&mut cluster, 3, &[x]);
            }
            let many = if (s.before + s.after) % 4 == 2 && g == 1 { 3 } else { 1 };
            let mut parts = vec![];
            let mut held = vec![];
            let bad = |i: usize| s.damage.iter().any(|d| d.0 == i && d.1 == BAD_LACING);
            if bad(i) {
                // two parts of the same size in an odd number of bytes
                element(&mut cluster, 0xA3, &[0x82, 0, 0, 0x84, 1, 1, 2, 3]);
            }
            while parts.len() < many && i < sizes.len() && !(bad(i) && !parts.is_empty()) {
                parts.push(flac_block(s, samples, i, f, sizes[i]));
                f += sizes[i];
                i += 1;
                held.push(f);
            }
            block(&mut cluster, 2, &parts);
            ends.extend(held.into_iter().map(|h| (cluster.len(), h)));
        }
        if other {
            block(&mut cluster, 3, &[flac_frame(&[5, -5, 5, -5, 5, -5, 5, -5, 5, -5, 5, -5, 5, -5, 5, 4], 1, 0, 16)]);
        }
        let at = segment.len() + 12;
        element(&mut segment, 0x1F43B675, &cluster);
        packets.extend(ends.into_iter().map(|(e, h)| ((at + e) as u64, h)));
    }
    let mut out = vec![];
    let mut head = vec![];
    element(&mut head, 0x4282, b"matroska");
    element(&mut out, 0x1A45DFA3, &head);
    let shift = out.len() as u64 + 12;
    element(&mut out, 0x18538067, &segment);
    for p in &mut packets {
        p.0 += shift;
    }
    (out, shift + first as u64, packets)
}

pub fn build(s: &Spec) -> Media {
    let ch = s.channels;
    let k = s.container.rem_euclid(CONTAINERS);
    let samples: Vec<i16> =
        if k == 1 { s.samples.iter().map(|x| x & !0xFF).collect() } else { s.samples.to_vec() };
    let frames = samples.len() / ch;
    let announced = if s.announced > 0 { s.announced } else { frames as u64 };
    let mut out = vec![];
    let (data, packets, ext): (u64, Vec<(u64, usize)>, &'static str);
    match k {
        0 | 1 | 2 | 3 | 7 | 8 => {
            let bits: usize = match k {
                1 => 8,
                2 => 24,
                3 | 8 => 32,
                _ => 16,
            };
            let bpf = bits / 8 * ch;
            let mut pcm = Vec::with_capacity(frames * bpf);
            for &x in &samples {
                match k {
                    1 => pcm.push(((x >> 8) + 128) as u8),
                    2 => pcm.extend(&((x as i32) << 8).to_le_bytes()[..3]),
                    3 => pcm.extend((x as f32 / 32768.0).to_le_bytes()),
                    8 => pcm.extend(((x as i32) << 16).to_le_bytes()),
                    _ => pcm.extend(x.to_le_bytes()),
                }
            }
            let mut fmt = vec![];
            let tag: u16 = match k {
                3 => 3,
                7 => 0xFFFE,
                _ => 1,
            };
            fmt.extend(tag.to_le_bytes());
            fmt.extend((ch as u16).to_le_bytes());
            fmt.extend(s.rate.to_le_bytes());
            fmt.extend((s.rate.wrapping_mul(bpf as u32)).to_le_bytes());
            fmt.extend((bpf as u16).to_le_bytes());
            fmt.extend((bits as u16).to_le_bytes());
            if k == 7 {
                fmt.extend(22u16.to_le_bytes());
                fmt.extend(16u16.to_le_bytes());
                fmt.extend(((1u32 << ch) - 1).to_le_bytes());
                fmt.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]);
            }
            let len = (announced * bpf as u64).min(0xFFFF_FF00) as u32;
            out.extend(b"RIFF");
            out.extend(len.saturating_add(200 + s.before as u32 + s.after as u32).to_le_bytes());
            out.extend(b"WAVE");
            chunk(&mut out, b"fmt ", &fmt, false);
            if s.before > 0 {
                let mut l = b"JUNK".to_vec();
                l.extend(junk(s.before));
                chunk(&mut out, b"LIST", &l, false);
            }
            out.extend(b"data");
            out.extend(len.to_le_bytes());
            data = out.len() as u64;
            packets = pcm_packets(data, frames, bpf);
            out.extend(pcm);
            if s.after > 0 && s.announced == 0 {
                if out.len() % 2 == 1 {
                    out.push(0);
                }
                chunk(&mut out, b"LIST", &junk(s.after + 4), false);
            }
            let riff = (out.len() - 8) as u32;
            if s.announced == 0 {
                out[4..8].copy_from_slice(&riff.to_le_bytes());
            }
            ext = "wav";
        }
        4 | 9 => {
            let bytes = if k == 9 { 3 } else { 2 };
            let bpf = bytes * ch;
            let mut comm = vec![];
            comm.extend((ch as u16).to_be_bytes());
            comm.extend((frames as u32).to_be_bytes());
            comm.extend((bytes as u16 * 8).to_be_bytes());
            comm.extend(ext80(s.rate));
            let mut ssnd = vec![0u8; 8];
            for &x in &samples {
                if k == 9 {
                    ssnd.extend(&((x as i32) << 8).to_be_bytes()[1..]);
                } else {
                    ssnd.extend(x.to_be_bytes());
                }
            }
            out.extend(b"FORM");
            out.extend([0; 4]);
            out.extend(b"AIFF");
            chunk(&mut out, b"COMM", &comm, true);
            let at = out.len() + 16;
            chunk(&mut out, b"SSND", &ssnd, true);
            data = at as u64;
            packets = pcm_packets(data, frames, bpf);
            let n = (out.len() - 8) as u32;
            out[4..8].copy_from_slice(&n.to_be_bytes());
            ext = "aiff";
        }
        6 | 10 => {
            let le = k == 10;
            let bpf = 2 * ch;
            out.extend(b"caff");
            out.extend([0, 1, 0, 0]);
            let mut d = vec![];
            d.extend((s.rate as f64).to_be_bytes());
            d.extend(b"lpcm");
            d.extend((if le { 2u32 } else { 0 }).to_be_bytes());
            d.extend((bpf as u32).to_be_bytes());
            d.extend(1u32.to_be_bytes());
            d.extend((ch as u32).to_be_bytes());
            d.extend(16u32.to_be_bytes());
            out.extend(b"desc");
            out.extend((d.len() as u64).to_be_bytes());
            out.extend(d);
            if s.before > 0 {
                out.extend(b"free");
                out.extend((s.before as u64).to_be_bytes());
                out.extend(vec![0u8; s.before]);
            }
            out.extend(b"data");
            out.extend(((frames * bpf) as u64 + 4).to_be_bytes());
            out.extend([0; 4]);
            data = out.len() as u64;
            packets = pcm_packets(data, frames, bpf);
            for &x in &samples {
                out.extend(if le { x.to_le_bytes() } else { x.to_be_bytes() });
            }
            ext = "caf";
        }
        MKV => {
            let t = matroska(s, &samples);
            out = t.0;
            data = t.1;
            packets = t.2;
            ext = "mkv";
        }
        _ => {
            let sizes = block_sizes(s.blocks, frames);
            out.extend(b"fLaC");
            let si = stream_info(s.blocks, s.rate, ch, frames);
            out.push(if s.before > 0 { 0 } else { 0x80 });
            out.extend(&(si.len() as u32).to_be_bytes()[1..]);
            out.extend(si);
            if s.before > 0 {
                out.push(0x81);
                out.extend(&(s.before as u32).to_be_bytes()[1..]);
                out.extend(vec![0u8; s.before]);
            }
            data = out.len() as u64;
            let mut pk = vec![];
            let mut f = 0;
            for (i, n) in sizes.into_iter().enumerate() {
                out.extend(flac_block(s, &samples, i, f, n));
                f += n;
                pk.push((out.len() as u64, f));
            }
            packets = pk;
            ext = "flac";
        }
    }
    Media { bytes: out, samples, channels: ch, data, packets, ext }
}

/// The same recording at another sample rate, by linear interpolation.
pub fn rerate(src: &[i16], channels: usize, from: u32, to: u32) -> Vec<i16> {
    if from == to {
        return src.to_vec();
    }
    let n = src.len() / channels;
    let m = (n as u64 * to as u64 / from as u64) as usize;
    let mut out = Vec::with_capacity(m * channels);
    for i in 0..m {
        let p = i as f64 * from as f64 / to as f64;
        let a = (p as usize).min(n - 1);
        let b = (a + 1).min(n - 1);
        let t = p - a as f64;
        for c in 0..channels {
            let (x, y) = (src[a * channels + c] as f64, src[b * channels + c] as f64);
            out.push((x + (y - x) * t) as i16);
        }
    }
    out
}

/// Spreads a mono recording over channels.
pub fn spread(mono: &[i16], channels: usize, r: &mut Rng) -> Vec<i16> {
    let mut out = Vec::with_capacity(mono.len() * channels);
    for &x in mono {
        for c in 0..channels {
            out.push(if c == 0 { x } else { (x as i32 + r.range(-40, 40) as i32).clamp(-32768, 32767) as i16 });
        }
    }
    out
}

/// Symphonia gives up on a FLAC frame in which more than a few byte pairs look like the beginning
/// of a frame. Samples that are about to be written verbatim must not contain any.
pub fn avoid_sync(samples: &mut [i16]) {
    for s in samples {
        if matches!(*s, -8 | -7) {
            *s = -6;
        } else if *s & 0xff == 0xff {
            *s ^= 1;
        }
    }
}
