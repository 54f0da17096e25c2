//! The protocol under test: declarations come from the generated file; this module adds what they mean.
use crate::util::*;

pub trait BlockSpec: 'static + brec::ReadBlockFrom + brec::TryReadFrom + brec::TryReadFromBuffered + brec::WriteTo + brec::WriteVectoredTo + brec::CrcU32 + brec::StaticSize + Sized {
    const KIND: usize;
    fn rnd(r: &mut Rng) -> Self;
    fn body(&self) -> Vec<u8>;
    fn view_body(buf: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error>;
    fn view_to_owned(buf: &[u8]) -> Result<Self, brec::Error>;
    fn view_sig() -> [u8; 4];
    fn wrap(self) -> Block;
}
pub trait BlockVisitor { type Out; fn visit<B: BlockSpec>(&mut self) -> Self::Out; }

macro_rules! u8_enum { ($n:ident { $($v:ident = $c:expr),* }) => {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum $n { $($v),* }
    impl $n {
        pub fn code(&self) -> u8 { match self { $($n::$v => $c),* } }
        pub fn rnd(r: &mut Rng) -> Self { *r.pick(&[$($n::$v),*]) }
    }
    impl TryFrom<u8> for $n { type Error = String; fn try_from(v: u8) -> Result<Self, String> { match v { $(x if x == $c => Ok($n::$v),)* _ => Err(format!("bad {v}")) } } }
    impl From<&$n> for u8 { fn from(v: &$n) -> u8 { v.code() } }
} }
u8_enum!(Kind { Zero = 0, One = 1, Mid = 127, High = 128, Last = 255 });
u8_enum!(Mode { A = 7, B = 8, C = 9 });

pub fn rnd_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => max, 4 | 5 if max > 1000 => max, 3 => r.below(max + 1), _ => r.below(max.min(64) + 1) };
    let mut v = vec![0u8; n];
    for c in v.chunks_mut(8) { let x = r.next().to_le_bytes(); let n = c.len(); c.copy_from_slice(&x[..n]); }
    if r.chance(10) { v.fill(0) }
    v
}
pub fn rnd_string(r: &mut Rng, max: usize) -> String {
    let n = match r.below(6) { 0 => 0, 1 => max, 2 if max > 1000 => max, _ => r.below(max.min(48) + 1) };
    let mut s = String::new();
    while s.len() < n { s.push(*r.pick(&['a', 'Z', '0', ' ', '\n', '\0', 'é', 'Ω', '中', '🚀', '\u{fffd}', '\u{7f}'])); }
    s
}
pub fn mask(d: &[u8]) -> Vec<u8> { let mut o = (d.len() as u32).to_le_bytes().to_vec(); o.extend(d.iter().rev().map(|b| b ^ 0x5A)); o }
pub fn unmask(b: &[u8]) -> std::io::Result<Vec<u8>> {
    let bad = || std::io::Error::new(std::io::ErrorKind::InvalidData, "masked payload");
    if b.len() < 4 || u32::from_le_bytes(b[..4].try_into().unwrap()) as usize != b.len() - 4 { return Err(bad()); }
    Ok(b[4..].iter().rev().map(|b| b ^ 0x5A).collect())
}
/// Signatures of the custom payloads are made to be confused with one another: for a checksum of up to 16 bytes a longer signature
/// begins with the shorter ones; for longer checksums signatures of one length differ in their last byte only.
pub fn custom_sig_bytes(sl: usize, cl: usize) -> Vec<u8> {
    let wide = cl > 16;
    let mut v: Vec<u8> = (0..sl).map(|i| (i as u8).wrapping_mul(31) ^ if wide { sl as u8 } else { (cl as u8).rotate_left(3) } ^ 0xA5).collect();
    if wide { v[sl - 1] ^= cl as u8 }
    v
}
pub fn custom_sig(sl: usize, cl: usize) -> brec::ByteBlock { custom_sig_bytes(sl, cl).try_into().unwrap() }
pub fn custom_crc_bytes(body: &[u8], cl: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let mut h = fnv(body) ^ ((crc32(body) as u64) << 17);
    while o.len() < cl { h = h.wrapping_mul(0x2545_F491_4F6C_DD1D).rotate_left(23) ^ body.len() as u64; o.extend_from_slice(&h.to_le_bytes()); }
    o.truncate(cl);
    o
}
pub fn custom_crc(body: &[u8], cl: usize) -> brec::ByteBlock { custom_crc_bytes(body, cl).try_into().unwrap() }

include!(env!("MON_PROTO_FILE"));

brec::generate!();

// ------------------------------------------------------------------ independent description of the format
pub const SIG: [u8; 8] = [236, 37, 94, 136, 236, 37, 94, 136];
pub const HDR: usize = 29;
pub const SLOT_SIG: [u8; 8] = [166, 177, 188, 199, 199, 188, 177, 166];
pub const SLOT_CAP: usize = 500;
pub const SLOT_LEN: usize = 8 + 8 + SLOT_CAP * 8 + 4;

pub fn block_sig(k: usize) -> [u8; 4] { crc32(B_SNAP[k].as_bytes()).to_le_bytes() }
pub fn enc_block_kb(k: usize, body: &[u8]) -> Vec<u8> {
    let mut o = block_sig(k).to_vec();
    o.extend_from_slice(body);
    o.extend_from_slice(&if B_CRC[k] { crc32(body).to_le_bytes() } else { [0; 4] });
    o
}
pub fn enc_block(b: &Block) -> Vec<u8> { enc_block_kb(block_kind(b), &block_body(b)) }
pub fn payload_sig(k: usize) -> Vec<u8> {
    match P_SIGKIND[k] {
        0 => { let n = if k == 0 { "Vec<u8>" } else { P_NAME[k] }; crc32(n.as_bytes()).to_le_bytes().to_vec() }
        _ => custom_sig_bytes(P_SIGLEN[k], P_CRCLEN[k]),
    }
}
pub fn payload_crc(k: usize, body: &[u8]) -> Vec<u8> {
    match P_CRCKIND[k] { 0 => crc32(body).to_le_bytes().to_vec(), 1 => custom_crc_bytes(body, P_CRCLEN[k]), _ => vec![0; 4] }
}
pub fn enc_payload_header(sig: &[u8], crc: &[u8], len: u32) -> Vec<u8> {
    let mut o = vec![sig.len() as u8];
    o.extend_from_slice(sig);
    o.push(crc.len() as u8);
    o.extend_from_slice(crc);
    o.extend_from_slice(&len.to_le_bytes());
    o
}
pub fn enc_payload(p: &Payload) -> Vec<u8> {
    let k = payload_kind(p);
    let body = payload_body(p);
    let mut o = enc_payload_header(&payload_sig(k), &payload_crc(k, &body), body.len() as u32);
    o.extend_from_slice(&body);
    o
}
pub fn enc_header(size: u64, blocks_len: u64, payload: bool) -> Vec<u8> {
    let mut o = SIG.to_vec();
    let mut f = Vec::new();
    f.extend_from_slice(&size.to_le_bytes());
    f.extend_from_slice(&blocks_len.to_le_bytes());
    f.push(payload as u8);
    o.extend_from_slice(&f);
    o.extend_from_slice(&crc32(&f).to_le_bytes());
    o
}
/// A packet laid out by the reference encoder, with the positions of its parts.
#[derive(Clone)]
pub struct Ref {
    pub bytes: Vec<u8>,
    pub blocks: Vec<(usize, usize)>,
    pub payload_at: Option<usize>,
    pub body_at: Option<usize>,
    pub checked: bool,
}
pub fn enc_parts(blocks: &[Block], payload: Option<&Payload>) -> Ref {
    let mut body = Vec::new();
    let mut spans = Vec::new();
    let mut checked = true;
    for b in blocks { let e = enc_block(b); spans.push((HDR + body.len(), e.len())); body.extend_from_slice(&e); checked &= B_CRC[block_kind(b)]; }
    let bl = body.len() as u64;
    let mut payload_at = None;
    let mut body_at = None;
    if let Some(p) = payload {
        payload_at = Some(HDR + body.len());
        let k = payload_kind(p);
        body_at = Some(HDR + body.len() + 1 + P_SIGLEN[k] + 1 + P_CRCLEN[k] + 4);
        body.extend_from_slice(&enc_payload(p));
        checked &= P_CHECKED[k];
    }
    let mut bytes = enc_header(body.len() as u64, bl, payload.is_some());
    bytes.extend_from_slice(&body);
    Ref { bytes, blocks: spans, payload_at, body_at, checked }
}
pub fn enc_packet(p: &Packet) -> Vec<u8> { enc_parts(&p.blocks, p.payload.as_ref()).bytes }

// ------------------------------------------------------------------ random packets
#[derive(Clone, Copy)]
pub struct Shape { pub max_blocks: usize, pub max_payload: usize, pub checked_only: bool, pub customs: bool, pub huge: bool }
impl Shape {
    pub const SMALL: Shape = Shape { max_blocks: 4, max_payload: 80, checked_only: false, customs: false, huge: false };
    pub const STD: Shape = Shape { max_blocks: 8, max_payload: 400, checked_only: false, customs: true, huge: false };
    pub const BIG: Shape = Shape { max_blocks: 24, max_payload: 20000, checked_only: false, customs: true, huge: true };
    pub fn checked(mut self) -> Self { self.checked_only = true; self }
}
pub fn rnd_block_kind(r: &mut Rng, s: &Shape) -> usize {
    loop {
        let k = r.below(NB);
        if s.checked_only && !B_CRC[k] { continue; }
        if !s.huge && B_LEN[k] > 2000 { continue; }
        if B_LEN[k] > 500 && !r.chance(25) { continue; }
        return k;
    }
}
pub fn rnd_payload_kind(r: &mut Rng, s: &Shape) -> usize {
    loop {
        let k = if s.customs && r.chance(30) { r.below(NP) } else { r.below(6.min(NP)) };
        if s.checked_only && !P_CHECKED[k] { continue; }
        return k;
    }
}
/// Sizes around which buffers end and narrow numbers overflow.
pub fn edge_size(r: &mut Rng) -> usize { let b = *r.pick(&[256, 1024, 4096, 8192, 16384, 32768, 65536, 65536, 131072]); b + r.below(5) - 2 }
pub struct Pk { pub blocks: Vec<Block>, pub payload: Option<Payload> }
impl Pk {
    pub fn packet(&self) -> Packet { Packet::new(self.blocks.clone(), self.payload.clone()) }
    pub fn reference(&self) -> Ref { enc_parts(&self.blocks, self.payload.as_ref()) }
}
pub fn rnd_pk(r: &mut Rng, s: &Shape) -> Pk {
    let nb = match r.below(10) { 0 => 0, 1 | 2 => 1, 3 => s.max_blocks, _ => r.below(s.max_blocks + 1) };
    let blocks = (0..nb).map(|_| { let k = rnd_block_kind(r, s); gen_block(k, r) }).collect();
    let payload = if r.chance(65) { let k = rnd_payload_kind(r, s); let max = if s.max_payload <= 400 { s.max_payload } else { match r.below(10) { 0 | 1 => s.max_payload, 2 | 3 => edge_size(r), _ => 200 } }; Some(gen_payload(k, r, max)) } else { None };
    Pk { blocks, payload }
}
