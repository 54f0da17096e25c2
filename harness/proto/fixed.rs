// generated by tools/genproto.py - do not edit
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BU8 {
    pub v: u8,
}

impl BlockSpec for BU8 {
    const KIND: usize = 0;
    fn rnd(r: &mut Rng) -> Self { BU8 { v: r.interesting(1) as u8 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 1); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BU8Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BU8(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BU8Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BU8Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BU8(self) }
}
fn v_BU8(v: &BU8Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 1); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BU16 {
    pub v: u16,
}

impl BlockSpec for BU16 {
    const KIND: usize = 1;
    fn rnd(r: &mut Rng) -> Self { BU16 { v: r.interesting(2) as u16 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 2); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BU16Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BU16(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BU16Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BU16Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BU16(self) }
}
fn v_BU16(v: &BU16Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 2); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BU32 {
    pub v: u32,
}

impl BlockSpec for BU32 {
    const KIND: usize = 2;
    fn rnd(r: &mut Rng) -> Self { BU32 { v: r.interesting(4) as u32 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 4); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BU32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BU32(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BU32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BU32Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BU32(self) }
}
fn v_BU32(v: &BU32Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 4); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BU64 {
    pub v: u64,
}

impl BlockSpec for BU64 {
    const KIND: usize = 3;
    fn rnd(r: &mut Rng) -> Self { BU64 { v: r.interesting(8) as u64 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 8); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BU64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BU64(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BU64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BU64Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BU64(self) }
}
fn v_BU64(v: &BU64Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 8); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BU128 {
    pub v: u128,
}

impl BlockSpec for BU128 {
    const KIND: usize = 4;
    fn rnd(r: &mut Rng) -> Self { BU128 { v: r.interesting(16) as u128 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 16); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BU128Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BU128(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BU128Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BU128Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BU128(self) }
}
fn v_BU128(v: &BU128Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 16); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BI8 {
    pub v: i8,
}

impl BlockSpec for BI8 {
    const KIND: usize = 5;
    fn rnd(r: &mut Rng) -> Self { BI8 { v: r.interesting(1) as i8 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 1); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BI8Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BI8(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BI8Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BI8Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BI8(self) }
}
fn v_BI8(v: &BI8Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 1); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BI16 {
    pub v: i16,
}

impl BlockSpec for BI16 {
    const KIND: usize = 6;
    fn rnd(r: &mut Rng) -> Self { BI16 { v: r.interesting(2) as i16 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 2); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BI16Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BI16(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BI16Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BI16Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BI16(self) }
}
fn v_BI16(v: &BI16Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 2); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BI32 {
    pub v: i32,
}

impl BlockSpec for BI32 {
    const KIND: usize = 7;
    fn rnd(r: &mut Rng) -> Self { BI32 { v: r.interesting(4) as i32 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 4); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BI32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BI32(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BI32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BI32Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BI32(self) }
}
fn v_BI32(v: &BI32Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 4); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BI64 {
    pub v: i64,
}

impl BlockSpec for BI64 {
    const KIND: usize = 8;
    fn rnd(r: &mut Rng) -> Self { BI64 { v: r.interesting(8) as i64 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 8); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BI64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BI64(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BI64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BI64Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BI64(self) }
}
fn v_BI64(v: &BI64Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 8); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BI128 {
    pub v: i128,
}

impl BlockSpec for BI128 {
    const KIND: usize = 9;
    fn rnd(r: &mut Rng) -> Self { BI128 { v: r.interesting(16) as i128 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v as u128, 16); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BI128Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BI128(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BI128Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BI128Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BI128(self) }
}
fn v_BI128(v: &BI128Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v as u128, 16); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BF32 {
    pub v: f32,
}

impl BlockSpec for BF32 {
    const KIND: usize = 10;
    fn rnd(r: &mut Rng) -> Self { BF32 { v: f32::from_bits(r.interesting(4) as u32) } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v.to_bits() as u128, 4); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BF32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BF32(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BF32Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BF32Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BF32(self) }
}
fn v_BF32(v: &BF32Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v.to_bits() as u128, 4); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BF64 {
    pub v: f64,
}

impl BlockSpec for BF64 {
    const KIND: usize = 11;
    fn rnd(r: &mut Rng) -> Self { BF64 { v: f64::from_bits(r.interesting(8) as u64) } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.v.to_bits() as u128, 8); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BF64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BF64(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BF64Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BF64Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BF64(self) }
}
fn v_BF64(v: &BF64Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.v.to_bits() as u128, 8); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BBOOL {
    pub v: bool,
}

impl BlockSpec for BBOOL {
    const KIND: usize = 12;
    fn rnd(r: &mut Rng) -> Self { BBOOL { v: r.coin() } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.push(if self.v { 1 } else { 0 }); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BBOOLReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BBOOL(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BBOOLReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BBOOLReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BBOOL(self) }
}
fn v_BBOOL(v: &BBOOLReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.push(if v.v { 1 } else { 0 }); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BKind {
    pub k: Kind,
}

impl BlockSpec for BKind {
    const KIND: usize = 13;
    fn rnd(r: &mut Rng) -> Self { BKind { k: Kind::rnd(r) } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.push(self.k.code()); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BKindReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BKind(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BKindReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BKindReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BKind(self) }
}
fn v_BKind(v: &BKindReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.push(v.k.code()); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BBlob1 {
    pub b: [u8; 1],
}

impl BlockSpec for BBlob1 {
    const KIND: usize = 14;
    fn rnd(r: &mut Rng) -> Self { BBlob1 { b: { let mut a = [0u8; 1]; r.fill(&mut a); a } } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.extend_from_slice(&self.b[..]); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BBlob1Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BBlob1(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BBlob1Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BBlob1Referred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BBlob1(self) }
}
fn v_BBlob1(v: &BBlob1Referred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.extend_from_slice(&v.b[..]); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BBlob1k {
    pub b: [u8; 1024],
}

impl BlockSpec for BBlob1k {
    const KIND: usize = 15;
    fn rnd(r: &mut Rng) -> Self { BBlob1k { b: { let mut a = [0u8; 1024]; r.fill(&mut a); a } } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.extend_from_slice(&self.b[..]); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BBlob1kReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BBlob1k(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BBlob1kReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BBlob1kReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BBlob1k(self) }
}
fn v_BBlob1k(v: &BBlob1kReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.extend_from_slice(&v.b[..]); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BHuge {
    pub a: u16,
    pub b: [u8; 9000],
    pub c: u16,
}

impl BlockSpec for BHuge {
    const KIND: usize = 16;
    fn rnd(r: &mut Rng) -> Self { BHuge { a: r.interesting(2) as u16, b: { let mut a = [0u8; 9000]; r.fill(&mut a); a }, c: r.interesting(2) as u16 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.a as u128, 2); o.extend_from_slice(&self.b[..]); put_le(&mut o, self.c as u128, 2); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BHugeReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BHuge(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BHugeReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BHugeReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BHuge(self) }
}
fn v_BHuge(v: &BHugeReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.a as u128, 2); o.extend_from_slice(&v.b[..]); put_le(&mut o, v.c as u128, 2); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BMix {
    pub f_u8: u8,
    pub f_u16: u16,
    pub f_u32: u32,
    pub f_u64: u64,
    pub f_u128: u128,
    pub f_i8: i8,
    pub f_i16: i16,
    pub f_i32: i32,
    pub f_i64: i64,
    pub f_i128: i128,
    pub f_f32: f32,
    pub f_f64: f64,
    pub f_bool: bool,
    pub blob: [u8; 33],
    pub kind: Kind,
    pub mode: Mode,
}

impl BlockSpec for BMix {
    const KIND: usize = 17;
    fn rnd(r: &mut Rng) -> Self { BMix { f_u8: r.interesting(1) as u8, f_u16: r.interesting(2) as u16, f_u32: r.interesting(4) as u32, f_u64: r.interesting(8) as u64, f_u128: r.interesting(16) as u128, f_i8: r.interesting(1) as i8, f_i16: r.interesting(2) as i16, f_i32: r.interesting(4) as i32, f_i64: r.interesting(8) as i64, f_i128: r.interesting(16) as i128, f_f32: f32::from_bits(r.interesting(4) as u32), f_f64: f64::from_bits(r.interesting(8) as u64), f_bool: r.coin(), blob: { let mut a = [0u8; 33]; r.fill(&mut a); a }, kind: Kind::rnd(r), mode: Mode::rnd(r) } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.f_u8 as u128, 1); put_le(&mut o, self.f_u16 as u128, 2); put_le(&mut o, self.f_u32 as u128, 4); put_le(&mut o, self.f_u64 as u128, 8); put_le(&mut o, self.f_u128 as u128, 16); put_le(&mut o, self.f_i8 as u128, 1); put_le(&mut o, self.f_i16 as u128, 2); put_le(&mut o, self.f_i32 as u128, 4); put_le(&mut o, self.f_i64 as u128, 8); put_le(&mut o, self.f_i128 as u128, 16); put_le(&mut o, self.f_f32.to_bits() as u128, 4); put_le(&mut o, self.f_f64.to_bits() as u128, 8); o.push(if self.f_bool { 1 } else { 0 }); o.extend_from_slice(&self.blob[..]); o.push(self.kind.code()); o.push(self.mode.code()); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BMixReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BMix(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BMixReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BMixReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BMix(self) }
}
fn v_BMix(v: &BMixReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.f_u8 as u128, 1); put_le(&mut o, v.f_u16 as u128, 2); put_le(&mut o, v.f_u32 as u128, 4); put_le(&mut o, v.f_u64 as u128, 8); put_le(&mut o, v.f_u128 as u128, 16); put_le(&mut o, v.f_i8 as u128, 1); put_le(&mut o, v.f_i16 as u128, 2); put_le(&mut o, v.f_i32 as u128, 4); put_le(&mut o, v.f_i64 as u128, 8); put_le(&mut o, v.f_i128 as u128, 16); put_le(&mut o, v.f_f32.to_bits() as u128, 4); put_le(&mut o, v.f_f64.to_bits() as u128, 8); o.push(if v.f_bool { 1 } else { 0 }); o.extend_from_slice(&v.blob[..]); o.push(v.kind.code()); o.push(v.mode.code()); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BMixRev {
    pub mode: Mode,
    pub kind: Kind,
    pub blob: [u8; 33],
    pub f_bool: bool,
    pub f_f64: f64,
    pub f_f32: f32,
    pub f_i128: i128,
    pub f_i64: i64,
    pub f_i32: i32,
    pub f_i16: i16,
    pub f_i8: i8,
    pub f_u128: u128,
    pub f_u64: u64,
    pub f_u32: u32,
    pub f_u16: u16,
    pub f_u8: u8,
}

impl BlockSpec for BMixRev {
    const KIND: usize = 18;
    fn rnd(r: &mut Rng) -> Self { BMixRev { mode: Mode::rnd(r), kind: Kind::rnd(r), blob: { let mut a = [0u8; 33]; r.fill(&mut a); a }, f_bool: r.coin(), f_f64: f64::from_bits(r.interesting(8) as u64), f_f32: f32::from_bits(r.interesting(4) as u32), f_i128: r.interesting(16) as i128, f_i64: r.interesting(8) as i64, f_i32: r.interesting(4) as i32, f_i16: r.interesting(2) as i16, f_i8: r.interesting(1) as i8, f_u128: r.interesting(16) as u128, f_u64: r.interesting(8) as u64, f_u32: r.interesting(4) as u32, f_u16: r.interesting(2) as u16, f_u8: r.interesting(1) as u8 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.push(self.mode.code()); o.push(self.kind.code()); o.extend_from_slice(&self.blob[..]); o.push(if self.f_bool { 1 } else { 0 }); put_le(&mut o, self.f_f64.to_bits() as u128, 8); put_le(&mut o, self.f_f32.to_bits() as u128, 4); put_le(&mut o, self.f_i128 as u128, 16); put_le(&mut o, self.f_i64 as u128, 8); put_le(&mut o, self.f_i32 as u128, 4); put_le(&mut o, self.f_i16 as u128, 2); put_le(&mut o, self.f_i8 as u128, 1); put_le(&mut o, self.f_u128 as u128, 16); put_le(&mut o, self.f_u64 as u128, 8); put_le(&mut o, self.f_u32 as u128, 4); put_le(&mut o, self.f_u16 as u128, 2); put_le(&mut o, self.f_u8 as u128, 1); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BMixRevReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BMixRev(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BMixRevReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BMixRevReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BMixRev(self) }
}
fn v_BMixRev(v: &BMixRevReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.push(v.mode.code()); o.push(v.kind.code()); o.extend_from_slice(&v.blob[..]); o.push(if v.f_bool { 1 } else { 0 }); put_le(&mut o, v.f_f64.to_bits() as u128, 8); put_le(&mut o, v.f_f32.to_bits() as u128, 4); put_le(&mut o, v.f_i128 as u128, 16); put_le(&mut o, v.f_i64 as u128, 8); put_le(&mut o, v.f_i32 as u128, 4); put_le(&mut o, v.f_i16 as u128, 2); put_le(&mut o, v.f_i8 as u128, 1); put_le(&mut o, v.f_u128 as u128, 16); put_le(&mut o, v.f_u64 as u128, 8); put_le(&mut o, v.f_u32 as u128, 4); put_le(&mut o, v.f_u16 as u128, 2); put_le(&mut o, v.f_u8 as u128, 1); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BAlt {
    pub a: u8,
    pub b: [u8; 3],
    pub c: u16,
    pub d: [u8; 5],
    pub e: u32,
    pub f: [u8; 7],
    pub g: u64,
}

impl BlockSpec for BAlt {
    const KIND: usize = 19;
    fn rnd(r: &mut Rng) -> Self { BAlt { a: r.interesting(1) as u8, b: { let mut a = [0u8; 3]; r.fill(&mut a); a }, c: r.interesting(2) as u16, d: { let mut a = [0u8; 5]; r.fill(&mut a); a }, e: r.interesting(4) as u32, f: { let mut a = [0u8; 7]; r.fill(&mut a); a }, g: r.interesting(8) as u64 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.a as u128, 1); o.extend_from_slice(&self.b[..]); put_le(&mut o, self.c as u128, 2); o.extend_from_slice(&self.d[..]); put_le(&mut o, self.e as u128, 4); o.extend_from_slice(&self.f[..]); put_le(&mut o, self.g as u128, 8); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BAltReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BAlt(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BAltReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BAltReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BAlt(self) }
}
fn v_BAlt(v: &BAltReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.a as u128, 1); o.extend_from_slice(&v.b[..]); put_le(&mut o, v.c as u128, 2); o.extend_from_slice(&v.d[..]); put_le(&mut o, v.e as u128, 4); o.extend_from_slice(&v.f[..]); put_le(&mut o, v.g as u128, 8); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BTwoBlobs {
    pub a: [u8; 8],
    pub b: [u8; 8],
}

impl BlockSpec for BTwoBlobs {
    const KIND: usize = 20;
    fn rnd(r: &mut Rng) -> Self { BTwoBlobs { a: { let mut a = [0u8; 8]; r.fill(&mut a); a }, b: { let mut a = [0u8; 8]; r.fill(&mut a); a } } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.extend_from_slice(&self.a[..]); o.extend_from_slice(&self.b[..]); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BTwoBlobsReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BTwoBlobs(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BTwoBlobsReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BTwoBlobsReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BTwoBlobs(self) }
}
fn v_BTwoBlobs(v: &BTwoBlobsReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.extend_from_slice(&v.a[..]); o.extend_from_slice(&v.b[..]); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BTwoBlobz {
    pub b: [u8; 8],
    pub a: [u8; 8],
}

impl BlockSpec for BTwoBlobz {
    const KIND: usize = 21;
    fn rnd(r: &mut Rng) -> Self { BTwoBlobz { b: { let mut a = [0u8; 8]; r.fill(&mut a); a }, a: { let mut a = [0u8; 8]; r.fill(&mut a); a } } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.extend_from_slice(&self.b[..]); o.extend_from_slice(&self.a[..]); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BTwoBlobzReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BTwoBlobz(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BTwoBlobzReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BTwoBlobzReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BTwoBlobz(self) }
}
fn v_BTwoBlobz(v: &BTwoBlobzReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.extend_from_slice(&v.b[..]); o.extend_from_slice(&v.a[..]); o }
#[brec::block]
#[derive(Clone, Debug, PartialEq)]
pub struct BMany {
    pub f0: u8,
    pub f1: i16,
    pub f2: bool,
    pub f3: u32,
    pub f4: f32,
    pub f5: Mode,
    pub f6: u8,
    pub f7: i16,
    pub f8: bool,
    pub f9: u32,
    pub f10: f32,
    pub f11: Mode,
    pub f12: u8,
    pub f13: i16,
    pub f14: bool,
    pub f15: u32,
    pub f16: f32,
    pub f17: Mode,
    pub f18: u8,
    pub f19: i16,
    pub f20: bool,
    pub f21: u32,
    pub f22: f32,
    pub f23: Mode,
    pub f24: u8,
    pub f25: i16,
    pub f26: bool,
    pub f27: u32,
    pub f28: f32,
    pub f29: Mode,
}

impl BlockSpec for BMany {
    const KIND: usize = 22;
    fn rnd(r: &mut Rng) -> Self { BMany { f0: r.interesting(1) as u8, f1: r.interesting(2) as i16, f2: r.coin(), f3: r.interesting(4) as u32, f4: f32::from_bits(r.interesting(4) as u32), f5: Mode::rnd(r), f6: r.interesting(1) as u8, f7: r.interesting(2) as i16, f8: r.coin(), f9: r.interesting(4) as u32, f10: f32::from_bits(r.interesting(4) as u32), f11: Mode::rnd(r), f12: r.interesting(1) as u8, f13: r.interesting(2) as i16, f14: r.coin(), f15: r.interesting(4) as u32, f16: f32::from_bits(r.interesting(4) as u32), f17: Mode::rnd(r), f18: r.interesting(1) as u8, f19: r.interesting(2) as i16, f20: r.coin(), f21: r.interesting(4) as u32, f22: f32::from_bits(r.interesting(4) as u32), f23: Mode::rnd(r), f24: r.interesting(1) as u8, f25: r.interesting(2) as i16, f26: r.coin(), f27: r.interesting(4) as u32, f28: f32::from_bits(r.interesting(4) as u32), f29: Mode::rnd(r) } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.f0 as u128, 1); put_le(&mut o, self.f1 as u128, 2); o.push(if self.f2 { 1 } else { 0 }); put_le(&mut o, self.f3 as u128, 4); put_le(&mut o, self.f4.to_bits() as u128, 4); o.push(self.f5.code()); put_le(&mut o, self.f6 as u128, 1); put_le(&mut o, self.f7 as u128, 2); o.push(if self.f8 { 1 } else { 0 }); put_le(&mut o, self.f9 as u128, 4); put_le(&mut o, self.f10.to_bits() as u128, 4); o.push(self.f11.code()); put_le(&mut o, self.f12 as u128, 1); put_le(&mut o, self.f13 as u128, 2); o.push(if self.f14 { 1 } else { 0 }); put_le(&mut o, self.f15 as u128, 4); put_le(&mut o, self.f16.to_bits() as u128, 4); o.push(self.f17.code()); put_le(&mut o, self.f18 as u128, 1); put_le(&mut o, self.f19 as u128, 2); o.push(if self.f20 { 1 } else { 0 }); put_le(&mut o, self.f21 as u128, 4); put_le(&mut o, self.f22.to_bits() as u128, 4); o.push(self.f23.code()); put_le(&mut o, self.f24 as u128, 1); put_le(&mut o, self.f25 as u128, 2); o.push(if self.f26 { 1 } else { 0 }); put_le(&mut o, self.f27 as u128, 4); put_le(&mut o, self.f28.to_bits() as u128, 4); o.push(self.f29.code()); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BManyReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BMany(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BManyReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BManyReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BMany(self) }
}
fn v_BMany(v: &BManyReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.f0 as u128, 1); put_le(&mut o, v.f1 as u128, 2); o.push(if v.f2 { 1 } else { 0 }); put_le(&mut o, v.f3 as u128, 4); put_le(&mut o, v.f4.to_bits() as u128, 4); o.push(v.f5.code()); put_le(&mut o, v.f6 as u128, 1); put_le(&mut o, v.f7 as u128, 2); o.push(if v.f8 { 1 } else { 0 }); put_le(&mut o, v.f9 as u128, 4); put_le(&mut o, v.f10.to_bits() as u128, 4); o.push(v.f11.code()); put_le(&mut o, v.f12 as u128, 1); put_le(&mut o, v.f13 as u128, 2); o.push(if v.f14 { 1 } else { 0 }); put_le(&mut o, v.f15 as u128, 4); put_le(&mut o, v.f16.to_bits() as u128, 4); o.push(v.f17.code()); put_le(&mut o, v.f18 as u128, 1); put_le(&mut o, v.f19 as u128, 2); o.push(if v.f20 { 1 } else { 0 }); put_le(&mut o, v.f21 as u128, 4); put_le(&mut o, v.f22.to_bits() as u128, 4); o.push(v.f23.code()); put_le(&mut o, v.f24 as u128, 1); put_le(&mut o, v.f25 as u128, 2); o.push(if v.f26 { 1 } else { 0 }); put_le(&mut o, v.f27 as u128, 4); put_le(&mut o, v.f28.to_bits() as u128, 4); o.push(v.f29.code()); o }
#[brec::block(no_crc)]
#[derive(Clone, Debug, PartialEq)]
pub struct BNoCrc {
    pub a: u32,
    pub b: [u8; 16],
    pub c: bool,
}

impl BlockSpec for BNoCrc {
    const KIND: usize = 23;
    fn rnd(r: &mut Rng) -> Self { BNoCrc { a: r.interesting(4) as u32, b: { let mut a = [0u8; 16]; r.fill(&mut a); a }, c: r.coin() } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); put_le(&mut o, self.a as u128, 4); o.extend_from_slice(&self.b[..]); o.push(if self.c { 1 } else { 0 }); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BNoCrcReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BNoCrc(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BNoCrcReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BNoCrcReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BNoCrc(self) }
}
fn v_BNoCrc(v: &BNoCrcReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; put_le(&mut o, v.a as u128, 4); o.extend_from_slice(&v.b[..]); o.push(if v.c { 1 } else { 0 }); o }
#[brec::block(no_crc)]
#[derive(Clone, Debug, PartialEq)]
pub struct BNoCrcKind {
    pub m: Mode,
    pub v: i128,
}

impl BlockSpec for BNoCrcKind {
    const KIND: usize = 24;
    fn rnd(r: &mut Rng) -> Self { BNoCrcKind { m: Mode::rnd(r), v: r.interesting(16) as i128 } }
    fn body(&self) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); o.push(self.m.code()); put_le(&mut o, self.v as u128, 16); o }
    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> { let v = <BNoCrcKindReferred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_BNoCrcKind(&v)) }
    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> { let v = <BNoCrcKindReferred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }
    fn view_sig() -> [u8; 4] { *<BNoCrcKindReferred as brec::SignatureU32>::sig() }
    fn wrap(self) -> Block { Block::BNoCrcKind(self) }
}
fn v_BNoCrcKind(v: &BNoCrcKindReferred<'_>) -> Vec<u8> { #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; o.push(v.m.code()); put_le(&mut o, v.v as u128, 16); o }
pub const NB: usize = 25;
pub static B_NAME: [&str; NB] = ["BU8", "BU16", "BU32", "BU64", "BU128", "BI8", "BI16", "BI32", "BI64", "BI128", "BF32", "BF64", "BBOOL", "BKind", "BBlob1", "BBlob1k", "BHuge", "BMix", "BMixRev", "BAlt", "BTwoBlobs", "BTwoBlobz", "BMany", "BNoCrc", "BNoCrcKind"];
/// text the signature is derived from: name, then every field (the injected signature and checksum included) as name:type
pub static B_SNAP: [&str; NB] = ["BU8;__sig:[u8;4];v:u8;__crc:[u8;4]", "BU16;__sig:[u8;4];v:u16;__crc:[u8;4]", "BU32;__sig:[u8;4];v:u32;__crc:[u8;4]", "BU64;__sig:[u8;4];v:u64;__crc:[u8;4]", "BU128;__sig:[u8;4];v:u128;__crc:[u8;4]", "BI8;__sig:[u8;4];v:i8;__crc:[u8;4]", "BI16;__sig:[u8;4];v:i16;__crc:[u8;4]", "BI32;__sig:[u8;4];v:i32;__crc:[u8;4]", "BI64;__sig:[u8;4];v:i64;__crc:[u8;4]", "BI128;__sig:[u8;4];v:i128;__crc:[u8;4]", "BF32;__sig:[u8;4];v:f32;__crc:[u8;4]", "BF64;__sig:[u8;4];v:f64;__crc:[u8;4]", "BBOOL;__sig:[u8;4];v:bool;__crc:[u8;4]", "BKind;__sig:[u8;4];k:Kind;__crc:[u8;4]", "BBlob1;__sig:[u8;4];b:[u8;1];__crc:[u8;4]", "BBlob1k;__sig:[u8;4];b:[u8;1024];__crc:[u8;4]", "BHuge;__sig:[u8;4];a:u16;b:[u8;9000];c:u16;__crc:[u8;4]", "BMix;__sig:[u8;4];f_u8:u8;f_u16:u16;f_u32:u32;f_u64:u64;f_u128:u128;f_i8:i8;f_i16:i16;f_i32:i32;f_i64:i64;f_i128:i128;f_f32:f32;f_f64:f64;f_bool:bool;blob:[u8;33];kind:Kind;mode:Mode;__crc:[u8;4]", "BMixRev;__sig:[u8;4];mode:Mode;kind:Kind;blob:[u8;33];f_bool:bool;f_f64:f64;f_f32:f32;f_i128:i128;f_i64:i64;f_i32:i32;f_i16:i16;f_i8:i8;f_u128:u128;f_u64:u64;f_u32:u32;f_u16:u16;f_u8:u8;__crc:[u8;4]", "BAlt;__sig:[u8;4];a:u8;b:[u8;3];c:u16;d:[u8;5];e:u32;f:[u8;7];g:u64;__crc:[u8;4]", "BTwoBlobs;__sig:[u8;4];a:[u8;8];b:[u8;8];__crc:[u8;4]", "BTwoBlobz;__sig:[u8;4];b:[u8;8];a:[u8;8];__crc:[u8;4]", "BMany;__sig:[u8;4];f0:u8;f1:i16;f2:bool;f3:u32;f4:f32;f5:Mode;f6:u8;f7:i16;f8:bool;f9:u32;f10:f32;f11:Mode;f12:u8;f13:i16;f14:bool;f15:u32;f16:f32;f17:Mode;f18:u8;f19:i16;f20:bool;f21:u32;f22:f32;f23:Mode;f24:u8;f25:i16;f26:bool;f27:u32;f28:f32;f29:Mode;__crc:[u8;4]", "BNoCrc;__sig:[u8;4];a:u32;b:[u8;16];c:bool;__crc:[u8;4]", "BNoCrcKind;__sig:[u8;4];m:Mode;v:i128;__crc:[u8;4]"];
pub static B_LEN: [usize; NB] = [1, 2, 4, 8, 16, 1, 2, 4, 8, 16, 4, 8, 1, 1, 1, 1024, 9004, 110, 110, 30, 16, 16, 65, 21, 17];
pub static B_CRC: [bool; NB] = [true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, false, false];
pub fn gen_block(k: usize, r: &mut Rng) -> Block { match k {
    0 => Block::BU8(BU8::rnd(r)),
    1 => Block::BU16(BU16::rnd(r)),
    2 => Block::BU32(BU32::rnd(r)),
    3 => Block::BU64(BU64::rnd(r)),
    4 => Block::BU128(BU128::rnd(r)),
    5 => Block::BI8(BI8::rnd(r)),
    6 => Block::BI16(BI16::rnd(r)),
    7 => Block::BI32(BI32::rnd(r)),
    8 => Block::BI64(BI64::rnd(r)),
    9 => Block::BI128(BI128::rnd(r)),
    10 => Block::BF32(BF32::rnd(r)),
    11 => Block::BF64(BF64::rnd(r)),
    12 => Block::BBOOL(BBOOL::rnd(r)),
    13 => Block::BKind(BKind::rnd(r)),
    14 => Block::BBlob1(BBlob1::rnd(r)),
    15 => Block::BBlob1k(BBlob1k::rnd(r)),
    16 => Block::BHuge(BHuge::rnd(r)),
    17 => Block::BMix(BMix::rnd(r)),
    18 => Block::BMixRev(BMixRev::rnd(r)),
    19 => Block::BAlt(BAlt::rnd(r)),
    20 => Block::BTwoBlobs(BTwoBlobs::rnd(r)),
    21 => Block::BTwoBlobz(BTwoBlobz::rnd(r)),
    22 => Block::BMany(BMany::rnd(r)),
    23 => Block::BNoCrc(BNoCrc::rnd(r)),
    24 => Block::BNoCrcKind(BNoCrcKind::rnd(r)),
    _ => unreachable!() } }
pub fn block_kind(b: &Block) -> usize { match b {
    Block::BU8(_) => 0,
    Block::BU16(_) => 1,
    Block::BU32(_) => 2,
    Block::BU64(_) => 3,
    Block::BU128(_) => 4,
    Block::BI8(_) => 5,
    Block::BI16(_) => 6,
    Block::BI32(_) => 7,
    Block::BI64(_) => 8,
    Block::BI128(_) => 9,
    Block::BF32(_) => 10,
    Block::BF64(_) => 11,
    Block::BBOOL(_) => 12,
    Block::BKind(_) => 13,
    Block::BBlob1(_) => 14,
    Block::BBlob1k(_) => 15,
    Block::BHuge(_) => 16,
    Block::BMix(_) => 17,
    Block::BMixRev(_) => 18,
    Block::BAlt(_) => 19,
    Block::BTwoBlobs(_) => 20,
    Block::BTwoBlobz(_) => 21,
    Block::BMany(_) => 22,
    Block::BNoCrc(_) => 23,
    Block::BNoCrcKind(_) => 24,
} }
pub fn block_body(b: &Block) -> Vec<u8> { match b {
    Block::BU8(x) => x.body(),
    Block::BU16(x) => x.body(),
    Block::BU32(x) => x.body(),
    Block::BU64(x) => x.body(),
    Block::BU128(x) => x.body(),
    Block::BI8(x) => x.body(),
    Block::BI16(x) => x.body(),
    Block::BI32(x) => x.body(),
    Block::BI64(x) => x.body(),
    Block::BI128(x) => x.body(),
    Block::BF32(x) => x.body(),
    Block::BF64(x) => x.body(),
    Block::BBOOL(x) => x.body(),
    Block::BKind(x) => x.body(),
    Block::BBlob1(x) => x.body(),
    Block::BBlob1k(x) => x.body(),
    Block::BHuge(x) => x.body(),
    Block::BMix(x) => x.body(),
    Block::BMixRev(x) => x.body(),
    Block::BAlt(x) => x.body(),
    Block::BTwoBlobs(x) => x.body(),
    Block::BTwoBlobz(x) => x.body(),
    Block::BMany(x) => x.body(),
    Block::BNoCrc(x) => x.body(),
    Block::BNoCrcKind(x) => x.body(),
} }
pub fn view_kind_body(b: &BlockReferred<'_>) -> (usize, Vec<u8>) { match b {
    BlockReferred::BU8(x) => (0, v_BU8(x)),
    BlockReferred::BU16(x) => (1, v_BU16(x)),
    BlockReferred::BU32(x) => (2, v_BU32(x)),
    BlockReferred::BU64(x) => (3, v_BU64(x)),
    BlockReferred::BU128(x) => (4, v_BU128(x)),
    BlockReferred::BI8(x) => (5, v_BI8(x)),
    BlockReferred::BI16(x) => (6, v_BI16(x)),
    BlockReferred::BI32(x) => (7, v_BI32(x)),
    BlockReferred::BI64(x) => (8, v_BI64(x)),
    BlockReferred::BI128(x) => (9, v_BI128(x)),
    BlockReferred::BF32(x) => (10, v_BF32(x)),
    BlockReferred::BF64(x) => (11, v_BF64(x)),
    BlockReferred::BBOOL(x) => (12, v_BBOOL(x)),
    BlockReferred::BKind(x) => (13, v_BKind(x)),
    BlockReferred::BBlob1(x) => (14, v_BBlob1(x)),
    BlockReferred::BBlob1k(x) => (15, v_BBlob1k(x)),
    BlockReferred::BHuge(x) => (16, v_BHuge(x)),
    BlockReferred::BMix(x) => (17, v_BMix(x)),
    BlockReferred::BMixRev(x) => (18, v_BMixRev(x)),
    BlockReferred::BAlt(x) => (19, v_BAlt(x)),
    BlockReferred::BTwoBlobs(x) => (20, v_BTwoBlobs(x)),
    BlockReferred::BTwoBlobz(x) => (21, v_BTwoBlobz(x)),
    BlockReferred::BMany(x) => (22, v_BMany(x)),
    BlockReferred::BNoCrc(x) => (23, v_BNoCrc(x)),
    BlockReferred::BNoCrcKind(x) => (24, v_BNoCrcKind(x)),
} }
pub fn visit_block<V: BlockVisitor>(k: usize, v: &mut V) -> V::Out { match k {
    0 => v.visit::<BU8>(),
    1 => v.visit::<BU16>(),
    2 => v.visit::<BU32>(),
    3 => v.visit::<BU64>(),
    4 => v.visit::<BU128>(),
    5 => v.visit::<BI8>(),
    6 => v.visit::<BI16>(),
    7 => v.visit::<BI32>(),
    8 => v.visit::<BI64>(),
    9 => v.visit::<BI128>(),
    10 => v.visit::<BF32>(),
    11 => v.visit::<BF64>(),
    12 => v.visit::<BBOOL>(),
    13 => v.visit::<BKind>(),
    14 => v.visit::<BBlob1>(),
    15 => v.visit::<BBlob1k>(),
    16 => v.visit::<BHuge>(),
    17 => v.visit::<BMix>(),
    18 => v.visit::<BMixRev>(),
    19 => v.visit::<BAlt>(),
    20 => v.visit::<BTwoBlobs>(),
    21 => v.visit::<BTwoBlobz>(),
    22 => v.visit::<BMany>(),
    23 => v.visit::<BNoCrc>(),
    24 => v.visit::<BNoCrcKind>(),
    _ => unreachable!() } }

#[brec::payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlStruct { pub a: u8, pub b: u64, pub c: String, pub d: Vec<u8>, pub e: Option<u32>, pub f: Vec<Vec<u16>>, pub g: bool, pub h: i16 }
impl PlStruct {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlStruct { a: r.interesting(1) as u8, b: r.interesting(8) as u64, c: rnd_string(r, max / 4), d: rnd_bytes(r, max / 4), e: if r.coin() { Some(r.interesting(4) as u32) } else { None }, f: (0..r.below(4)).map(|_| (0..r.below(5)).map(|_| r.interesting(2) as u16).collect()).collect(), g: r.coin(), h: r.interesting(2) as i16 } }
    fn ref_body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.push(self.a); put_le(&mut o, self.b as u128, 8);
        put_le(&mut o, self.c.len() as u128, 8); o.extend_from_slice(self.c.as_bytes());
        put_le(&mut o, self.d.len() as u128, 8); o.extend_from_slice(&self.d);
        match self.e { None => o.push(0), Some(v) => { o.push(1); put_le(&mut o, v as u128, 4) } }
        put_le(&mut o, self.f.len() as u128, 8);
        for v in &self.f { put_le(&mut o, v.len() as u128, 8); for x in v { put_le(&mut o, *x as u128, 2) } }
        o.push(self.g as u8); put_le(&mut o, self.h as u16 as u128, 2);
        o
    }
}

#[brec::payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub enum PlEnum { Unit, One(u32), Named { x: i64, y: Vec<u8> }, Text(String) }
impl PlEnum {
    fn rnd(r: &mut Rng, max: usize) -> Self { match r.below(4) { 0 => PlEnum::Unit, 1 => PlEnum::One(r.interesting(4) as u32), 2 => PlEnum::Named { x: r.interesting(8) as i64, y: rnd_bytes(r, max) }, _ => PlEnum::Text(rnd_string(r, max)) } }
    fn ref_body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        match self {
            PlEnum::Unit => put_le(&mut o, 0, 4),
            PlEnum::One(v) => { put_le(&mut o, 1, 4); put_le(&mut o, *v as u128, 4) }
            PlEnum::Named { x, y } => { put_le(&mut o, 2, 4); put_le(&mut o, *x as u64 as u128, 8); put_le(&mut o, y.len() as u128, 8); o.extend_from_slice(y) }
            PlEnum::Text(s) => { put_le(&mut o, 3, 4); put_le(&mut o, s.len() as u128, 8); o.extend_from_slice(s.as_bytes()) }
        }
        o
    }
}

#[brec::payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlNoCrc { pub id: u32, pub data: Vec<u8> }
impl PlNoCrc {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlNoCrc { id: r.interesting(4) as u32, data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { let mut o = Vec::new(); put_le(&mut o, self.id as u128, 4); put_le(&mut o, self.data.len() as u128, 8); o.extend_from_slice(&self.data); o }
}

#[brec::payload(bincode, no_auto_crc)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlManualCrc { pub id: u32, pub data: Vec<u8> }
impl PlManualCrc {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlManualCrc { id: r.interesting(4) as u32, data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { let mut o = Vec::new(); put_le(&mut o, self.id as u128, 4); put_le(&mut o, self.data.len() as u128, 8); o.extend_from_slice(&self.data); o }
}
impl brec::PayloadCrc for PlManualCrc {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C4 { pub data: Vec<u8> }
impl PlS4C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS4C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 4) } }
impl brec::StaticPayloadSignature for PlS4C4 { fn ssig() -> brec::ByteBlock { custom_sig(4, 4) } }
impl brec::PayloadEncode for PlS4C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS4C4> for PlS4C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C4> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS4C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C8 { pub data: Vec<u8> }
impl PlS4C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS4C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 8) } }
impl brec::StaticPayloadSignature for PlS4C8 { fn ssig() -> brec::ByteBlock { custom_sig(4, 8) } }
impl brec::PayloadEncode for PlS4C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS4C8> for PlS4C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C8> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS4C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C16 { pub data: Vec<u8> }
impl PlS4C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS4C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 16) } }
impl brec::StaticPayloadSignature for PlS4C16 { fn ssig() -> brec::ByteBlock { custom_sig(4, 16) } }
impl brec::PayloadEncode for PlS4C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS4C16> for PlS4C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C16> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS4C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C32 { pub data: Vec<u8> }
impl PlS4C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS4C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 32) } }
impl brec::StaticPayloadSignature for PlS4C32 { fn ssig() -> brec::ByteBlock { custom_sig(4, 32) } }
impl brec::PayloadEncode for PlS4C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS4C32> for PlS4C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C32> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS4C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C64 { pub data: Vec<u8> }
impl PlS4C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS4C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 64) } }
impl brec::StaticPayloadSignature for PlS4C64 { fn ssig() -> brec::ByteBlock { custom_sig(4, 64) } }
impl brec::PayloadEncode for PlS4C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS4C64> for PlS4C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C64> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS4C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS4C128 { pub data: Vec<u8> }
impl PlS4C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS4C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS4C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(4, 128) } }
impl brec::StaticPayloadSignature for PlS4C128 { fn ssig() -> brec::ByteBlock { custom_sig(4, 128) } }
impl brec::PayloadEncode for PlS4C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS4C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS4C128> for PlS4C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS4C128> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS4C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS4C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C4 { pub data: Vec<u8> }
impl PlS8C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS8C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 4) } }
impl brec::StaticPayloadSignature for PlS8C4 { fn ssig() -> brec::ByteBlock { custom_sig(8, 4) } }
impl brec::PayloadEncode for PlS8C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS8C4> for PlS8C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C4> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS8C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C8 { pub data: Vec<u8> }
impl PlS8C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS8C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 8) } }
impl brec::StaticPayloadSignature for PlS8C8 { fn ssig() -> brec::ByteBlock { custom_sig(8, 8) } }
impl brec::PayloadEncode for PlS8C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS8C8> for PlS8C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C8> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS8C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C16 { pub data: Vec<u8> }
impl PlS8C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS8C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 16) } }
impl brec::StaticPayloadSignature for PlS8C16 { fn ssig() -> brec::ByteBlock { custom_sig(8, 16) } }
impl brec::PayloadEncode for PlS8C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS8C16> for PlS8C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C16> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS8C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C32 { pub data: Vec<u8> }
impl PlS8C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS8C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 32) } }
impl brec::StaticPayloadSignature for PlS8C32 { fn ssig() -> brec::ByteBlock { custom_sig(8, 32) } }
impl brec::PayloadEncode for PlS8C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS8C32> for PlS8C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C32> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS8C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C64 { pub data: Vec<u8> }
impl PlS8C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS8C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 64) } }
impl brec::StaticPayloadSignature for PlS8C64 { fn ssig() -> brec::ByteBlock { custom_sig(8, 64) } }
impl brec::PayloadEncode for PlS8C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS8C64> for PlS8C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C64> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS8C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS8C128 { pub data: Vec<u8> }
impl PlS8C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS8C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS8C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(8, 128) } }
impl brec::StaticPayloadSignature for PlS8C128 { fn ssig() -> brec::ByteBlock { custom_sig(8, 128) } }
impl brec::PayloadEncode for PlS8C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS8C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS8C128> for PlS8C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS8C128> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS8C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS8C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C4 { pub data: Vec<u8> }
impl PlS16C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS16C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 4) } }
impl brec::StaticPayloadSignature for PlS16C4 { fn ssig() -> brec::ByteBlock { custom_sig(16, 4) } }
impl brec::PayloadEncode for PlS16C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS16C4> for PlS16C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C4> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS16C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C8 { pub data: Vec<u8> }
impl PlS16C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS16C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 8) } }
impl brec::StaticPayloadSignature for PlS16C8 { fn ssig() -> brec::ByteBlock { custom_sig(16, 8) } }
impl brec::PayloadEncode for PlS16C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS16C8> for PlS16C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C8> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS16C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C16 { pub data: Vec<u8> }
impl PlS16C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS16C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 16) } }
impl brec::StaticPayloadSignature for PlS16C16 { fn ssig() -> brec::ByteBlock { custom_sig(16, 16) } }
impl brec::PayloadEncode for PlS16C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS16C16> for PlS16C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C16> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS16C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C32 { pub data: Vec<u8> }
impl PlS16C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS16C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 32) } }
impl brec::StaticPayloadSignature for PlS16C32 { fn ssig() -> brec::ByteBlock { custom_sig(16, 32) } }
impl brec::PayloadEncode for PlS16C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS16C32> for PlS16C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C32> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS16C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C64 { pub data: Vec<u8> }
impl PlS16C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS16C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 64) } }
impl brec::StaticPayloadSignature for PlS16C64 { fn ssig() -> brec::ByteBlock { custom_sig(16, 64) } }
impl brec::PayloadEncode for PlS16C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS16C64> for PlS16C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C64> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS16C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS16C128 { pub data: Vec<u8> }
impl PlS16C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS16C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS16C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(16, 128) } }
impl brec::StaticPayloadSignature for PlS16C128 { fn ssig() -> brec::ByteBlock { custom_sig(16, 128) } }
impl brec::PayloadEncode for PlS16C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS16C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS16C128> for PlS16C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS16C128> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS16C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS16C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C4 { pub data: Vec<u8> }
impl PlS32C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS32C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 4) } }
impl brec::StaticPayloadSignature for PlS32C4 { fn ssig() -> brec::ByteBlock { custom_sig(32, 4) } }
impl brec::PayloadEncode for PlS32C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS32C4> for PlS32C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C4> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS32C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C8 { pub data: Vec<u8> }
impl PlS32C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS32C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 8) } }
impl brec::StaticPayloadSignature for PlS32C8 { fn ssig() -> brec::ByteBlock { custom_sig(32, 8) } }
impl brec::PayloadEncode for PlS32C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS32C8> for PlS32C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C8> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS32C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C16 { pub data: Vec<u8> }
impl PlS32C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS32C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 16) } }
impl brec::StaticPayloadSignature for PlS32C16 { fn ssig() -> brec::ByteBlock { custom_sig(32, 16) } }
impl brec::PayloadEncode for PlS32C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS32C16> for PlS32C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C16> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS32C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C32 { pub data: Vec<u8> }
impl PlS32C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS32C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 32) } }
impl brec::StaticPayloadSignature for PlS32C32 { fn ssig() -> brec::ByteBlock { custom_sig(32, 32) } }
impl brec::PayloadEncode for PlS32C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS32C32> for PlS32C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C32> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS32C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C64 { pub data: Vec<u8> }
impl PlS32C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS32C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 64) } }
impl brec::StaticPayloadSignature for PlS32C64 { fn ssig() -> brec::ByteBlock { custom_sig(32, 64) } }
impl brec::PayloadEncode for PlS32C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS32C64> for PlS32C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C64> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS32C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS32C128 { pub data: Vec<u8> }
impl PlS32C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS32C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS32C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(32, 128) } }
impl brec::StaticPayloadSignature for PlS32C128 { fn ssig() -> brec::ByteBlock { custom_sig(32, 128) } }
impl brec::PayloadEncode for PlS32C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS32C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS32C128> for PlS32C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS32C128> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS32C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS32C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C4 { pub data: Vec<u8> }
impl PlS64C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS64C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 4) } }
impl brec::StaticPayloadSignature for PlS64C4 { fn ssig() -> brec::ByteBlock { custom_sig(64, 4) } }
impl brec::PayloadEncode for PlS64C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS64C4> for PlS64C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C4> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS64C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C8 { pub data: Vec<u8> }
impl PlS64C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS64C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 8) } }
impl brec::StaticPayloadSignature for PlS64C8 { fn ssig() -> brec::ByteBlock { custom_sig(64, 8) } }
impl brec::PayloadEncode for PlS64C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS64C8> for PlS64C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C8> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS64C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C16 { pub data: Vec<u8> }
impl PlS64C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS64C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 16) } }
impl brec::StaticPayloadSignature for PlS64C16 { fn ssig() -> brec::ByteBlock { custom_sig(64, 16) } }
impl brec::PayloadEncode for PlS64C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS64C16> for PlS64C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C16> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS64C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C32 { pub data: Vec<u8> }
impl PlS64C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS64C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 32) } }
impl brec::StaticPayloadSignature for PlS64C32 { fn ssig() -> brec::ByteBlock { custom_sig(64, 32) } }
impl brec::PayloadEncode for PlS64C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS64C32> for PlS64C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C32> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS64C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C64 { pub data: Vec<u8> }
impl PlS64C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS64C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 64) } }
impl brec::StaticPayloadSignature for PlS64C64 { fn ssig() -> brec::ByteBlock { custom_sig(64, 64) } }
impl brec::PayloadEncode for PlS64C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS64C64> for PlS64C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C64> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS64C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS64C128 { pub data: Vec<u8> }
impl PlS64C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS64C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS64C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(64, 128) } }
impl brec::StaticPayloadSignature for PlS64C128 { fn ssig() -> brec::ByteBlock { custom_sig(64, 128) } }
impl brec::PayloadEncode for PlS64C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS64C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS64C128> for PlS64C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS64C128> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS64C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS64C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C4 { pub data: Vec<u8> }
impl PlS128C4 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C4 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { mask(&self.data) }
}
impl brec::PayloadSignature for PlS128C4 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 4) } }
impl brec::StaticPayloadSignature for PlS128C4 { fn ssig() -> brec::ByteBlock { custom_sig(128, 4) } }
impl brec::PayloadEncode for PlS128C4 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C4 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(None) } }
impl brec::PayloadDecode<PlS128C4> for PlS128C4 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C4> { unmask(buf).map(|data| Self { data }) } }
impl brec::PayloadSize for PlS128C4 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C4 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C8 { pub data: Vec<u8> }
impl PlS128C8 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C8 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS128C8 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 8) } }
impl brec::StaticPayloadSignature for PlS128C8 { fn ssig() -> brec::ByteBlock { custom_sig(128, 8) } }
impl brec::PayloadEncode for PlS128C8 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C8 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS128C8> for PlS128C8 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C8> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS128C8 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C8 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 8)) }
    fn crc_size() -> usize { 8 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C16 { pub data: Vec<u8> }
impl PlS128C16 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C16 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS128C16 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 16) } }
impl brec::StaticPayloadSignature for PlS128C16 { fn ssig() -> brec::ByteBlock { custom_sig(128, 16) } }
impl brec::PayloadEncode for PlS128C16 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C16 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS128C16> for PlS128C16 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C16> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS128C16 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C16 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 16)) }
    fn crc_size() -> usize { 16 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C32 { pub data: Vec<u8> }
impl PlS128C32 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C32 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS128C32 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 32) } }
impl brec::StaticPayloadSignature for PlS128C32 { fn ssig() -> brec::ByteBlock { custom_sig(128, 32) } }
impl brec::PayloadEncode for PlS128C32 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C32 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS128C32> for PlS128C32 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C32> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS128C32 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C32 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 32)) }
    fn crc_size() -> usize { 32 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C64 { pub data: Vec<u8> }
impl PlS128C64 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C64 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS128C64 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 64) } }
impl brec::StaticPayloadSignature for PlS128C64 { fn ssig() -> brec::ByteBlock { custom_sig(128, 64) } }
impl brec::PayloadEncode for PlS128C64 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C64 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS128C64> for PlS128C64 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C64> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS128C64 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C64 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 64)) }
    fn crc_size() -> usize { 64 }
}

#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct PlS128C128 { pub data: Vec<u8> }
impl PlS128C128 {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlS128C128 { data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { self.data.clone() }
}
impl brec::PayloadSignature for PlS128C128 { fn sig(&self) -> brec::ByteBlock { custom_sig(128, 128) } }
impl brec::StaticPayloadSignature for PlS128C128 { fn ssig() -> brec::ByteBlock { custom_sig(128, 128) } }
impl brec::PayloadEncode for PlS128C128 { fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.ref_body()) } }
impl brec::PayloadEncodeReferred for PlS128C128 { fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.data)) } }
impl brec::PayloadDecode<PlS128C128> for PlS128C128 { fn decode(buf: &[u8]) -> std::io::Result<PlS128C128> { Ok(Self { data: buf.to_vec() }) } }
impl brec::PayloadSize for PlS128C128 { fn size(&self) -> std::io::Result<u64> { Ok(self.ref_body().len() as u64) } }
impl brec::PayloadCrc for PlS128C128 {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 128)) }
    fn crc_size() -> usize { 128 }
}
pub const NP: usize = 42;
pub static P_NAME: [&str; NP] = ["Bytes", "String", "PlStruct", "PlEnum", "PlNoCrc", "PlManualCrc", "PlS4C4", "PlS4C8", "PlS4C16", "PlS4C32", "PlS4C64", "PlS4C128", "PlS8C4", "PlS8C8", "PlS8C16", "PlS8C32", "PlS8C64", "PlS8C128", "PlS16C4", "PlS16C8", "PlS16C16", "PlS16C32", "PlS16C64", "PlS16C128", "PlS32C4", "PlS32C8", "PlS32C16", "PlS32C32", "PlS32C64", "PlS32C128", "PlS64C4", "PlS64C8", "PlS64C16", "PlS64C32", "PlS64C64", "PlS64C128", "PlS128C4", "PlS128C8", "PlS128C16", "PlS128C32", "PlS128C64", "PlS128C128"];
pub static P_CHECKED: [bool; NP] = [true, true, true, true, false, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true, true];
pub static P_SIGLEN: [usize; NP] = [4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 8, 8, 8, 8, 8, 8, 16, 16, 16, 16, 16, 16, 32, 32, 32, 32, 32, 32, 64, 64, 64, 64, 64, 64, 128, 128, 128, 128, 128, 128];
pub static P_CRCLEN: [usize; NP] = [4, 4, 4, 4, 4, 4, 4, 8, 16, 32, 64, 128, 4, 8, 16, 32, 64, 128, 4, 8, 16, 32, 64, 128, 4, 8, 16, 32, 64, 128, 4, 8, 16, 32, 64, 128, 4, 8, 16, 32, 64, 128];
pub static P_SIGKIND: [usize; NP] = [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];
pub static P_CRCKIND: [usize; NP] = [0, 0, 0, 0, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];
pub fn payload_kind(p: &Payload) -> usize { match p { Payload::Bytes(_) => 0, Payload::String(_) => 1,
    Payload::PlStruct(_) => 2,
    Payload::PlEnum(_) => 3,
    Payload::PlNoCrc(_) => 4,
    Payload::PlManualCrc(_) => 5,
    Payload::PlS4C4(_) => 6,
    Payload::PlS4C8(_) => 7,
    Payload::PlS4C16(_) => 8,
    Payload::PlS4C32(_) => 9,
    Payload::PlS4C64(_) => 10,
    Payload::PlS4C128(_) => 11,
    Payload::PlS8C4(_) => 12,
    Payload::PlS8C8(_) => 13,
    Payload::PlS8C16(_) => 14,
    Payload::PlS8C32(_) => 15,
    Payload::PlS8C64(_) => 16,
    Payload::PlS8C128(_) => 17,
    Payload::PlS16C4(_) => 18,
    Payload::PlS16C8(_) => 19,
    Payload::PlS16C16(_) => 20,
    Payload::PlS16C32(_) => 21,
    Payload::PlS16C64(_) => 22,
    Payload::PlS16C128(_) => 23,
    Payload::PlS32C4(_) => 24,
    Payload::PlS32C8(_) => 25,
    Payload::PlS32C16(_) => 26,
    Payload::PlS32C32(_) => 27,
    Payload::PlS32C64(_) => 28,
    Payload::PlS32C128(_) => 29,
    Payload::PlS64C4(_) => 30,
    Payload::PlS64C8(_) => 31,
    Payload::PlS64C16(_) => 32,
    Payload::PlS64C32(_) => 33,
    Payload::PlS64C64(_) => 34,
    Payload::PlS64C128(_) => 35,
    Payload::PlS128C4(_) => 36,
    Payload::PlS128C8(_) => 37,
    Payload::PlS128C16(_) => 38,
    Payload::PlS128C32(_) => 39,
    Payload::PlS128C64(_) => 40,
    Payload::PlS128C128(_) => 41,
} }
pub fn payload_body(p: &Payload) -> Vec<u8> { match p { Payload::Bytes(x) => x.clone(), Payload::String(x) => x.as_bytes().to_vec(),
    Payload::PlStruct(x) => x.ref_body(),
    Payload::PlEnum(x) => x.ref_body(),
    Payload::PlNoCrc(x) => x.ref_body(),
    Payload::PlManualCrc(x) => x.ref_body(),
    Payload::PlS4C4(x) => x.ref_body(),
    Payload::PlS4C8(x) => x.ref_body(),
    Payload::PlS4C16(x) => x.ref_body(),
    Payload::PlS4C32(x) => x.ref_body(),
    Payload::PlS4C64(x) => x.ref_body(),
    Payload::PlS4C128(x) => x.ref_body(),
    Payload::PlS8C4(x) => x.ref_body(),
    Payload::PlS8C8(x) => x.ref_body(),
    Payload::PlS8C16(x) => x.ref_body(),
    Payload::PlS8C32(x) => x.ref_body(),
    Payload::PlS8C64(x) => x.ref_body(),
    Payload::PlS8C128(x) => x.ref_body(),
    Payload::PlS16C4(x) => x.ref_body(),
    Payload::PlS16C8(x) => x.ref_body(),
    Payload::PlS16C16(x) => x.ref_body(),
    Payload::PlS16C32(x) => x.ref_body(),
    Payload::PlS16C64(x) => x.ref_body(),
    Payload::PlS16C128(x) => x.ref_body(),
    Payload::PlS32C4(x) => x.ref_body(),
    Payload::PlS32C8(x) => x.ref_body(),
    Payload::PlS32C16(x) => x.ref_body(),
    Payload::PlS32C32(x) => x.ref_body(),
    Payload::PlS32C64(x) => x.ref_body(),
    Payload::PlS32C128(x) => x.ref_body(),
    Payload::PlS64C4(x) => x.ref_body(),
    Payload::PlS64C8(x) => x.ref_body(),
    Payload::PlS64C16(x) => x.ref_body(),
    Payload::PlS64C32(x) => x.ref_body(),
    Payload::PlS64C64(x) => x.ref_body(),
    Payload::PlS64C128(x) => x.ref_body(),
    Payload::PlS128C4(x) => x.ref_body(),
    Payload::PlS128C8(x) => x.ref_body(),
    Payload::PlS128C16(x) => x.ref_body(),
    Payload::PlS128C32(x) => x.ref_body(),
    Payload::PlS128C64(x) => x.ref_body(),
    Payload::PlS128C128(x) => x.ref_body(),
} }
pub fn gen_payload(k: usize, r: &mut Rng, max: usize) -> Payload { match k {
    0 => Payload::Bytes(rnd_bytes(r, max)), 1 => Payload::String(rnd_string(r, max)),
    2 => Payload::PlStruct(PlStruct::rnd(r, max)),
    3 => Payload::PlEnum(PlEnum::rnd(r, max)),
    4 => Payload::PlNoCrc(PlNoCrc::rnd(r, max)),
    5 => Payload::PlManualCrc(PlManualCrc::rnd(r, max)),
    6 => Payload::PlS4C4(PlS4C4::rnd(r, max)),
    7 => Payload::PlS4C8(PlS4C8::rnd(r, max)),
    8 => Payload::PlS4C16(PlS4C16::rnd(r, max)),
    9 => Payload::PlS4C32(PlS4C32::rnd(r, max)),
    10 => Payload::PlS4C64(PlS4C64::rnd(r, max)),
    11 => Payload::PlS4C128(PlS4C128::rnd(r, max)),
    12 => Payload::PlS8C4(PlS8C4::rnd(r, max)),
    13 => Payload::PlS8C8(PlS8C8::rnd(r, max)),
    14 => Payload::PlS8C16(PlS8C16::rnd(r, max)),
    15 => Payload::PlS8C32(PlS8C32::rnd(r, max)),
    16 => Payload::PlS8C64(PlS8C64::rnd(r, max)),
    17 => Payload::PlS8C128(PlS8C128::rnd(r, max)),
    18 => Payload::PlS16C4(PlS16C4::rnd(r, max)),
    19 => Payload::PlS16C8(PlS16C8::rnd(r, max)),
    20 => Payload::PlS16C16(PlS16C16::rnd(r, max)),
    21 => Payload::PlS16C32(PlS16C32::rnd(r, max)),
    22 => Payload::PlS16C64(PlS16C64::rnd(r, max)),
    23 => Payload::PlS16C128(PlS16C128::rnd(r, max)),
    24 => Payload::PlS32C4(PlS32C4::rnd(r, max)),
    25 => Payload::PlS32C8(PlS32C8::rnd(r, max)),
    26 => Payload::PlS32C16(PlS32C16::rnd(r, max)),
    27 => Payload::PlS32C32(PlS32C32::rnd(r, max)),
    28 => Payload::PlS32C64(PlS32C64::rnd(r, max)),
    29 => Payload::PlS32C128(PlS32C128::rnd(r, max)),
    30 => Payload::PlS64C4(PlS64C4::rnd(r, max)),
    31 => Payload::PlS64C8(PlS64C8::rnd(r, max)),
    32 => Payload::PlS64C16(PlS64C16::rnd(r, max)),
    33 => Payload::PlS64C32(PlS64C32::rnd(r, max)),
    34 => Payload::PlS64C64(PlS64C64::rnd(r, max)),
    35 => Payload::PlS64C128(PlS64C128::rnd(r, max)),
    36 => Payload::PlS128C4(PlS128C4::rnd(r, max)),
    37 => Payload::PlS128C8(PlS128C8::rnd(r, max)),
    38 => Payload::PlS128C16(PlS128C16::rnd(r, max)),
    39 => Payload::PlS128C32(PlS128C32::rnd(r, max)),
    40 => Payload::PlS128C64(PlS128C64::rnd(r, max)),
    41 => Payload::PlS128C128(PlS128C128::rnd(r, max)),
    _ => unreachable!() } }
