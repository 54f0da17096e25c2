#!/usr/bin/env python3
"""Generates the Rust protocol (blocks + payloads + reference description) the monitors run against.

  genproto.py fixed  OUT.rs        the fixed, diverse protocol of the main harness
  genproto.py random SEED N OUT.rs N randomly generated block declarations (property C21)

The emitted file contains the `#[brec::block]` / `#[brec::payload]` declarations and, independently of the
library, what the declaration means: field bytes in declaration order, signature text, sizes.
"""
import sys, random

PRIMS = {"u8":1,"u16":2,"u32":4,"u64":8,"u128":16,"i8":1,"i16":2,"i32":4,"i64":8,"i128":16,"f32":4,"f64":8,"bool":1}
ENUMS = ["Kind", "Mode"]

def fsize(t):
    if t in PRIMS: return PRIMS[t]
    if t in ENUMS: return 1
    return int(t.split(";")[1].rstrip("]"))

def is_blob(t): return t.startswith("[")

def snap_ty(t):
    # how the declaration is spelled in the text the signature is derived from
    return t.replace(" ", "")

FANCY = False
def spell_ty(t, rng):
    """the same type in another spelling of the length"""
    if not is_blob(t): return t
    n = fsize(t)
    return rng.choice([t, t, t, f"[u8;{n}]", f"[ u8 ; {n}usize ]", f"[u8; 0x{n:x}]", f"[u8; 0b{n:b}]", f"[u8; 0o{n:o}_usize]", f"[u8; {n:_}]", f"[u8; {str(n)[0]}_{str(n)[1:]}]"])

def block_src(name, fields, no_crc, vis):
    attr = "#[brec::block(no_crc)]" if no_crc else "#[brec::block]"
    derive = ["#[derive(Clone, Debug, PartialEq)]"]
    pre = inner = ""
    rng = random.Random(f"{name} {FANCY}")
    if FANCY:
        x = rng.random()
        if x < 0.1: derive = ["#[derive(Clone)]", "#[derive(Debug, PartialEq)]"]
        elif x < 0.2: derive = ["#[repr(C)]"] + derive
        elif x < 0.3: derive = ["#[derive(Clone, Debug)]", "#[derive(PartialEq)]", "#[allow(dead_code)]"]
        elif x < 0.4: derive = ["/// A block; of test data", "#[allow(clippy::all)]"] + derive + ["#[doc = \"more: text\"]"]
        elif x < 0.45: derive = derive + ["#[rustfmt::skip]"]
    s = "\n".join([attr] + derive) + f"\n{vis}struct {name} {{\n"
    for (n, t, v) in fields:
        if FANCY and rng.random() < 0.1: s += rng.choice(["    /// a field: u64\n", "    #[allow(dead_code)]\n", "    // remark\n", "    #[doc(hidden)]\n", "    #[cfg(all())]\n"])
        if FANCY and v != "" and rng.random() < 0.15: v = rng.choice(["pub(self) ", "pub(in crate) ", "pub(crate) "])
        s += f"    {v}{n}: {spell_ty(t, rng) if FANCY else t},\n"
    return s + "}\n"

def gen_expr(t):
    if t in ENUMS: return f"{t}::rnd(r)"
    if is_blob(t): return "{ let mut a = [0u8; %d]; r.fill(&mut a); a }" % fsize(t)
    if t == "bool": return "r.coin()"
    if t == "f32": return "f32::from_bits(r.interesting(4) as u32)"
    if t == "f64": return "f64::from_bits(r.interesting(8) as u64)"
    return f"r.interesting({PRIMS[t]}) as {t}"

def put_expr(acc, t, view):
    if t in ENUMS: return f"o.push({acc}.code());"
    if is_blob(t): return f"o.extend_from_slice(&{acc}[..]);"
    if t == "bool": return f"o.push(if {acc} {{ 1 }} else {{ 0 }});"
    if t in ("f32","f64"): return f"put_le(&mut o, {acc}.to_bits() as u128, {PRIMS[t]});"
    return f"put_le(&mut o, {acc} as u128, {PRIMS[t]});"

def emit(blocks, payloads):
    o = []
    w = o.append
    w("// generated by tools/genproto.py - do not edit")
    for (name, fields, no_crc, vis) in blocks:
        w(block_src(name, fields, no_crc, vis))
        w(f"impl BlockSpec for {name} {{")
        w(f"    const KIND: usize = {[b[0] for b in blocks].index(name)};")
        w(f"    fn rnd(r: &mut Rng) -> Self {{ {name} {{ " + ", ".join(f"{n}: {gen_expr(t)}" for (n,t,_) in fields) + " } }")
        w(f"    fn body(&self) -> Vec<u8> {{ #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); " + " ".join(put_expr(f"self.{n}", t, False) for (n,t,_) in fields) + " o }")
        w(f"    fn view_body(view: &[u8], skip_sig: bool) -> Result<Vec<u8>, brec::Error> {{ let v = <{name}Referred as brec::ReadBlockFromSlice>::read_from_slice(view, skip_sig)?; Ok(v_{name}(&v)) }}")
        w(f"    fn view_to_owned(view: &[u8]) -> Result<Self, brec::Error> {{ let v = <{name}Referred as brec::ReadBlockFromSlice>::read_from_slice(view, false)?; Ok(v.into()) }}")
        w(f"    fn view_sig() -> [u8; 4] {{ *<{name}Referred as brec::SignatureU32>::sig() }}")
        w(f"    fn wrap(self) -> Block {{ Block::{name}(self) }}")
        w("}")
        w(f"fn v_{name}(v: &{name}Referred<'_>) -> Vec<u8> {{ #[allow(unused_mut)] let mut o: Vec<u8> = Vec::new(); let _ = v; " + " ".join(put_expr(f"v.{n}", t, True) for (n,t,_) in fields) + " o }")
    nb = len(blocks)
    w(f"pub const NB: usize = {nb};")
    w(f"pub static B_NAME: [&str; NB] = [{', '.join(chr(34)+b[0]+chr(34) for b in blocks)}];")
    w("/// text the signature is derived from: name, then every field (the injected signature and checksum included) as name:type")
    snaps = []
    for (name, fields, _, _) in blocks:
        fs = [("__sig","[u8;4]")] + [(n, snap_ty(t)) for (n,t,_) in fields] + [("__crc","[u8;4]")]
        snaps.append('"' + name + ";" + ";".join(f"{n}:{t}" for n,t in fs) + '"')
    w(f"pub static B_SNAP: [&str; NB] = [{', '.join(snaps)}];")
    w(f"pub static B_LEN: [usize; NB] = [{', '.join(str(sum(fsize(t) for _,t,_ in b[1])) for b in blocks)}];")
    w(f"pub static B_CRC: [bool; NB] = [{', '.join('false' if b[2] else 'true' for b in blocks)}];")
    w("pub fn gen_block(k: usize, r: &mut Rng) -> Block { match k {")
    for i,b in enumerate(blocks): w(f"    {i} => Block::{b[0]}({b[0]}::rnd(r)),")
    w("    _ => unreachable!() } }")
    w("pub fn block_kind(b: &Block) -> usize { match b {")
    for i,b in enumerate(blocks): w(f"    Block::{b[0]}(_) => {i},")
    w("} }")
    w("pub fn block_body(b: &Block) -> Vec<u8> { match b {")
    for b in blocks: w(f"    Block::{b[0]}(x) => x.body(),")
    w("} }")
    w("pub fn view_kind_body(b: &BlockReferred<'_>) -> (usize, Vec<u8>) { match b {")
    for i,b in enumerate(blocks): w(f"    BlockReferred::{b[0]}(x) => ({i}, v_{b[0]}(x)),")
    w("} }")
    w("pub fn visit_block<V: BlockVisitor>(k: usize, v: &mut V) -> V::Out { match k {")
    for i,b in enumerate(blocks): w(f"    {i} => v.visit::<{b[0]}>(),")
    w("    _ => unreachable!() } }")
    # payloads
    for p in payloads: w(p["src"])
    np = len(payloads) + 2
    w(f"pub const NP: usize = {np};")
    names = ["Bytes","String"] + [p["name"] for p in payloads]
    w(f"pub static P_NAME: [&str; NP] = [{', '.join(chr(34)+n+chr(34) for n in names)}];")
    def table(key, d0, ty):
        vals = d0 + [p[key] for p in payloads]
        w(f"pub static P_{key.upper()}: [{ty}; NP] = [{', '.join(str(v).lower() if isinstance(v,bool) else str(v) for v in vals)}];")
    table("checked", [True, True], "bool")
    table("siglen", [4,4], "usize")
    table("crclen", [4,4], "usize")
    table("sigkind", [0,0], "usize")
    table("crckind", [0,0], "usize")
    w("pub fn payload_kind(p: &Payload) -> usize { match p { Payload::Bytes(_) => 0, Payload::String(_) => 1,")
    for i,p in enumerate(payloads): w(f"    Payload::{p['name']}(_) => {i+2},")
    w("} }")
    w("pub fn payload_body(p: &Payload) -> Vec<u8> { match p { Payload::Bytes(x) => x.clone(), Payload::String(x) => x.as_bytes().to_vec(),")
    for p in payloads: w(f"    Payload::{p['name']}(x) => x.ref_body(),")
    w("} }")
    w("pub fn gen_payload(k: usize, r: &mut Rng, max: usize) -> Payload { match k {")
    w("    0 => Payload::Bytes(rnd_bytes(r, max)), 1 => Payload::String(rnd_string(r, max)),")
    for i,p in enumerate(payloads): w(f"    {i+2} => Payload::{p['name']}({p['name']}::rnd(r, max)),")
    w("    _ => unreachable!() } }")
    return "\n".join(o) + "\n"

BINCODE_SRC = {
"PlStruct": '''
#[brec::payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlStruct { pub a: u8, pub b: u64, pub c: String, pub d: Vec<u8>, pub e: Option<u32>, pub f: Vec<Vec<u16>>, pub g: bool, pub h: i16 }
impl PlStruct {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlStruct { a: r.interesting(1) as u8, b: r.interesting(8) as u64, c: rnd_string(r, max / 4), d: rnd_bytes(r, max / 4), e: if r.coin() { Some(r.interesting(4) as u32) } else { None }, f: (0..r.below(4)).map(|_| (0..r.below(5)).map(|_| r.interesting(2) as u16).collect()).collect(), g: r.coin(), h: r.interesting(2) as i16 } }
    fn ref_body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        o.push(self.a); put_le(&mut o, self.b as u128, 8);
        put_le(&mut o, self.c.len() as u128, 8); o.extend_from_slice(self.c.as_bytes());
        put_le(&mut o, self.d.len() as u128, 8); o.extend_from_slice(&self.d);
        match self.e { None => o.push(0), Some(v) => { o.push(1); put_le(&mut o, v as u128, 4) } }
        put_le(&mut o, self.f.len() as u128, 8);
        for v in &self.f { put_le(&mut o, v.len() as u128, 8); for x in v { put_le(&mut o, *x as u128, 2) } }
        o.push(self.g as u8); put_le(&mut o, self.h as u16 as u128, 2);
        o
    }
}''',
"PlEnum": '''
#[brec::payload(bincode)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub enum PlEnum { Unit, One(u32), Named { x: i64, y: Vec<u8> }, Text(String) }
impl PlEnum {
    fn rnd(r: &mut Rng, max: usize) -> Self { match r.below(4) { 0 => PlEnum::Unit, 1 => PlEnum::One(r.interesting(4) as u32), 2 => PlEnum::Named { x: r.interesting(8) as i64, y: rnd_bytes(r, max) }, _ => PlEnum::Text(rnd_string(r, max)) } }
    fn ref_body(&self) -> Vec<u8> {
        let mut o = Vec::new();
        match self {
            PlEnum::Unit => put_le(&mut o, 0, 4),
            PlEnum::One(v) => { put_le(&mut o, 1, 4); put_le(&mut o, *v as u128, 4) }
            PlEnum::Named { x, y } => { put_le(&mut o, 2, 4); put_le(&mut o, *x as u64 as u128, 8); put_le(&mut o, y.len() as u128, 8); o.extend_from_slice(y) }
            PlEnum::Text(s) => { put_le(&mut o, 3, 4); put_le(&mut o, s.len() as u128, 8); o.extend_from_slice(s.as_bytes()) }
        }
        o
    }
}''',
"PlNoCrc": '''
#[brec::payload(bincode, no_crc)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlNoCrc { pub id: u32, pub data: Vec<u8> }
impl PlNoCrc {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlNoCrc { id: r.interesting(4) as u32, data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { let mut o = Vec::new(); put_le(&mut o, self.id as u128, 4); put_le(&mut o, self.data.len() as u128, 8); o.extend_from_slice(&self.data); o }
}''',
"PlManualCrc": '''
#[brec::payload(bincode, no_auto_crc)]
#[derive(serde::Serialize, serde::Deserialize, Clone, Debug, PartialEq)]
pub struct PlManualCrc { pub id: u32, pub data: Vec<u8> }
impl PlManualCrc {
    fn rnd(r: &mut Rng, max: usize) -> Self { PlManualCrc { id: r.interesting(4) as u32, data: rnd_bytes(r, max) } }
    fn ref_body(&self) -> Vec<u8> { let mut o = Vec::new(); put_le(&mut o, self.id as u128, 4); put_le(&mut o, self.data.len() as u128, 8); o.extend_from_slice(&self.data); o }
}
impl brec::PayloadCrc for PlManualCrc {
    fn crc(&self) -> std::io::Result<brec::ByteBlock> { Ok(custom_crc(&self.ref_body(), 4)) }
    fn crc_size() -> usize { 4 }
}''',
}

def custom(sl, cl):
    name = f"PlS{sl}C{cl}"
    referred = ((sl + cl) // 4) % 2 == 0
    enc = ("Ok(Some(&self.data))" if referred else "Ok(None)")
    body = "self.data.clone()" if referred else "mask(&self.data)"
    dec = "Ok(Self { data: buf.to_vec() })" if referred else "unmask(buf).map(|data| Self { data })"
    src = f'''
#[brec::payload(no_default_sig)]
#[derive(Clone, Debug, PartialEq)]
pub struct {name} {{ pub data: Vec<u8> }}
impl {name} {{
    fn rnd(r: &mut Rng, max: usize) -> Self {{ {name} {{ data: rnd_bytes(r, max) }} }}
    fn ref_body(&self) -> Vec<u8> {{ {body} }}
}}
impl brec::PayloadSignature for {name} {{ fn sig(&self) -> brec::ByteBlock {{ custom_sig({sl}, {cl}) }} }}
impl brec::StaticPayloadSignature for {name} {{ fn ssig() -> brec::ByteBlock {{ custom_sig({sl}, {cl}) }} }}
impl brec::PayloadEncode for {name} {{ fn encode(&self) -> std::io::Result<Vec<u8>> {{ Ok(self.ref_body()) }} }}
impl brec::PayloadEncodeReferred for {name} {{ fn encode(&self) -> std::io::Result<Option<&[u8]>> {{ {enc} }} }}
impl brec::PayloadDecode<{name}> for {name} {{ fn decode(buf: &[u8]) -> std::io::Result<{name}> {{ {dec} }} }}
impl brec::PayloadSize for {name} {{ fn size(&self) -> std::io::Result<u64> {{ Ok(self.ref_body().len() as u64) }} }}
impl brec::PayloadCrc for {name} {{
    fn crc(&self) -> std::io::Result<brec::ByteBlock> {{ Ok(custom_crc(&self.ref_body(), {cl})) }}
    fn crc_size() -> usize {{ {cl} }}
}}'''
    return {"name": name, "src": src, "checked": True, "siglen": sl, "crclen": cl, "sigkind": 1, "crckind": 1}

def bincode(name, checked=True, crckind=0):
    return {"name": name, "src": BINCODE_SRC[name], "checked": checked, "siglen": 4, "crclen": 4, "sigkind": 0, "crckind": crckind}

def payloads(full):
    ps = [bincode("PlStruct"), bincode("PlEnum"), bincode("PlNoCrc", False, 2), bincode("PlManualCrc", True, 1)]
    if full:
        for sl in (4,8,16,32,64,128):
            for cl in (4,8,16,32,64,128): ps.append(custom(sl, cl))
    else:
        ps += [custom(4,4), custom(16,8)]
    return ps

def P(*fs): return [(n, t, "pub ") for n, t in fs]

def fixed():
    B = []
    for t in PRIMS: B.append((f"B{t.upper()}", P(("v", t)), False, "pub "))
    B.append(("BKind", P(("k", "Kind")), False, "pub "))
    B.append(("BBlob1", P(("b", "[u8; 1]")), False, "pub "))
    B.append(("BBlob1k", P(("b", "[u8; 1024]")), False, "pub "))
    B.append(("BHuge", P(("a", "u16"), ("b", "[u8; 9000]"), ("c", "u16")), False, "pub "))
    allt = [("f_%s" % t, t) for t in PRIMS] + [("blob", "[u8; 33]"), ("kind", "Kind"), ("mode", "Mode")]
    B.append(("BMix", P(*allt), False, "pub "))
    B.append(("BMixRev", P(*reversed(allt)), False, "pub "))
    B.append(("BAlt", P(("a","u8"),("b","[u8; 3]"),("c","u16"),("d","[u8; 5]"),("e","u32"),("f","[u8; 7]"),("g","u64")), False, "pub "))
    B.append(("BTwoBlobs", P(("a","[u8; 8]"),("b","[u8; 8]")), False, "pub "))
    B.append(("BTwoBlobz", P(("b","[u8; 8]"),("a","[u8; 8]")), False, "pub "))
    B.append(("BMany", P(*[(f"f{i}", ["u8","i16","bool","u32","f32","Mode"][i % 6]) for i in range(30)]), False, "pub "))
    B.append(("BNoCrc", P(("a","u32"),("b","[u8; 16]"),("c","bool")), True, "pub "))
    B.append(("BNoCrcKind", P(("m","Mode"),("v","i128")), True, "pub "))
    return emit(B, payloads(True))

WORDS = ["a","b","x1","len","crc","sig","val","data","flags","ts","k","r_","field","size","offset","buf","block","self_","writer","reader","buffer","slices","start_pos","bytes","name","payload","hasher","t","r#type","r#match","_u","__x","CamelCase","size_","value","header","packet","sig_","read","write","src","dst","pos","skip_sig","ty","e","err"]
KEYW = {"crc","sig","buf","len","offset","buffer","slices","hasher","block","start_pos","bytes","reader","writer","t"}  # names that occur in generated code: declared on purpose

def rnd_ty(rng, sizes):
    x = rng.random()
    if x < 0.55: return rng.choice(list(PRIMS))
    if x < 0.75: return rng.choice(ENUMS)
    return "[u8; %d]" % rng.choice(sizes)

def random_set(seed, n):
    global FANCY
    FANCY = f"s{seed}"
    rng = random.Random(f"brec-c21-{seed}")
    B, names = [], set()
    sizes = [0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,64,100,127,128,129,255,256,257,500]
    def fresh():
        while True:
            s = rng.choice(["Blk","M","Rec","Zed","Item","Q","Hdr","T"]) + rng.choice(["","A","Xy","_1","0","Abc"]) + str(rng.randint(0, 9999))
            x = rng.random()
            if names and x < 0.08: s = rng.choice(sorted(names)); s = rng.choice([s.upper(), s.capitalize(), s[0].upper() + s[1:].upper(), s[0].upper() + s[1:].swapcase()])
            elif x < 0.12: s = s.upper()
            if s not in names:
                names.add(s); return s
    types = list(PRIMS) + ENUMS + ["[u8; 2]", "[u8; 40]"]
    # every ordered pair of types is covered over a few runs; a third of the budget goes to pairs, the rest is random
    pairs = [(a, b) for a in types for b in types]
    rng.shuffle(pairs)
    for (a, b) in pairs[: n // 3]:
        B.append((fresh(), P(("p", a), ("q", b)), False, "pub "))
    while len(B) < n:
        k = rng.choice([0,1,1,2,3,4,5,6,8,10,12,20,40])
        fields, used = [], set()
        for i in range(k):
            nm = rng.choice(WORDS) if rng.random() < 0.6 else f"f{i}"
            if nm in used: nm = f"{nm}{i}"
            if nm in used: continue
            used.add(nm)
            fields.append((nm, rnd_ty(rng, sizes), rng.choice(["pub ", "", "pub(crate) "])))
        B.append((fresh(), fields, rng.random() < 0.15, rng.choice(["pub ", "pub ", "", "pub(crate) "])))
        # near-duplicates: the same declaration with one aspect changed must still be told apart
        if rng.random() < 0.35 and len(B) < n:
            base = B[-1]; f2 = list(base[1]); what = rng.choice(["name","order","fname","ftype"])
            if what == "order" and len(f2) > 1: f2 = f2[1:] + f2[:1]
            if not f2: what = "name"
            if what == "fname": f2[0] = (f2[0][0] + "_z", f2[0][1], f2[0][2])
            if what == "ftype":
                alt = {"u8":"i8","u16":"i16","u32":"f32","u64":"i64","u128":"i128","i8":"bool","i16":"u16","i32":"u32","i64":"f64","i128":"u128","f32":"i32","f64":"u64","bool":"u8","Kind":"Mode","Mode":"Kind"}
                f2[-1] = (f2[-1][0], alt.get(f2[-1][1], "u8"), f2[-1][2])
            B.append((fresh(), f2, base[2], base[3]))
    # constants of the user which are named like blocks
    own = "".join(f"#[allow(dead_code, non_upper_case_globals)] const {c}: u8 = 0;\n" for c in sorted({b[0].upper() for b in B} | {b[0].upper() + "_SIGNATURE" for b in B}) if rng.random() < 0.3)
    return emit(B, payloads(False)) + own

if __name__ == "__main__":
    if sys.argv[1] == "fixed": open(sys.argv[2], "w").write(fixed())
    else: open(sys.argv[4], "w").write(random_set(int(sys.argv[2]), int(sys.argv[3])))
