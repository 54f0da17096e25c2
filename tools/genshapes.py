#!/usr/bin/env python3
"""Generates small crates which use the declarations of the library in the ways its documentation offers (property C25).

  genshapes.py SEED N OUTDIR    crates OUTDIR/full/sI (features bincode, locked_storage) and OUTDIR/bare/sI (no features)

Every crate declares blocks and payloads, invokes generate!() and judges, with its own description of the format,
what the generated code does. It prints one line of statistics, or panics.
"""
import os, random, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from genproto import PRIMS, fsize, is_blob

COMMON = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
pub mod mon {
    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
        pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
        pub fn int(&mut self) -> u128 { match self.below(6) { 0 => 0, 1 => u128::MAX, 2 => self.below(300) as u128, _ => (self.next() as u128) << 64 | self.next() as u128 } }
        pub fn bytes(&mut self, max: usize) -> Vec<u8> { let n = if self.below(5) == 0 { 0 } else { self.below(max) }; (0..n).map(|_| self.next() as u8).collect() }
        pub fn text(&mut self) -> String { let n = self.below(20); (0..n).map(|_| ['a', 'Z', ' ', 'é', '中', '🚀', '\0'][self.below(7)]).collect() }
    }
    pub fn crc(d: &[u8]) -> [u8; 4] { let mut c = !0u32; for b in d { c ^= *b as u32; for _ in 0..8 { c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 } } } (!c).to_le_bytes() }
    pub fn le(o: &mut Vec<u8>, v: u128, n: usize) { o.extend_from_slice(&v.to_le_bytes()[..n]) }
    pub fn own_crc(d: &[u8]) -> [u8; 4] { let s = d.iter().fold(77u32, |a, b| a.wrapping_mul(131).wrapping_add(*b as u32)); s.to_be_bytes() }
    pub fn block(name: &str, fields: &str, body: &[u8], checked: bool) -> Vec<u8> {
        let mut o = crc(format!("{name};__sig:[u8;4];{fields}__crc:[u8;4]").as_bytes()).to_vec();
        o.extend_from_slice(body);
        o.extend_from_slice(&if checked { crc(body) } else { [0; 4] });
        o
    }
    pub fn payload(sig_text: &str, sum: [u8; 4], body: &[u8]) -> Vec<u8> {
        let mut o = vec![4];
        o.extend_from_slice(&crc(sig_text.as_bytes()));
        o.push(4);
        o.extend_from_slice(&sum);
        le(&mut o, body.len() as u128, 4);
        o.extend_from_slice(body);
        o
    }
    pub fn packet(blocks: &[Vec<u8>], payload: Option<&[u8]>) -> Vec<u8> {
        let bl: usize = blocks.iter().map(|b| b.len()).sum();
        let mut f = Vec::new();
        le(&mut f, (bl + payload.map_or(0, |p| p.len())) as u128, 8);
        le(&mut f, bl as u128, 8);
        f.push(payload.is_some() as u8);
        let mut o = vec![236, 37, 94, 136, 236, 37, 94, 136];
        o.extend_from_slice(&f);
        o.extend_from_slice(&crc(&f));
        for b in blocks { o.extend_from_slice(b) }
        if let Some(p) = payload { o.extend_from_slice(p) }
        o
    }
}
use mon::Rng;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub enum Kind { #[default] Zero, Mid, Last }
impl From<&Kind> for u8 { fn from(k: &Kind) -> u8 { match k { Kind::Zero => 0, Kind::Mid => 128, Kind::Last => 255 } } }
impl TryFrom<u8> for Kind { type Error = String; fn try_from(v: u8) -> Result<Kind, String> { match v { 0 => Ok(Kind::Zero), 128 => Ok(Kind::Mid), 255 => Ok(Kind::Last), _ => Err(format!("kind {v}")) } } }
'''

def rnd(t):
    if t == "Kind": return "[Kind::Zero, Kind::Mid, Kind::Last][r.below(3)]"
    if is_blob(t): return "{ let mut a = [0u8; %d]; for b in a.iter_mut() { *b = r.next() as u8 } a }" % fsize(t)
    if t == "bool": return "r.below(2) == 1"
    if t == "f32": return "f32::from_bits(r.int() as u32)"
    if t == "f64": return "f64::from_bits(r.int() as u64)"
    return f"r.int() as {t}"

def size(t): return 1 if t == "Kind" else fsize(t)

def put(acc, t):
    if t == "Kind": return f"o.push(u8::from(&{acc}));"
    if is_blob(t): return f"o.extend_from_slice(&{acc}[..]);"
    if t in ("f32", "f64"): return f"crate::mon::le(&mut o, {acc}.to_bits() as u128, {PRIMS[t]});"
    return f"crate::mon::le(&mut o, {acc} as u128, {PRIMS[t]});"

def cap(s): return s[:1].upper() + s[1:]

class Item:
    """a declared block or payload: where it is, how its place is told to the library"""
    def __init__(self, name, mod, spell, **kw):
        self.name, self.mod, self.spell = name, mod, spell
        self.__dict__.update(kw)
    def segs(self, home):
        """the segments as told to the library"""
        if self.spell in ("import", "here"): return []
        return (["crate"] + home if "crate" in self.spell else []) + self.mod
    def full(self, home): return "".join(cap(s) for s in self.segs(home)) + self.name
    def attr(self, home):
        s = self.segs(home)
        if not s: return []
        return [("path = " if self.spell.startswith("path") else "") + "::".join(s)]
    def rust(self, home): return "::".join(["crate"] + home + self.mod + [self.name])

WORDS = ["A", "Beta", "Rec", "Item", "Log", "Meta", "X1", "Frame", "Head", "Tail", "Data", "Event", "Point", "Zed"]
MODS = [["ma"], ["mb"], ["ma", "inner"], ["mb", "inner"], ["deep", "er", "still"], ["types"], ["blocks_v2"]]
TYPES = list(PRIMS) + ["Kind", "[u8; 1]", "[u8; 5]", "[u8; 32]", "[u8; 300]"]
NOT_EQ = {"f32", "f64"}

def shape(seed, i, bare):
    g = random.Random(f"brec-c25-{seed}-{i}-{bare}")
    f = i if i < 12 else None          # forced shapes
    home = [] if f not in (4, 9) and (f is not None or g.random() < 0.6) else g.choice([["proto"], ["wire", "v1"]])
    default_payload = not (f in (1, 3, 6, 11) or f is None and g.random() < 0.35)
    nb = 0 if f in (5, 6) else g.randint(1, 5)
    npay = 0 if f in (2, 3, 5) else g.randint(1, 4)
    if f is None and g.random() < 0.1: npay = 0
    if f is None and npay and g.random() < 0.06: nb = 0
    rich = f in (7, 8) or f is None and g.random() < 0.35    # derives beyond the usual
    pderive = f == 2 or f is not None and f == 8 or f is None and g.random() < 0.25
    where = {0: "here", 1: "import", 7: "path", 8: "plain", 9: "path", 10: "crate"}.get(f)
    spells = ["here", "import", "path", "plain", "path crate", "plain crate"]
    used = set()
    def place():
        for _ in range(400):
            sp = where if where in ("here", "import", "path", "plain") else g.choice(["path crate", "plain crate"]) if where == "crate" else g.choice(spells)
            mod = [] if sp == "here" else g.choice(MODS)
            it = Item(g.choice(WORDS), mod, sp)
            # what is visible at the place of generate!() has to be unique, and the names in the enums
            keys = {("full", it.full(home))} | ({("seen", it.name)} if sp in ("here", "import") else set()) | {("decl", tuple(it.mod), it.name)}
            if keys & used or it.full(home) in ("Bytes", "String"): continue
            used.update(keys)
            return it
        raise SystemExit("no name left")
    DER = ["Clone", "Debug", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Default", "Copy"]
    def derives(eq, copyable, default):
        if not rich: return ["Clone", "Debug", "PartialEq"]
        d = [x for x in DER if (eq or x not in ("Eq", "Hash", "Ord")) and (copyable or x != "Copy") and (default or x != "Default")]
        # what depends on another trait stays with it
        for x in list(d):
            if x in ("Hash", "Default", "Copy") and g.random() < 0.25: d.remove(x)
        return d
    blocks, payloads = [], []
    noeq = rich and g.random() < 0.2
    for _ in range(nb):
        b = place()
        b.fields = []
        for k in range(g.choice([0, 1, 2, 3, 6]) if f != 0 else 3):
            t = g.choice(TYPES)
            if rich and (t in NOT_EQ and not noeq or t == "[u8; 300]"): t = "u32"
            b.fields.append((g.choice(["id", "ts", "value", "crc", "sig", "r#type", "name", "buf"]) + ("" if k == 0 else f"_{k}") if k else g.choice(["id", "r#type", "ts"]), t))
        if any(n.startswith("r#") and n != "r#type" for n, _ in b.fields): b.fields = [(n.replace("r#", "") if n != "r#type" else n, t) for n, t in b.fields]
        b.no_crc = g.random() < 0.25
        b.derives = derives(not any(t in NOT_EQ for _, t in b.fields), True, not any(is_blob(t) and fsize(t) > 32 for _, t in b.fields))
        blocks.append(b)
    only_copy = rich and g.random() < 0.5
    for k in range(npay):
        p = place()
        p.kind = g.choice(["bincode", "bincode", "enum", "hand"]) if not bare else "hand"
        if f == 0 and not bare: p.kind = ["bincode", "enum", "hand", "bincode"][k]
        p.crc = g.choice(["auto", "auto", "no_crc", "no_auto_crc"]) if p.kind != "hand" else "auto"
        p.small = only_copy
        p.derives = derives(True, p.small, p.kind != "enum")
        if only_copy and p.kind == "hand": p.derives = derives(True, True, True)
        payloads.append(p)
    if f == 11 or f is None and not default_payload and payloads and g.random() < 0.4:
        # the name of a disabled payload is free
        p = payloads[0]; p.name, p.mod, p.spell = "Bytes", [], "here"
    cfg = []
    if not default_payload: cfg.append("no_default_payload")
    pd = []
    if pderive and (payloads or default_payload):
        pool = set(payloads[0].derives) if payloads else {"Clone", "Debug", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord"}
        for p in payloads: pool &= set(p.derives)
        pool -= {"Default"}
        if default_payload: pool -= {"Copy"}
        pd = [d for d in DER if d in pool]
        if "Clone" not in pd: pd = [d for d in pd if d != "Copy"]
        cfg.append('payloads_derive = "%s"' % ", ".join(pd))
        if len(cfg) == 2 and g.random() < 0.5: cfg.reverse()
    def common(items):
        if not items: return []
        c = set(items[0].derives)
        for x in items: c &= set(x.derives)
        return [d for d in DER if d in c and d != "Default"]
    bcom, pcom = common(blocks), common(payloads)
    if default_payload: pcom = [d for d in pcom if d != "Copy"]
    pcom = [d for d in DER if d in set(pcom) | set(pd)]

    # ---- text
    src = {}
    def decl(it, text): src.setdefault(tuple(it.mod), []).append(text)
    def derive_line(d, extra=()):
        d = list(d) + list(extra)
        if len(d) > 3 and g.random() < 0.4: return f"#[derive({', '.join(d[:2])})]\n#[derive({', '.join(d[2:])})]"
        return f"#[derive({', '.join(d)})]"
    for b in blocks:
        at = b.attr(home) + (["no_crc"] if b.no_crc else [])
        if len(at) == 2 and g.random() < 0.5: at.reverse()
        fs = " ".join(f"pub {n}: {t}," for n, t in b.fields)
        body = " ".join(put(f"self.{n}", t) for n, t in b.fields)
        decl(b, f"""#[brec::block{'(' + ', '.join(at) + ')' if at else ''}]
{derive_line(b.derives)}
pub struct {b.name} {{ {fs} }}
impl {b.name} {{
    pub fn rnd(r: &mut Rng) -> Self {{ {b.name} {{ {', '.join(f'{n}: {rnd(t)}' for n, t in b.fields)} }} }}
    pub fn want(&self) -> Vec<u8> {{ let mut o: Vec<u8> = Vec::new(); {body} crate::mon::block("{b.full(home)}", "{''.join(f'{n}:{t.replace(" ", "")};' for n, t in b.fields)}", &o, {'false' if b.no_crc else 'true'}) }}
    pub fn view(buf: &[u8]) -> Vec<u8> {{ let v = <{b.name}Referred as brec::ReadBlockFromSlice>::read_from_slice(buf, false).expect("view of {b.name}"); {b.name}::from(v).want() }}
}}""")
    for p in payloads:
        at = p.attr(home) + (["bincode"] if p.kind != "hand" else []) + ([p.crc] if p.crc != "auto" else [])
        g.shuffle(at)
        ser = ["serde::Serialize", "serde::Deserialize"] if p.kind != "hand" else []
        head = f"#[brec::payload{'(' + ', '.join(at) + ')' if at else ''}]\n{derive_line(p.derives, ser)}\n"
        sum_ = {"auto": "crate::mon::crc(&o)", "no_crc": "[0; 4]", "no_auto_crc": "crate::mon::own_crc(&o)"}[p.crc]
        sigt = p.full(home)
        tail = f'crate::mon::payload("{sigt}", {sum_}, &o)'
        if p.kind == "enum":
            if p.small:
                d = f"{head}pub enum {p.name} {{ One, Two(u16), Three {{ x: i64 }} }}\n"
                mk = f"match r.below(3) {{ 0 => {p.name}::One, 1 => {p.name}::Two(r.int() as u16), _ => {p.name}::Three {{ x: r.int() as i64 }} }}"
                bd = f"match self {{ {p.name}::One => crate::mon::le(&mut o, 0, 4), {p.name}::Two(v) => {{ crate::mon::le(&mut o, 1, 4); crate::mon::le(&mut o, *v as u128, 2) }} {p.name}::Three {{ x }} => {{ crate::mon::le(&mut o, 2, 4); crate::mon::le(&mut o, *x as u128, 8) }} }}"
            else:
                d = f"{head}pub enum {p.name} {{ One, Two(String) }}\n"
                mk = f"if r.below(2) == 0 {{ {p.name}::One }} else {{ {p.name}::Two(r.text()) }}"
                bd = f"match self {{ {p.name}::One => crate::mon::le(&mut o, 0, 4), {p.name}::Two(v) => {{ crate::mon::le(&mut o, 1, 4); crate::mon::le(&mut o, v.len() as u128, 8); o.extend_from_slice(v.as_bytes()) }} }}"
        elif p.kind == "bincode":
            if p.small:
                d = f"{head}pub struct {p.name} {{ pub a: u32, pub b: bool, pub c: Option<i16> }}\n"
                mk = f"{p.name} {{ a: r.int() as u32, b: r.below(2) == 1, c: if r.below(2) == 1 {{ Some(r.int() as i16) }} else {{ None }} }}"
                bd = "crate::mon::le(&mut o, self.a as u128, 4); o.push(self.b as u8); match self.c { None => o.push(0), Some(v) => { o.push(1); crate::mon::le(&mut o, v as u128, 2) } }"
            else:
                d = f"{head}pub struct {p.name} {{ pub s: String, pub n: Vec<u32>, pub t: (u8, i64) }}\n"
                mk = f"{p.name} {{ s: r.text(), n: (0..r.below(6)).map(|_| r.int() as u32).collect(), t: (r.int() as u8, r.int() as i64) }}"
                bd = "crate::mon::le(&mut o, self.s.len() as u128, 8); o.extend_from_slice(self.s.as_bytes()); crate::mon::le(&mut o, self.n.len() as u128, 8); for v in &self.n { crate::mon::le(&mut o, *v as u128, 4) } o.push(self.t.0); crate::mon::le(&mut o, self.t.1 as u128, 8);"
        else:
            if p.small:
                d = f"{head}pub struct {p.name} {{ pub v: [u8; 9] }}\n"
                mk = f"{p.name} {{ v: [r.next() as u8; 9] }}"
            else:
                d = f"{head}pub struct {p.name} {{ pub v: Vec<u8> }}\n"
                mk = f"{p.name} {{ v: r.bytes(200) }}"
            bd = "o.extend_from_slice(&self.v);"
            dec = f"Ok({p.name} {{ v: buf.try_into().map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, \"length\"))? }})"
            d += f"""impl brec::PayloadSize for {p.name} {{ fn size(&self) -> std::io::Result<u64> {{ Ok(self.v.len() as u64) }} }}
impl brec::PayloadEncode for {p.name} {{ fn encode(&self) -> std::io::Result<Vec<u8>> {{ Ok(self.v.to_vec()) }} }}
impl brec::PayloadEncodeReferred for {p.name} {{ fn encode(&self) -> std::io::Result<Option<&[u8]>> {{ {'Ok(Some(&self.v))' if g.random() < 0.5 else 'Ok(None)'} }} }}
impl brec::PayloadDecode<{p.name}> for {p.name} {{ fn decode(buf: &[u8]) -> std::io::Result<{p.name}> {{ {dec} }} }}
impl brec::PayloadCrc for {p.name} {{}}
"""
        if p.crc == "no_auto_crc":
            d += f"impl brec::PayloadCrc for {p.name} {{ fn crc(&self) -> std::io::Result<brec::ByteBlock> {{ Ok(brec::ByteBlock::Len4(crate::mon::own_crc(&self.body()))) }} fn crc_size() -> usize {{ 4 }} }}\n"
        decl(p, f"""{d}impl {p.name} {{
    pub fn rnd(r: &mut Rng) -> Self {{ {mk} }}
    pub fn body(&self) -> Vec<u8> {{ let mut o: Vec<u8> = Vec::new(); {bd} o }}
    pub fn want(&self) -> Vec<u8> {{ let o = self.body(); {tail} }}
}}""")
    here = src.pop((), [])
    tree = {}
    for m, texts in src.items():
        t = tree
        for s in m: t = t.setdefault(s, {})
        t.setdefault("", []).extend(texts)
    files = {}
    def mods(t, pre):
        o = ""
        for k in sorted(x for x in t if x):
            inner = "use crate::{mon::Rng, Kind};\n" + "\n".join(t[k].get("", [])) + "\n" + mods(t[k], pre + [k])
            # some modules are files
            if g.random() < 0.3 and not home and all(True for _ in pre) and len(pre) == 0 and not [x for x in t[k] if x]:
                files[k + ".rs"] = "#![allow(unused_imports)]\n" + inner
                o += f"pub mod {k};\n"
            else:
                o += f"pub mod {k} {{\n{inner}}}\n"
        return o
    modtext = mods(tree, [])
    imports = sorted({"::".join(x.mod) for x in blocks + payloads if x.spell == "import"})
    # only the imported names: modules may hold others as well, told by path
    uses = "".join(f"pub use {'::'.join(['self'] + x.mod)}::{x.name};\n" + (f"pub use {'::'.join(['self'] + x.mod)}::{x.name}Referred;\n" if x in blocks else "") for x in blocks + payloads if x.spell == "import")
    prelude = "use brec::prelude::*;\n" if g.random() < 0.8 else ""
    hometext = ("use crate::{mon::Rng, Kind};\n" if home else "") + prelude + modtext + uses + "\n".join(here) + f"\nbrec::generate!({', '.join(cfg)});\n"
    for h in reversed(home): hometext = f"pub mod {h} {{\n{hometext}}}\n"
    H = "::".join(["crate"] + home) + "::"
    out = COMMON + hometext
    packets = nb > 0 and (npay > 0 or default_payload)
    m = []
    w = m.append
    traits = lambda d: " + ".join({"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}.get(x, x) for x in d) or "Sized"
    w("fn has_block_derives<T: %s>() {}" % traits(bcom))
    w("fn has_payload_derives<T: %s>() {}" % traits(pcom))
    kinds = []
    if nb:
        w(f"fn rnd_block(k: usize, r: &mut Rng) -> {H}Block {{ match k {{ " + " ".join(f"{k} => {H}Block::{b.full(home)}({b.rust(home)}::rnd(r))," for k, b in enumerate(blocks)) + " _ => unreachable!() } }")
        w(f"fn block_bytes(b: &{H}Block) -> Vec<u8> {{ match b {{ " + " ".join(f"{H}Block::{b.full(home)}(b) => b.want()," for b in blocks) + " } }")
        w("fn view_bytes(k: usize, buf: &[u8]) -> Vec<u8> { match k { " + " ".join(f"{k} => {b.rust(home)}::view(buf)," for k, b in enumerate(blocks)) + " _ => unreachable!() } }")
    if npay or default_payload:
        arms = [f"{H}Payload::{p.full(home)}(p) => p.want()," for p in payloads]
        mk = [f"{H}Payload::{p.full(home)}({p.rust(home)}::rnd(r))" for p in payloads]
        if default_payload:
            arms += [f"{H}Payload::Bytes(v) => mon::payload(\"Vec<u8>\", mon::crc(v), v),", f"{H}Payload::String(v) => mon::payload(\"String\", mon::crc(v.as_bytes()), v.as_bytes()),"]
            mk += [f"{H}Payload::Bytes(r.bytes(300))", f"{H}Payload::String(r.text())"]
        w(f"fn rnd_payload(k: usize, r: &mut Rng) -> {H}Payload {{ match k {{ " + " ".join(f"{k} => {x}," for k, x in enumerate(mk)) + " _ => unreachable!() } }")
        w(f"fn payload_bytes(p: &{H}Payload) -> Vec<u8> {{ match p {{ " + " ".join(arms) + " } }")
        kinds = mk
    w("fn main() { let mut r = Rng(std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1)); let r = &mut r; let (mut blocks_read, mut payloads_read, mut packets_read, mut refused) = (0u64, 0u64, 0u64, 0u64);")
    w("use brec::{ReadFrom, TryReadFrom, TryReadFromBuffered, WriteTo, WriteVectoredTo}; use std::io::Cursor;")
    if nb:
        w(f"has_block_derives::<{H}Block>();")
        w(f"""for i in 0..{nb} * 20 {{ let k = i % {nb}; let mut b = rnd_block(k, r); let want = block_bytes(&b);
    let mut o = Vec::new(); b.write_all(&mut o).expect("writing a block"); assert_eq!(o, want, "block {{k}} written");
    let mut o = Vec::new(); b.write_vectored_all(&mut o).expect("writing a block"); assert_eq!(o, want, "block {{k}} written vectored");
    let g = <{H}Block as ReadFrom>::read(&mut Cursor::new(&want)).expect("reading a block"); assert_eq!(block_bytes(&g), want, "block {{k}} read");
    match <{H}Block as TryReadFrom>::try_read(&mut Cursor::new(&want)).expect("reading a block") {{ brec::ReadStatus::Success(g) => assert_eq!(block_bytes(&g), want, "block {{k}} read"), _ => panic!("block {{k}}: not enough data") }}
    match <{H}Block as TryReadFromBuffered>::try_read(&mut Cursor::new(&want)).expect("reading a block") {{ brec::ReadStatus::Success(g) => assert_eq!(block_bytes(&g), want, "block {{k}} read"), _ => panic!("block {{k}}: not enough data") }}
    let v: {H}Block = <{H}BlockReferred as brec::ReadBlockFromSlice>::read_from_slice(&want, false).expect("view of a block").into(); assert_eq!(block_bytes(&v), want, "block {{k}} viewed");
    assert_eq!(view_bytes(k, &want), want, "block {{k}} viewed as itself");
    let mut x = want.clone(); x[r.below(4)] ^= 1 << r.below(8); assert!(<{H}Block as ReadFrom>::read(&mut Cursor::new(&x)).is_err(), "a block with an unknown signature is read"); refused += 1;
    blocks_read += 5; }}""")
    refuse = []
    if not default_payload: refuse += [("mon::payload(\"String\", mon::crc(b\"abc\"), b\"abc\")", "a disabled payload"), ("mon::payload(\"Vec<u8>\", mon::crc(b\"abc\"), b\"abc\")", "a disabled payload")]
    refuse += [("mon::payload(\"NobodyDeclaredThis\", mon::crc(b\"abc\"), b\"abc\")", "an unknown payload")]
    if kinds:
        w(f"has_payload_derives::<{H}Payload>();")
        w(f"""for i in 0..{len(kinds)} * 20 {{ let mut p = rnd_payload(i % {len(kinds)}, r); let want = payload_bytes(&p);
    let mut o = Vec::new(); brec::WriteMutTo::write_all(&mut p, &mut o).expect("writing a payload"); assert_eq!(o, want, "payload written");
    let mut o = Vec::new(); brec::WriteVectoredMutTo::write_vectored_all(&mut p, &mut o).expect("writing a payload"); assert_eq!(o, want, "payload written vectored");
    let mut c = Cursor::new(&want[..]); let h = <brec::PayloadHeader as ReadFrom>::read(&mut c).expect("payload header");
    let g = <{H}Payload as brec::ExtractPayloadFrom<{H}Payload>>::read(&mut c, &h).expect("reading a payload"); assert_eq!(payload_bytes(&g), want, "payload read");
    let mut c = Cursor::new(&want[..]); let h = <brec::PayloadHeader as ReadFrom>::read(&mut c).expect("payload header");
    match <{H}Payload as brec::TryExtractPayloadFromBuffered<{H}Payload>>::try_read(&mut c, &h).expect("reading a payload") {{ brec::ReadStatus::Success(g) => assert_eq!(payload_bytes(&g), want, "payload read"), _ => panic!("payload: not enough data") }}
    payloads_read += 2; }}""")
        for e, what in refuse:
            w(f"""{{ let b = {e}; let mut c = Cursor::new(&b[..]); let h = <brec::PayloadHeader as ReadFrom>::read(&mut c).expect("payload header"); assert!(<{H}Payload as brec::ExtractPayloadFrom<{H}Payload>>::read(&mut c, &h).is_err(), "{what} is read"); refused += 1; }}""")
    if packets:
        w(f"""let mut stream = Vec::new(); let mut wants = Vec::new(); let mut w = <{H}Writer<_>>::new(Cursor::new(Vec::new())).expect("storage");
for i in 0..60 {{ let bs: Vec<_> = (0..r.below(5)).map(|_| {{ let k = r.below({nb}); rnd_block(k, r) }}).collect(); let p = if r.below(4) == 0 {{ None }} else {{ Some({{ let k = r.below({len(kinds)}); rnd_payload(k, r) }}) }};
    let want = mon::packet(&bs.iter().map(block_bytes).collect::<Vec<_>>(), p.as_ref().map(payload_bytes).as_deref());
    let mut p = <{H}Packet>::new(bs, p); let mut o = Vec::new(); brec::WriteMutTo::write_all(&mut p, &mut o).expect("writing a packet"); assert_eq!(o, want, "packet written");
    let g = <{H}Packet as ReadFrom>::read(&mut Cursor::new(&want)).expect("reading a packet"); assert_eq!(packet_bytes(&g), want, "packet read");
    match <{H}Packet as TryReadFrom>::try_read(&mut Cursor::new(&want)).expect("reading a packet") {{ brec::ReadStatus::Success(g) => assert_eq!(packet_bytes(&g), want, "packet read"), _ => panic!("packet: not enough data") }}
    match <{H}Packet as TryReadFromBuffered>::try_read(&mut Cursor::new(&want)).expect("reading a packet") {{ brec::ReadStatus::Success(g) => assert_eq!(packet_bytes(&g), want, "packet read"), _ => panic!("packet: not enough data") }}
    w.insert(p).expect("insert"); stream.extend_from_slice(&want); stream.extend_from_slice(&[7; 5][..r.below(6)]); wants.push(want); packets_read += 3; }}""")
        for e, what in refuse:
            w(f"""{{ let b = {e}; let p = mon::packet(&[], Some(&b)); assert!(<{H}Packet as ReadFrom>::read(&mut Cursor::new(&p)).is_err(), "{what} is read"); refused += 1;
    let mut src = &p[..]; let mut rd = <{H}PacketBufReader<_>>::new(&mut src); for _ in 0..10 {{ match rd.read() {{ Ok(brec::NextPacket::Found(_)) => panic!("{what} is found"), Ok(brec::NextPacket::NoData) => break, _ => {{}} }} }} }}""")
        w(f"""let seen = std::cell::RefCell::new(Vec::new()); let mut got = Vec::new();
{{ let mut src = &stream[..]; let mut rd = <{H}PacketBufReader<_>>::new(&mut src);
    let shown = std::rc::Rc::new(std::cell::RefCell::new(0usize));
    rd.add_rule(<{H}Rule>::FilterByBlocks(<{H}RuleFnDef<_, _>>::Dynamic(Box::new(|b: &[{H}BlockReferred<'_>]| b.len() != 3)))).expect("rule");
    rd.add_rule(<{H}Rule>::Filter(<{H}RuleFnDef<_, _>>::Static(|p: &{H}Packet| p.payload.is_some() || p.blocks.len() != 1))).expect("rule");
    for _ in 0..10_000 {{ match rd.read().expect("streaming") {{ brec::NextPacket::Found(p) => got.push(packet_bytes(&p)), brec::NextPacket::NoData => break, _ => {{}} }} }} }}
seen.borrow_mut().extend(wants.iter().filter(|w| {{ let p = <{H}Packet as ReadFrom>::read(&mut Cursor::new(&w[..])).unwrap(); p.blocks.len() != 3 && (p.payload.is_some() || p.blocks.len() != 1) }}).cloned());
assert_eq!(got, seen.into_inner(), "packets streamed through rules"); packets_read += got.len() as u64;
let mut all = Vec::new(); {{ let mut src = &stream[..]; let mut rd = <{H}PacketBufReader<_>>::new(&mut src); for _ in 0..10_000 {{ match rd.read().expect("streaming") {{ brec::NextPacket::Found(p) => all.push(packet_bytes(&p)), brec::NextPacket::NoData => break, _ => {{}} }} }} }} assert_eq!(all, wants, "packets streamed"); packets_read += all.len() as u64;
let _rules: {H}Rules = Default::default();
let image = {{ let mut img = Cursor::new(Vec::new()); let mut w = <{H}Writer<_>>::new(&mut img).expect("storage"); for b in &wants {{ w.insert(<{H}Packet as ReadFrom>::read(&mut Cursor::new(&b[..])).unwrap()).expect("insert"); }} drop(w); img.into_inner() }};
let mut rd = <{H}Reader<_>>::new(Cursor::new(image)).expect("storage"); assert_eq!(rd.count(), wants.len(), "packets in the storage");
let it: Vec<_> = rd.iter().map(|p| packet_bytes(&p.expect("stored packet"))).collect(); assert_eq!(it, wants, "packets stored"); packets_read += it.len() as u64;
for i in 0..wants.len() {{ assert_eq!(packet_bytes(&rd.nth(i).expect("stored packet").expect("stored packet")), wants[i], "packet {{i}} stored"); }}""")
        if not bare:
            w(f"""if let Some(dir) = std::env::args().nth(2) {{ let f = std::path::Path::new(&dir).join("storage.bin"); {{ let mut s = <{H}FileStorage>::new(&f, None, None).expect("file storage"); for b in &wants {{ s.insert(<{H}Packet as ReadFrom>::read(&mut Cursor::new(&b[..])).unwrap()).expect("insert"); }} }}
    let mut rd = <{H}Reader<_>>::new(std::fs::OpenOptions::new().read(true).write(true).open(&f).unwrap()).expect("storage"); let it: Vec<_> = rd.iter().map(|p| packet_bytes(&p.expect("stored packet"))).collect(); assert_eq!(it, wants, "packets in the file"); packets_read += it.len() as u64; }}""")
    w('println!("{{\\"blocks_read\\": {blocks_read}, \\"payloads_read\\": {payloads_read}, \\"packets_read\\": {packets_read}, \\"refused\\": {refused}}}"); }')
    if packets:
        w(f"fn packet_bytes(p: &{H}Packet) -> Vec<u8> {{ mon::packet(&p.blocks.iter().map(block_bytes).collect::<Vec<_>>(), p.payload.as_ref().map(payload_bytes).as_deref()) }}")
    elif nb and not kinds:
        # nothing of packets is generated: the names are free
        w("pub struct Packet; pub struct Payload;" if not home else "")
    files["main.rs"] = out + "\n".join(m) + "\n"
    text = f"{'no features; ' if bare else ''}{nb} blocks, {npay} payloads, generate!({', '.join(cfg)}) in {'::'.join(['crate'] + home)}: " + ", ".join(f"{x.full(home)} ({x.spell}{', no_crc' if getattr(x, 'no_crc', False) else ''}{', ' + x.kind + '/' + x.crc if hasattr(x, 'kind') else ''})" for x in blocks + payloads)
    return files, text

def main():
    seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    frm = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    repo = os.environ.get("BREC_REPO", "/repo")
    for ws, bare, idx in (("full", False, range(frm, n)), ("bare", True, range(max(2, n // 10)) if frm == 0 else [])):
        idx = list(idx)
        d = os.path.join(out, ws)
        os.makedirs(d, exist_ok=True)
        names = []
        for i in idx:
            files, text = shape(seed, i, bare)
            name = f"{'b' if bare else 's'}{i}"
            names.append(name)
            p = os.path.join(d, name)
            os.makedirs(os.path.join(p, "src"))
            for k, v in files.items(): open(os.path.join(p, "src", k), "w").write(v)
            open(os.path.join(p, "about.txt"), "w").write(text + "\n")
            open(os.path.join(p, "build.rs"), "w").write("fn main() { brec::build_setup(); }\n")
            feats = "" if bare else ', features = ["bincode", "locked_storage"]'
            serde = "" if bare else 'serde = { version = "1", features = ["derive"] }\n'
            open(os.path.join(p, "Cargo.toml"), "w").write(f'[package]\nname = "{name}"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nbrec = {{ path = "{repo}/brec"{feats} }}\n{serde}[build-dependencies]\nbrec = {{ path = "{repo}/brec", features = ["build"] }}\n')
        if not names: shutil.rmtree(d); continue
        open(os.path.join(d, "Cargo.toml"), "w").write('[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\nincremental = false\n' % ", ".join(f'"{x}"' for x in names))
        lock = os.path.join(repo, "Cargo.lock")
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))

if __name__ == "__main__": main()
