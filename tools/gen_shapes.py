#!/usr/bin/env python3
"""Writes harness/src/props/shapes.rs: structs of many shapes with derived codecs (C32)."""
import random
R = random.Random(32)
NAMES = ["w", "r", "enc", "dec", "buf", "self_", "result", "value", "name", "r#type", "r#fn", "r#match", "encode", "decode", "encode_v1",
         "decode_v1", "ok", "err", "len", "i", "id", "a_rather_long_field_name_with_many_words", "x0", "_hidden", "__", "item", "fields", "index",
         "camelCase", "UPPER", "state", "e", "f", "g", "h", "data", "ty", "std", "crate_", "io", "write", "read"]
K = 0
def spy():
    global K
    K = (K + 1) % 250
    return f"Spy<{K}>"
def nil():
    global K
    K = (K + 1) % 250
    return f"Nil<{K}>"
BASIC = ["u8", "bool", "u64", "String", "Vec<u8>", "[u8; 5]", "[u8; 0]", "std::vec::Vec<u8>", "Option<Option<bool>>", "Vec<String>", "Option<u64>"]
def ty(depth, nested):
    k = R.random()
    if k < .42: return spy()
    if k < .52: return nil()
    if k < .74: return R.choice(BASIC)
    if k < .80: return f"Vec<{spy()}>"
    if k < .86: return f"Option<{spy()}>"
    if k < .89: return f"Vec<Option<{spy()}>>"
    if nested and depth: return R.choice(nested)
    return spy()
out = ["//! Generated by tools/gen_shapes.py.", "#![allow(dead_code, non_snake_case, clippy::all)]",
       "use super::derive::{Nil, Part, Spy};", "use crate::eng::{Ctx, Res};", "use model::rng::Rng;",
       "use sia::encoding::*;", ""]
DER = "#[derive(Debug, PartialEq, SiaEncode, SiaDecode, V1SiaEncode, V1SiaDecode)]"
shapes = []
def emit(name, style, tys):
    out.append(DER)
    names = [n for n in R.sample(NAMES, min(len(tys), len(NAMES)))]
    while len(names) < len(tys): names.append(f"more{len(names)}")
    if style == "named":
        out.append(f"pub struct {name} {{")
        for n, t in zip(names, tys):
            if R.random() < .15: out.append("    /// documented")
            if R.random() < .1: out.append("    #[allow(unused)]")
            out.append(f"    pub {n}: {t},")
        out.append("}")
        mk = "Self { " + ", ".join(f"{n}: Part::make(rng)" for n in names) + " }"
        lv = " ".join(f"self.{n}.leaves(ver, out);" for n in names)
    elif style == "tuple":
        out.append(f"pub struct {name}({', '.join('pub ' + t if R.random() < .5 else t for t in tys)});")
        mk = "Self(" + ", ".join("Part::make(rng)" for _ in tys) + ")"
        lv = " ".join(f"self.{i}.leaves(ver, out);" for i in range(len(tys)))
    else:
        out.append(f"pub struct {name};")
        mk, lv = "Self", ""
    out.append(f"impl Part for {name} {{")
    out.append(f"    #[allow(unused_variables)] fn make(rng: &mut Rng) -> Self {{ {mk} }}")
    out.append(f"    #[allow(unused_variables)] fn leaves(&self, ver: u8, out: &mut Vec<(Option<usize>, Vec<u8>)>) {{ {lv} }}")
    out.append("}")
    out.append("")
    shapes.append((name, style, len(tys)))
emit("Unit", "unit", [])
emit("EmptyNamed", "named", [])
emit("EmptyTuple", "tuple", [])
emit("One", "named", [spy()])
emit("OneTuple", "tuple", [spy()])
emit("Same", "named", ["Spy<7>"] * 6)
emit("SameTuple", "tuple", ["Spy<7>"] * 12)
emit("Ints", "named", ["u64"] * 9)
emit("Bytes", "tuple", ["u8"] * 9)
emit("Nils", "named", [nil() for _ in range(4)])
for n in list(range(2, 18)) + [24, 33, 48, 70]:
    for style in ("named", "tuple"):
        flat = [s for s, _, c in shapes]
        emit(f"S{style.capitalize()}{n}", style, [ty(1, flat if n < 12 else None) for _ in range(n)])
for i in range(8):
    emit(f"Nest{i}", R.choice(["named", "tuple"]), [R.choice([s for s, _, _ in shapes[-12:]]), spy(), R.choice([s for s, _, _ in shapes[:14]]), f"Vec<{R.choice([s for s, _, c in shapes[:20]])}>"])
out.append("pub const SHAPES: &[(&str, fn(&mut Ctx, &'static str) -> Res)] = &[")
for s, _, _ in shapes: out.append(f'    ("{s}", super::derive::check::<{s}>),')
out.append("];")
dir = __file__.rsplit("/", 2)[0] + "/harness/src/props/"
open(dir + "shapes.rs", "w").write("\n".join(out) + "\n")
# the same with field names that no macro would use for its own variables
import re
PLAIN = [n for n in NAMES if n not in ("_hidden", "__", "camelCase", "UPPER", "a_rather_long_field_name_with_many_words", "self_", "id", "state")]
def plain(line):
    for n in PLAIN:
        new = "plain_" + n.replace("r#", "")
        line = re.sub(r"^    pub " + re.escape(n) + r": ", f"    pub {new}: ", line)
        line = re.sub(r"self\." + re.escape(n) + r"\.leaves", f"self.{new}.leaves", line)
        line = re.sub(r"(?<=[{,] )" + re.escape(n) + r": Part::make", f"{new}: Part::make", line)
    return line
open(dir + "shapes_plain.rs", "w").write("\n".join(map(plain, out)) + "\n")
