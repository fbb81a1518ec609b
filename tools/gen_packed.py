#!/usr/bin/env python3
"""Write the table of packed types in harness/pk/src/table.rs."""
import random
r = random.Random(14)
ANY = "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64 Wrapping<u16> Wrapping<i64> Pixel Within Order OnlyBinary Swapped".split()
CHECKED = "bool char NonZeroU8 NonZeroI16 NonZeroU32 NonZeroI64 NonZeroU128 Checked".split()
UNITS = ["()", "PhantomData<u64>"]
SHAPES = {"R1": 1, "R2": 2, "R3": 3, "R5": 5, "C1": 1, "C2": 2, "C3": 3, "C4": 4, "C6": 6, "A2": 2}


def ty(depth, kind):
    """kind: "simple" has no arrays and units, "framed" nothing which is checked."""
    if depth == 0 or r.random() < 0.3:
        if kind == "simple":
            return r.choice(ANY + CHECKED + CHECKED)
        if r.random() < 0.15:
            return r.choice(UNITS)
        return r.choice(ANY)
    if kind == "framed" and r.random() < 0.4:
        return f"[{ty(depth - 1, kind)}; {r.choice([0, 1, 2, 3, 5])}]"
    n = r.choice(list(SHAPES))
    # Fields of the same size are what ends up without padding.
    if r.random() < 0.5:
        same = [t for t in r.choice([["u8", "i8"] , ["u32", "i32", "f32"], ["u64", "f64", "i64"], ["u16", "Wrapping<u16>"]])]
        if kind == "simple":
            same += {"u8": ["bool", "NonZeroU8"], "u32": ["char", "NonZeroU32"], "u64": ["NonZeroI64"], "u16": ["NonZeroI16"]}[same[0]]
        else:
            same += [f"[{same[0]}; 3]"]
        return f"{n}<{', '.join(r.choice(same) for _ in range(SHAPES[n]))}>"
    return f"{n}<{', '.join(ty(depth - 1, kind) for _ in range(SHAPES[n]))}>"


fixed = ["u8", "i16", "u32", "i64", "u128", "f64", "bool", "char", "NonZeroU8", "NonZeroU32", "usize", "()", "Pixel", "Swapped",
         "Checked", "Padded", "Within", "Inner", "Order", "OnlyBinary", "[u8; 3]", "[u32; 2]", "[[u16; 2]; 2]", "C2<u8, bool>", "C2<u16, u32>", "A2<u32, u32>", "A2<u8, u8>", "C2<[u8; 5], [Pixel; 3]>"]
out = list(fixed)
while len(out) < 40:
    t = ty(2, "simple")
    if t not in out and "<" in t:
        out.append(t)
while len(out) < 52:
    t = ty(2, "framed")
    if t not in out and "<" in t and ("[" in t or "(" in t or "Ph" in t):
        out.append(t)
print("// Written by tools/gen_packed.py.")
print("use std::marker::PhantomData;\nuse std::num::*;\n\nuse crate::model::*;\n\npub const TYPES: &[Type] = &[")
for t in out:
    print(f"    Type::new::<{t}>(\"{t}\"),")
print("];\n")
print("/// What there is enough of to be read in chunks.\npub const LARGE: &[Type] = &[")
for t in ["u8", "u16", "u32", "u128", "f64", "Pixel", "Within", "C2<u64, [u8; 16]>", "[u8; 7]", "[u8; 70000]", "[u32; 16384]", "C3<u8, u8, u8>", "bool", "Checked", "Swapped", "()"]:
    print(f"    Type::new::<{t}>(\"{t}\"),")
print("];\n\nuse crate::Type;")
