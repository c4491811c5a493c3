#!/usr/bin/env python3
"""Generates mc/src/lexs.rs: lexicons of every size from 1 to 128."""
o=["//! Lexicons of every size from 1 to 128 (generated: tools/mklexs.py)","use teleparse::lex::Lexicon;",
"pub trait Visit {","    fn go<L: Lexicon>(&mut self, n: usize, all: &[L])","    where","        L::Bit: Into<u128> + Copy + serde::Serialize + serde::de::DeserializeOwned;","}"]
for n in range(1,129):
    vs=", ".join(f"V{i}" for i in range(n))
    o.append(f"pub mod n{n} {{ use teleparse::prelude::*; #[derive_lexicon] pub enum L {{ {vs} }} pub const ALL: [L; {n}] = {{ use L::*; [{vs}] }}; }}")
o+=["pub fn with_size(n: usize, v: &mut impl Visit) {","    match n {"]
o+=[f"        {n} => v.go({n}, &n{n}::ALL)," for n in range(1,129)]
o+=["        _ => unreachable!(),","    }","}"]
SOME=[1,2,3,7,8,9,15,16,17,31,32,33,63,64,65,127,128]
o+=["/// the sizes around the boundaries of the representation",f"pub const SOME: [usize; {len(SOME)}] = {SOME};","pub fn with_some_size(n: usize, v: &mut impl Visit) {","    match n {"]
o+=[f"        {n} => v.go({n}, &n{n}::ALL)," for n in SOME]
o+=["        _ => unreachable!(),","    }","}"]
import os
open(os.path.join(os.path.dirname(__file__),"../mc/src/lexs.rs"),"w").write("\n".join(o)+"\n")
