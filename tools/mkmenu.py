#!/usr/bin/env python3
"""Generates mc/src/menu_gen.rs: choices and sequences of many terminals."""
import os
A=[f"a{i}" for i in range(20)]
B=[f"B{i}" for i in range(16)]
names=[f"A{i}" for i in range(20)]+[f"B{i}" for i in range(16)]+["Num","Str"]
N=len(names)
o=["//! Choices and sequences of many terminals (generated: tools/mkmenu.py)",
"use teleparse::prelude::*;",
"#[derive_lexicon]",'#[teleparse(ignore(r"[ \\n]+"))]',"pub enum M {",
'    #[teleparse(regex("[a-z][a-z0-9]*"), terminal('+", ".join(f'A{i} = "{a}"' for i,a in enumerate(A))+", AnyA))]","    A,",
'    #[teleparse(regex("[A-Z][A-Z0-9]*"), terminal('+", ".join(f'B{i} = "{a}"' for i,a in enumerate(B))+", AnyB))]","    B,",
'    #[teleparse(regex("[0-9]+"), terminal(Num))]',"    N,",
'    #[teleparse(regex("%+"), terminal(Str))]',"    S,",
'    #[teleparse(terminal(Semi = ";", Comma = ","))]',"    P,","}",
"/// (name in messages, token text, type)",
f"pub const ALL: [(&str, &str, M); {N+4}] = ["]
for n in names:
    if n=="Num": o.append('    ("N", "7", M::N),')
    elif n=="Str": o.append('    ("S", "%%", M::S),')
    else:
        t=(A+B)[names.index(n)]
        o.append(f'    ("\\"{t}\\"", "{t}", M::{n[0]}),')
o+=['    ("A", "zz", M::A),','    ("B", "ZZ", M::B),','    ("\\";\\"", ";", M::P),','    ("\\",\\"", ",", M::P),',"];"]
o+=["pub trait Choice { fn which(&self) -> (usize, teleparse::Span); }"]
for order in (0,1):
    idx=list(range(N)) if order==0 else [(i*7+3)%N for i in range(N)]
    assert len(set(idx))==N
    for k in (1,2,8,9,16,17,32,33,N):
        m=f"c{order}k{k}"
        sel=idx[:k]
        o.append(f"pub mod {m} {{")
        o.append("    use super::*;")
        o.append(f"    pub const SEL: [usize; {k}] = {sel};")
        vs=", ".join(f"V{i}({names[j]})" for i,j in enumerate(sel))
        for name,root in (("E",0),("One",1)):
            attr="#[teleparse(root)] " if root else ""
            o.append(f"    #[derive_syntax] {attr}pub enum {name} {{ {vs} }}")
            arms=", ".join(f"{name}::V{i}(x) => ({i}, x.span())" for i in range(k))
            o.append(f"    impl Choice for {name} {{ fn which(&self) -> (usize, teleparse::Span) {{ match self {{ {arms} }} }} }}")
        o.append("    #[derive_syntax] #[teleparse(root)] pub struct Opt(pub tp::Option<E>, pub Semi);")
        o.append("    #[derive_syntax] #[teleparse(root)] pub struct Vec(pub tp::Vec<E>, pub Semi);")
        o.append("    #[derive_syntax] #[teleparse(root)] pub struct Nev(pub tp::Nev<E>, pub Semi);")
        o.append("    #[derive_syntax] #[teleparse(root)] pub struct Split(pub tp::Split<E, Comma>, pub Semi);")
        fs=", ".join(f"pub {names[j]}" for j in sel)
        o.append(f"    #[derive_syntax] #[teleparse(root)] pub struct Seq({fs});")
        o.append("    impl Seq { pub fn parts(&self) -> std::vec::Vec<teleparse::Span> { vec!["+", ".join(f"self.{i}.span()" for i in range(k))+"] } }")
        o.append("}")
o.append("#[macro_export]\nmacro_rules! menus { ($f:ident, $i:expr, $ctx:expr, $prop:expr) => { match $i {")
n=0
for order in (0,1):
    for k in (1,2,8,9,16,17,32,33,N):
        o.append(f"    {n} => $f!(c{order}k{k}, $ctx, $prop),"); n+=1
o.append("    _ => unreachable!(),\n} } }")
o.append(f"pub const MENUS: u64 = {n};")
open(os.path.join(os.path.dirname(__file__),"../mc/src/menu_gen.rs"),"w").write("\n".join(o)+"\n")
