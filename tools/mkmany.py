#!/usr/bin/env python3
"""Generates mc/src/many.rs: lexicons of several sizes in which token types with literals, set-aside
types and semantic-only types alternate."""
import os
o=["//! Lexicons of several sizes (generated: tools/mkmany.py)",""]
sizes=[7,9,17,33,65,128]
def esc(c): return c
for k,n in enumerate(sizes):
    vs=[];tab=[]
    for i in range(n):
        c=chr(0x41+i) if i<26 else chr(0x61+i-26) if i<52 else chr(0x100+i)
        kind=(i*7+k)%5
        if kind in (0,2):
            vs.append(f'    #[teleparse(terminal(T{i} = "{c}"))]\n    V{i},'); tab.append(f'("{c}", {i}, false)')
        elif kind==1:
            vs.append(f'    #[teleparse(regex("{c}"), terminal(T{i}))]\n    V{i},'); tab.append(f'("{c}", {i}, false)')
        elif kind==3:
            vs.append(f'    #[teleparse(regex("{c}"))]\n    V{i},'); tab.append(f'("{c}", {i}, true)')
        else:
            vs.append(f'    V{i},')
    o.append(f"pub mod m{n} {{\nuse teleparse::prelude::*;\n#[derive_lexicon]\npub enum L {{\n"+"\n".join(vs)+f"\n}}\npub const TAB: &[(&str, usize, bool)] = &[{', '.join(tab)}];\n}}")
open(os.path.join(os.path.dirname(__file__),"../mc/src/many.rs"),"w").write("\n".join(o)+"\n")
