#!/usr/bin/env python3
# Writes mc/src/tsets.rs: every terminal_set! of up to three entries over four, with and without the empty symbol
import itertools
E=[('X: "a"',0,1),('X: *',0,8),('Y: "ab"',1,4),('Y: *',1,8)]
out=["// generated by tools/mktsets.py\nfn built_sets() -> Vec<(&'static str, TerminalSet<T>, FirstSet<T>, FollowSet<T>, Tm)> {\n    vec![\n"]
for n in range(4):
    for c in itertools.product(E,repeat=n):
        l=[0,0,0]
        for x in c: l[x[1]]|=x[2]
        l=[8 if x&8 else x for x in l]
        for e in (0,1):
            if n==0 and not e: s=['','T','T {}']
            elif n==0: s=['T { e }','T { e, }']
            else: s=['T { '+('e, ' if e else '')+', '.join(x[0] for x in c)+' }']
            for q in s:
                f=q if q else 'T'
                fol='{ let s: FollowSet<T> = FollowSet::from(terminal_set!(%s)); s }'%f
                out.append(f"        ({q!r}, terminal_set!({q}), first_set!({q}), {{ follow_set!({q}) }}, Tm {{ l: {l}, e: {str(bool(e)).lower()} }}),\n".replace(repr(q),'r#"%s"#'%q,1))
out.append("    ]\n}\n")
open('/verif/mc/src/tsets.rs','w').write(''.join(out))
