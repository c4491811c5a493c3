// generated by tools/mktsets.py
fn built_sets() -> Vec<(&'static str, TerminalSet<T>, FirstSet<T>, FollowSet<T>, Tm)> {
    vec![
        (r#""#, terminal_set!(), first_set!(), { follow_set!() }, Tm { l: [0, 0, 0], e: false }),
        (r#"T"#, terminal_set!(T), first_set!(T), { follow_set!(T) }, Tm { l: [0, 0, 0], e: false }),
        (r#"T {}"#, terminal_set!(T {}), first_set!(T {}), { follow_set!(T {}) }, Tm { l: [0, 0, 0], e: false }),
        (r#"T { e }"#, terminal_set!(T { e }), first_set!(T { e }), { follow_set!(T { e }) }, Tm { l: [0, 0, 0], e: true }),
        (r#"T { e, }"#, terminal_set!(T { e, }), first_set!(T { e, }), { follow_set!(T { e, }) }, Tm { l: [0, 0, 0], e: true }),
        (r#"T { X: "a" }"#, terminal_set!(T { X: "a" }), first_set!(T { X: "a" }), { follow_set!(T { X: "a" }) }, Tm { l: [1, 0, 0], e: false }),
        (r#"T { e, X: "a" }"#, terminal_set!(T { e, X: "a" }), first_set!(T { e, X: "a" }), { follow_set!(T { e, X: "a" }) }, Tm { l: [1, 0, 0], e: true }),
        (r#"T { X: * }"#, terminal_set!(T { X: * }), first_set!(T { X: * }), { follow_set!(T { X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: * }"#, terminal_set!(T { e, X: * }), first_set!(T { e, X: * }), { follow_set!(T { e, X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { Y: "ab" }"#, terminal_set!(T { Y: "ab" }), first_set!(T { Y: "ab" }), { follow_set!(T { Y: "ab" }) }, Tm { l: [0, 4, 0], e: false }),
        (r#"T { e, Y: "ab" }"#, terminal_set!(T { e, Y: "ab" }), first_set!(T { e, Y: "ab" }), { follow_set!(T { e, Y: "ab" }) }, Tm { l: [0, 4, 0], e: true }),
        (r#"T { Y: * }"#, terminal_set!(T { Y: * }), first_set!(T { Y: * }), { follow_set!(T { Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: * }"#, terminal_set!(T { e, Y: * }), first_set!(T { e, Y: * }), { follow_set!(T { e, Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { X: "a", X: "a" }"#, terminal_set!(T { X: "a", X: "a" }), first_set!(T { X: "a", X: "a" }), { follow_set!(T { X: "a", X: "a" }) }, Tm { l: [1, 0, 0], e: false }),
        (r#"T { e, X: "a", X: "a" }"#, terminal_set!(T { e, X: "a", X: "a" }), first_set!(T { e, X: "a", X: "a" }), { follow_set!(T { e, X: "a", X: "a" }) }, Tm { l: [1, 0, 0], e: true }),
        (r#"T { X: "a", X: * }"#, terminal_set!(T { X: "a", X: * }), first_set!(T { X: "a", X: * }), { follow_set!(T { X: "a", X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: "a", X: * }"#, terminal_set!(T { e, X: "a", X: * }), first_set!(T { e, X: "a", X: * }), { follow_set!(T { e, X: "a", X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: "a", Y: "ab" }"#, terminal_set!(T { X: "a", Y: "ab" }), first_set!(T { X: "a", Y: "ab" }), { follow_set!(T { X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, X: "a", Y: "ab" }"#, terminal_set!(T { e, X: "a", Y: "ab" }), first_set!(T { e, X: "a", Y: "ab" }), { follow_set!(T { e, X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { X: "a", Y: * }"#, terminal_set!(T { X: "a", Y: * }), first_set!(T { X: "a", Y: * }), { follow_set!(T { X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: * }"#, terminal_set!(T { e, X: "a", Y: * }), first_set!(T { e, X: "a", Y: * }), { follow_set!(T { e, X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: *, X: "a" }"#, terminal_set!(T { X: *, X: "a" }), first_set!(T { X: *, X: "a" }), { follow_set!(T { X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: "a" }"#, terminal_set!(T { e, X: *, X: "a" }), first_set!(T { e, X: *, X: "a" }), { follow_set!(T { e, X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, X: * }"#, terminal_set!(T { X: *, X: * }), first_set!(T { X: *, X: * }), { follow_set!(T { X: *, X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: * }"#, terminal_set!(T { e, X: *, X: * }), first_set!(T { e, X: *, X: * }), { follow_set!(T { e, X: *, X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, Y: "ab" }"#, terminal_set!(T { X: *, Y: "ab" }), first_set!(T { X: *, Y: "ab" }), { follow_set!(T { X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, Y: "ab" }"#, terminal_set!(T { e, X: *, Y: "ab" }), first_set!(T { e, X: *, Y: "ab" }), { follow_set!(T { e, X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, Y: * }"#, terminal_set!(T { X: *, Y: * }), first_set!(T { X: *, Y: * }), { follow_set!(T { X: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: * }"#, terminal_set!(T { e, X: *, Y: * }), first_set!(T { e, X: *, Y: * }), { follow_set!(T { e, X: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: "ab", X: "a" }"#, terminal_set!(T { Y: "ab", X: "a" }), first_set!(T { Y: "ab", X: "a" }), { follow_set!(T { Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: "a" }"#, terminal_set!(T { e, Y: "ab", X: "a" }), first_set!(T { e, Y: "ab", X: "a" }), { follow_set!(T { e, Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { Y: "ab", X: * }"#, terminal_set!(T { Y: "ab", X: * }), first_set!(T { Y: "ab", X: * }), { follow_set!(T { Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: * }"#, terminal_set!(T { e, Y: "ab", X: * }), first_set!(T { e, Y: "ab", X: * }), { follow_set!(T { e, Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", Y: "ab" }"#, terminal_set!(T { Y: "ab", Y: "ab" }), first_set!(T { Y: "ab", Y: "ab" }), { follow_set!(T { Y: "ab", Y: "ab" }) }, Tm { l: [0, 4, 0], e: false }),
        (r#"T { e, Y: "ab", Y: "ab" }"#, terminal_set!(T { e, Y: "ab", Y: "ab" }), first_set!(T { e, Y: "ab", Y: "ab" }), { follow_set!(T { e, Y: "ab", Y: "ab" }) }, Tm { l: [0, 4, 0], e: true }),
        (r#"T { Y: "ab", Y: * }"#, terminal_set!(T { Y: "ab", Y: * }), first_set!(T { Y: "ab", Y: * }), { follow_set!(T { Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: * }"#, terminal_set!(T { e, Y: "ab", Y: * }), first_set!(T { e, Y: "ab", Y: * }), { follow_set!(T { e, Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, X: "a" }"#, terminal_set!(T { Y: *, X: "a" }), first_set!(T { Y: *, X: "a" }), { follow_set!(T { Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, X: "a" }"#, terminal_set!(T { e, Y: *, X: "a" }), first_set!(T { e, Y: *, X: "a" }), { follow_set!(T { e, Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, X: * }"#, terminal_set!(T { Y: *, X: * }), first_set!(T { Y: *, X: * }), { follow_set!(T { Y: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: * }"#, terminal_set!(T { e, Y: *, X: * }), first_set!(T { e, Y: *, X: * }), { follow_set!(T { e, Y: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, Y: "ab" }"#, terminal_set!(T { Y: *, Y: "ab" }), first_set!(T { Y: *, Y: "ab" }), { follow_set!(T { Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: "ab" }"#, terminal_set!(T { e, Y: *, Y: "ab" }), first_set!(T { e, Y: *, Y: "ab" }), { follow_set!(T { e, Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, Y: * }"#, terminal_set!(T { Y: *, Y: * }), first_set!(T { Y: *, Y: * }), { follow_set!(T { Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: * }"#, terminal_set!(T { e, Y: *, Y: * }), first_set!(T { e, Y: *, Y: * }), { follow_set!(T { e, Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { X: "a", X: "a", X: "a" }"#, terminal_set!(T { X: "a", X: "a", X: "a" }), first_set!(T { X: "a", X: "a", X: "a" }), { follow_set!(T { X: "a", X: "a", X: "a" }) }, Tm { l: [1, 0, 0], e: false }),
        (r#"T { e, X: "a", X: "a", X: "a" }"#, terminal_set!(T { e, X: "a", X: "a", X: "a" }), first_set!(T { e, X: "a", X: "a", X: "a" }), { follow_set!(T { e, X: "a", X: "a", X: "a" }) }, Tm { l: [1, 0, 0], e: true }),
        (r#"T { X: "a", X: "a", X: * }"#, terminal_set!(T { X: "a", X: "a", X: * }), first_set!(T { X: "a", X: "a", X: * }), { follow_set!(T { X: "a", X: "a", X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: "a", X: "a", X: * }"#, terminal_set!(T { e, X: "a", X: "a", X: * }), first_set!(T { e, X: "a", X: "a", X: * }), { follow_set!(T { e, X: "a", X: "a", X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: "a", X: "a", Y: "ab" }"#, terminal_set!(T { X: "a", X: "a", Y: "ab" }), first_set!(T { X: "a", X: "a", Y: "ab" }), { follow_set!(T { X: "a", X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, X: "a", X: "a", Y: "ab" }"#, terminal_set!(T { e, X: "a", X: "a", Y: "ab" }), first_set!(T { e, X: "a", X: "a", Y: "ab" }), { follow_set!(T { e, X: "a", X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { X: "a", X: "a", Y: * }"#, terminal_set!(T { X: "a", X: "a", Y: * }), first_set!(T { X: "a", X: "a", Y: * }), { follow_set!(T { X: "a", X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", X: "a", Y: * }"#, terminal_set!(T { e, X: "a", X: "a", Y: * }), first_set!(T { e, X: "a", X: "a", Y: * }), { follow_set!(T { e, X: "a", X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: "a", X: *, X: "a" }"#, terminal_set!(T { X: "a", X: *, X: "a" }), first_set!(T { X: "a", X: *, X: "a" }), { follow_set!(T { X: "a", X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: "a", X: *, X: "a" }"#, terminal_set!(T { e, X: "a", X: *, X: "a" }), first_set!(T { e, X: "a", X: *, X: "a" }), { follow_set!(T { e, X: "a", X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: "a", X: *, X: * }"#, terminal_set!(T { X: "a", X: *, X: * }), first_set!(T { X: "a", X: *, X: * }), { follow_set!(T { X: "a", X: *, X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: "a", X: *, X: * }"#, terminal_set!(T { e, X: "a", X: *, X: * }), first_set!(T { e, X: "a", X: *, X: * }), { follow_set!(T { e, X: "a", X: *, X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: "a", X: *, Y: "ab" }"#, terminal_set!(T { X: "a", X: *, Y: "ab" }), first_set!(T { X: "a", X: *, Y: "ab" }), { follow_set!(T { X: "a", X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: "a", X: *, Y: "ab" }"#, terminal_set!(T { e, X: "a", X: *, Y: "ab" }), first_set!(T { e, X: "a", X: *, Y: "ab" }), { follow_set!(T { e, X: "a", X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: "a", X: *, Y: * }"#, terminal_set!(T { X: "a", X: *, Y: * }), first_set!(T { X: "a", X: *, Y: * }), { follow_set!(T { X: "a", X: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: "a", X: *, Y: * }"#, terminal_set!(T { e, X: "a", X: *, Y: * }), first_set!(T { e, X: "a", X: *, Y: * }), { follow_set!(T { e, X: "a", X: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: "a", Y: "ab", X: "a" }"#, terminal_set!(T { X: "a", Y: "ab", X: "a" }), first_set!(T { X: "a", Y: "ab", X: "a" }), { follow_set!(T { X: "a", Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, X: "a", Y: "ab", X: "a" }"#, terminal_set!(T { e, X: "a", Y: "ab", X: "a" }), first_set!(T { e, X: "a", Y: "ab", X: "a" }), { follow_set!(T { e, X: "a", Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { X: "a", Y: "ab", X: * }"#, terminal_set!(T { X: "a", Y: "ab", X: * }), first_set!(T { X: "a", Y: "ab", X: * }), { follow_set!(T { X: "a", Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: "a", Y: "ab", X: * }"#, terminal_set!(T { e, X: "a", Y: "ab", X: * }), first_set!(T { e, X: "a", Y: "ab", X: * }), { follow_set!(T { e, X: "a", Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: "a", Y: "ab", Y: "ab" }"#, terminal_set!(T { X: "a", Y: "ab", Y: "ab" }), first_set!(T { X: "a", Y: "ab", Y: "ab" }), { follow_set!(T { X: "a", Y: "ab", Y: "ab" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, X: "a", Y: "ab", Y: "ab" }"#, terminal_set!(T { e, X: "a", Y: "ab", Y: "ab" }), first_set!(T { e, X: "a", Y: "ab", Y: "ab" }), { follow_set!(T { e, X: "a", Y: "ab", Y: "ab" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { X: "a", Y: "ab", Y: * }"#, terminal_set!(T { X: "a", Y: "ab", Y: * }), first_set!(T { X: "a", Y: "ab", Y: * }), { follow_set!(T { X: "a", Y: "ab", Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: "ab", Y: * }"#, terminal_set!(T { e, X: "a", Y: "ab", Y: * }), first_set!(T { e, X: "a", Y: "ab", Y: * }), { follow_set!(T { e, X: "a", Y: "ab", Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: "a", Y: *, X: "a" }"#, terminal_set!(T { X: "a", Y: *, X: "a" }), first_set!(T { X: "a", Y: *, X: "a" }), { follow_set!(T { X: "a", Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: *, X: "a" }"#, terminal_set!(T { e, X: "a", Y: *, X: "a" }), first_set!(T { e, X: "a", Y: *, X: "a" }), { follow_set!(T { e, X: "a", Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: "a", Y: *, X: * }"#, terminal_set!(T { X: "a", Y: *, X: * }), first_set!(T { X: "a", Y: *, X: * }), { follow_set!(T { X: "a", Y: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: *, X: * }"#, terminal_set!(T { e, X: "a", Y: *, X: * }), first_set!(T { e, X: "a", Y: *, X: * }), { follow_set!(T { e, X: "a", Y: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: "a", Y: *, Y: "ab" }"#, terminal_set!(T { X: "a", Y: *, Y: "ab" }), first_set!(T { X: "a", Y: *, Y: "ab" }), { follow_set!(T { X: "a", Y: *, Y: "ab" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: *, Y: "ab" }"#, terminal_set!(T { e, X: "a", Y: *, Y: "ab" }), first_set!(T { e, X: "a", Y: *, Y: "ab" }), { follow_set!(T { e, X: "a", Y: *, Y: "ab" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: "a", Y: *, Y: * }"#, terminal_set!(T { X: "a", Y: *, Y: * }), first_set!(T { X: "a", Y: *, Y: * }), { follow_set!(T { X: "a", Y: *, Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, X: "a", Y: *, Y: * }"#, terminal_set!(T { e, X: "a", Y: *, Y: * }), first_set!(T { e, X: "a", Y: *, Y: * }), { follow_set!(T { e, X: "a", Y: *, Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { X: *, X: "a", X: "a" }"#, terminal_set!(T { X: *, X: "a", X: "a" }), first_set!(T { X: *, X: "a", X: "a" }), { follow_set!(T { X: *, X: "a", X: "a" }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: "a", X: "a" }"#, terminal_set!(T { e, X: *, X: "a", X: "a" }), first_set!(T { e, X: *, X: "a", X: "a" }), { follow_set!(T { e, X: *, X: "a", X: "a" }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, X: "a", X: * }"#, terminal_set!(T { X: *, X: "a", X: * }), first_set!(T { X: *, X: "a", X: * }), { follow_set!(T { X: *, X: "a", X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: "a", X: * }"#, terminal_set!(T { e, X: *, X: "a", X: * }), first_set!(T { e, X: *, X: "a", X: * }), { follow_set!(T { e, X: *, X: "a", X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, X: "a", Y: "ab" }"#, terminal_set!(T { X: *, X: "a", Y: "ab" }), first_set!(T { X: *, X: "a", Y: "ab" }), { follow_set!(T { X: *, X: "a", Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, X: "a", Y: "ab" }"#, terminal_set!(T { e, X: *, X: "a", Y: "ab" }), first_set!(T { e, X: *, X: "a", Y: "ab" }), { follow_set!(T { e, X: *, X: "a", Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, X: "a", Y: * }"#, terminal_set!(T { X: *, X: "a", Y: * }), first_set!(T { X: *, X: "a", Y: * }), { follow_set!(T { X: *, X: "a", Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, X: "a", Y: * }"#, terminal_set!(T { e, X: *, X: "a", Y: * }), first_set!(T { e, X: *, X: "a", Y: * }), { follow_set!(T { e, X: *, X: "a", Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, X: *, X: "a" }"#, terminal_set!(T { X: *, X: *, X: "a" }), first_set!(T { X: *, X: *, X: "a" }), { follow_set!(T { X: *, X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: *, X: "a" }"#, terminal_set!(T { e, X: *, X: *, X: "a" }), first_set!(T { e, X: *, X: *, X: "a" }), { follow_set!(T { e, X: *, X: *, X: "a" }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, X: *, X: * }"#, terminal_set!(T { X: *, X: *, X: * }), first_set!(T { X: *, X: *, X: * }), { follow_set!(T { X: *, X: *, X: * }) }, Tm { l: [8, 0, 0], e: false }),
        (r#"T { e, X: *, X: *, X: * }"#, terminal_set!(T { e, X: *, X: *, X: * }), first_set!(T { e, X: *, X: *, X: * }), { follow_set!(T { e, X: *, X: *, X: * }) }, Tm { l: [8, 0, 0], e: true }),
        (r#"T { X: *, X: *, Y: "ab" }"#, terminal_set!(T { X: *, X: *, Y: "ab" }), first_set!(T { X: *, X: *, Y: "ab" }), { follow_set!(T { X: *, X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, X: *, Y: "ab" }"#, terminal_set!(T { e, X: *, X: *, Y: "ab" }), first_set!(T { e, X: *, X: *, Y: "ab" }), { follow_set!(T { e, X: *, X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, X: *, Y: * }"#, terminal_set!(T { X: *, X: *, Y: * }), first_set!(T { X: *, X: *, Y: * }), { follow_set!(T { X: *, X: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, X: *, Y: * }"#, terminal_set!(T { e, X: *, X: *, Y: * }), first_set!(T { e, X: *, X: *, Y: * }), { follow_set!(T { e, X: *, X: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, Y: "ab", X: "a" }"#, terminal_set!(T { X: *, Y: "ab", X: "a" }), first_set!(T { X: *, Y: "ab", X: "a" }), { follow_set!(T { X: *, Y: "ab", X: "a" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, Y: "ab", X: "a" }"#, terminal_set!(T { e, X: *, Y: "ab", X: "a" }), first_set!(T { e, X: *, Y: "ab", X: "a" }), { follow_set!(T { e, X: *, Y: "ab", X: "a" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, Y: "ab", X: * }"#, terminal_set!(T { X: *, Y: "ab", X: * }), first_set!(T { X: *, Y: "ab", X: * }), { follow_set!(T { X: *, Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, Y: "ab", X: * }"#, terminal_set!(T { e, X: *, Y: "ab", X: * }), first_set!(T { e, X: *, Y: "ab", X: * }), { follow_set!(T { e, X: *, Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, Y: "ab", Y: "ab" }"#, terminal_set!(T { X: *, Y: "ab", Y: "ab" }), first_set!(T { X: *, Y: "ab", Y: "ab" }), { follow_set!(T { X: *, Y: "ab", Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, X: *, Y: "ab", Y: "ab" }"#, terminal_set!(T { e, X: *, Y: "ab", Y: "ab" }), first_set!(T { e, X: *, Y: "ab", Y: "ab" }), { follow_set!(T { e, X: *, Y: "ab", Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { X: *, Y: "ab", Y: * }"#, terminal_set!(T { X: *, Y: "ab", Y: * }), first_set!(T { X: *, Y: "ab", Y: * }), { follow_set!(T { X: *, Y: "ab", Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: "ab", Y: * }"#, terminal_set!(T { e, X: *, Y: "ab", Y: * }), first_set!(T { e, X: *, Y: "ab", Y: * }), { follow_set!(T { e, X: *, Y: "ab", Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, Y: *, X: "a" }"#, terminal_set!(T { X: *, Y: *, X: "a" }), first_set!(T { X: *, Y: *, X: "a" }), { follow_set!(T { X: *, Y: *, X: "a" }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: *, X: "a" }"#, terminal_set!(T { e, X: *, Y: *, X: "a" }), first_set!(T { e, X: *, Y: *, X: "a" }), { follow_set!(T { e, X: *, Y: *, X: "a" }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, Y: *, X: * }"#, terminal_set!(T { X: *, Y: *, X: * }), first_set!(T { X: *, Y: *, X: * }), { follow_set!(T { X: *, Y: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: *, X: * }"#, terminal_set!(T { e, X: *, Y: *, X: * }), first_set!(T { e, X: *, Y: *, X: * }), { follow_set!(T { e, X: *, Y: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, Y: *, Y: "ab" }"#, terminal_set!(T { X: *, Y: *, Y: "ab" }), first_set!(T { X: *, Y: *, Y: "ab" }), { follow_set!(T { X: *, Y: *, Y: "ab" }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: *, Y: "ab" }"#, terminal_set!(T { e, X: *, Y: *, Y: "ab" }), first_set!(T { e, X: *, Y: *, Y: "ab" }), { follow_set!(T { e, X: *, Y: *, Y: "ab" }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { X: *, Y: *, Y: * }"#, terminal_set!(T { X: *, Y: *, Y: * }), first_set!(T { X: *, Y: *, Y: * }), { follow_set!(T { X: *, Y: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, X: *, Y: *, Y: * }"#, terminal_set!(T { e, X: *, Y: *, Y: * }), first_set!(T { e, X: *, Y: *, Y: * }), { follow_set!(T { e, X: *, Y: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: "ab", X: "a", X: "a" }"#, terminal_set!(T { Y: "ab", X: "a", X: "a" }), first_set!(T { Y: "ab", X: "a", X: "a" }), { follow_set!(T { Y: "ab", X: "a", X: "a" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: "a", X: "a" }"#, terminal_set!(T { e, Y: "ab", X: "a", X: "a" }), first_set!(T { e, Y: "ab", X: "a", X: "a" }), { follow_set!(T { e, Y: "ab", X: "a", X: "a" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { Y: "ab", X: "a", X: * }"#, terminal_set!(T { Y: "ab", X: "a", X: * }), first_set!(T { Y: "ab", X: "a", X: * }), { follow_set!(T { Y: "ab", X: "a", X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: "a", X: * }"#, terminal_set!(T { e, Y: "ab", X: "a", X: * }), first_set!(T { e, Y: "ab", X: "a", X: * }), { follow_set!(T { e, Y: "ab", X: "a", X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", X: "a", Y: "ab" }"#, terminal_set!(T { Y: "ab", X: "a", Y: "ab" }), first_set!(T { Y: "ab", X: "a", Y: "ab" }), { follow_set!(T { Y: "ab", X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: "a", Y: "ab" }"#, terminal_set!(T { e, Y: "ab", X: "a", Y: "ab" }), first_set!(T { e, Y: "ab", X: "a", Y: "ab" }), { follow_set!(T { e, Y: "ab", X: "a", Y: "ab" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { Y: "ab", X: "a", Y: * }"#, terminal_set!(T { Y: "ab", X: "a", Y: * }), first_set!(T { Y: "ab", X: "a", Y: * }), { follow_set!(T { Y: "ab", X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: "ab", X: "a", Y: * }"#, terminal_set!(T { e, Y: "ab", X: "a", Y: * }), first_set!(T { e, Y: "ab", X: "a", Y: * }), { follow_set!(T { e, Y: "ab", X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: "ab", X: *, X: "a" }"#, terminal_set!(T { Y: "ab", X: *, X: "a" }), first_set!(T { Y: "ab", X: *, X: "a" }), { follow_set!(T { Y: "ab", X: *, X: "a" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: *, X: "a" }"#, terminal_set!(T { e, Y: "ab", X: *, X: "a" }), first_set!(T { e, Y: "ab", X: *, X: "a" }), { follow_set!(T { e, Y: "ab", X: *, X: "a" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", X: *, X: * }"#, terminal_set!(T { Y: "ab", X: *, X: * }), first_set!(T { Y: "ab", X: *, X: * }), { follow_set!(T { Y: "ab", X: *, X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: *, X: * }"#, terminal_set!(T { e, Y: "ab", X: *, X: * }), first_set!(T { e, Y: "ab", X: *, X: * }), { follow_set!(T { e, Y: "ab", X: *, X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", X: *, Y: "ab" }"#, terminal_set!(T { Y: "ab", X: *, Y: "ab" }), first_set!(T { Y: "ab", X: *, Y: "ab" }), { follow_set!(T { Y: "ab", X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", X: *, Y: "ab" }"#, terminal_set!(T { e, Y: "ab", X: *, Y: "ab" }), first_set!(T { e, Y: "ab", X: *, Y: "ab" }), { follow_set!(T { e, Y: "ab", X: *, Y: "ab" }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", X: *, Y: * }"#, terminal_set!(T { Y: "ab", X: *, Y: * }), first_set!(T { Y: "ab", X: *, Y: * }), { follow_set!(T { Y: "ab", X: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: "ab", X: *, Y: * }"#, terminal_set!(T { e, Y: "ab", X: *, Y: * }), first_set!(T { e, Y: "ab", X: *, Y: * }), { follow_set!(T { e, Y: "ab", X: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: "ab", Y: "ab", X: "a" }"#, terminal_set!(T { Y: "ab", Y: "ab", X: "a" }), first_set!(T { Y: "ab", Y: "ab", X: "a" }), { follow_set!(T { Y: "ab", Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: false }),
        (r#"T { e, Y: "ab", Y: "ab", X: "a" }"#, terminal_set!(T { e, Y: "ab", Y: "ab", X: "a" }), first_set!(T { e, Y: "ab", Y: "ab", X: "a" }), { follow_set!(T { e, Y: "ab", Y: "ab", X: "a" }) }, Tm { l: [1, 4, 0], e: true }),
        (r#"T { Y: "ab", Y: "ab", X: * }"#, terminal_set!(T { Y: "ab", Y: "ab", X: * }), first_set!(T { Y: "ab", Y: "ab", X: * }), { follow_set!(T { Y: "ab", Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: false }),
        (r#"T { e, Y: "ab", Y: "ab", X: * }"#, terminal_set!(T { e, Y: "ab", Y: "ab", X: * }), first_set!(T { e, Y: "ab", Y: "ab", X: * }), { follow_set!(T { e, Y: "ab", Y: "ab", X: * }) }, Tm { l: [8, 4, 0], e: true }),
        (r#"T { Y: "ab", Y: "ab", Y: "ab" }"#, terminal_set!(T { Y: "ab", Y: "ab", Y: "ab" }), first_set!(T { Y: "ab", Y: "ab", Y: "ab" }), { follow_set!(T { Y: "ab", Y: "ab", Y: "ab" }) }, Tm { l: [0, 4, 0], e: false }),
        (r#"T { e, Y: "ab", Y: "ab", Y: "ab" }"#, terminal_set!(T { e, Y: "ab", Y: "ab", Y: "ab" }), first_set!(T { e, Y: "ab", Y: "ab", Y: "ab" }), { follow_set!(T { e, Y: "ab", Y: "ab", Y: "ab" }) }, Tm { l: [0, 4, 0], e: true }),
        (r#"T { Y: "ab", Y: "ab", Y: * }"#, terminal_set!(T { Y: "ab", Y: "ab", Y: * }), first_set!(T { Y: "ab", Y: "ab", Y: * }), { follow_set!(T { Y: "ab", Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: "ab", Y: * }"#, terminal_set!(T { e, Y: "ab", Y: "ab", Y: * }), first_set!(T { e, Y: "ab", Y: "ab", Y: * }), { follow_set!(T { e, Y: "ab", Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: "ab", Y: *, X: "a" }"#, terminal_set!(T { Y: "ab", Y: *, X: "a" }), first_set!(T { Y: "ab", Y: *, X: "a" }), { follow_set!(T { Y: "ab", Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: *, X: "a" }"#, terminal_set!(T { e, Y: "ab", Y: *, X: "a" }), first_set!(T { e, Y: "ab", Y: *, X: "a" }), { follow_set!(T { e, Y: "ab", Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: "ab", Y: *, X: * }"#, terminal_set!(T { Y: "ab", Y: *, X: * }), first_set!(T { Y: "ab", Y: *, X: * }), { follow_set!(T { Y: "ab", Y: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: *, X: * }"#, terminal_set!(T { e, Y: "ab", Y: *, X: * }), first_set!(T { e, Y: "ab", Y: *, X: * }), { follow_set!(T { e, Y: "ab", Y: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: "ab", Y: *, Y: "ab" }"#, terminal_set!(T { Y: "ab", Y: *, Y: "ab" }), first_set!(T { Y: "ab", Y: *, Y: "ab" }), { follow_set!(T { Y: "ab", Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: *, Y: "ab" }"#, terminal_set!(T { e, Y: "ab", Y: *, Y: "ab" }), first_set!(T { e, Y: "ab", Y: *, Y: "ab" }), { follow_set!(T { e, Y: "ab", Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: "ab", Y: *, Y: * }"#, terminal_set!(T { Y: "ab", Y: *, Y: * }), first_set!(T { Y: "ab", Y: *, Y: * }), { follow_set!(T { Y: "ab", Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: "ab", Y: *, Y: * }"#, terminal_set!(T { e, Y: "ab", Y: *, Y: * }), first_set!(T { e, Y: "ab", Y: *, Y: * }), { follow_set!(T { e, Y: "ab", Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, X: "a", X: "a" }"#, terminal_set!(T { Y: *, X: "a", X: "a" }), first_set!(T { Y: *, X: "a", X: "a" }), { follow_set!(T { Y: *, X: "a", X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, X: "a", X: "a" }"#, terminal_set!(T { e, Y: *, X: "a", X: "a" }), first_set!(T { e, Y: *, X: "a", X: "a" }), { follow_set!(T { e, Y: *, X: "a", X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, X: "a", X: * }"#, terminal_set!(T { Y: *, X: "a", X: * }), first_set!(T { Y: *, X: "a", X: * }), { follow_set!(T { Y: *, X: "a", X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: "a", X: * }"#, terminal_set!(T { e, Y: *, X: "a", X: * }), first_set!(T { e, Y: *, X: "a", X: * }), { follow_set!(T { e, Y: *, X: "a", X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, X: "a", Y: "ab" }"#, terminal_set!(T { Y: *, X: "a", Y: "ab" }), first_set!(T { Y: *, X: "a", Y: "ab" }), { follow_set!(T { Y: *, X: "a", Y: "ab" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, X: "a", Y: "ab" }"#, terminal_set!(T { e, Y: *, X: "a", Y: "ab" }), first_set!(T { e, Y: *, X: "a", Y: "ab" }), { follow_set!(T { e, Y: *, X: "a", Y: "ab" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, X: "a", Y: * }"#, terminal_set!(T { Y: *, X: "a", Y: * }), first_set!(T { Y: *, X: "a", Y: * }), { follow_set!(T { Y: *, X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, X: "a", Y: * }"#, terminal_set!(T { e, Y: *, X: "a", Y: * }), first_set!(T { e, Y: *, X: "a", Y: * }), { follow_set!(T { e, Y: *, X: "a", Y: * }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, X: *, X: "a" }"#, terminal_set!(T { Y: *, X: *, X: "a" }), first_set!(T { Y: *, X: *, X: "a" }), { follow_set!(T { Y: *, X: *, X: "a" }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: *, X: "a" }"#, terminal_set!(T { e, Y: *, X: *, X: "a" }), first_set!(T { e, Y: *, X: *, X: "a" }), { follow_set!(T { e, Y: *, X: *, X: "a" }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, X: *, X: * }"#, terminal_set!(T { Y: *, X: *, X: * }), first_set!(T { Y: *, X: *, X: * }), { follow_set!(T { Y: *, X: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: *, X: * }"#, terminal_set!(T { e, Y: *, X: *, X: * }), first_set!(T { e, Y: *, X: *, X: * }), { follow_set!(T { e, Y: *, X: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, X: *, Y: "ab" }"#, terminal_set!(T { Y: *, X: *, Y: "ab" }), first_set!(T { Y: *, X: *, Y: "ab" }), { follow_set!(T { Y: *, X: *, Y: "ab" }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: *, Y: "ab" }"#, terminal_set!(T { e, Y: *, X: *, Y: "ab" }), first_set!(T { e, Y: *, X: *, Y: "ab" }), { follow_set!(T { e, Y: *, X: *, Y: "ab" }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, X: *, Y: * }"#, terminal_set!(T { Y: *, X: *, Y: * }), first_set!(T { Y: *, X: *, Y: * }), { follow_set!(T { Y: *, X: *, Y: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, X: *, Y: * }"#, terminal_set!(T { e, Y: *, X: *, Y: * }), first_set!(T { e, Y: *, X: *, Y: * }), { follow_set!(T { e, Y: *, X: *, Y: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, Y: "ab", X: "a" }"#, terminal_set!(T { Y: *, Y: "ab", X: "a" }), first_set!(T { Y: *, Y: "ab", X: "a" }), { follow_set!(T { Y: *, Y: "ab", X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: "ab", X: "a" }"#, terminal_set!(T { e, Y: *, Y: "ab", X: "a" }), first_set!(T { e, Y: *, Y: "ab", X: "a" }), { follow_set!(T { e, Y: *, Y: "ab", X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, Y: "ab", X: * }"#, terminal_set!(T { Y: *, Y: "ab", X: * }), first_set!(T { Y: *, Y: "ab", X: * }), { follow_set!(T { Y: *, Y: "ab", X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: "ab", X: * }"#, terminal_set!(T { e, Y: *, Y: "ab", X: * }), first_set!(T { e, Y: *, Y: "ab", X: * }), { follow_set!(T { e, Y: *, Y: "ab", X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, Y: "ab", Y: "ab" }"#, terminal_set!(T { Y: *, Y: "ab", Y: "ab" }), first_set!(T { Y: *, Y: "ab", Y: "ab" }), { follow_set!(T { Y: *, Y: "ab", Y: "ab" }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: "ab", Y: "ab" }"#, terminal_set!(T { e, Y: *, Y: "ab", Y: "ab" }), first_set!(T { e, Y: *, Y: "ab", Y: "ab" }), { follow_set!(T { e, Y: *, Y: "ab", Y: "ab" }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, Y: "ab", Y: * }"#, terminal_set!(T { Y: *, Y: "ab", Y: * }), first_set!(T { Y: *, Y: "ab", Y: * }), { follow_set!(T { Y: *, Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: "ab", Y: * }"#, terminal_set!(T { e, Y: *, Y: "ab", Y: * }), first_set!(T { e, Y: *, Y: "ab", Y: * }), { follow_set!(T { e, Y: *, Y: "ab", Y: * }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, Y: *, X: "a" }"#, terminal_set!(T { Y: *, Y: *, X: "a" }), first_set!(T { Y: *, Y: *, X: "a" }), { follow_set!(T { Y: *, Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: *, X: "a" }"#, terminal_set!(T { e, Y: *, Y: *, X: "a" }), first_set!(T { e, Y: *, Y: *, X: "a" }), { follow_set!(T { e, Y: *, Y: *, X: "a" }) }, Tm { l: [1, 8, 0], e: true }),
        (r#"T { Y: *, Y: *, X: * }"#, terminal_set!(T { Y: *, Y: *, X: * }), first_set!(T { Y: *, Y: *, X: * }), { follow_set!(T { Y: *, Y: *, X: * }) }, Tm { l: [8, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: *, X: * }"#, terminal_set!(T { e, Y: *, Y: *, X: * }), first_set!(T { e, Y: *, Y: *, X: * }), { follow_set!(T { e, Y: *, Y: *, X: * }) }, Tm { l: [8, 8, 0], e: true }),
        (r#"T { Y: *, Y: *, Y: "ab" }"#, terminal_set!(T { Y: *, Y: *, Y: "ab" }), first_set!(T { Y: *, Y: *, Y: "ab" }), { follow_set!(T { Y: *, Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: *, Y: "ab" }"#, terminal_set!(T { e, Y: *, Y: *, Y: "ab" }), first_set!(T { e, Y: *, Y: *, Y: "ab" }), { follow_set!(T { e, Y: *, Y: *, Y: "ab" }) }, Tm { l: [0, 8, 0], e: true }),
        (r#"T { Y: *, Y: *, Y: * }"#, terminal_set!(T { Y: *, Y: *, Y: * }), first_set!(T { Y: *, Y: *, Y: * }), { follow_set!(T { Y: *, Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: false }),
        (r#"T { e, Y: *, Y: *, Y: * }"#, terminal_set!(T { e, Y: *, Y: *, Y: * }), first_set!(T { e, Y: *, Y: *, Y: * }), { follow_set!(T { e, Y: *, Y: *, Y: * }) }, Tm { l: [0, 8, 0], e: true }),
    ]
}
