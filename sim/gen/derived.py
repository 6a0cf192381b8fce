#!/usr/bin/env python3
"""Writes sim/src/derived_gen.rs: structs with the derived `Request`, over the attributes' combinations.
The output is committed; run this only to change the family."""
import random, os
R = random.Random(20161)
IDENTS = ["a", "b", "foo", "Bar", "_x", "zz", "r#type", "r#match", "value", "tmp", "fmt", "helper", "serializer", "this", "f", "oauth_", "oauth_a",
          "oauth_consumer_keyx", "oauth_nonc", "oauth_tokem", "oauth_versioo", "oauth_version1", "oauth_z", "S", "_S", "bind", "m", "oauth_callbac",
          "oauth_callbackx", "oauth_signature_methoc", "oauth_timestamq", "oauth_verifies", "next_param", "r#fn", "x0", "X", "ser"]
NAMES = ["a", "A", "0", "-", "~", ".", "_", "oauth", "oauth_body_hash", "c2", "oauth_callbac", "a.b-c~d", "oauth_session_handle", "oauti", "zzz",
         "oauth_signature_methodx", "oauth_token_", "oauth_timestam", "oauth-x", "oauth~", "type", "Zeta", "oauth_nonce2", "oauth_verifiez", "9"]
N = 88
PLAIN = {"u64": 1, "bool": 2, "Blankest": 3, "Unit": 4, "String": 5, "&'a str": 5, "Cow<'a, str>": 5, "Box<str>": 5, "Arc<Val>": 0, "char": 6, "&'a dyn Show": 5}
out, specs, mk = [], [], []
for n in range(N):
    k = R.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 11])
    if n in (30, 70): k = 34
    if n == 0: k = 0
    used, fields, generics = set(), [], []
    lifetime = False
    for ident in R.sample(IDENTS, k):
        for _ in range(20):
            rename = R.choice(NAMES) if R.random() < 0.45 else None
            name = rename or ident.replace("r#", "")
            if name not in used: break
        else:
            continue
        used.add(name)
        skip = R.random() < 0.1
        base = R.choices(["Val", "Box<Val>", "&'a Val", "T", "Alias", "shadow::Option<Val>", "macro"], [8, 3, 3, 3, 1, 1, 1])[0]
        if n >= 40 and R.random() < 0.5: base = R.choice(list(PLAIN))
        kind = PLAIN.get(base, 0)
        optk = R.choices(["no", "Option", "alias", "path"], [10, 7, 1, 1])[0]
        if base in ("shadow::Option<Val>", "macro"): optk = "no"
        if base == "macro": base = "macro:" + R.choice(["Val", "Option<Val>"])
        if skip and R.random() < 0.6: base, optk = "Opaque", "no"
        skip_if = fmt = None
        if not skip and base not in ("shadow::Option<Val>",):
            if R.random() < 0.3:
                skip_if = R.choice(["blank", "value", "Blank::blank", "crate::c16::blank", "blank_text" if base in ("String", "&'a str", "Cow<'a, str>", "Box<str>") else "Val::is_blank" if base in ("Val", "Box<Val>", "Alias", "&'a Val", "macro:Val", "macro:Option<Val>", "Arc<Val>") else "blank"])
            if R.random() < 0.3:
                fmt = R.choice(["fx", "tmp", "crate::c16::fx", "Fx::fx", "::core::fmt::Display::fmt", "fx_text" if kind == 5 and base != "&'a dyn Show" else "fx_val" if base in ("Arc<Val>", "Val", "Box<Val>", "Alias", "&'a Val") else "fx"])
        encoded = not skip and R.random() < 0.3
        if base == "T":
            t = "T%d" % len(generics)
            inst = "Val" if n < 40 else R.choice(["Val", "Val", "String", "u64", "Unit", "Blankest"])
            kind = PLAIN.get(inst, 0)
            generics.append((t, skip_if is not None or fmt is not None, inst))
            base = t
        else: inst = base
        if "'a" in base: lifetime = True
        attrs = []
        opt = optk != "no" or base == "macro:Option<Val>"
        if rename: attrs.append('rename = ' + R.choice(['"%s"', '"%s"', '"%s"', 'r"%s"', 'r#"%s"#']) % rename if R.random() < 0.8 else 'rename = "%s"' % "".join(R.choice([c, "\\x%02x" % ord(c), "\\u{%x}" % ord(c)]) for c in rename))
        if encoded: attrs.append("encoded")
        if skip: attrs.append("skip")
        if skip_if: attrs.append("skip_if = " + skip_if)
        if fmt: attrs.append("fmt = " + fmt)
        if optk in ("alias", "path"): attrs.append("option = true")
        elif optk == "Option" and R.random() < 0.2: attrs.append("option = true")
        elif optk == "no" and not opt and R.random() < 0.1: attrs.append("option = false")
        R.shuffle(attrs)
        i = 0
        groups = []
        while i < len(attrs):
            j = R.randint(i + 1, len(attrs))
            groups.append(", ".join(attrs[i:j]) + ("," if R.random() < 0.2 else ""))
            i = j
        bt = base[6:] if base.startswith("macro:") else base
        ty = {"no": "%s", "Option": "Option<%s>", "alias": "Maybe<%s>", "path": "::core::option::Option<%s>"}[optk] % base
        fields.append(dict(ident=ident, name=name, ty=ty, base=base, inst=inst, kind=kind, opt=opt, optk=optk, skip=skip, skip_if=bool(skip_if), fmt=bool(fmt) and "Display" not in fmt, enc=encoded, groups=groups))
    macro = any(f["base"].startswith("macro:") for f in fields)
    gl = (["'a"] if lifetime else []) + [g for g, _, _ in generics]
    const = n % 8 == 3
    bound = lambda g: g if R.random() < 0.6 or not n % 2 else g + ": Clone" if R.random() < 0.5 else g + ": 'static" if g != "'a" else g
    decl = [bound(g) if g != "'a" else g for g in gl] + (["const N: usize"] if const else [])
    if decl and not const and n % 5 == 1 and not decl[-1].startswith("'"): decl[-1] += " = Val"
    gdecl = "<%s>" % ", ".join(decl) if decl else ""
    where = [g + ": Blank" for g, w, _ in generics if w]
    lines = []
    conf = "#[oauth1(crate = oauth)]\n" if R.random() < 0.15 else ""
    margs = []
    for f in fields:
        if R.random() < 0.1: lines.append("    /// A field.")
        for g in f["groups"]: lines.append(R.choices(["    #[oauth1(%s)]", "    #[cfg_attr(all(), oauth1(%s))]"], [9, 1])[0] % g)
        if R.random() < 0.05: lines.append("    #[allow(dead_code)]")
        if not f["groups"] and R.random() < 0.05: lines.append("    #[oauth1()]")
        ty = f["ty"]
        if f["base"].startswith("macro:"):
            margs.append(ty[6:]); ty = "$t%d" % (len(margs) - 1)
        vis = R.choice(["", "pub ", "pub(crate) "])
        lines.append("    %s%s: %s," % (vis, f["ident"], ty))
    if const: lines.insert(R.randint(0, len(lines)) if not any(l.lstrip().startswith("#") or l.lstrip().startswith("///") for l in lines) else len(lines), "    #[oauth1(skip)]\n    n: [(); N],")
    body = "#[derive(oauth::Request, Clone)]\n%spub struct G%d%s%s {\n%s\n}" % (conf, n, gdecl, (" where " + ", ".join(where)) if where else "", "\n".join(lines))
    if macro:
        out.append("macro_rules! m%d { (%s) => {\n%s\n}; }\nm%d!(%s);" % (n, ", ".join("$t%d:ty" % i for i in range(len(margs))), body, n, ", ".join(margs)))
    else:
        out.append(body)
    inst = "G%d%s" % (n, "<%s>" % ", ".join((["'static"] if lifetime else []) + [i for _, _, i in generics] + (["3"] if const else [])) if gl or const else "")
    specs.append("    &[" + ", ".join('Spec { name: "%s", opt: %s, enc: %s, fmt: %s, skip: %s, skip_if: %s, kind: %d }' % (f["name"], *(str(f[x]).lower() for x in ("opt", "enc", "fmt", "skip", "skip_if")), f["kind"]) for f in fields) + "],")
    inits = []
    for f in fields:
        b = f["inst"].replace("macro:Option<Val>", "Val").replace("macro:", "")
        conv = {"Val": "%s", "Alias": "%s", "Box<Val>": "Box::new(%s)", "&'a Val": "&*Box::leak(Box::new(%s))", "shadow::Option<Val>": "shadow::Option(%s)",
                "u64": "%s.text.parse().unwrap()", "bool": "%s.text.parse().unwrap()", "Blankest": "{ let _ = %s; Blankest }", "Unit": "{ let _ = %s; Unit }",
                "String": "%s.text", "&'a str": "leak(%s)", "Cow<'a, str>": "cow(%s)", "Box<str>": "%s.text.into_boxed_str()", "Arc<Val>": "Arc::new(%s)",
                "char": "%s.text.parse().unwrap()", "&'a dyn Show": "leak_show(%s)"}.get(b, "%s")
        if b == "Opaque":
            inits.append("%s: { let _ = v(); Opaque }" % f["ident"]); continue
        if f["opt"]: inits.append("%s: v().map(|v| %s)" % (f["ident"], conv % "v"))
        else: inits.append("%s: %s" % (f["ident"], conv % "v().unwrap()"))
    if const: inits.append("n: [(); 3]")
    mk.append((n, inst, inits))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../sim/src/derived_gen.rs"), "w") as f:
    w = f.write
    w("// Written by sim/gen/derived.py.\n#![allow(dead_code, non_snake_case, unused_variables, unused_mut)]\n")
    w("use std::borrow::Cow;\nuse std::sync::Arc;\n\nuse crate::c16::{blank, blank_text, cow, fx, fx_text, fx_val, leak, leak_show, shadow, Alias, Blank, Blankest, Fx, Maybe, Opaque, Show, Spec, Unit};\nuse crate::harness::Val;\n\nuse crate::c16::{blank as value, fx as tmp};\n\n")
    w("\n\n".join(out) + "\n\n")
    w("pub const SPECS: &[&[Spec]] = &[\n" + "\n".join(specs) + "\n];\n\n#[derive(Clone)]\npub enum Gen {\n" + "".join("    G%d(%s),\n" % (n, i) for n, i, _ in mk) + "}\n\n")
    w("pub fn make(i: usize, mut v: impl FnMut() -> Option<Val>) -> Gen {\n    match i {\n" + "".join("        %d => Gen::G%d(G%d { %s }),\n" % (n, n, n, ", ".join(ini)) for n, _, ini in mk) + "        _ => unreachable!(),\n    }\n}\n\n")
    w("impl oauth::Request for Gen {\n    fn serialize<Z: oauth::serializer::Serializer>(&self, s: Z) -> Z::Output {\n        match self {\n" + "".join("            Gen::G%d(g) => g.serialize(s),\n" % n for n, _, _ in mk) + "        }\n    }\n}\n")
