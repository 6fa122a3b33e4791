#!/usr/bin/env python3
"""Generates random define_varlen structs together with their reference semantics (impl Spec).

usage: genstructs.py ROOT SEED COUNT OUT [first-name]   ROOT: crate | vh
"""
import random, sys

ROOT, SEED, COUNT, OUT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
FIRST = sys.argv[5] if len(sys.argv) > 5 else None
R = random.Random(SEED * 7919 + 13)
# How things are written, not what they mean.
W = random.Random(SEED * 104729 + 7)

ADJ = "Quick Lazy Brown Calm Dark Eager Fancy Grim Happy Icy Jolly Kind Loud Mild Neat Odd Proud Quiet Rich Shy Tall Ugly Vast Warm Young Zesty".split()
NOUN = "bird Cat dog Eel fox Goat hen Ibis jay Koala lynx Mole newt Otter pig Quail rat Seal toad Urchin vole Wolf yak Zebra ant Bee".split()
KEYNAMES = "Type Match Loop Move Struct Where Fn Impl Mod Use In Ref Static Yield Try Async Dyn Enum Trait Unsafe Virtual Final Abstract Become Macro Override Priv Typeof Unsized Do Await Gen".split()
ODDNAMES = "HTTPServer Vec2D A B2b X1Y2 Init Refs Muts Lengths VarLenLayout LayoutControllers2 Str2 Array3 Box2 Layout2 Value MyInit SeqLike".split()
# Names that could collide once something is added to them or their case is changed.
FAMILIES = [
    ["{0}", "{0}_layout", "{0}_len"], ["{0}", "init_{0}", "init{0}"], ["{0}_1", "{0}1", "{0}__1"], ["{0}", "{0}_", "_{0}"], ["{0}", "{0}_mut", "{0}_ref"], ["{0}", "{0}x", "{0}_x"],
    ["size", "layout", "layout_size"], ["this", "self_", "slf"], ["init", "init_init", "init_init_x"], ["lengths", "lengths_before", "lengths_after"], ["p", "dst", "src"],
    ["r#type", "r#match", "r#move"], ["r#type", "type_", "init_type"], ["refs", "muts", "vdrop"], ["align", "needs_vdrop", "calculate_layout"], ["offset", "{0}_offset", "offset_{0}"],
    ["ptr", "{0}_ptr", "ptr_{0}"], ["a", "b", "c"], ["t", "u", "f"], ["varlen", "varlen_layout", "core"], ["__size", "__p", "__init"], ["std", "alloc", "crate_"], ["usize_", "u8_", "some"],
]
WORDS = ("alpha beta gamma delta eps zeta eta theta iota kappa lambda mu nu xi omi pi rho sigma tau ups phi chi psi omega "
         "size layout len lengths p dst refs muts init this mut_ref mut_ptr self_mut lengths_before layout_controllers offset array data "
         "alpha_len alpha_layout beta_len gamma_layout r#type r#loop r#fn a1 a_1 aA x y z count name drop_it vdrop").split()

ELEMS_FIX = ["u8","u16","u32","u64","u128","()","bool","char","[u8; 3]","[u32; 5]","A16","A64","Tok","TokS","TokH","ZTok","Owning","NoCopy","Mark","Plain","P9","Option<std::num::NonZeroU16>","ZA8","fn(u32) -> u32","Lt<'static>"]
ELEMS_ARR = ["u8","u8","u16","u32","u64","u128","()","bool","char","[u8; 3]","[u32; 5]","A16","A64","Tok","TokS","TokH","TokA","ZTok","Owning","NoCopy","Mark","Plain","P9","i16","fn(u32) -> u32"]
VARLENS = ["Str","Str<u8>","Str<u16>","Array<u8, u8>","Array<Tok, u16>","Array<u64>","Array<ZTok, u8>","FixedLen<u8>","FixedLen<Tok>","FixedLen<A64>","FixedLen<()>",
           "Tup2<FixedLen<u16>, Str>","Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>>","Array<u16, u32>","Array<TokA, u8>","Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>>"]
CTL = ["u8","u16","u32","usize","usize","u8","bool","[u8; 2]","Pair","Kind","TokLen","TokLen","Option<u8>","u64"]

def lenexpr(c, ty):
    """(rust, reference over u64 `c`) for one controller; c is the rust identifier."""
    v = f"c_{c.replace('r#','')}"
    if ty == "bool":
        k = R.choice([1, 3, 8])
        return R.choice([(f"if *{c} {{ {k} }} else {{ 0 }}", f"(if {v} != 0 {{ {k} }} else {{ 0 }})"), (f"*{c} as usize", v), (f"if *{c} {{ 1 }} else {{ {k+1} }}", f"(if {v} != 0 {{ 1 }} else {{ {k+1} }})")])
    if ty == "[u8; 2]":
        return R.choice([(f"{c}[0] as usize", f"({v} & 255)"), (f"{c}[1] as usize", f"({v} >> 8)"), (f"{c}[0] as usize + {c}[1] as usize", f"(({v} & 255) + ({v} >> 8))")])
    if ty == "Pair":
        return R.choice([(f"{c}.sum()", f"(({v} & 255) + ({v} >> 8))"), (f"{c}.a as usize", f"({v} & 255)"), (f"({c}.b as usize) / 2", f"(({v} >> 8) / 2)")])
    if ty == "Kind":
        cnt = f"(match {v} {{ 0 => 0u64, 1 => 1, _ => 7 }})"
        return R.choice([(f"{c}.count()", cnt), (f"match {c} {{ Kind::None => 2, Kind::One => 0, Kind::Many => 5 }}", f"(match {v} {{ 0 => 2u64, 1 => 0, _ => 5 }})")])
    if ty == "TokLen":
        return R.choice([(f"{c}.n()", f"({v} & 0xffff)"), (f"{c}.n as usize * 2", f"(({v} & 0xffff) * 2)")])
    if ty == "Option<u8>":
        return R.choice([(f"match {c} {{ Some(x) => *x as usize, None => 0 }}", f"(if {v} & 0x100 != 0 {{ {v} & 255 }} else {{ 0 }})"),
                         (f"if {c}.is_some() {{ 3 }} else {{ 1 }}", f"(if {v} & 0x100 != 0 {{ 3 }} else {{ 1 }})")])
    base = f"*{c}" if ty == "usize" else f"*{c} as usize"
    k = R.choice([2, 3, 4])
    return R.choice([
        (base, v), (base, v), (base, v),
        (f"({base}) * {k}", f"({v} * {k})"),
        (f"({base}) / {k}", f"({v} / {k})"),
        (f"({base}).saturating_sub({k})", f"{v}.saturating_sub({k})"),
        (f"({base}) & 7", f"({v} & 7)"),
        (f"({base} + {k}) / {k} * {k}", f"(({v} + {k}) / {k} * {k})"),
        (f"double_plus({base}, {k})", f"({v} * 2 + {k})"),
        (f"{{ let t = {base}; if t > 10 {{ t - 10 }} else {{ t + 1 }} }}", f"(if {v} > 10 {{ {v} - 10 }} else {{ {v} + 1 }})"),
    ])

def block_first(e):
    """The same length, perhaps as an expression that starts with a block."""
    if W.random() < 0.7: return e
    return W.choice(["{ %s } + 0", "match () { () => %s } * 1", "loop { break %s } | 0", "if SOME_LEN > 2 { %s } else { 77 } - 0", "unsafe { %s }.wrapping_add(0)", "match %s { x => [x] }[0]",
                     "'a: { break 'a %s } + SOME_LEN - 3", "if SOME_LEN < 2 { 5 } else { %s } & !0", "same_expr!(%s)", "(%s)"]) % e

def same(ty, p):
    """The same type, perhaps written as a macro invocation."""
    if W.random() >= p: return ty
    return W.choice(["same_ty!(%s)", "same_ty!(%s)", "same_ty! { %s }", "same_ty!(same_ty![%s])", "(%s)"]) % ty

names = set()
def fresh_name():
    while True:
        n = R.choice(ADJ) + R.choice(NOUN)
        if R.random() < 0.3:
            n += R.choice(["Box", "Node", "Data"])
        if n not in names:
            names.add(n)
            return n
def snake(n):
    """The module name, with the word boundaries of convert_case."""
    def kind(c): return "d" if c.isdigit() else "u" if c.isupper() else "l" if c.islower() else "_"
    w = [""]
    for i, c in enumerate(n):
        k = kind(c); pk = kind(n[i-1]) if i else None; nk = kind(n[i+1]) if i + 1 < len(n) else None
        if k == "_":
            w.append(""); continue
        if i and (pk + k in ("lu", "ud", "du", "ld", "dl") or (pk == "u" and k == "u" and nk == "l")):
            w.append("")
        w[-1] += c.lower()
    o = "_".join(x for x in w if x)
    return "r#" + o if o in [k.lower() for k in KEYNAMES] else o

out = []
reg = []
made = []   # monomorphic struct types usable as nested fields

class F: pass

def gen_struct(idx):
    name = FIRST if (idx == 0 and FIRST) else None
    if name is None and idx % 3 == 2:
        # Names whose module names are keywords, and odd ones, in turn.
        pool = KEYNAMES if idx % 6 == 2 else ODDNAMES
        name = pool[(idx // 6 + SEED * 3) % len(pool)]
        if name in names: name = None
    name = name or fresh_name()
    names.add(name)
    mod = snake(name)
    generics = []      # (decl, apply)
    inst = []
    where = ""
    fix_pool = list(ELEMS_FIX); arr_pool = list(ELEMS_ARR); var_pool = list(VARLENS) + made[-6:] * 2
    gkind = R.random()
    gen_decl = gen_apply = ""
    defaults = {}
    const_n = None
    bounds_where = []
    if idx > 2 and idx % 4 != 3 and gkind < 0.35:
        d = []; a = []; i = []
        if R.random() < 0.7:
            if R.random() < 0.5:
                d.append("GA: Elem")
            else:
                d.append("GA"); bounds_where.append("GA: Elem")
            a.append("GA"); i.append(R.choice(["u8", "Tok", "A16", "ZTok", "u64"]))
            arr_pool += ["GA"] * 12
            if R.random() < 0.7: fix_pool += ["GA"] * 10
        if R.random() < 0.6 or not d:
            if R.random() < 0.5:
                d.append("GV: Spec")
            else:
                d.append("GV"); bounds_where.append("GV: Spec")
            a.append("GV"); i.append(R.choice(["Str", "Array<Tok, u8>", "FixedLen<TokH>"]))
            var_pool += ["GV"] * 14
        if R.random() < 0.4:
            d.append("const GN: usize"); a.append("GN"); i.append(str(R.choice([0, 1, 3])))
            const_n = "GN"
        gen_decl = "<" + ", ".join(d) + ">"; gen_apply = "<" + ", ".join(a) + ">"; inst = i
        # Defaults, for all parameters from some one on.
        if idx % 2 == 0:
            k = R.randrange(len(d))
            defaults = {x: {"GA": R.choice(["usize", "Tok"]), "GV": "Str<u8>", "GN": "2"}[y] for x, y in list(zip(d, a))[k:]}
    life = None
    if idx > 2 and R.random() < 0.25:
        life = R.choice(["'a", "'b", "'de", "'varlen"])
        fix_pool += ["Lt<%s>" % life] * 4
        inner = gen_decl[1:-1]
        gen_decl = "<" + life + (", " + inner if inner else "") + ">"
        gen_apply = "<" + life + (", " + gen_apply[1:-1] if gen_apply else "") + ">"
        inst = ["'static"] + inst
    if bounds_where:
        where = " where " + ", ".join(bounds_where)
    # fields
    words = R.sample(WORDS, 14)
    fam = []
    if idx % 5 < 3:
        base = R.choice(["alpha", "k", "size", "val"])
        fam = [x.format(base) for x in FAMILIES[0 if idx % 10 == 2 else (idx * 3 // 5 + SEED * 8) % len(FAMILIES)]]
        words = [w for w in words if w not in fam]
        if fam[-1] != base + "_len": R.shuffle(fam)
        else: fam = fam[::-1]
        words = words + fam
    # Names that are the same in camel case, on variable-length fields, with others between them.
    clash = idx % 10 == 4
    if clash:
        base = R.choice(["alpha", "k", "size", "val"])
        fam = [x.format(base) for x in R.choice([["{0}_1", "{0}1", "{0}__1"], ["{0}_b", "{0}B", "{0}__b"], ["{0}", "{0}_", "_{0}"], ["r#type", "type_", "_type"], ["{0}_mut_x", "{0}_mutX", "{0}MutX"]])]
        words = [w for w in words if w not in fam and w != "r#type"]
    nctl = R.choice([0, 1, 1, 1, 2, 2, 3])
    nfix = R.choice([0, 0, 1, 1, 2, 3])
    narr = R.choice([1, 1, 2, 3]) if nctl else R.choice([0, 0, 1])
    nvar = R.choice([0, 1, 1, 2, 3])
    if narr + nvar == 0:
        nvar = 1
    kinds = ["ctl"] * nctl + ["fix"] * nfix + ["arr"] * narr + ["var"] * nvar
    if fam and any(x.endswith("_layout") for x in fam):
        while narr + nvar < 2: kinds.append("var"); nvar += 1
    if clash:
        while narr + nvar < 4: kinds.append("var"); nvar += 1
    R.shuffle(kinds)
    fs = []
    # Every fourth struct has two controlling fields of which the first drops something when it is replaced.
    force = ["TokLen", R.choice(["TokLen", "TokLen", "u16"])] if idx % 4 == 1 else []
    if force:
        while kinds.count("ctl") < 2: kinds.insert(R.randrange(len(kinds) + 1), "ctl")
        if "arr" not in kinds: kinds.append("arr")
    prefer = [k for k in kinds if k in ("arr", "var")] if idx % 2 == 0 else []
    own = {}
    if clash:
        # Two of them, something else, the third.
        spots = [i for i, k in enumerate(kinds) if k in ("arr", "var")]
        for i, x in zip([spots[0], spots[1], spots[3]] if R.random() < 0.5 else [spots[0], spots[2], spots[3]], fam): own[i] = x
        prefer = []
    for i, k in enumerate(kinds):
        if k in prefer and fam and len(own) < len(fam): own[i] = words.pop()
    for i, k in enumerate(kinds):
        f = F(); f.k = k; f.n = own[i] if i in own else words.pop(); fs.append(f)
        if k == "ctl": f.ty = force.pop(0) if force else R.choice(CTL)
        if k == "fix": f.ty = R.choice(fix_pool)
        if k == "var": f.ty = R.choice(var_pool)
        if k == "arr": f.ty = R.choice(arr_pool)
    # Every fourth struct drops only what is in one of its fields (a FixedLen always counts as dropping).
    if idx % 4 == 3:
        only = R.choice([f for f in fs if f.k in (["arr"] if idx % 8 == 3 and "arr" in kinds else ["arr", "fix", "var", "ctl"])])
        drops = R.choice(["ZTok", "ZTok", "Tok", "TokS", "TokA", "Owning"])
        for f in fs:
            if f.k == "ctl": f.ty = "TokLen" if f is only else R.choice([t for t in CTL if t != "TokLen"])
            if f.k in ("fix", "arr"): f.ty = drops if f is only else R.choice(["u8", "u16", "u64", "()", "A16", "[u8; 3]", "char"])
            if f.k == "var": f.ty = R.choice(["Array<%s, u8>", "FixedLen<%s>", "Tup2<Str<u8>, Array<%s, u16>>"]) % drops if f is only else R.choice(["Str", "Str<u8>", "Array<u64>", "Array<A64, u8>", "Array<()>"])
    # The number of generics that is really used must be all of them.
    need = []
    if gen_apply:
        if "GA" in gen_apply and not any(f.ty == "GA" for f in fs): need.append(("fix", "GA"))
        if "GV" in gen_apply and not any(f.ty == "GV" for f in fs): need.append(("var", "GV"))
        for k, t in need:
            f = F(); f.k = k; f.n = words.pop(); f.ty = t; fs.append(f)
        if const_n:
            if not any(f.k == "ctl" for f in fs):
                f = F(); f.k = "ctl"; f.n = words.pop(); f.ty = "u8"; fs.insert(0, f)
            f = F(); f.k = "arr"; f.n = words.pop(); f.ty = R.choice(ELEMS_ARR); f.constn = True; fs.append(f)
            f = F(); f.k = "var"; f.n = words.pop(); f.ty = "FixedLen<CN<GN>>"; f.cn = True; fs.append(f)
    if life and not any(life in f.ty for f in fs):
        f = F(); f.k = R.choice(["fix", "var"]); f.n = words.pop(); f.ty = "Lt<%s>" % life if f.k == "fix" else "Array<Lt<%s>, u8>" % life; fs.append(f)
    ctls = [f for f in fs if f.k == "ctl"]
    huge = None
    for f in fs:
        if f.k != "arr": continue
        if ctls:
            c = R.choice(ctls)
            e, r = lenexpr(c.n, c.ty)
            if R.random() < 0.25 and len(ctls) > 1:
                c2 = R.choice(ctls)
                e2, r2 = lenexpr(c2.n, c2.ty)
                op = R.random()
                if op < 0.5: e, r = f"({e}) + ({e2})", f"({r} + {r2})"
                else: e, r = f"maximum({e}, {e2})", f"({r}).max({r2})"
            elif R.random() < 0.08:
                e, r = R.choice([("5", "5u64"), ("SOME_LEN", "3u64")])
            if getattr(f, "constn", False):
                e, r = f"({e}) + GN", f"({r} + GN as u64)"
            f.len, f.rlen = e, r
            if c.ty == "usize" and e == f"*{c.n}" and huge is None and f.ty not in ("()", "ZTok", "GA"):
                huge = (f, c)
        else:
            f.len, f.rlen = R.choice([("5", "5u64"), ("SOME_LEN", "3u64"), ("0", "0u64")])
    # text
    repr_ = R.choice([None, None, None, "#[repr(C)]", "#[repr(C)]", "#[repr(align(32))]", "#[repr(C, align(8))]"])
    o = []
    # Every fourth definition lies in a module of its own and is used from outside.
    apart = idx % 4 == 2
    if apart: o.append(f"mod apart{idx} {{\n    use super::*;")
    o.append("#[define_varlen]")
    if R.random() < 0.4: o.append("/// A generated struct.")
    if repr_: o.append(repr_)
    vis = R.choice(["pub ", "pub ", "pub(crate) ", "pub(super) ", ""]) if idx else "pub "
    if apart: vis = R.choice(["pub(super) ", "pub(super) ", "pub(super) ", "pub(crate) ", "pub "])
    sdecl = gen_decl
    for x, y in defaults.items(): sdecl = sdecl.replace(x, f"{x} = {y}", 1)
    o.append(f"{vis}struct {name}{sdecl}{where} {{")
    macros = W.choice([0, 0, 0, 0.5, 1])
    for f in fs:
        if R.random() < 0.2: o.append("    /// A field.")
        if f.k == "ctl": o.append("    #[controls_layout]")
        if f.k == "arr": o.append("    #[varlen_array]")
        if f.k == "var": o.append("    #[varlen]")
        if R.random() < 0.15: o.append("    /// Its documentation.")
        fv = R.choice(["pub ", "pub(crate) ", "", "", "pub(self) ", "pub(super) "])
        if apart: fv = R.choice(["pub(super) ", "pub(super) ", "pub(crate) ", "pub "])
        wty = same(f.ty, macros)
        t = wty if f.k != "arr" else f"[{wty}; {block_first(f.len)}]"
        o.append(f"    {fv}{f.n}: {t},")
    o.append("}")
    if apart: o.append(f"}}\nuse apart{idx}::{{{name}, {mod}}};")
    # mirror of the header
    hdr = [f for f in fs if f.k in ("ctl", "fix")]
    hdr_gen = [("GA", "GA")] if any(f.ty == "GA" for f in hdr) else []
    mdecl = "<GA>" if hdr_gen else ""
    o.append("#[allow(dead_code)]")
    if repr_: o.append(repr_)
    mlife = "<'static>"
    o.append(f"struct Mirror{name}{mdecl}({', '.join(f.ty.replace('<' + life + '>', mlife) if life else f.ty for f in hdr)});")
    if life:
        for f in fs: f.ty = f.ty.replace(life + ">", "'static>")
        gen_apply = gen_apply.replace(life, "'static", 1)
        rest = gen_decl[1 + len(life):].lstrip(", ")
        gen_decl = "<" + rest if rest != ">" else ""
    T = name + gen_apply
    MT = f"Mirror{name}{mdecl}"
    fi = {f: i for i, f in enumerate(fs)}
    def vn(f): return f.n.replace("r#", "")
    cargs = ", ".join(f"c_{vn(f)}: u64" for f in ctls)
    arrs = [f for f in fs if f.k == "arr"]
    gi = gen_decl
    o.append(f"impl{gi} {T}{where} {{")
    o.append(f"    #[allow(unused_variables, clippy::all)]")
    o.append(f"    fn ref_lens({cargs}) -> [u64; {len(arrs)}] {{ [{', '.join(f.rlen for f in arrs)}] }}")
    o.append(f"    fn lens_of(v: &[Val]) -> [u64; {len(arrs)}] {{ let _ = v; Self::ref_lens({', '.join(f'v[{fi[f]}].e()' for f in ctls)}) }}")
    o.append("}")
    o.append(f"impl{gi} Spec for {T}{where} {{")
    als = [f"align_of::<{MT}>()"]
    for f in fs:
        if f.k == "arr": als.append(f"align_of::<{f.ty}>()")
        if f.k == "var": als.append(f"<{f.ty} as Spec>::RALIGN")
    o.append(f"    const RALIGN: usize = max_of(&[{', '.join(als)}]);")
    dr = []
    for f in fs:
        dr.append(f"<{f.ty} as Spec>::RDROP" if f.k == "var" else f"std::mem::needs_drop::<{f.ty}>()")
    o.append(f"    const RDROP: bool = {' || '.join(dr)};")
    if ctls: o.append("    const HAS_CTL: bool = true;")
    o.append(f"    fn name() -> String {{ \"{name}\".to_string() }}")
    # gen
    o.append(f"    fn gen(g: &mut {ROOT}::spec::Gen) -> Val {{")
    o.append("        let mut budget = 600u64; let _ = &mut budget;")
    for f in ctls:
        o.append(f"        let c_{vn(f)} = ctl_gen::<{f.ty}>(g, {1 if f.ty in ('u8','u16','u32','u64','usize') else 0});")
    if arrs:
        o.append(f"        let lens = Self::ref_lens({', '.join('c_'+vn(f) for f in ctls)});")
    ai = 0
    parts = []
    for f in fs:
        if f.k == "ctl": parts.append(f"Val::E(c_{vn(f)})")
        elif f.k == "fix": parts.append(f"Val::E(<{f.ty} as Elem>::norm(g.u64()))")
        elif f.k == "var": parts.append(f"<{f.ty} as Spec>::gen(g)")
        else:
            f.ai = ai
            parts.append(f"Val::A(gen_arr::<{f.ty}>(lens[{ai}] as usize, g))"); ai += 1
    o.append(f"        Val::T(vec![{', '.join(parts)}])")
    o.append("    }")
    # place
    o.append("    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {")
    o.append("        let t = v.t(); let _ = t;")
    o.append("        *at = up(*at, Self::RALIGN);")
    o.append(f"        lv.push((*at, size_of::<{MT}>()));")
    o.append(f"        *at += size_of::<{MT}>();")
    for f in fs:
        if f.k == "var": o.append(f"        <{f.ty} as Spec>::place(&t[{fi[f]}], at, lv);")
        if f.k == "arr": o.append(f"        place_arr::<{f.ty}>(t[{fi[f]}].a().len(), at, lv);")
    o.append("    }")
    # init
    o.append(f"    fn init(v: &Val, g: &mut {ROOT}::spec::Gen) -> {ROOT}::spec::Dyn<'static, Self> {{")
    o.append("        let t = v.t(); let _ = (&t, &g);")
    o.append(f"        dyn_of({mod}::Init {{")
    order = list(fs)
    if R.random() < 0.3: R.shuffle(order)
    for f in order:
        i = fi[f]
        if f.k in ("ctl", "fix"): o.append(f"            {f.n}: <{f.ty} as Elem>::mk(t[{i}].e()),")
        if f.k == "var": o.append(f"            {f.n}: make::<{f.ty}>(&t[{i}], g),")
        if f.k == "arr": o.append(f"            {f.n}: arr_init::<{f.ty}>(t[{i}].a(), g),")
    o.append("        })")
    o.append("    }")
    # read
    o.append("    fn read(&self, o: &mut Obs) -> Val {")
    o.append("        let r = self.refs();")
    o.append("        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));")
    parts = []
    for f in fs:
        if f.k in ("ctl", "fix"):
            o.append(f"        same_fixed(Self::name, self, &self.{f.n}, r.{f.n});")
            parts.append(f"Val::E(r.{f.n}.get())")
        elif f.k == "var": parts.append(f"r.{f.n}.read(o)")
        else: parts.append(f"read_arr(r.{f.n}, o)")
    o.append(f"        let v = vec![{', '.join(parts)}];")
    if arrs:
        o.append("        let lens = Self::lens_of(&v);")
        for f in arrs:
            o.append(f"        arr_len_is(Self::name, \"{f.n}\", v[{fi[f]}].a().len(), lens[{f.ai}]);")
    o.append("        Val::T(v)")
    o.append("    }")
    # mutate
    o.append(f"    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut {ROOT}::spec::Gen) {{")
    o.append("        let whole = extent(self.as_ref().get_ref());")
    sh = []; mu = []
    for f in fs:
        if f.k in ("ctl", "fix"): s = f"ext(r.{f.n})"; m = f"ext(&*m.{f.n})"
        elif f.k == "var": s = f"extent(r.{f.n})"; m = f"extent(m.{f.n}.as_ref().get_ref())"
        else: s = f"ext_arr(r.{f.n})"; m = f"ext_arr(&*m.{f.n})"
        sh.append(s); mu.append(m)
    o.append(f"        let shared = {{ let r = self.refs(); let _ = &r; vec![{', '.join(sh)}] }};")
    o.append("        #[allow(unused_mut)] let mut m = self.as_mut().muts();")
    o.append(f"        let parts: Vec<(usize, usize)> = vec![{', '.join(mu)}];")
    o.append("        check_parts(&Self::name(), whole, &parts, &shared);")
    o.append("        let t = v.tm();")
    o.append(f"        let mask = g.r.range(1, {(1<<len(fs))-1}); let _ = (&t, mask, &mut m);")
    for f in fs:
        i = fi[f]
        if f.k == "fix": o.append(f"        if mask & {1<<i} != 0 {{ set_fixed::<{f.ty}>(m.{f.n}, &mut t[{i}], g); }}")
        if f.k == "var": o.append(f"        if mask & {1<<i} != 0 {{ <{f.ty} as Spec>::mutate(m.{f.n}.as_mut(), &mut t[{i}], g); }}")
        if f.k == "arr": o.append(f"        if mask & {1<<i} != 0 {{ mutate_arr_field::<{f.ty}>(m.{f.n}, &mut t[{i}], g); }}")
    o.append("    }")
    # toks
    tk = []
    for f in fs:
        i = fi[f]
        if f.k in ("ctl", "fix"): tk.append(f"<{f.ty} as Elem>::TOKS")
        elif f.k == "var": tk.append(f"<{f.ty} as Spec>::toks(&t[{i}])")
        else: tk.append(f"<{f.ty} as Elem>::TOKS * t[{i}].a().len()")
    for what in ("toks", "events"):
        o.append(f"    fn {what}(v: &Val) -> usize {{ let t = v.t(); let _ = t; {' + '.join(tk).replace('TOKS', what.upper()).replace('::toks(', '::' + what + '(')} }}")
    # ctl
    if ctls:
        o.append(f"    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut {ROOT}::spec::Gen) -> Ctl {{")
        o.append("        let t = v.tm();")
        o.append("        let old = Self::lens_of(t);")
        o.append("        let cur = [" + ", ".join(f"t[{fi[f]}].e()" for f in ctls) + "];")
        o.append("        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {")
        for i, f in enumerate(ctls):
            o.append(f"            {i} => ctl_near::<{f.ty}>(g, c),")
        o.append("            _ => c,")
        o.append("        }, &|c| Self::ref_lens(" + ", ".join(f"c[{i}]" for i in range(len(ctls))) + ") == old);")
        o.append("        let want = Self::ref_lens(" + ", ".join(f"cand[{i}]" for i in range(len(ctls))) + ") == old;")
        o.append(f"        let lc = {mod}::LayoutControllers {{")
        for i, f in enumerate(ctls):
            o.append(f"            {f.n}: <{f.ty} as Elem>::mk(cand[{i}]),")
        o.append("        };")
        o.append("        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());")
        o.append("        let ok = r.unwrap_or(want);")
        o.append("        if ok {")
        for i, f in enumerate(ctls):
            o.append(f"            t[{fi[f]}] = Val::E(cand[{i}]);")
        o.append("        }")
        o.append("        Ctl::Done { ok, want }")
        o.append("    }")
    if huge:
        hf, hc = huge
        o.append(f"    fn huge(g: &mut {ROOT}::spec::Gen) -> Option<{ROOT}::spec::Dyn<'static, Self>> {{")
        o.append("        let v = Self::gen(g); let t = v.t();")
        o.append(f"        let n = huge_len(size_of::<{hf.ty}>(), g)?;")
        o.append(f"        Some(dyn_of({mod}::Init {{")
        for f in fs:
            i = fi[f]
            if f is hc: o.append(f"            {f.n}: n,")
            elif f.k in ("ctl", "fix"): o.append(f"            {f.n}: <{f.ty} as Elem>::mk(t[{i}].e()),")
            elif f.k == "var": o.append(f"            {f.n}: make::<{f.ty}>(&t[{i}], g),")
            else: o.append(f"            {f.n}: never::<{f.ty}>(),")
        o.append("        }).kind(\"huge\"))")
        o.append("    }")
    o.append("}")
    out.append("\n".join(o))
    full = name + ("<" + ", ".join(inst) + ">" if inst else "")
    reg.append(full)
    # Inside its generated module a struct's field types cannot have the names of the items generated there.
    if name not in ("Init", "Refs", "Muts", "VarLenLayout", "LayoutControllers", "Lengths"):
        made.append(full)

for i in range(COUNT):
    gen_struct(i)

hdr = f"""//! Generated by tools/genstructs.py {ROOT} {SEED} {COUNT}{" " + FIRST if FIRST else ""}: structs and their reference semantics.
#![allow(dead_code, unused_imports, unused_variables, non_snake_case, clippy::all)]
use {ROOT}::elem::*;
use {ROOT}::objs::{{ops, TypeOps}};
use {ROOT}::spec::*;
use {ROOT}::structaid::*;
use {ROOT}::tok::*;
use std::mem::{{align_of, size_of}};
use std::pin::Pin;
use varlen::array::Array;
use varlen::prelude::*;
use varlen::str::Str;

macro_rules! same_ty {{ ($t:ty) => {{ $t }} }}
macro_rules! same_expr {{ ($e:expr) => {{ $e }} }}
pub const SOME_LEN: usize = 3;
pub const fn double_plus(a: usize, b: usize) -> usize {{ a * 2 + b }}
pub const fn maximum(a: usize, b: usize) -> usize {{ if a > b {{ a }} else {{ b }} }}

"""
txt = hdr + "\n\n".join(out) + "\n\npub fn types() -> Vec<TypeOps> {\n    vec![\n" + "".join(f"        ops::<{r}>(None, &[\"macro\"]),\n" for r in reg) + "    ]\n}\n"
open(OUT, "w").write(txt)
