"""Unusual but well-formed struct definitions (C18), each with a program that uses it and checks what it finds.

The generated structs (genstructs.py) vary the shape and the contents of definitions; these vary the way in which they
are written: generics, bounds, types and length expressions of every syntactic form.
"""
from catalog import HEAD

O = {}


def odd(name, items, main):
    assert name not in O
    O[name] = (HEAD + items + "\npub fn main() {\n" + main + "\n}\n")


COMMON = """
macro_rules! same { ($t:ty) => { $t } }
macro_rules! arr { ($t:ty) => { Array<$t, u8> } }
macro_rules! refd { ($l:lifetime, $t:ty) => { &$l $t } }
macro_rules! toks { ($($e:tt)*) => { $($e)* } }
macro_rules! plus1 { ($e:expr) => { $e + 1 } }
pub trait HasLen { const LEN: usize; type Elem: Copy + Into<u64>; }
pub struct Two; impl HasLen for Two { const LEN: usize = 2; type Elem = u16; }
pub trait Tr { fn f(&self) -> u8; }
impl Tr for u8 { fn f(&self) -> u8 { *self } }
pub mod k { pub const fn twice(n: usize) -> usize { n * 2 } pub mod j { pub const fn third(n: &usize) -> usize { *n / 3 } } pub const FOUR: usize = 4; }
pub use k::j;
use std::rc::Rc;
"""


def o(name, items, main):
    odd(name, COMMON + items, main)


# ------------------------------------------------------------------ types written as macro invocations
o("macro_type_varlen", "#[define_varlen] pub struct M<T: Clone> { pub k: u8, #[varlen] pub x: arr!(T) }",
  "let r = Rc::new(1); let m = VBox::<M<Rc<i32>>>::new(m::Init { k: 4, x: SizedInit(3u8, CloneFrom(&[r.clone(), r.clone(), r.clone()])) }); assert_eq!((m.k, m.refs().x.len(), Rc::strong_count(&r)), (4, 3, 4)); drop(m); assert_eq!(Rc::strong_count(&r), 1);")
o("macro_type_fixed", "#[define_varlen] pub struct M<T> { pub v: same!(Option<T>), #[varlen] pub y: Str }",
  "let r = Rc::new(1); let m = VBox::<M<Rc<i32>>>::new(m::Init { v: Some(r.clone()), y: Str::copy(\"abc\") }); assert_eq!(&m.refs().y[..], \"abc\"); assert_eq!(Rc::strong_count(&r), 2); drop(m); assert_eq!(Rc::strong_count(&r), 1);")
o("macro_type_controls", "#[define_varlen] pub struct M<const N: usize, L: Copy + Into<usize> + Sync> { #[controls_layout] pub n: same!([L; N]), #[varlen_array] pub y: [same!([u8; N]); n.len() + 1] }",
  "let m = VBox::<M<3, u8>>::new(m::Init { n: [9, 8, 7], y: FillSequentially(|i| [i as u8; 3]) }); assert_eq!((*m.refs().n, m.refs().y.len(), m.refs().y[3]), ([9, 8, 7], 4, [3; 3]));")
o("macro_type_lifetime", "#[define_varlen] pub struct M<'a, T: Sync> { #[controls_layout] pub n: refd!('a, [T]), #[varlen] pub f: FixedLen<refd!('a, str)>, #[varlen_array] pub y: [u8; toks!(n.len())] }",
  "let v = vec![1u32, 2, 3]; let t = String::from(\"pq\"); let m = VBox::<M<'_, u32>>::new(m::Init { n: &v, f: FixedLen(&t[..]), y: FillSequentially(|i| i as u8) }); assert_eq!((m.refs().y, *m.refs().n, m.refs().f.0), (&[0u8, 1, 2][..], &v[..], \"pq\"));")
o("macro_type_array", "#[define_varlen] pub struct M<T: Default> { #[controls_layout] pub n: u8, #[varlen_array] pub y: [same!((u8, Vec<T>)); *n as usize] }",
  "let m = VBox::<M<u64>>::new(m::Init { n: 2, y: FillSequentially(|i| (i as u8, vec![i as u64; 3])) }); assert_eq!(m.refs().y, &[(0, vec![0; 3]), (1, vec![1; 3])]);")
o("macro_type_nested", "#[define_varlen] pub struct M<'b, T: Sync, const N: usize> { #[varlen] pub y: Tup2<same!(arr!(T)), FixedLen<same!([refd!('b, u8); N])>> }",
  "let x = 7u8; let m = VBox::<M<'_, u64, 2>>::new(m::Init { y: tup2::Init(SizedInit(2u8, FillSequentially(|i| i as u64)), FixedLen([&x, &x])) }); assert_eq!((&m.refs().y.refs().0[..], *m.refs().y.refs().1.0[1]), (&[0u64, 1][..], 7));")
o("macro_whole_field_list", """macro_rules! def { ($name:ident, $n:ident, $t:ty, $e:expr) => { #[define_varlen] pub struct $name { #[controls_layout] pub $n: u8, #[varlen_array] pub y: [$t; $e], #[varlen] pub s: Str } } }
pub const FIVE: usize = 5;
def!(Made, n, Box<u8>, FIVE);""",
  "let m = VBox::<Made>::new(made::Init { n: 2, y: FillSequentially(|i| Box::new(i as u8)), s: Str::copy(\"x\") }); assert_eq!(m.refs().y.len(), 5); assert_eq!(*m.refs().y[4], 4);")
o("macro_captured_types", """macro_rules! crate_ty { () => { Str } }
macro_rules! def { ($name:ident <$($g:ident: $b:path),*> $v:vis [$l:literal] $($f:ident: $t:ty),*) => { #[define_varlen] $v struct $name<$($g: $b),*> { $(pub $f: $t,)* #[varlen_array] pub y: [u16; $l], #[varlen] pub z: crate_ty!() } } }
def!(Cap<A: Clone, B: Default> pub [3] p: Option<A>, q: Vec<B>);""",
  "let m = VBox::<Cap<u8, u16>>::new(cap::Init { p: Some(3), q: vec![4], y: FillSequentially(|i| i as u16), z: Str::copy(\"hey\") }); assert_eq!((m.p, &m.q[..], m.refs().y, &m.refs().z[..]), (Some(3), &[4][..], &[0, 1, 2][..], \"hey\"));")

# ------------------------------------------------------------------ length expressions
LENS = {
    # n: u8 = 4, w: usize = 7, c: bool = true
    "if_plus": ("if *c { 1 } else { 2 } + *n as usize", 5),
    "if_minus": ("if *c { 9 } else { 12 } - *w", 2),
    "if_times": ("if *c { 3 } else { 5 } * 2", 6),
    "match_times": ("match *c { true => 2, false => 3 } * *w", 14),
    "match_as": ("match c { true => 2u8, false => 3 } as usize", 2),
    "block_plus": ("{ *w } + 1", 8),
    "block_and": ("{ *w } & 5", 5),
    "unsafe_block": ("unsafe { *w } + 1", 8),
    "loop_break": ("loop { break *w } - 3", 4),
    "labeled": ("'a: { if *c { break 'a 3; } 4 } + 1", 4),
    "if_method": ("if *c { 1usize } else { 2 }.saturating_add(4)", 5),
    "if_let": ("if let 1..=5 = *n { 6 } else { 0 }", 6),
    "if_let_plus": ("if let x @ 1..=5 = *n { x as usize } else { 0 } + *w", 11),
    "if_index": ("match *c { true => [4usize, 5], false => [6, 7] }[1]", 5),
    "tuple_field": ("(*w, 3).0", 7),
    "array_index": ("[1, 2, *w][2]", 7),
    "array_len": ("[0u8; 6].len()", 6),
    "str_len": ("\"abc\".len()", 3),
    "byte_str": ("b\"abcd\".len() + 'a'.len_utf8()", 5),
    "cast_chain": ("*n as u8 as i8 as u16 as usize", 4),
    "not": ("!*w & 0xf", 8),
    "shift": ("1 << *n >> 1", 8),
    "compare": ("(*w > 3) as usize + (*n == 4 && *c || false) as usize", 2),
    "paren": ("((*w))", 7),
    "while": ("{ let mut i = 0; let mut s = 0; while i < *w { s += i; i += 1; } s % 8 }", 5),
    "shadow": ("{ let n = *n as usize; let w = *w; n + w }", 11),
    "inner_fn": ("{ const fn inner(x: usize) -> usize { x / 2 } inner(*w) }", 3),
    "inner_const": ("{ const Q: usize = 2; Q + *w }", 9),
    "inner_struct": ("{ struct P(usize); P(*w).0 }", 7),
    "inner_macro": ("{ macro_rules! z { ($e:expr) => { $e * 2 } } z!(*w) }", 14),
    "macro_expr": ("plus1!(*w)", 8),
    "macro_tokens": ("toks!(*w + 2)", 9),
    "macro_matches": ("matches!(*n, 3..=5) as usize + 1", 2),
    "path_fn": ("k::twice(*w)", 14),
    "use_path": ("j::third(w)", 2),
    "const_path": ("k::FOUR", 4),
    "std_path": ("::std::mem::size_of::<u64>() + core::mem::align_of_val(n)", 9),
    "usize_const": ("usize::MAX.count_ones() as usize / usize::BITS as usize", 1),
    "qualified": ("<Two as HasLen>::LEN + Two::LEN", 4),
    "turbofish": ("pick::<3>(*w)", 10),
    "generic_closureless": ("(0, *w).1", 7),
    "range": ("(0..*w).end", 7),
    "zero": ("0", 0),
    "big_literal": ("0x0000_0003_usize", 3),
    "match_tuple": ("match (*n, *c) { (0, _) => 1, (x @ 1..=5, true) => x as usize + 1, _ => 9 }", 5),
    "match_guard": ("match *n { x if x > 3 => 2, _ => 3 }", 2),
    "deref_deref": ("**&w", 7),
    "ref_method": ("w.wrapping_add(1)", 8),
    "attr_block": ("{ #[allow(unused_variables)] let z = 1; *w }", 7),
    "const_block": ("const { 3 + 4 } + *n as usize", 11),
    "field_named": ("Wh { x: *w, y: *n }.x", 7),
    "negative": ("(-(*n as isize) + 9) as usize", 5),
    "option_match": ("match Some(*w) { Some(x) => x, None => 0 }", 7),
    "checked": ("match w.checked_sub(9) { Some(x) => x, None => 2 }", 2),
    "assert": ("{ assert!(*n < 200); *n as usize }", 4),
    "unicode": ("{ let größe = *w; größe }", 7),
}
ITEMS = "pub const fn pick<const K: usize>(x: usize) -> usize { x + K } pub struct Wh { pub x: usize, pub y: u8 }\n"
for nm, (e, v) in LENS.items():
    o("length_" + nm, ITEMS + "#[define_varlen] pub struct M { #[controls_layout] pub c: bool, #[controls_layout] pub n: u8, #[varlen] pub s: Str<u8>, #[controls_layout] pub w: usize, #[varlen_array] pub y: [u16; %s], #[varlen_array] pub z: [Box<u8>; %s] }" % (e, e),
      "let mut m = VBox::<M>::new(m::Init { c: true, n: 4, w: 7, s: Str::<u8>::try_copy(\"abc\").unwrap(), y: FillSequentially(|i| i as u16 * 3), z: FillSequentially(|i| Box::new(i as u8)) }); "
      "let y: Vec<u16> = (0..%d).map(|i| i * 3).collect(); assert_eq!((m.refs().y, m.refs().z.len(), &m.refs().s[..]), (&y[..], %d, \"abc\")); "
      "for x in m.as_mut().muts().z.iter_mut() { **x += 1; } assert!(m.refs().z.iter().enumerate().all(|(i, x)| **x == i as u8 + 1)); "
      "let (c, n, w) = (*m.refs().c, *m.refs().n, *m.refs().w); assert_eq!((c, n, w), (true, 4, 7));" % (v, v))

# ------------------------------------------------------------------ generics, bounds and lifetimes
o("ref_controller_implied_bound", "#[define_varlen] pub struct M<'a, T: Sync> { #[controls_layout] pub n: &'a [T], #[varlen_array] pub y: [u8; n.len()] }",
  "let v = vec![String::from(\"a\"), String::from(\"b\")]; let m = VBox::<M<'_, String>>::new(m::Init { n: &v, y: FillSequentially(|i| i as u8 + 5) }); assert_eq!(m.refs().y, &[5, 6]); assert_eq!(m.refs().n[1], \"b\");")
o("ref_ref_controller_implied_bound", "#[define_varlen] pub struct M<'a, 'b, T: Sync> { #[controls_layout] pub n: &'a &'b [T], #[controls_layout] pub p: Option<&'b T>, #[varlen_array] pub y: [u8; (**n).len()] }",
  "let v = vec![1u8, 2]; let w = &v[..]; let m = VBox::<M<'_, '_, u8>>::new(m::Init { n: &w, p: Some(&v[1]), y: FillSequentially(|i| i as u8 + 5) }); assert_eq!(m.refs().y, &[5, 6]); assert_eq!(*m.refs().p, Some(&2));")
o("ref_fields_implied_bound", "#[define_varlen] pub struct M<'a, T> { #[controls_layout] pub n: u8, pub x: &'a T, #[varlen_array] pub y: [&'a T; *n as usize], #[varlen] pub z: FixedLen<&'a T>, #[varlen] pub w: Tup2<Str, Array<&'a [T], u8>> }",
  "let v = [Cell::new(3), Cell::new(4)]; let m = VBox::<M<'_, Cell<i32>>>::new(m::Init { n: 2, x: &v[0], y: FillSequentially(|i| &v[i]), z: FixedLen(&v[1]), w: tup2::Init(Str::copy(\"q\"), SizedInit(2u8, FillSequentially(|i| &v[..i]))) }); v[1].set(9); assert_eq!((m.refs().y[1].get(), m.refs().z.0.get(), m.refs().w.refs().1[1][0].get()), (9, 9, 3));")
o("unsized_param", "#[define_varlen] pub struct M<'a, T: ?Sized + Tr> { pub r: &'a T, #[varlen] pub s: Str }",
  "let b: u8 = 4; let m = VBox::<M<'_, dyn Tr>>::new(m::Init { r: &b as &dyn Tr, s: Str::copy(\"hi\") }); assert_eq!((m.r.f(), &m.refs().s[..]), (4, \"hi\"));")
o("trait_objects", "#[define_varlen] pub struct M<'a> { pub b: Box<dyn Fn(u8) -> u8 + 'a>, #[controls_layout] pub n: &'a str, #[varlen_array] pub y: [&'a (dyn Tr + Sync); n.len()], #[varlen_array] pub d: [Box<dyn Fn() -> usize + 'a>; 2] }",
  "let k = 5; let b = 8u8; let m = VBox::<M<'_>>::new(m::Init { b: Box::new(|x| x + k), n: \"abc\", y: FillSequentially(|_| &b as &(dyn Tr + Sync)), d: FillSequentially(|i| -> Box<dyn Fn() -> usize> { Box::new(move || i + 1) }) }); assert_eq!(((m.b)(1), m.refs().y.iter().map(|x| x.f() as usize).sum::<usize>(), m.refs().d[1]()), (6, 24, 2));")
o("associated_types", "#[define_varlen] pub struct M<U: HasLen> { pub f: Option<U::Elem>, #[varlen_array] pub z: [U::Elem; U::LEN], #[varlen_array] pub w: [<U as HasLen>::Elem; <U as HasLen>::LEN + 1], #[varlen] pub a: Array<U::Elem, u8> }",
  "let m = VBox::<M<Two>>::new(m::Init { f: Some(1u16), z: FillSequentially(|i| i as u16), w: FillSequentially(|i| i as u16 + 10), a: SizedInit(1u8, FillSequentially(|_| 7u16)) }); assert_eq!((m.f, m.refs().z, m.refs().w, &m.refs().a[..]), (Some(1), &[0, 1][..], &[10, 11, 12][..], &[7][..]));")
o("higher_ranked", "#[define_varlen] pub struct M<F, T> where for<'x> F: Fn(&'x u8) -> &'x u8, for<'y> &'y T: IntoIterator<Item = &'y u8> { pub f: F, pub t: T, pub g: for<'x> fn(&'x u8, &T) -> &'x u8, #[varlen_array] pub y: [for<'z> fn(&'z u8) -> &'z u8; 2] }",
  "fn id<'a>(x: &'a u8) -> &'a u8 { x } fn g<'x>(x: &'x u8, _: &Vec<u8>) -> &'x u8 { x } let m = VBox::<M<fn(&u8) -> &u8, Vec<u8>>>::new(m::Init { f: id as fn(&u8) -> &u8, t: vec![1, 2], g: g as for<'x> fn(&'x u8, &Vec<u8>) -> &'x u8, y: FillSequentially(|_| id as for<'z> fn(&'z u8) -> &'z u8) }); assert_eq!((*(m.f)(&3), m.t.len(), *(m.g)(&4, &m.t), *(m.refs().y[1])(&5)), (3, 2, 4, 5));")
o("defaults", "#[define_varlen] pub struct M<A: Clone = u8, const N: usize = 3> where [A; N]: Clone { pub a: [A; N], #[varlen] pub b: Array<A> }",
  "let m = VBox::<M>::new(m::Init { a: [1, 2, 3], b: SizedInit(2usize, FillSequentially(|i| i as u8)) }); assert_eq!((m.a, &m.refs().b[..]), ([1, 2, 3], &[0u8, 1][..])); let m = VBox::<M<u64, 1>>::new(m::Init { a: [1], b: SizedInit(2usize, FillSequentially(|i| i as u64)) }); assert_eq!(m.refs().b[1], 1);")
o("const_params_of_all_types", "#[define_varlen] pub struct M<const A: usize, const B: bool, const C: char, const D: i8> { #[controls_layout] pub n: [u8; A], #[varlen_array] pub w: [[u16; A]; if B { n.len() } else { 0 } + C as usize - 'a' as usize], #[varlen_array] pub v: [u8; { let mut i = 0; let mut s = 0; while i < A { s += n[i] as usize; i += 1; } s }], #[varlen_array] pub u: [u64; (D + 3) as usize] }",
  "let m = VBox::<M<2, true, 'c', { -1 }>>::new(m::Init { n: [3, 4], w: FillSequentially(|i| [i as u16; 2]), v: FillSequentially(|i| i as u8), u: FillSequentially(|i| i as u64) }); assert_eq!((m.refs().w.len(), m.refs().v.len(), m.refs().v[6], m.refs().u), (4, 7, 6, &[0u64, 1][..]));")
o("lifetime_bounds", "#[define_varlen] pub struct M<'a, 'b: 'a, T: 'a + Clone = u8> where &'a T: 'b { pub x: &'a &'b T, #[varlen] pub s: Str }",
  "static V: &'static u8 = &4; let m = VBox::<M<'static, 'static, u8>>::new(m::Init { x: &V, s: Str::copy(\"abc\") }); assert_eq!((**m.x, m.refs().s.len()), (4, 3));")
o("empty_where", "#[define_varlen] pub struct M where { #[varlen] pub x: Str }", "let m = VBox::<M>::new(m::Init { x: Str::copy(\"abc\") }); assert_eq!(&m.refs().x[..], \"abc\");")
o("empty_generics", "#[define_varlen] pub struct M<> where u8: Copy, { #[varlen] pub x: Str }", "let m = VBox::<M>::new(m::Init { x: Str::copy(\"abc\") }); assert_eq!(&m.refs().x[..], \"abc\");")
o("phantoms", "#[define_varlen] pub struct M<'a, T: ?Sized> { pub p: std::marker::PhantomData<fn(&'a T) -> &'a T>, #[varlen] pub q: FixedLen<std::marker::PhantomData<*const T>>, #[varlen] pub s: Str }",
  "let m = VBox::<M<'_, [String]>>::new(m::Init { p: Default::default(), q: FixedLen(Default::default()), s: Str::copy(\"ab\") }); assert_eq!(&m.refs().s[..], \"ab\");")
o("many_params", "#[define_varlen] pub struct M<A, B, C, D2, E2, F2> { #[varlen] pub a: Tup2<FixedLen<A>, FixedLen<B>>, pub b: Option<Result<C, D2>>, #[varlen_array] pub c: [(E2, F2); 2] }",
  "let m = VBox::<M<u8, u64, u16, String, u32, Box<u8>>>::new(m::Init { a: tup2::Init(FixedLen(1), FixedLen(2)), b: Some(Err(String::from(\"e\"))), c: FillSequentially(|i| (i as u32, Box::new(i as u8))) }); assert_eq!((m.refs().a.refs().0.0, m.refs().a.refs().1.0, m.refs().c), (1, 2, &[(0u32, Box::new(0u8)), (1, Box::new(1))][..]));")
o("param_only_in_length", "#[define_varlen] pub struct M<const N: usize> { #[controls_layout] pub n: u8, #[varlen_array] pub y: [u8; *n as usize + N] }",
  "let m = VBox::<M<4>>::new(m::Init { n: 3, y: FillSequentially(|i| i as u8) }); assert_eq!(m.refs().y.len(), 7);")
o("param_only_in_array", "#[define_varlen] pub struct M<'a, T, const N: usize> { #[varlen_array] pub y: [&'a [T; N]; 2], #[varlen] pub s: Str }",
  "let v = [1u8, 2, 3]; let m = VBox::<M<'_, u8, 3>>::new(m::Init { y: FillSequentially(|_| &v), s: Str::copy(\"k\") }); assert_eq!(m.refs().y[1], &v);")
o("generic_varlen_param", "#[define_varlen] pub struct M<V: VarLen, W: VarLen> { #[varlen] pub v: V, pub x: u16, #[varlen] pub w: Tup2<W, V> } pub type Deep = M<M<Str, Array<u64>>, Str<u8>>;",
  "let i = || m::Init { v: Str::copy(\"in\"), x: 1, w: tup2::Init(SizedInit(2usize, FillSequentially(|i| i as u64)), Str::copy(\"ner\")) }; let m = VBox::<Deep>::new(m::Init { v: i(), x: 2, w: tup2::Init(Str::<u8>::try_copy(\"mid\").unwrap(), i()) }); assert_eq!((&m.refs().v.refs().w.refs().0[..], &m.refs().w.refs().1.refs().w.refs().1[..], m.x, m.refs().v.x), (&[0u64, 1][..], \"ner\", 2, 1));")
o("self_in_bounds", "#[define_varlen] pub struct M<T: PartialEq<T> + Into<<u8 as std::ops::Add<u8>>::Output>> { pub t: T, #[varlen] pub s: Array<T, u8> }",
  "let m = VBox::<M<u8>>::new(m::Init { t: 1u8, s: SizedInit(2u8, FillSequentially(|i| i as u8)) }); assert_eq!(m.refs().s[1], m.t);")

# ------------------------------------------------------------------ types
o("controllers_of_many_types", """#[derive(Clone, Copy)] pub enum Sel { A, B { k: u8 } } pub struct Own { pub s: String, pub k: usize }
#[define_varlen] pub struct M { #[controls_layout] pub m: (u8, [u16; 3], Option<std::num::NonZeroU8>), #[controls_layout] pub e: Sel, #[controls_layout] pub o: Own, #[controls_layout] pub u: (), #[controls_layout] pub r: std::ops::Range<u8>,
 #[varlen_array] pub d: [u32; m.1[0] as usize + match m.2 { Some(x) => x.get() as usize, None => 0 }], #[varlen_array] pub f: [u8; match e { Sel::A => 1, Sel::B { k } => *k as usize }], #[varlen_array] pub g: [(u8, String); o.k], #[varlen_array] pub h: [u64; match u { () => 2 }], #[varlen_array] pub i: [u16; (r.end - r.start) as usize] }""",
  "let m = VBox::<M>::new(m::Init { m: (3, [1, 2, 3], std::num::NonZeroU8::new(2)), e: Sel::B { k: 4 }, o: Own { s: String::from(\"owned\"), k: 3 }, u: (), r: 4..9, d: FillSequentially(|i| i as u32), f: FillSequentially(|i| i as u8), g: FillSequentially(|i: usize| (i as u8, i.to_string())), h: FillWithDefault, i: FillWithDefault }); let r = m.refs(); assert_eq!((r.d.len(), r.f.len(), r.g.len(), r.h.len(), r.i.len(), &r.o.s[..], &r.g[2].1[..]), (3, 4, 3, 2, 5, \"owned\", \"2\"));")
o("zero_sized_everything", "pub struct Z; #[define_varlen] pub struct M { pub z: Z, #[controls_layout] pub u: (), #[varlen_array] pub y: [(); 1 << 10], #[varlen_array] pub x: [[u64; 0]; 3], #[varlen] pub f: FixedLen<Z> }",
  "let m = VBox::<M>::new(m::Init { z: Z, u: (), y: FillWithDefault, x: FillWithDefault, f: FixedLen(Z) }); assert_eq!((m.refs().y.len(), m.refs().x.len()), (1024, 3)); let mut s: Seq<M> = Seq::new(); for _ in 0..3 { s.push(m::Init { z: Z, u: (), y: FillWithDefault, x: FillWithDefault, f: FixedLen(Z) }); } assert_eq!(s.iter().map(|x| x.refs().x.len()).sum::<usize>(), 9);")
o("raw_names", "#[define_varlen] pub struct M { pub r#type: u8, #[controls_layout] pub r#fn: u8, #[varlen_array] pub r#struct: [u8; *r#fn as usize], #[varlen] pub r#mod: Str, #[varlen_array] pub r#match: [u16; r#fn.count_ones() as usize] }",
  "let m = VBox::<M>::new(m::Init { r#type: 1, r#fn: 3, r#struct: FillSequentially(|i| i as u8), r#mod: Str::copy(\"mm\"), r#match: FillWithDefault }); let r = m.refs(); assert_eq!((*r.r#type, r.r#struct, &r.r#mod[..], r.r#match), (1, &[0u8, 1, 2][..], \"mm\", &[0u16, 0][..]));")
o("unicode_names", "#[define_varlen] pub struct Größe { #[controls_layout] pub länge: u8, #[varlen_array] pub größen: [u8; *länge as usize], #[varlen] pub 文字: Str }",
  "let m = VBox::<Größe>::new(größe::Init { länge: 3, größen: FillSequentially(|i| i as u8), 文字: Str::copy(\"é\") }); assert_eq!((m.refs().größen, &m.refs().文字[..]), (&[0u8, 1, 2][..], \"é\"));")
o("absolute_paths", "#[define_varlen] pub struct M { pub a: ::core::option::Option<::std::string::String>, #[varlen] pub s: ::varlen::str::Str<::core::primitive::u8>, #[varlen_array] pub y: [::std::vec::Vec<::std::primitive::u8>; 2] }",
  "let m = VBox::<M>::new(m::Init { a: Some(String::from(\"x\")), s: Str::<u8>::try_copy(\"pq\").unwrap(), y: FillSequentially(|i| vec![i as u8; i]) }); assert_eq!((m.a.as_deref(), &m.refs().s[..], m.refs().y[1].len()), (Some(\"x\"), \"pq\", 1));")
o("parenthesized_types", "#[allow(unused_parens)] #[define_varlen] pub struct M { pub a: (u8), #[varlen] pub s: (Str), #[varlen_array] pub y: [(u16); (3)] }",
  "let m = VBox::<M>::new(m::Init { a: 1, s: Str::copy(\"pq\"), y: FillSequentially(|i| i as u16) }); assert_eq!((m.a, &m.refs().s[..], m.refs().y), (1, \"pq\", &[0u16, 1, 2][..]));")
o("type_aliases", "pub type Q<T> = Tup2<Array<T, u16>, Str>; pub type N16 = u16; #[define_varlen] pub struct M<T> { #[controls_layout] pub n: N16, #[varlen] pub q: Q<T>, #[varlen_array] pub y: [Q2<T>; *n as usize] } pub type Q2<T> = Option<Box<T>>;",
  "let m = VBox::<M<u8>>::new(m::Init { n: 2, q: tup2::Init(SizedInit(3u16, FillSequentially(|i| i as u8)), Str::copy(\"z\")), y: FillSequentially(|i| Some(Box::new(i as u8))) }); assert_eq!((&m.refs().q.refs().0[..], m.refs().y.len()), (&[0u8, 1, 2][..], 2));")
o("nested_arrays", "#[define_varlen] pub struct M { #[varlen_array] pub y: [[[u16; 2]; 3]; 4], #[varlen_array] pub z: [[[u8; 0]; 3]; 2], pub f: [[u8; 2]; 2] }",
  "let m = VBox::<M>::new(m::Init { y: FillSequentially(|i| [[i as u16; 2]; 3]), z: FillWithDefault, f: [[1, 2], [3, 4]] }); assert_eq!((m.refs().y[3][2][1], m.refs().z.len(), m.f[1][0]), (3, 2, 3));")
o("raw_pointers_and_fns", "#[define_varlen] pub struct M { pub p: *const u8, #[varlen_array] pub y: [unsafe extern \"C\" fn(u8) -> u8; 1], #[varlen_array] pub q: [*mut [u8]; 2], #[varlen] pub f: FixedLen<fn(&str) -> &str> }",
  "unsafe extern \"C\" fn e(x: u8) -> u8 { x + 1 } fn t(x: &str) -> &str { &x[1..] } let b = 5u8; let m = VBox::<M>::new(m::Init { p: &b, y: FillSequentially(|_| e as unsafe extern \"C\" fn(u8) -> u8), q: FillSequentially(|_| std::ptr::slice_from_raw_parts_mut(std::ptr::null_mut(), 3)), f: FixedLen(t as fn(&str) -> &str) }); assert_eq!(unsafe { (*m.p, m.refs().y[0](1), m.refs().q[1].len(), (m.refs().f.0)(\"ab\")) }, (5, 2, 3, \"b\"));")
o("recursive_types", "#[define_varlen] pub struct M { pub next: Option<VBox<M>>, #[controls_layout] pub n: u8, #[varlen_array] pub kids: [Option<Box<VBox<M>>>; *n as usize], #[varlen] pub s: Str }",
  "let leaf = || VBox::<M>::new(m::Init { next: None, n: 0, kids: FillWithDefault, s: Str::copy(\"leaf\") }); let m = VBox::<M>::new(m::Init { next: Some(leaf()), n: 2, kids: FillSequentially(|_| Some(Box::new(leaf()))), s: Str::copy(\"root\") }); assert_eq!((&m.next.as_ref().unwrap().refs().s[..], &m.refs().kids[1].as_ref().unwrap().refs().s[..]), (\"leaf\", \"leaf\"));")
o("seq_fields", "#[define_varlen] pub struct M { pub q: Seq<M>, #[varlen] pub s: Str }",
  "let mut q = Seq::new(); q.push(m::Init { q: Seq::new(), s: Str::copy(\"in\") }); let m = VBox::<M>::new(m::Init { q, s: Str::copy(\"out\") }); assert_eq!(m.q.iter().map(|x| x.refs().s.len()).sum::<usize>(), 2);")

# ------------------------------------------------------------------ attributes and visibility
o("documented", """#[define_varlen]
/// Documentation
#[doc = "more"] #[must_use] #[repr(C)]
/** block */
pub struct M { /// a
 #[doc(hidden)] #[controls_layout] /** b */ pub n: u8, #[allow(unused)] #[varlen_array] #[allow(dead_code)] pub y: [u8; *n as usize], /* c */ #[deprecated] pub d: u8 }""",
  "let m = VBox::<M>::new(m::Init { n: 2, y: FillSequentially(|i| i as u8), d: 3 }); assert_eq!((m.refs().y, m.d), (&[0u8, 1][..], 3));")
o("private_everything", "mod inner { use super::*; #[define_varlen] pub(super) struct M { #[controls_layout] n: u8, #[varlen_array] y: [u8; *n as usize], #[varlen] s: Str } pub(super) fn go() -> usize { let mut m = VBox::<M>::new(m::Init { n: 2, y: FillSequentially(|i| i as u8), s: Str::copy(\"abc\") }); m.as_mut().muts().y[1] = 8; m.refs().y[1] as usize + m.refs().s.len() } }",
  "assert_eq!(inner::go(), 11);")
o("mixed_visibility", "pub mod inner { pub mod deep { use super::super::*; #[define_varlen] pub struct M { #[controls_layout] pub(super) n: u8, #[varlen_array] pub(crate) y: [u8; *n as usize], #[varlen] pub(super) s: Str, pub p: u16 } pub fn mk() -> VBox<M> { VBox::new(m::Init { n: 2, y: FillSequentially(|i| i as u8), s: Str::copy(\"abc\"), p: 4 }) } } pub fn len(m: &deep::M) -> usize { m.refs().s.len() } }",
  "let m = inner::deep::mk(); assert_eq!((m.refs().y, m.p, inner::len(&m)), (&[0u8, 1][..], 4, 3));")
o("two_in_one_module", "#[define_varlen] pub struct Ab { #[varlen] pub s: Str } #[define_varlen] pub struct AbC { #[varlen] pub a: Ab, #[varlen] pub s: Str }",
  "let m = VBox::<AbC>::new(ab_c::Init { a: ab::Init { s: Str::copy(\"x\") }, s: Str::copy(\"yy\") }); assert_eq!((&m.refs().a.refs().s[..], &m.refs().s[..]), (\"x\", \"yy\"));")
o("attribute_path", "#[varlen::define_varlen] pub struct M { #[varlen] pub s: varlen::str::Str } #[::varlen::define_varlen] pub struct N { #[varlen] pub s: M }",
  "let m = VBox::<N>::new(n::Init { s: m::Init { s: Str::copy(\"x\") } }); assert_eq!(&m.refs().s.refs().s[..], \"x\");")
o("impl_blocks", "#[define_varlen] pub struct M<T> { #[controls_layout] pub n: u8, #[varlen_array] pub y: [T; *n as usize] } impl<T> M<T> { pub fn sum(&self) -> u64 where T: Copy + Into<u64> { self.refs().y.iter().map(|x| (*x).into()).sum() } } impl<T: PartialEq> PartialEq for M<T> { fn eq(&self, o: &Self) -> bool { self.refs().y == o.refs().y } } impl<T: std::fmt::Debug> std::fmt::Debug for M<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.debug_list().entries(self.refs().y).finish() } }",
  "let mk = || VBox::<M<u32>>::new(m::Init { n: 3, y: FillSequentially(|i| i as u32) }); assert_eq!((mk().sum(), *mk() == *mk(), format!(\"{:?}\", *mk())), (3, true, String::from(\"[0, 1, 2]\")));")


def c18():
    return [(n, None, t) for n, t in O.items()]


# ------------------------------------------------------------------ names of the library's own items, used by the client
USE_M = ("let r = Rc::new(1); let t = r.clone(); let m = VBox::<M>::new(m::Init { n: 3, o: 7, y: FillSequentially(move |_| t.clone()), s: Str::copy(\"abc\") }); assert_eq!((m.refs().y.len(), &m.refs().s[..], Rc::strong_count(&r)), (3, \"abc\", 4)); "
         "let mut q: Seq<M> = Seq::new(); q.push(m); for k in 0..9u8 { let t = r.clone(); q.push(m::Init { n: k, o: k, y: FillSequentially(move |_| t.clone()), s: Str::copy(\"x\") }); } assert_eq!(q.iter().map(|x| x.refs().y.len()).sum::<usize>(), 39); drop(q); assert_eq!(Rc::strong_count(&r), 1);")
DEF_M = "#[define_varlen] pub struct M { #[controls_layout] pub n: u8, pub o: u8, #[varlen_array] pub y: [Rc<i32>; *n as usize], #[varlen] pub s: Str }\n"
o("inherent_names", DEF_M + """impl M { pub const ALIGN: usize = 1; pub const NEEDS_VDROP: bool = false; pub fn calculate_layout(&self) -> <M as VarLen>::Layout { panic!() } pub unsafe fn vdrop(self: Pin<&mut Self>, _: <M as VarLen>::Layout) { panic!() } pub fn drop(&mut self) {} pub fn n(&self) {} pub fn size(&self) -> usize { 0 } }
impl<A, B> m::Init<A, B> { pub fn calculate_layout_cautious(&self) -> Option<<M as VarLen>::Layout> { panic!() } pub fn initialize(self, _: NonNull<M>, _: <M as VarLen>::Layout) { panic!() } }""", USE_M)
o("inherent_names_in_fields", """#[define_varlen] pub struct F { #[controls_layout] pub k: u8, #[varlen_array] pub z: [u8; *k as usize] }
impl F { pub const ALIGN: usize = 64; pub const NEEDS_VDROP: bool = true; pub fn calculate_layout(&self) -> <F as VarLen>::Layout { panic!() } pub fn vclone(&self) {} }
#[define_varlen] pub struct M2 { #[varlen] pub f: F, #[varlen] pub t: Tup2<F, Str<u8>>, #[varlen] pub s: Str }""",
  "let f = |k: u8| f::Init { k, z: FillSequentially(|i| i as u8) }; let m = VBox::<M2>::new(m_2::Init { f: f(5), t: tup2::Init(f(3), Str::<u8>::try_copy(\"q\").unwrap()), s: Str::copy(\"abc\") }); assert_eq!((m.refs().f.refs().z.len(), m.refs().t.refs().0.refs().z, &m.refs().t.refs().1[..], &m.refs().s[..]), (5, &[0u8, 1, 2][..], \"q\", \"abc\"));")

# Methods with the names of methods of `Pin`, which receive a `Pin`.
PINNED = {"as_ref": "pub fn as_ref(self: Pin<&mut Self>) -> Pin<&'static Self> { panic!() }", "get_ref": "pub fn get_ref(self: Pin<&Self>) -> &'static Self { panic!() }",
          "get_unchecked_mut": "pub fn get_unchecked_mut(self: Pin<&mut Self>) -> &'static mut Self { panic!() }", "as_mut": "pub fn as_mut(self: Pin<&mut Self>) -> Pin<&'static mut Self> { panic!() }",
          "map_unchecked_mut": "pub fn map_unchecked_mut<U, F>(self: Pin<&mut Self>, _: F) -> Pin<&'static mut U> { panic!() }", "get_mut": "pub fn get_mut(self: Pin<&mut Self>) -> &'static mut Self { panic!() }"}
for nm, f in PINNED.items():
    o("pinned_" + nm, DEF_M + "impl M { %s }" % f, USE_M)
o("trait_as_ref", DEF_M + "pub trait TrX: Sized { fn as_ref(self) -> Pin<&'static Self> { panic!() } fn as_mut(self) {} fn get_ref(self) {} fn get_unchecked_mut(self) {} fn calculate_layout(self) {} fn initialize(self) {} fn vdrop(self) {} fn size(self) {} } impl<T> TrX for T {}", USE_M)
o("field_names_of_locals", "#[define_varlen] pub struct M { #[controls_layout] pub pointer: u8, pub __pointer: u8, pub p: u8, #[controls_layout] pub layout: u8, pub dst: u8, pub p_typed: u8, pub mut_ref: u8, #[controls_layout] pub mut_ptr: u8, pub self_mut: u8, #[varlen] pub valid: Str, #[varlen_array] pub layout_controllers: [u8; *layout as usize], #[controls_layout] pub lengths_before: u8, #[varlen_array] pub lengths_after: [u16; *pointer as usize + *mut_ptr as usize] }",
  "let mut m = VBox::<M>::new(m::Init { pointer: 1, __pointer: 2, p: 3, layout: 4, dst: 5, p_typed: 6, mut_ref: 7, mut_ptr: 1, self_mut: 9, valid: Str::copy(\"ab\"), layout_controllers: FillSequentially(|i| i as u8), lengths_before: 8, lengths_after: FillWithDefault }); "
  "m.as_mut().try_set_layout_controllers(m::LayoutControllers { pointer: 2, layout: 4, mut_ptr: 0, lengths_before: 1 }).unwrap(); m.as_mut().muts().lengths_after[1] = 5; "
  "assert_eq!((m.pointer, m.__pointer, m.p, m.layout, m.dst, m.p_typed, m.mut_ref, m.mut_ptr, m.self_mut, m.lengths_before), (2, 2, 3, 4, 5, 6, 7, 0, 9, 1)); let r = m.refs(); assert_eq!((&r.valid[..], r.layout_controllers, r.lengths_after), (\"ab\", &[0u8, 1, 2, 3][..], &[0u16, 5][..]));")

# Names like those of the type parameters for the fields' initializers.
o("param_named_like_initializer", "#[define_varlen] pub struct M<InitTail, const InitA: usize> { pub x: InitTail, pub z: [u8; InitA], #[varlen] pub tail: Str, #[varlen_array] pub a: [u8; 2] }",
  "let m = VBox::<M<u8, 3>>::new(m::Init { x: 3u8, z: [1, 2, 3], tail: Str::copy(\"ab\"), a: FillWithDefault }); assert_eq!((m.x, m.z, &m.refs().tail[..]), (3, [1, 2, 3], \"ab\"));")
o("type_named_like_initializer", "pub struct InitTail(u8); #[derive(Default)] pub struct InitRow; #[define_varlen] pub struct M { pub x: InitTail, pub b: Option<Box<InitTail>>, #[varlen] pub tail: Str, #[varlen_array] pub row: [InitRow; 2] }",
  "let m = VBox::<M>::new(m::Init { x: InitTail(3), b: None, tail: Str::copy(\"ab\"), row: FillWithDefault }); assert_eq!((m.x.0, m.refs().row.len(), &m.refs().tail[..]), (3, 2, \"ab\"));")
o("trait_named_like_initializer", "pub trait InitTail {} impl InitTail for u8 {} pub trait InitTailX {} impl<T> InitTailX for T {} #[define_varlen] pub struct M<T: InitTail> where u16: InitTailX, T: InitTailX { pub x: T, #[varlen] pub tail: Str, #[varlen_array] pub tail_x: [T; 2] }",
  "let m = VBox::<M<u8>>::new(m::Init { x: 3u8, tail: Str::copy(\"ab\"), tail_x: FillWithDefault }); assert_eq!((m.x, &m.refs().tail[..], m.refs().tail_x), (3, \"ab\", &[0, 0][..]));")


# ------------------------------------------------------------------ newtypes (C23)
NT = {}


def nt(name, items, main):
    NT[name] = (HEAD + COMMON + items + "\npub fn main() {\n" + main + "\n}\n")


def ntdef(name, inner, sig="", decl="", attrs="", vis="pub", fv="", iv="pub ", ifv="pub ", rv="pub ", mv="pub ", init=None, ref="inner", mut="inner_mut", iat="", rat="", mat=""):
    return ("define_varlen_newtype! { #[repr(transparent)] %s %s struct %s%s(%s %s); %s with init: %s %s struct %s<_>(%s_); with inner_ref: %s %sfn %s(&self) -> &_; with inner_mut: %s %sfn %s(self: _) -> _; }\n"
            % (attrs, vis, name, decl, fv, inner, sig and "with signature: %s { _ }" % sig, iat, iv, init or name + "Init", ifv, rat, rv, ref, mat, mv, mut))


DEF_S = "#[define_varlen] pub struct S { #[controls_layout] pub n: u8, #[varlen_array] pub y: [Rc<i32>; *n as usize] }\n"
USE_N = ("let r = Rc::new(1); let i = |n: u8| { let t = r.clone(); NInit(s::Init { n, y: FillSequentially(move |_| t.clone()) }) }; let mut b = VBox::<N>::new(i(5)); assert_eq!((b.inner().refs().y.len(), Rc::strong_count(&r)), (5, 6)); "
         "assert_eq!(Layout::size(&VarLen::calculate_layout(&*b)), Layout::size(&VarLen::calculate_layout(b.inner()))); *b.as_mut().inner_mut().muts().y[4..].first_mut().unwrap() = Rc::new(2); assert_eq!((*b.inner().refs().y[4], Rc::strong_count(&r)), (2, 5)); "
         "let mut q: Seq<N> = Seq::new(); q.push(b); for k in 0..9 { q.push(i(k)); } assert_eq!((q.iter().map(|x| x.inner().refs().y.len()).sum::<usize>(), Rc::strong_count(&r)), (41, 41)); drop(q); assert_eq!(Rc::strong_count(&r), 1);")
nt("plain", DEF_S + ntdef("N", "S"), USE_N)
nt("inner_inherent_calculate_layout", DEF_S + "impl S { pub fn calculate_layout(&self) -> <S as VarLen>::Layout { VarLen::calculate_layout(&*VBox::<S>::new(s::Init { n: 0, y: FillSequentially(|_| Rc::new(1)) })) } }\n" + ntdef("N", "S"), USE_N)
nt("outer_inherent_names", DEF_S + ntdef("N", "S") + "impl N { pub const NEEDS_VDROP: bool = false; pub const ALIGN: usize = 1; pub fn calculate_layout(&self) -> <S as VarLen>::Layout { panic!() } pub fn vdrop(self: Pin<&mut Self>, _: <S as VarLen>::Layout) { panic!() } }\nimpl<I> NInit<I> { pub fn initialize(self, _: NonNull<N>, _: <S as VarLen>::Layout) { panic!() } pub fn calculate_layout_cautious(&self) -> Option<<S as VarLen>::Layout> { panic!() } }\n", USE_N)
nt("inner_inherent_names", DEF_S + "impl S { pub const NEEDS_VDROP: bool = false; pub const ALIGN: usize = 64; pub fn vdrop(self: Pin<&mut Self>, _: <S as VarLen>::Layout) { panic!() } }\nimpl<I> s::Init<I> { pub fn initialize(self, _: NonNull<S>, _: <S as VarLen>::Layout) { panic!() } pub fn calculate_layout_cautious(&self) -> Option<<S as VarLen>::Layout> { panic!() } }\n" + ntdef("N", "S"), USE_N)
nt("nothing_in_scope", "mod inner { pub use std::rc::Rc; #[varlen::define_varlen] pub struct S { #[controls_layout] pub n: u8, #[varlen_array] pub y: [Rc<i32>; *n as usize] }\nvarlen::" + ntdef("N", "S") + " }\npub use inner::*;", USE_N)
USE_J = "let a = VBox::<Array<u16>>::new(%s); assert_eq!(&a[..], &[1u16, 2, 3]); let mut q: Seq<Array<u16>> = Seq::new(); for _ in 0..9 { q.push(%s); } assert_eq!(q.iter().map(|x| x.iter().map(|y| *y as usize).sum::<usize>()).sum::<usize>(), 54);"
J3 = "J(SizedInit(3, FillSequentially((|i| i as u16 + 1) as fn(usize) -> u16)))"
DEF_J = "pub struct J(pub SizedInit<FillSequentially<fn(usize) -> u16>>); impl_initializer_as_newtype! { impl Initializer<Array<u16>> for J { _ } }\n"
for _nm, _f in PINNED.items():
    nt("outer_pinned_" + _nm, DEF_S + ntdef("N", "S") + "impl N { %s }" % _f, USE_N)
nt("trait_as_ref", DEF_S + ntdef("N", "S") + "pub trait TrX: Sized { fn as_ref(self) {} fn map_unchecked_mut(self) {} fn calculate_layout(self) {} fn initialize(self) {} fn vdrop(self) {} } impl<T> TrX for T {}", USE_N)
nt("init_plain", DEF_J, USE_J % (J3, J3))
nt("init_inner_inherent_names", DEF_J + "impl J { pub fn initialize(self, _: NonNull<Array<u16>>, _: <Array<u16> as VarLen>::Layout) {} pub fn calculate_layout_cautious(&self) -> Option<<Array<u16> as VarLen>::Layout> { None } }\npub struct K(pub J); impl_initializer_as_newtype! { impl Initializer<Array<u16>> for K { _ } }\n", USE_J % ("K(%s)" % J3, "K(%s)" % J3))
nt("init_nothing_in_scope", "mod inner { pub struct J(pub varlen::array::SizedInit<varlen::array_init::FillSequentially<fn(usize) -> u16>>); varlen::impl_initializer_as_newtype! { impl Initializer<varlen::array::Array<u16>> for J { _ } } }\npub use inner::*;", USE_J % (J3, J3))
nt("init_generic", "pub struct J<'a, T, const N: usize>(pub SizedInit<CloneFrom<'a, T>, u8>, pub [u8; N]); impl_initializer_as_newtype! { impl<('a), (T: Clone), (const N: usize)> Initializer<Array<T, u8>> for J<'a, T, N> { _ } }",
   "let v = vec![String::from(\"a\"), String::from(\"b\")]; let a = VBox::<Array<String, u8>>::new(J(SizedInit(2, CloneFrom(&v)), [0; 3])); assert_eq!(&a[..], &v[..]);")
nt("init_of_newtype", DEF_S + ntdef("N", "S") + "pub struct L(pub NInit<s::Init<FillSequentially<fn(usize) -> Rc<i32>>>>); impl_initializer_as_newtype! { impl Initializer<N> for L { _ } }",
   "let b = VBox::<N>::new(L(NInit(s::Init { n: 3, y: FillSequentially((|i| Rc::new(i as i32)) as fn(usize) -> Rc<i32>) }))); assert_eq!(*b.inner().refs().y[2], 2);")
nt("lifetimes_and_consts", ntdef("N2", "Array<&'a [T], u8>", "impl<('a), (T)> N2<('a), (T)>", "<('a), (T)>") + ntdef("N3", "Tup2<Array<[&'a [T]; N], u8>, N2<'a, T>>", "impl<('a), (T: 'a), (const N: usize)> N3<('a), (T), (N)>", "<('a), (T: 'a), (const N: usize)>"),
   "let v = [1u16, 2]; let b = VBox::<N3<'_, u16, 2>>::new(N3Init(tup2::Init(SizedInit(3u8, FillSequentially(|_| [&v[..]; 2])), N2Init(SizedInit(2u8, FillSequentially(|i| &v[i..])))))); assert_eq!((b.inner().refs().0[2][1][1], b.inner().refs().1.inner()[1]), (2, &[2u16][..]));")
nt("defaults_and_bounds", "pub trait Q { fn q(&self) -> usize; } impl Q for u8 { fn q(&self) -> usize { 4 } }\n" + ntdef("N", "Tup2<Array<T>, Array<U>>", "impl<(T: Copy + Q), (U: Clone)> N<(T), (U)>", "<(T: Copy + Q), (U: Clone = u16)>"),
   "let b = VBox::<N<u8>>::new(NInit(tup2::Init(SizedInit(3usize, FillSequentially(|i| i as u8)), SizedInit(2usize, FillSequentially(|i| i as u16))))); assert_eq!((b.inner().refs().0[2].q(), b.inner().refs().1[1]), (4, 1));")
nt("attributes", ntdef("N", "Str", attrs="/// Docs\n #[doc = \"x\"] #[must_use] #[allow(dead_code)]", iat="/// Docs\n #[must_use]", rat="/// Docs\n #[must_use] #[inline]", mat="/// Docs\n #[inline(never)]"),
   "let mut b = VBox::<N>::new(NInit(Str::copy(\"abc\"))); b.as_mut().inner_mut().mut_slice().make_ascii_uppercase(); assert_eq!(&b.inner()[..], \"ABC\");")
nt("private_parts", "mod inner { use super::*; " + ntdef("N", "Str", vis="pub(super)", iv="", ifv="", rv="", mv="") + "pub(super) fn go() -> usize { let b = VBox::<N>::new(NInit(Str::copy(\"abc\"))); b.inner().len() } pub(super) fn init(s: &str) -> impl Initializer<N> + '_ { NInit(Str::copy(s)) } }",
   "assert_eq!(inner::go(), 3); let b = VBox::<inner::N>::new(inner::init(\"hey\"));")
nt("visibilities", "pub mod a { pub mod b { use super::super::*; " + ntdef("N", "Str<u8>", vis="pub(crate)", fv="pub(in super::super)".replace("in super::super", "super"), iv="pub(crate) ", ifv="pub(super) ", rv="pub(crate) ", mv="pub(super) ") + "} pub fn go() -> usize { use super::*; let b = VBox::<b::N>::new(b::NInit(Str::<u8>::try_copy(\"abc\").unwrap())); b.0.len() + b.inner().len() } }",
   "assert_eq!(a::go(), 6);")
nt("odd_names", ntdef("R", "Str", init="r#type", ref="r#fn", mut="r#mut") + ntdef("Größe", "R", init="Größer", ref="länge", mut="längen"),
   "let b = VBox::<Größe>::new(Größer(r#type(Str::copy(\"abc\")))); assert_eq!(&b.länge().r#fn()[..], \"abc\");")
nt("macro_and_alias_types", "pub type Al<T> = Tup2<arr!(T), Str>;\n" + ntdef("N", "Al<T>", "impl<(T)> N<(T)>", "<(T)>") + ntdef("M", "arr!(N2<T>)".replace("N2<T>", "Box<T>"), "impl<(T)> M<(T)>", "<(T)>"),
   "let b = VBox::<N<u8>>::new(NInit(tup2::Init(SizedInit(3u8, FillSequentially(|i| i as u8)), Str::copy(\"k\")))); assert_eq!(&b.inner().refs().0[..], &[0, 1, 2]); let c = VBox::<M<u8>>::new(MInit(SizedInit(3u8, FillSequentially(|i| Box::new(i as u8))))); assert_eq!(*c.inner()[2], 2);")
nt("from_a_macro", "macro_rules! mk { ($n:ident, $i:ident, $t:ty) => { define_varlen_newtype! { #[repr(transparent)] pub struct $n($t); with init: pub struct $i<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } } }\nmk!(A, AI, Str); mk!(B, BI, A); mk!(C, CI, Tup2<B, Array<u8>>);",
   "let c = VBox::<C>::new(CI(tup2::Init(BI(AI(Str::copy(\"deep\"))), SizedInit(2usize, FillSequentially(|i| i as u8))))); assert_eq!((&c.inner().refs().0.inner().inner()[..], &c.inner().refs().1[..]), (\"deep\", &[0u8, 1][..]));")
nt("impls_on_top", ntdef("N", "Str", iv="", ifv="") + "impl N { pub fn from_str<'a>(s: &'a str) -> impl 'a + Initializer<Self> { NInit(Str::copy(s)) } } impl std::ops::Deref for N { type Target = str; fn deref(&self) -> &str { self.inner() } } impl std::fmt::Debug for N { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"{}!\", &self.inner()[..]) } }",
   "let b = VBox::<N>::new(N::from_str(\"abc\")); assert_eq!((b.len(), format!(\"{:?}\", *b)), (3, String::from(\"abc!\")));")


def c23():
    return [(n, None, t) for n, t in NT.items()]
