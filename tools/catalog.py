"""Programs that safe code must not be able to write (C24, C25) and definitions the macro must refuse (C26).

Every program is one text with two readings: with `--cfg hostile` it does the forbidden thing, without it it does
the nearest legitimate thing. The legitimate reading must compile and run clean; the hostile reading must be refused
by the compiler. Should it be accepted, it is executed under Miri, so that what it breaks is observed.
"""

HEAD = """#![allow(warnings)]
pub use varlen::prelude::*;
pub use varlen::array::{Array, SizedInit};
pub use varlen::array_init::*;
pub use varlen::seq::{Seq, IndexableSeq};
pub use varlen::{VarLen, Layout, Initializer, VClone, VCopy};
pub use bumpalo::Bump;
pub use std::pin::Pin;
pub use std::ptr::NonNull;
pub use std::cell::Cell;
"""

# name -> (definitions, type, initializer of size class i, sum of the contents)
TYPES = {
    "str": ("", "Str", 'Str::copy(["ab", "a longer text than that"][i])', "t.len() + t.bytes().map(|b| b as usize).sum::<usize>()"),
    "arr": ("", "Array<u16>", "SizedInit([2usize, 19][i], FillSequentially(|k| k as u16 + 7))", "t.len() + t.iter().map(|b| *b as usize).sum::<usize>()"),
    "arrs": ("", "Array<String, u8>", "SizedInit([2u8, 19][i], FillSequentially(|k| format!(\"text number {k} of these\")))",
             "t.len() + t.iter().map(|b| b.len()).sum::<usize>()"),
    "tup": ("", "Tup2<Array<u32>, Str<u8>>",
            'tup2::Init(SizedInit([1usize, 17][i], FillSequentially(|k| k as u32)), Str::<u8>::try_copy(["x", "yyyyyyyyyyyyyy"][i]).unwrap())',
            "t.refs().0.len() + t.refs().0.iter().map(|b| *b as usize).sum::<usize>() + t.refs().1.len()"),
    "strct": ("""
#[define_varlen]
pub struct S { #[controls_layout] pub n: u8, pub f: u32, #[varlen] pub s: Str, #[varlen_array] pub a: [u64; *n as usize] }
""", "S", 's::Init { n: [1u8, 18][i], f: 5, s: Str::copy(["abc", "a longer text than that"][i]), a: FillSequentially(|k| k as u64) }',
              "t.n as usize + t.refs().a.iter().map(|b| *b as usize).sum::<usize>() + t.refs().s.len()"),
    "newt": ("""
mod nt { use super::*; define_varlen_newtype! { #[repr(transparent)] pub struct N(Tup2<Array<u32>, Str<u8>>); with init: pub struct NInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } }
pub use nt::*;
""", "N", 'NInit(tup2::Init(SizedInit([1usize, 17][i], FillSequentially(|k| k as u32)), Str::<u8>::try_copy(["x", "yyyyyyyyyyyyyy"][i]).unwrap()))',
             "t.inner().refs().0.len() + t.inner().refs().0.iter().map(|b| *b as usize).sum::<usize>() + t.inner().refs().1.len()"),
    "gen": ("""
#[define_varlen]
pub struct G<A: Copy + Into<u64>, const K: usize> where A: 'static { pub first: A, #[controls_layout] pub n: u16, #[varlen_array] pub a: [A; *n as usize + K], #[varlen] pub v: Array<A, u8> }
""", "G<u32, 2>", 'g::Init { first: 5u32, n: [1u16, 18][i], a: FillSequentially(|k| k as u32), v: SizedInit([0u8, 9][i], FillSequentially(|k| k as u32)) }',
            "t.n as usize + t.refs().a.iter().map(|b| *b as usize).sum::<usize>() + t.refs().v.len()"),
}


def head(ty):
    defs, t, init, s = TYPES[ty]
    return HEAD + defs + """
pub type T = %s;
pub fn mk(i: usize) -> impl Initializer<T> { %s }
pub fn sum(t: &T) -> usize { %s }
pub fn seq2() -> Seq<T> { let mut s = Seq::new(); s.push(mk(0)); s.push(mk(1)); s.push(mk(0)); s }
pub fn iseq2() -> IndexableSeq<T> { let mut s = IndexableSeq::new_indexable(); s.push(mk(0)); s.push(mk(1)); s.push(mk(0)); s }
pub fn text() -> String { String::from("some text that lives on the heap") }
""" % (t, init, s)


# Over every type. `H {...}` is the hostile reading of a statement, `L {...}` the legitimate one.
OVER_TYPES = {
    # -- separating header and tail
    "move_out_of_box": "let b = VBox::<T>::new(mk(1)); H{ let x: T = *b; std::mem::forget(sum(&x)); std::mem::forget(x); } L{ let x: &T = &*b; sum(x); }",
    "move_out_of_seq": "let s = seq2(); H{ let x: T = *s.iter().nth(1).unwrap(); sum(&x); std::mem::forget(x); } L{ let x: &T = s.iter().nth(1).unwrap(); sum(x); }",
    "move_out_of_arena": "let bump = Bump::new(); let b = Owned::<T>::new_in(mk(1), &bump); H{ let x: T = *b; sum(&x); std::mem::forget(x); } L{ let x: &T = &*b; sum(x); }",
    "swap_boxes": "let mut a = VBox::<T>::new(mk(0)); let mut b = VBox::<T>::new(mk(1)); H{ std::mem::swap(&mut *a.as_mut(), &mut *b.as_mut()); } L{ std::mem::swap(&mut a, &mut b); } sum(&a); sum(&b);",
    "swap_owned": "let bump = Bump::new(); let mut a = Owned::<T>::new_in(mk(0), &bump); let mut b = Owned::<T>::new_in(mk(1), &bump); H{ std::mem::swap(&mut *a.as_mut(), &mut *b.as_mut()); } L{ std::mem::swap(&mut a, &mut b); } sum(&a); sum(&b);",
    "swap_seq_elems": "let mut s = seq2(); let mut it = s.iter_mut(); let (mut a, mut b) = (it.next().unwrap(), it.next().unwrap()); H{ std::mem::swap(&mut *a, &mut *b); } L{ std::mem::swap(&mut a, &mut b); } sum(&a); sum(&b);",
    "swap_indexed": "let mut s = iseq2(); let o = s.iter().map(|e| s.offset_of(e)).collect::<Vec<_>>(); let mut b = VBox::<T>::new(mk(1)); { let mut p = s.from_offset_mut(o[0]); H{ std::mem::swap(&mut *p, &mut *b.as_mut()); } L{ sum(&p); } } sum(&b);",
    "swap_in_tuple": "let mut a = VBox::<Tup2<T, T>>::new(tup2::Init(mk(0), mk(1))); { let mut m = a.as_mut().muts(); H{ std::mem::swap(&mut *m.0, &mut *m.1); } L{ std::mem::swap(&mut m.0, &mut m.1); } } sum(a.refs().0); sum(a.refs().1);",
    "get_mut": "let mut a = VBox::<T>::new(mk(0)); H{ let x: &mut T = a.as_mut().get_mut(); } L{ let x: Pin<&mut T> = a.as_mut(); } sum(&x);",
    "deref_mut_box": "let mut a = VBox::<T>::new(mk(0)); H{ let x: &mut T = &mut *a; } L{ let x: &T = &*a; } sum(&x);",
    "deref_mut_owned": "let bump = Bump::new(); let mut a = Owned::<T>::new_in(mk(0), &bump); H{ let x: &mut T = &mut *a; } L{ let x: &T = &*a; } sum(&x);",
    "deref_mut_elem": "let mut s = seq2(); H{ let x: &mut T = s.iter_mut().next().unwrap().get_mut(); } L{ let x: Pin<&mut T> = s.iter_mut().next().unwrap(); } sum(&x);",
    "needs_unpin": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Unpin> X2 for X {} } L{ impl<X: VarLen> X2 for X {} } need::<T>();",
    "needs_clone": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Clone> X2 for X {} } L{ impl<X: for<'a> VClone<'a>> X2 for X {} } H{ need::<T>(); } L{ need::<Str>(); }",
    "needs_default": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Default> X2 for X {} } L{ impl<X: VarLen> X2 for X {} } need::<T>();",
    "needs_copy_owned": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Copy> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<Owned<'static, T>>();",
    "clone_owned": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Clone> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<Owned<'static, T>>();",
    "copy_box": "let a = VBox::<T>::new(mk(0)); H{ let b = a; } L{ let b = VBox::<T>::new(mk(0)); } sum(&a); sum(&b);",
    "clone_marker": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Clone> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<varlen::marker::FieldMarker<T>>();",
    "clone_array_marker": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Clone> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<varlen::marker::ArrayMarker<u8>>();",
    "default_marker": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Default> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<varlen::marker::FieldMarker<T>>();",
    "default_array_marker": "fn need<X: X2>() {} trait X2 {} H{ impl<X: Default> X2 for X {} } L{ impl<X: Sized> X2 for X {} } need::<varlen::marker::ArrayMarker<u8>>();",
    "make_marker": "let m: varlen::marker::FieldMarker<T> = H{ varlen::marker::FieldMarker::new_unchecked() } L{ unsafe { varlen::marker::FieldMarker::new_unchecked() } }; std::mem::forget(m);",
    "make_array_marker": "let m: varlen::marker::ArrayMarker<u8> = H{ varlen::marker::ArrayMarker::new_unchecked() } L{ unsafe { varlen::marker::ArrayMarker::new_unchecked() } }; std::mem::forget(m);",
    "make_tuple": "let a = VBox::<Tup2<T, T>>::new(tup2::Init(mk(0), mk(1))); H{ let b = varlen::tuple::Tup2(a.0, a.1); std::mem::forget(b); } L{ let b = (&a.0, &a.1); }",
    "box_as_sized": "let a = VBox::<T>::new(mk(1)); H{ let b: Box<T> = Box::new(*a); sum(&b); std::mem::forget(b); } L{ let b: Box<&T> = Box::new(&*a); sum(&b); }",
    "vec_of_headers": "let a = VBox::<T>::new(mk(1)); H{ let mut v: Vec<T> = Vec::new(); v.push(*a); std::mem::forget(v); } L{ let mut v: Vec<VBox<T>> = Vec::new(); v.push(a); sum(&v[0]); }",
    # -- unsafe interface needs unsafe
    "box_into_raw": "let a = VBox::<T>::new(mk(1)); let p = H{ a.into_raw() } L{ unsafe { a.into_raw() } }; drop(unsafe { VBox::<T>::from_raw(p) });",
    "box_from_raw": "let a = VBox::<T>::new(mk(1)); let p = unsafe { a.into_raw() }; drop(H{ VBox::<T>::from_raw(p) } L{ unsafe { VBox::<T>::from_raw(p) } });",
    "owned_into_raw": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let p = H{ a.into_raw() } L{ unsafe { a.into_raw() } }; drop(unsafe { Owned::<T>::from_raw(p) });",
    "owned_from_raw": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let p = unsafe { a.into_raw() }; drop(H{ Owned::<T>::from_raw(p) } L{ unsafe { Owned::<T>::from_raw(p) } });",
    "seq_unchecked": "let s = seq2(); let o = s.offset_of(s.iter().nth(1).unwrap()); sum(H{ s.from_offset_unchecked(o) } L{ unsafe { s.from_offset_unchecked(o) } });",
    "seq_unchecked_mut": "let mut s = seq2(); let o = s.offset_of(s.iter().nth(1).unwrap()); let m: Pin<&mut T> = H{ s.from_offset_unchecked_mut(o) } L{ unsafe { s.from_offset_unchecked_mut(o) } }; sum(&m);",
    "vdrop": "let mut b = VBox::<T>::new(mk(0)); let l = b.calculate_layout(); H{ b.as_mut().vdrop(l); } L{ unsafe { b.as_mut().vdrop(l); std::mem::forget(b); } }",
    "initialize": "let i = mk(0); let l = i.calculate_layout_cautious().unwrap(); let mut v = vec![0u64; 64]; let p = NonNull::new(v.as_mut_ptr() as *mut T).unwrap(); H{ i.initialize(p, l); } L{ unsafe { i.initialize(p, l); drop(Owned::<T>::from_raw(p)); } }",
    "impl_varlen": "struct X; struct L; impl Layout for L { fn size(&self) -> usize { 1000 } } H{ impl VarLen for X { type Layout = L; fn calculate_layout(&self) -> L { L } const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; unsafe fn vdrop(self: Pin<&mut Self>, _: L) {} } } L{ unsafe impl VarLen for X { type Layout = L; fn calculate_layout(&self) -> L { L } const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; unsafe fn vdrop(self: Pin<&mut Self>, _: L) {} } }",
    "impl_initializer": "struct X; H{ impl Initializer<T> for X { fn calculate_layout_cautious(&self) -> Option<<T as VarLen>::Layout> { None } unsafe fn initialize(self, _: NonNull<T>, _: <T as VarLen>::Layout) {} } } L{ unsafe impl Initializer<T> for X { fn calculate_layout_cautious(&self) -> Option<<T as VarLen>::Layout> { None } unsafe fn initialize(self, _: NonNull<T>, _: <T as VarLen>::Layout) {} } }",
    # -- one owner
    "box_used_after_init": "let a = VBox::<T>::new(mk(1)); let mut s = Seq::<T>::new(); s.push(a); H{ sum(&a); } L{ sum(s.iter().next().unwrap()); }",
    "owned_used_after_init": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let mut s = Seq::<T>::new(); s.push(a); H{ sum(&a); } L{ sum(s.iter().next().unwrap()); }",
    "elem_used_after_init": "let mut q = seq2(); let a = q.take_elems().nth(1).unwrap(); let b = VBox::<T>::new(a); H{ sum(&a); } L{ sum(&b); }",
    "leak_twice": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let p = a.leak(); H{ let q = a.leak(); sum(&q); } L{ let q = &p; } sum(&p);",
    # -- exclusive access
    "box_shared_then_mut": "let mut a = VBox::<T>::new(mk(1)); let r: &T = &a; let m = H{ a.as_mut() } L{ &a }; sum(&m); sum(r);",
    "box_two_muts": "let mut a = VBox::<T>::new(mk(1)); let m = a.as_mut(); H{ let n = a.as_mut(); sum(&n); } sum(&m);",
    "box_mut_then_drop": "let mut a = VBox::<T>::new(mk(1)); let m = a.as_mut(); H{ drop(a); } sum(&m);",
    "box_drop_while_shared": "let a = VBox::<T>::new(mk(1)); let r: &T = &a; H{ drop(a); } sum(r);",
    "box_moved_while_shared": "let a = VBox::<T>::new(mk(1)); let r: &T = &a; let mut s = Seq::<T>::new(); H{ s.push(a); drop(s); } sum(r);",
    "owned_two_muts": "let bump = Bump::new(); let mut a = Owned::<T>::new_in(mk(1), &bump); let m = a.as_mut(); H{ let n = a.as_mut(); sum(&n); } sum(&m);",
    "owned_shared_then_mut": "let bump = Bump::new(); let mut a = Owned::<T>::new_in(mk(1), &bump); let r: &T = &a; let m = H{ a.as_mut() } L{ &a }; sum(&m); sum(r);",
    "owned_drop_while_shared": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let r: &T = &a; H{ drop(a); } sum(r);",
    "owned_leak_while_shared": "let bump = Bump::new(); let a = Owned::<T>::new_in(mk(1), &bump); let r: &T = &a; H{ let m = a.leak(); sum(&m); } sum(r);",
    "box_mut_through_shared": "let a = VBox::<T>::new(mk(1)); fn f(a: H{ &VBox<T> } L{ &mut VBox<T> }) -> Pin<&mut T> { a.as_mut() }",
    "owned_mut_through_shared": "fn f<'a>(a: H{ &'a Owned<'_, T> } L{ &'a mut Owned<'_, T> }) -> Pin<&'a mut T> { a.as_mut() }",
    "seq_push_through_shared": "let s = seq2(); fn f(s: H{ &Seq<T> } L{ &mut Seq<T> }) { s.push(mk(1)) }",
    "seq_iter_mut_through_shared": "fn f(s: H{ &Seq<T> } L{ &mut Seq<T> }) -> usize { s.iter_mut().count() }",
    "seq_take_through_shared": "fn f(s: H{ &Seq<T> } L{ &mut Seq<T> }) -> usize { s.take_elems().count() }",
    "iseq_mut_through_shared": "fn f(s: H{ &IndexableSeq<T> } L{ &mut IndexableSeq<T> }) -> usize { sum(&s.from_offset_mut(0)) }",
    "seq_push_while_elem": "let mut s = seq2(); let r = s.iter().next().unwrap(); H{ for _ in 0..40 { s.push(mk(1)); } } sum(r);",
    "seq_push_while_iter": "let mut s = seq2(); let mut it = s.iter(); H{ for _ in 0..40 { s.push(mk(1)); } } sum(it.next().unwrap());",
    "seq_push_while_iter_mut": "let mut s = seq2(); let mut it = s.iter_mut(); H{ for _ in 0..40 { s.push(mk(1)); } } sum(&it.next().unwrap());",
    "seq_push_while_elem_mut": "let mut s = seq2(); let m = s.iter_mut().next().unwrap(); H{ for _ in 0..40 { s.push(mk(1)); } } sum(&m);",
    "seq_extend_while_elem": "let mut s = seq2(); let r = s.iter().next().unwrap(); H{ s.extend((0..40).map(|_| mk(1))); } sum(r);",
    "seq_iter_during_iter_mut": "let mut s = seq2(); let m = s.iter_mut().next().unwrap(); H{ let r = s.iter().next().unwrap(); sum(r); } sum(&m);",
    "seq_two_iter_mut": "let mut s = seq2(); let mut it = s.iter_mut(); H{ let mut jt = s.iter_mut(); sum(&jt.next().unwrap()); } sum(&it.next().unwrap());",
    "seq_iter_mut_during_iter": "let mut s = seq2(); let r = s.iter().next().unwrap(); H{ sum(&s.iter_mut().next().unwrap()); } sum(r);",
    "seq_take_while_elem": "let mut s = seq2(); let r = s.iter().next().unwrap(); H{ s.take_elems().for_each(drop); } sum(r);",
    "seq_push_while_taking": "let mut s = seq2(); let mut t = s.take_elems(); H{ s.push(mk(1)); } sum(&t.next().unwrap());",
    "seq_push_while_taken_elem": "let mut s = seq2(); let e = s.take_elems().next().unwrap(); H{ s.push(mk(1)); } sum(&e);",
    "seq_take_twice": "let mut s = seq2(); let mut t = s.take_elems(); H{ let mut u = s.take_elems(); u.next(); } sum(&t.next().unwrap());",
    "seq_iter_while_taking": "let mut s = seq2(); let mut t = s.take_elems(); H{ s.iter().count(); } sum(&t.next().unwrap());",
    "seq_drop_while_iter": "let mut s = seq2(); let mut it = s.iter(); H{ drop(s); } sum(it.next().unwrap());",
    "seq_drop_while_taken": "let mut s = seq2(); let e = s.take_elems().next().unwrap(); H{ drop(s); } sum(&e);",
    "seq_assign_while_iter": "let mut s = seq2(); let mut it = s.iter(); H{ s = Seq::new(); } sum(it.next().unwrap());",
    "iseq_push_while_ref": "let mut s = iseq2(); let r = s.from_offset(0); H{ for _ in 0..40 { s.push(mk(1)); } } sum(r);",
    "iseq_two_refs_mut": "let mut s = iseq2(); let r = s.from_offset_mut(0); H{ let q = s.from_offset_mut(0); sum(&q); } sum(&r);",
    "iseq_ref_and_mut": "let mut s = iseq2(); let r = s.from_offset(0); H{ let q = s.from_offset_mut(0); sum(&q); } sum(r);",
    "iter_mut_limited_twice": "let mut s = seq2(); let it = s.iter_mut(); let mut a = it.limited_to(1); H{ let mut b = it.limited_to(1); sum(&b.next().unwrap()); } sum(&a.next().unwrap());",
    "iter_mut_clone": "let mut s = seq2(); H{ let it = s.iter_mut(); let mut b = it.clone(); let mut a = it; sum(&b.next().unwrap()); } L{ let mut a = s.iter_mut(); } sum(&a.next().unwrap());",
    "taken_clone": "let mut s = seq2(); H{ let it = s.take_elems(); let mut b = it.clone(); let mut a = it; sum(&b.next().unwrap()); } L{ let mut a = s.take_elems(); } sum(&a.next().unwrap());",
    # -- lifetimes
    "box_ref_outlives": "let keep: &T; let b = VBox::<T>::new(mk(1)); H{ { let c = VBox::<T>::new(mk(1)); keep = &c; } } L{ keep = &b; } sum(keep);",
    "box_mut_outlives": "let keep: Pin<&mut T>; let mut b = VBox::<T>::new(mk(1)); H{ { let mut c = VBox::<T>::new(mk(1)); keep = c.as_mut(); } } L{ keep = b.as_mut(); } sum(&keep);",
    "seq_ref_outlives": "let keep: &T; let s = seq2(); H{ { let q = seq2(); keep = q.iter().nth(1).unwrap(); } } L{ keep = s.iter().nth(1).unwrap(); } sum(keep);",
    "seq_mut_outlives": "let keep: Pin<&mut T>; let mut s = seq2(); H{ { let mut q = seq2(); keep = q.iter_mut().nth(1).unwrap(); } } L{ keep = s.iter_mut().nth(1).unwrap(); } sum(&keep);",
    "iseq_ref_outlives": "let keep: &T; let s = iseq2(); H{ { let q = iseq2(); keep = q.from_offset(0); } } L{ keep = s.from_offset(0); } sum(keep);",
    "iseq_mut_outlives": "let keep: Pin<&mut T>; let mut s = iseq2(); H{ { let mut q = iseq2(); keep = q.from_offset_mut(0); } } L{ keep = s.from_offset_mut(0); } sum(&keep);",
    "taken_outlives": "let mut s = seq2(); let keep: Owned<T>; H{ { let mut q = seq2(); keep = q.take_elems().nth(1).unwrap(); } } L{ keep = s.take_elems().nth(1).unwrap(); } sum(&keep);",
    "taken_leak_outlives": "let keep: Pin<&mut T>; let mut s = seq2(); H{ { let mut q = seq2(); keep = q.take_elems().nth(1).unwrap().leak(); } } L{ keep = s.take_elems().nth(1).unwrap().leak(); } sum(&keep);",
    "arena_outlived": "let bump = Bump::new(); let keep: Owned<T>; H{ { let b2 = Bump::new(); keep = Owned::new_in(mk(1), &b2); } } L{ keep = Owned::new_in(mk(1), &bump); } sum(&keep);",
    "arena_outlived_leaked": "let keep: Pin<&mut T>; let bump = Bump::new(); H{ { let b2 = Bump::new(); keep = Owned::<T>::new_in(mk(1), &b2).leak(); } } L{ keep = Owned::<T>::new_in(mk(1), &bump).leak(); } sum(&keep);",
    "arena_reset": "let mut bump = Bump::new(); let b = Owned::<T>::new_in(mk(1), &bump); H{ bump.reset(); let c = Owned::<T>::new_in(mk(0), &bump); std::mem::forget(c); } sum(&b);",
    "arena_reset_leaked": "let mut bump = Bump::new(); let b = Owned::<T>::new_in(mk(1), &bump).leak(); H{ bump.reset(); let c = Owned::<T>::new_in(mk(0), &bump); std::mem::forget(c); } sum(&b);",
    "owned_ref_outlives": "let bump = Bump::new(); let keep: &T; let a = Owned::<T>::new_in(mk(1), &bump); H{ { let b = Owned::<T>::new_in(mk(1), &bump); keep = &b; } } L{ keep = &a; } sum(keep);",
    "owned_mut_outlives": "let bump = Bump::new(); let keep: Pin<&mut T>; let mut a = Owned::<T>::new_in(mk(1), &bump); H{ { let mut b = Owned::<T>::new_in(mk(1), &bump); keep = b.as_mut(); } } L{ keep = a.as_mut(); } sum(&keep);",
    "longer_box": "fn f<'a, 'b>(x: &'a VBox<T>, y: &'b VBox<T>) -> H{ &'b T } L{ &'a T } { &**x }",
    "longer_box_mut": "fn f<'a, 'b>(x: &'a mut VBox<T>, y: &'b VBox<T>) -> H{ Pin<&'b mut T> } L{ Pin<&'a mut T> } { x.as_mut() }",
    "longer_iter": "fn f<'a, 'b>(x: &'a Seq<T>, y: &'b Seq<T>) -> H{ &'b T } L{ &'a T } { x.iter().next().unwrap() }",
    "longer_iter_mut": "fn f<'a, 'b>(x: &'a mut Seq<T>, y: &'b Seq<T>) -> H{ Pin<&'b mut T> } L{ Pin<&'a mut T> } { x.iter_mut().next().unwrap() }",
    "longer_limited": "fn f<'a, 'b>(x: varlen::seq::Iter<'a, T>, y: &'b Seq<T>) -> H{ varlen::seq::Iter<'b, T> } L{ varlen::seq::Iter<'a, T> } { x.limited_to(1) }",
    "longer_taken": "fn f<'a, 'b>(x: &'a mut Seq<T>, y: &'b Seq<T>) -> H{ Owned<'b, T> } L{ Owned<'a, T> } { x.take_elems().next().unwrap() }",
    "longer_taken_iter": "fn f<'a, 'b>(x: &'a mut Seq<T>, y: &'b Seq<T>) -> H{ varlen::seq::OwnedElems<'b, T> } L{ varlen::seq::OwnedElems<'a, T> } { x.take_elems() }",
    "longer_from_offset": "fn f<'a, 'b>(x: &'a IndexableSeq<T>, y: &'b IndexableSeq<T>) -> H{ &'b T } L{ &'a T } { x.from_offset(0) }",
    "longer_from_offset_mut": "fn f<'a, 'b>(x: &'a mut IndexableSeq<T>, y: &'b IndexableSeq<T>) -> H{ Pin<&'b mut T> } L{ Pin<&'a mut T> } { x.from_offset_mut(0) }",
    "longer_owned": "fn f<'a, 'b>(x: Owned<'a, T>, y: &'b u8) -> H{ Owned<'b, T> } L{ Owned<'a, T> } { x }",
    "longer_owned_ref": "fn f<'a, 'b>(x: &'a Owned<'b, T>) -> H{ &'b T } L{ &'a T } { &**x }",
    "longer_owned_mut": "fn f<'a, 'b>(x: &'a mut Owned<'b, T>) -> H{ Pin<&'b mut T> } L{ Pin<&'a mut T> } { x.as_mut() }",
    "longer_leak": "fn f<'a>(x: Owned<'a, T>) -> H{ Pin<&'static mut T> } L{ Pin<&'a mut T> } { x.leak() }",
    "longer_arena": "fn f<'a>(b: &'a Bump) -> H{ Owned<'static, T> } L{ Owned<'a, T> } { Owned::new_in(mk(0), b) }",
    "longer_tuple_refs": "fn f<'a, 'b>(x: &'a Tup2<T, T>, y: &'b T) -> H{ &'b T } L{ &'a T } { x.refs().1 }",
    "longer_tuple_muts": "fn f<'a, 'b>(x: Pin<&'a mut Tup2<T, T>>, y: &'b T) -> H{ Pin<&'b mut T> } L{ Pin<&'a mut T> } { x.muts().1 }",
    "tuple_muts_twice": "let mut a = VBox::<Tup2<T, T>>::new(tup2::Init(mk(0), mk(1))); let m = a.as_mut().muts(); H{ let n = a.as_mut().muts(); sum(&n.0); } sum(&m.0);",
    "seq_of_refs_outlives": "let t = text(); let mut s: Seq<Tup2<T, FixedLen<&str>>> = Seq::new(); H{ { let u = text(); s.push(tup2::Init(mk(0), FixedLen(&u[..]))); } } L{ s.push(tup2::Init(mk(0), FixedLen(&t[..]))); } for e in s.iter() { e.refs().1.0.len(); }",
    "dropck_box": "struct D<'a>(&'a String); impl Drop for D<'_> { fn drop(&mut self) { std::hint::black_box(self.0.bytes().map(|b| b as usize).sum::<usize>()); } } L{ let t = text(); } let b: VBox<Tup2<T, FixedLen<D>>>; H{ let t = text(); } b = VBox::new(tup2::Init(mk(0), FixedLen(D(&t))));",
    "dropck_seq": "struct D<'a>(&'a String); impl Drop for D<'_> { fn drop(&mut self) { std::hint::black_box(self.0.bytes().map(|b| b as usize).sum::<usize>()); } } L{ let t = text(); } let mut b: Seq<Tup2<T, FixedLen<D>>> = Seq::new(); H{ let t = text(); } b.push(tup2::Init(mk(0), FixedLen(D(&t))));",
    "dropck_owned": "struct D<'a>(&'a String); impl Drop for D<'_> { fn drop(&mut self) { std::hint::black_box(self.0.bytes().map(|b| b as usize).sum::<usize>()); } } let bump = Bump::new(); L{ let t = text(); } let b: Owned<Tup2<T, FixedLen<D>>>; H{ let t = text(); } b = Owned::new_in(tup2::Init(mk(0), FixedLen(D(&t))), &bump);",
    "shrink_iter_mut": "fn f<'a, 'b, 'c: 'b>(x: &'a mut Seq<FixedLen<&'c T>>, y: &'b T) { H{ let it: varlen::seq::IterMut<'_, FixedLen<&'b T>> = x.iter_mut(); for mut e in it { e.0 = y; } } L{ let it: varlen::seq::IterMut<'_, FixedLen<&'c T>> = x.iter_mut(); it.count(); } }",
    "shrink_as_mut": "fn f<'a, 'b, 'c: 'b>(x: &'a mut VBox<FixedLen<&'c T>>, y: &'b T) { H{ let mut m: Pin<&mut FixedLen<&'b T>> = x.as_mut(); m.0 = y; } L{ let m: Pin<&mut FixedLen<&'c T>> = x.as_mut(); sum(m.0); } }",
    "shrink_from_offset_mut": "fn f<'a, 'b, 'c: 'b>(x: &'a mut IndexableSeq<FixedLen<&'c T>>, y: &'b T) { H{ let mut m: Pin<&mut FixedLen<&'b T>> = x.from_offset_mut(0); m.0 = y; } L{ let m: Pin<&mut FixedLen<&'c T>> = x.from_offset_mut(0); sum(m.0); } }",
}

# Over single types: (head type, body).
SINGLE = {
    "arr_index_mut_through_box": ("arr", "let mut a = VBox::<T>::new(mk(0)); H{ a[0] = 9; } L{ a.as_mut().mut_slice()[0] = 9; } sum(&a);"),
    "arr_len_set": ("arr", "let mut a = VBox::<T>::new(mk(0)); H{ a.as_mut().len = 99; } L{ a.len(); } sum(&a);"),
    "arr_len_read_private": ("arr", "let a = VBox::<T>::new(mk(0)); let l: usize = H{ a.len } L{ a.len() }; assert_eq!(l, 2);"),
    "arr_slice_outlives": ("arr", "let keep: &[u16]; let b = VBox::<T>::new(mk(1)); H{ { let c = VBox::<T>::new(mk(1)); keep = &c[..]; } } L{ keep = &b[..]; } keep.iter().count();"),
    "arr_slice_mut_twice": ("arr", "let mut a = VBox::<T>::new(mk(1)); let m = a.as_mut().mut_slice(); H{ let n = a.as_mut().mut_slice(); n[0] = 1; } m[0] = 2; sum(&a);"),
    "arr_slice_while_shared": ("arr", "let mut a = VBox::<T>::new(mk(1)); let m = &a[..]; H{ a.as_mut().mut_slice()[0] = 1; } assert!(m[0] == 7);"),
    "arr_longer_slice": ("arr", "fn f<'a, 'b>(x: &'a T, y: &'b T) -> H{ &'b [u16] } L{ &'a [u16] } { &x[..] }"),
    "arr_longer_mut": ("arr", "fn f<'a, 'b>(x: Pin<&'a mut T>, y: &'b T) -> H{ &'b mut [u16] } L{ &'a mut [u16] } { x.mut_slice() }"),
    "arr_shrink_mut": ("arr", "fn f<'a, 'b, 'c: 'b>(x: Pin<&'a mut Array<&'c str>>, y: &'b str) { H{ let m: &mut [&'b str] = x.mut_slice(); m[0] = y; } L{ let m: &mut [&'c str] = x.mut_slice(); m.len(); } }"),
    "arr_copy_needs_copy": ("arrs", "let v = vec![text(), text()]; let a: VBox<Array<String>> = VBox::new(H{ Array::copy(&v) } L{ Array::clone_from_slice(&v) }); drop(v); assert_eq!(a.len(), 2);"),
    "arr_copyfrom_needs_copy": ("arrs", "let v = vec![text(), text()]; let a: VBox<Array<String>> = VBox::new(SizedInit(2, H{ CopyFrom(&v[..]) } L{ CloneFrom(&v[..]) })); drop(v); assert_eq!(a.len(), 2);"),
    "arr_vcopy_needs_copy": ("arrs", "let a = VBox::<T>::new(mk(1)); let b = VBox::<T>::new(H{ a.vcopy() } L{ a.vclone() }); drop(a); sum(&b);"),
    "arr_source_outlives": ("arr", "let keep: &[u16]; let w = vec![1u16, 2, 3]; let init = { H{ let v = vec![1u16, 2, 3]; Array::copy(&v) } L{ Array::copy(&w) } }; sum(&VBox::<T>::new(init));"),
    "arr_clone_source_outlives": ("arrs", "let w = vec![text(), text()]; let init = { H{ let v = vec![text(), text()]; Array::<String, u8>::try_clone_from_slice(&v).unwrap() } L{ Array::<String, u8>::try_clone_from_slice(&w).unwrap() } }; sum(&VBox::<T>::new(init));"),
    "arr_cloner_outlives": ("arrs", "let b = VBox::<T>::new(mk(1)); let init = { H{ let c = VBox::<T>::new(mk(1)); c.vclone() } L{ b.vclone() } }; sum(&VBox::<T>::new(init));"),
    "arr_copier_outlives": ("arr", "let b = VBox::<T>::new(mk(1)); let init = { H{ let c = VBox::<T>::new(mk(1)); c.vcopy() } L{ b.vcopy() } }; sum(&VBox::<T>::new(init));"),
    "arr_cloner_while_mut": ("arrs", "let mut b = VBox::<T>::new(mk(1)); let init = b.vclone(); H{ b.as_mut().mut_slice()[0] = text(); } sum(&VBox::<T>::new(init));"),
    "arr_len_type": ("arr", "struct L2; let a = VBox::<Array<u16, H{ i8 } L{ u8 }>>::new(SizedInit(2, FillWithDefault)); a.len();"),
    "arr_impl_len": ("arr", "#[derive(Clone, Copy)] struct L2; H{ impl varlen::array::ArrayLen for L2 { fn as_usize(self) -> usize { 1000 } fn from_usize(_: usize) -> Option<Self> { Some(L2) } } }"),
    "arr_wrong_elem": ("arr", "let a = VBox::<T>::new(SizedInit(2, H{ FillSequentially(|k| k as u64) } L{ FillSequentially(|k| k as u16) })); sum(&a);"),
    "arr_impl_initializer": ("arr", "struct X; H{ impl ArrayInitializer<u16> for X { fn initialize(self, _: &mut [std::mem::MaybeUninit<u16>]) {} } } L{ unsafe impl ArrayInitializer<u16> for X { fn initialize(self, _: &mut [std::mem::MaybeUninit<u16>]) { panic!() } } }"),
    "str_bytes_mut": ("str", "let mut a = VBox::<T>::new(mk(0)); let m: H{ &mut [u8] } L{ &mut str } = a.as_mut().mut_slice(); H{ m[0] = 0xff; } L{ m.make_ascii_uppercase(); } std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_from_bytes": ("str", "let a = VBox::<T>::new(H{ SizedInit(2, FillSequentially(|_| 0xffu8)) } L{ Str::copy(\"ab\") }); std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_from_array": ("str", "let b = VBox::<Array<u8>>::new(SizedInit(2, FillSequentially(|_| 0xffu8))); let a = VBox::<T>::new(H{ b } L{ Str::copy(\"ab\") }); std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_copy_bytes": ("str", "let a = VBox::<T>::new(Str::copy(H{ &[0xffu8, 0xfe][..] } L{ \"ab\" })); std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_inner_array": ("str", "let mut a = VBox::<T>::new(mk(0)); H{ let m: Pin<&mut Array<u8>> = unsafe { std::mem::zeroed::<Option<Pin<&mut Array<u8>>>>() }.unwrap_or(a.as_mut().0); } a.len();"),
    "str_inner_mut": ("str", "let mut a = VBox::<T>::new(mk(0)); H{ let m: Pin<&mut Array<u8>> = a.as_mut().inner_mut(); m.mut_slice()[0] = 0xff; } L{ a.as_mut().mut_slice(); } std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_mut_twice": ("str", "let mut a = VBox::<T>::new(mk(0)); let m = a.as_mut().mut_slice(); H{ let n = a.as_mut().mut_slice(); n.len(); } m.make_ascii_uppercase(); sum(&a);"),
    "str_outlives": ("str", "let keep: &str; let b = VBox::<T>::new(mk(1)); H{ { let c = VBox::<T>::new(mk(1)); keep = &c[..]; } } L{ keep = &b[..]; } keep.chars().count();"),
    "str_source_outlives": ("str", "let t = text(); let init = { H{ let u = text(); Str::copy(&u) } L{ Str::copy(&t) } }; sum(&VBox::<T>::new(init));"),
    "str_try_source_outlives": ("str", "let t = text(); let init = { H{ let u = text(); Str::<u8>::try_copy(&u) } L{ Str::<u8>::try_copy(&t) } }; VBox::<Str<u8>>::new(init.unwrap()).len();"),
    "str_longer": ("str", "fn f<'a, 'b>(x: &'a T, y: &'b T) -> H{ &'b str } L{ &'a str } { &x[..] }"),
    "str_longer_mut": ("str", "fn f<'a, 'b>(x: Pin<&'a mut T>, y: &'b T) -> H{ &'b mut str } L{ &'a mut str } { x.mut_slice() }"),
    "str_cloner_outlives": ("str", "let b = VBox::<T>::new(mk(1)); let init = { H{ let c = VBox::<T>::new(mk(1)); c.vclone() } L{ b.vclone() } }; sum(&VBox::<T>::new(init));"),
    "str_init_make": ("str", "let i = H{ varlen::str::StrInit(SizedInit(2, FillSequentially(|_| 0xffu8))) } L{ Str::copy(\"ab\") }; let a = VBox::<T>::new(i); std::str::from_utf8(a.as_bytes()).unwrap();"),
    "str_layout_make": ("str", "let b = VBox::<T>::new(mk(0)); H{ let l: <T as VarLen>::Layout = varlen::array::ArrayLayout { array_offset: 0, array_len: 100, size: 0 }; } L{ let l = b.calculate_layout(); } l.size();"),
    "strct_set_controller_mut": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ *a.as_mut().muts().n = 100; } L{ *a.as_mut().muts().f = 100; } sum(&a);"),
    "strct_set_controller_pin": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ a.as_mut().n = 100; } L{ a.as_mut(); } sum(&a);"),
    "strct_set_fixed_pin": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ a.as_mut().f = 100; } L{ *a.as_mut().muts().f = 100; } sum(&a);"),
    "strct_set_refs": ("strct", "let a = VBox::<T>::new(mk(0)); H{ *a.refs().n = 100; } L{ *a.refs().n; } sum(&a);"),
    "strct_set_through_refs_array": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ a.refs().a[0] = 5; } L{ a.as_mut().muts().a[0] = 5; } sum(&a);"),
    "strct_literal": ("strct", "let a = VBox::<T>::new(mk(0)); H{ let b = S { n: 100, f: 1, s: a.s, a: a.a }; sum(&b); std::mem::forget(b); } L{ let b = (&a.s, &a.a); }"),
    "strct_update": ("strct", "let a = VBox::<T>::new(mk(0)); H{ let b = S { n: 100, ..*a }; sum(&b); std::mem::forget(b); } L{ let S { n, .. } = &*a; assert_eq!(*n, 1); }"),
    "strct_destructure": ("strct", "let a = VBox::<T>::new(mk(0)); H{ let S { s, .. } = *a; std::mem::forget(s); } L{ let S { s, .. } = &*a; }"),
    "strct_muts_twice": ("strct", "let mut a = VBox::<T>::new(mk(0)); let m = a.as_mut().muts(); H{ let n = a.as_mut().muts(); n.s.len(); } *m.f = 3; sum(&a);"),
    "strct_refs_during_muts": ("strct", "let mut a = VBox::<T>::new(mk(0)); let m = a.as_mut().muts(); H{ let n = a.refs(); n.s.len(); } *m.f = 3; sum(&a);"),
    "strct_muts_outlive": ("strct", "let keep: &mut [u64]; let mut b = VBox::<T>::new(mk(1)); H{ { let mut c = VBox::<T>::new(mk(1)); keep = c.as_mut().muts().a; } } L{ keep = b.as_mut().muts().a; } keep[0] = 1;"),
    "strct_refs_outlive": ("strct", "let keep: &[u64]; let b = VBox::<T>::new(mk(1)); H{ { let c = VBox::<T>::new(mk(1)); keep = c.refs().a; } } L{ keep = b.refs().a; } assert!(keep[0] == 0);"),
    "strct_refs_longer": ("strct", "fn f<'a, 'b>(x: &'a T, y: &'b T) -> H{ s::Refs<'b> } L{ s::Refs<'a> } { x.refs() }"),
    "strct_muts_longer": ("strct", "fn f<'a, 'b>(x: Pin<&'a mut T>, y: &'b T) -> H{ s::Muts<'b> } L{ s::Muts<'a> } { x.muts() }"),
    "strct_refs_as_muts": ("strct", "fn f<'a>(x: &'a T) -> &'a H{ mut } [u64] { x.refs().a }"),
    "strct_field_deref": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ let x: &mut Str = a.as_mut().muts().s.get_mut(); } L{ let x: Pin<&mut Str> = a.as_mut().muts().s; } x.len();"),
    "strct_swap_tail": ("strct", "let mut a = VBox::<T>::new(mk(0)); let mut b = VBox::<T>::new(mk(1)); { let (mut m, mut n) = (a.as_mut().muts(), b.as_mut().muts()); H{ std::mem::swap(&mut *m.s, &mut *n.s); } L{ std::mem::swap(m.f, n.f); } } sum(&a); sum(&b);"),
    "strct_swap_marker": ("strct", "let mut a = VBox::<T>::new(mk(0)); let mut b = VBox::<T>::new(mk(1)); H{ std::mem::swap(&mut a.as_mut().a, &mut b.as_mut().a); } sum(&a); sum(&b);"),
    "strct_controllers_mut": ("strct", "let mut a = VBox::<T>::new(mk(0)); fn f(x: &mut u8) { *x = 77; } H{ f(a.as_mut().muts().n); } L{ let c = s::LayoutControllers { n: 77 }; assert!(a.as_mut().try_set_layout_controllers(c).is_err()); } sum(&a);"),
    "strct_init_field_type": ("strct", "let a = VBox::<T>::new(s::Init { n: 1, f: 5, s: Str::copy(\"x\"), a: H{ FillSequentially(|k| k as u8) } L{ FillSequentially(|k| k as u64) } }); sum(&a);"),
    "strct_init_field_kind": ("strct", "let a = VBox::<T>::new(s::Init { n: 1, f: 5, s: H{ SizedInit(2usize, FillSequentially(|_| 0xffu8)) } L{ Str::copy(\"x\") }, a: FillWithDefault }); std::str::from_utf8(a.refs().s.as_bytes()).unwrap();"),
    "strct_manual_drop": ("strct", "let mut a = VBox::<T>::new(mk(0)); H{ Drop::drop(&mut *a.as_mut()); } L{ drop(a); }"),
    "gen_set_controller": ("gen", "let mut a = VBox::<T>::new(mk(0)); H{ *a.as_mut().muts().n = 100; } L{ *a.as_mut().muts().first = 100; } sum(&a);"),
    "gen_muts_shrink": ("gen", "#[define_varlen] pub struct R<'z> { pub x: &'z str, #[varlen] pub v: Array<&'z str> } fn f<'a, 'b, 'c: 'b>(x: Pin<&'a mut R<'c>>, y: &'b str) { H{ let m: r::Muts<'_, 'b> = x.muts(); *m.x = y; } L{ let m: r::Muts<'_, 'c> = x.muts(); m.x.len(); } }"),
    "newt_init_type": ("newt", "let a = VBox::<N>::new(H{ tup2::Init(SizedInit(1usize, FillWithDefault), Str::<u8>::try_copy(\"x\").unwrap()) } L{ mk(0) }); sum(&a);"),
    "newt_private_field": ("newt", "mod m { use super::*; define_varlen_newtype! { #[repr(transparent)] pub struct P(Array<u8>); with init: pub(super) struct PInit<_>(pub(super) _); with inner_ref: pub(super) fn inner(&self) -> &_; with inner_mut: fn inner_mut(self: _) -> _; } } let mut a = VBox::<m::P>::new(m::PInit(SizedInit(2usize, FillWithDefault))); H{ a.as_mut().inner_mut(); } L{ a.inner(); }"),
    "newt_private_init": ("newt", "mod m { use super::*; define_varlen_newtype! { #[repr(transparent)] pub struct P(Array<u8>); with init: pub(super) struct PInit<_>(_); with inner_ref: pub(super) fn inner(&self) -> &_; with inner_mut: fn inner_mut(self: _) -> _; } impl P { pub(super) fn mk() -> impl Initializer<P> { PInit(SizedInit(2usize, FillWithDefault)) } } } let a = VBox::<m::P>::new(H{ m::PInit(SizedInit(2usize, FillWithDefault)) } L{ m::P::mk() }); a.inner();"),
    "newt_inner_longer": ("newt", "fn f<'a, 'b>(x: &'a N, y: &'b N) -> H{ &'b Tup2<Array<u32>, Str<u8>> } L{ &'a Tup2<Array<u32>, Str<u8>> } { x.inner() }"),
    "newt_inner_mut_shared": ("newt", "let mut a = VBox::<N>::new(mk(1)); let m = a.as_mut().inner_mut(); H{ let n = a.as_mut().inner_mut(); n.refs(); } m.refs();"),
    "newt_tuple_ctor": ("newt", "let a = VBox::<N>::new(mk(1)); H{ let x = N(*a.inner()); std::mem::forget(x); } L{ a.inner(); }"),
    "newt_swap_inner": ("newt", "let mut a = VBox::<N>::new(mk(1)); let mut b = VBox::<N>::new(mk(0)); H{ std::mem::swap(&mut *a.as_mut().inner_mut(), &mut *b.as_mut().inner_mut()); } L{ std::mem::swap(&mut a, &mut b); } sum(&a); sum(&b);"),
    "seq_impl_indexing": ("str", "struct X; H{ impl varlen::seq::Indexing for X {} let s: Seq<Str, X> = Seq::new(); } L{ let s: Seq<Str, varlen::seq::CheckedIndexing> = Seq::new(); } s.len();"),
    "seq_checked_on_unchecked": ("str", "let s = seq2(); H{ s.from_offset(1); } L{ iseq2().from_offset(0); }"),
    "seq_set_fields": ("str", "let mut s = seq2(); H{ s.len_elements = 1000; } L{ s.push(mk(0)); } s.iter().count();"),
    "fixed_str_header": ("str", "let b = VBox::<T>::new(mk(1)); H{ let f = VBox::<FixedLen<T>>::new(FixedLen(*b)); sum(&f.0); std::mem::forget(f); } L{ let f = VBox::<FixedLen<&T>>::new(FixedLen(&*b)); sum(f.0); }"),
    "array_of_headers": ("str", "let b = VBox::<T>::new(mk(1)); H{ let a = VBox::<Array<T>>::new(SizedInit(1, MoveFrom([*b]))); std::mem::forget(a); } L{ let a = VBox::<Array<VBox<T>>>::new(SizedInit(1, MoveFrom([b]))); sum(&a[0]); }"),
}


def expand(body):
    """H{...} and L{...} to the two readings."""
    out = {True: [], False: []}
    i = 0
    while i < len(body):
        if body[i] in "HL" and body[i + 1:i + 2] == "{" and (i == 0 or not (body[i - 1].isalnum() or body[i - 1] == "_")):
            d = 0
            j = i + 1
            while True:
                if body[j] == "{":
                    d += 1
                elif body[j] == "}":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = body[i + 2:j]
            out[body[i] == "H"].append(inner)
            i = j + 1
        else:
            out[True].append(body[i])
            out[False].append(body[i])
            i += 1
    return "".join(out[True]), "".join(out[False])


def nested(body):
    """H{} inside H{} is not used; L{} inside H{} neither."""
    return expand(body)


def program(ty, body):
    h, l = expand(body)
    return head(ty) + "pub fn main() { %s }\n" % h, head(ty) + "pub fn main() { %s }\n" % l


def c24():
    """(name, hostile text, legitimate text)"""
    out = []
    for name, body in OVER_TYPES.items():
        for ty in TYPES:
            out.append(("%s/%s" % (name, ty),) + program(ty, body))
    for name, (ty, body) in SINGLE.items():
        out.append((name,) + program(ty, body))
    # Client code implements Unpin for its own types, at module scope or hidden in a function.
    swap = "let mut a = VBox::<T>::new(mk(0)); let mut b = VBox::<T>::new(mk(1)); H{ std::mem::swap(a.as_mut().get_mut(), b.as_mut().get_mut()); } L{ std::mem::swap(&mut a, &mut b); } sum(&a); sum(&b);"
    for ty, impl in (("strct", "impl Unpin for S {}"), ("newt", "impl Unpin for N {}"), ("gen", "impl<A: Copy + Into<u64>, const K: usize> Unpin for G<A, K> {}"), ("gen_one", "impl Unpin for G<u32, 2> {}"),
                     ("gen_bound", "impl<A: Copy + Into<u64> + Unpin, const K: usize> Unpin for G<A, K> where A: 'static {}")):
        out.append(("own_unpin_" + ty,) + program(ty.split("_")[0], "H{ %s } %s" % (impl, swap)))
    tail = "define_varlen_newtype! { #[repr(transparent)] pub struct W<(X)>(Array<X>); with signature: impl<(X)> W<(X)> { _ } with init: pub struct WI<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; }"
    out.append(("own_unpin_newt_generic",) + program("arr", tail + " H{ impl<X> Unpin for W<X> {} } let mut a = VBox::<W<u8>>::new(WI(SizedInit(2usize, FillWithDefault))); let mut b = VBox::<W<u8>>::new(WI(SizedInit(20usize, FillWithDefault)));"
                                                     " H{ std::mem::swap(a.as_mut().get_mut(), b.as_mut().get_mut()); } L{ std::mem::swap(&mut a, &mut b); } assert_eq!(a.inner().len() + b.inner().len(), 22);"))
    return out


# ------------------------------------------------------------------ threads

THREAD_HEAD = HEAD + """
use std::rc::Rc; use std::cell::RefCell; use std::sync::{Arc, Mutex, MutexGuard}; use std::sync::atomic::{AtomicU32, Ordering};
"""

# (hostile element, legitimate element): type, value from the common `src`, common `src`, use.
SHARED = {
    "cell": (("Cell<u32>", "Cell::new(1)", "e.set(e.get() + 1)"), ("AtomicU32", "AtomicU32::new(1)", "{ e.fetch_add(1, Ordering::Relaxed); }")),
    "refcell": (("RefCell<String>", "RefCell::new(String::new())", "e.borrow_mut().push('x')"), ("Mutex<String>", "Mutex::new(String::new())", "e.lock().unwrap().push('x')")),
    "rc": (("Rc<u32>", "SRC.with(|x| x.clone())", "drop(e.clone())"), ("Arc<u32>", "ASRC.lock().unwrap().clone().unwrap()", "drop(e.clone())")),
    "optcell": (("Option<Box<Cell<u32>>>", "Some(Box::new(Cell::new(1)))", "{ let c = e.as_ref().unwrap(); c.set(c.get() + 1) }"), ("Option<Box<AtomicU32>>", "Some(Box::new(AtomicU32::new(1)))", "{ e.as_ref().unwrap().fetch_add(1, Ordering::Relaxed); }")),
}
SENT = {
    "rc": (SHARED["rc"][0], SHARED["rc"][1]),
    "guard": (("MutexGuard<'static, u32>", "MX.lock().unwrap()", "drop(**e)"), ("u32", "1", "drop(*e)")),
}
# name -> (definitions, type, initializer, use of all elements in &T as `t` with fn touch)
SHAPES = {
    "array": ("", "Array<E>", "SizedInit(3, FillSequentially(|_| mke()))", "for e in t.iter() { touch(e) }"),
    "array8": ("", "Array<E, u8>", "SizedInit(1, FillSequentially(|_| mke()))", "for e in t.iter() { touch(e) }"),
    "fixed": ("", "FixedLen<E>", "FixedLen(mke())", "touch(&t.0)"),
    "tup2a": ("", "Tup2<FixedLen<E>, Str>", 'tup2::Init(FixedLen(mke()), Str::copy("x"))', "touch(&t.refs().0.0)"),
    "tup2b": ("", "Tup2<Str, Array<E>>", 'tup2::Init(Str::copy("x"), SizedInit(2, FillSequentially(|_| mke())))', "for e in t.refs().1.iter() { touch(e) }"),
    "tup3": ("", "Tup3<Str, Array<E>, Str>", 'tup3::Init(Str::copy("x"), SizedInit(2, FillSequentially(|_| mke())), Str::copy(""))', "for e in t.refs().1.iter() { touch(e) }"),
    "tup4": ("", "Tup4<Str, Str, Str, FixedLen<E>>", 'tup4::Init(Str::copy("x"), Str::copy("x"), Str::copy("x"), FixedLen(mke()))', "touch(&t.refs().3.0)"),
    "tup5": ("", "Tup5<Str, Str, Array<E>, Str, Str>", 'tup5::Init(Str::copy("x"), Str::copy("x"), SizedInit(2, FillSequentially(|_| mke())), Str::copy(""), Str::copy(""))', "for e in t.refs().2.iter() { touch(e) }"),
    "sfixed": ("#[define_varlen] pub struct S { pub f: E, #[varlen] pub s: Str }", "S", 's::Init { f: mke(), s: Str::copy("x") }', "touch(&t.f)"),
    "sarray": ("#[define_varlen] pub struct S { #[controls_layout] pub n: u8, #[varlen_array] pub a: [E; *n as usize] }", "S", "s::Init { n: 2, a: FillSequentially(|_| mke()) }", "for e in t.refs().a { touch(e) }"),
    "svarlen": ("#[define_varlen] pub struct S { pub n: u8, #[varlen] pub a: Array<E> }", "S", "s::Init { n: 2, a: SizedInit(2, FillSequentially(|_| mke())) }", "for e in t.refs().a.iter() { touch(e) }"),
    "sgen": ("#[define_varlen] pub struct S<Q> { #[controls_layout] pub n: u8, #[varlen_array] pub a: [Q; *n as usize], #[varlen] pub b: Array<Q, u8> }", "S<E>", "s::Init { n: 2, a: FillSequentially(|_| mke()), b: SizedInit(1, FillSequentially(|_| mke())) }", "for e in t.refs().a { touch(e) } for e in t.refs().b.iter() { touch(e) }"),
    "newtype": ("mod nt { use super::*; define_varlen_newtype! { #[repr(transparent)] pub struct N(Tup2<Str, Array<E>>); with init: pub struct NInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } } pub use nt::*;", "N", 'NInit(tup2::Init(Str::copy("x"), SizedInit(2, FillSequentially(|_| mke()))))', "for e in t.inner().refs().1.iter() { touch(e) }"),
    "nested": ("#[define_varlen] pub struct S { #[varlen] pub a: Tup2<Array<E, u16>, Str> }", "Tup2<S, Str>", 'tup2::Init(s::Init { a: tup2::Init(SizedInit(2u16, FillSequentially(|_| mke())), Str::copy("x")) }, Str::copy("x"))', "for e in t.refs().0.refs().a.refs().0.iter() { touch(e) }"),
}
STATICS = """
thread_local! { static SRC: Rc<u32> = Rc::new(5); }
static ASRC: Mutex<Option<Arc<u32>>> = Mutex::new(None);
static MX: Mutex<u32> = Mutex::new(1);
"""
SHARE_WAYS = {
    "ref": "let b = VBox::<T>::new(mk()); let r: &T = &b; std::thread::scope(|s| { s.spawn(move || use_all(r)); use_all(r); });",
    "elem": "let mut q = Seq::<T>::new(); q.push(mk()); let r: &T = q.iter().next().unwrap(); std::thread::scope(|s| { s.spawn(move || use_all(r)); use_all(r); });",
    "pin": "let mut b = VBox::<T>::new(mk()); let m = b.as_mut(); let r: &Pin<&mut T> = &m; std::thread::scope(|s| { s.spawn(move || use_all(r)); use_all(r); });",
}
# Handles which no program may share or send as long as the elements may not be; sharing and sending them otherwise is not promised.
SHARE_WAYS_HOSTILE_ONLY = {
    "box": "let b = VBox::<T>::new(mk()); H{ let r = &b; std::thread::scope(|s| { s.spawn(move || use_all(r)); use_all(r); }); } L{ use_all(&b); }",
    "seq": "let mut q = Seq::<T>::new(); q.push(mk()); H{ let r = &q; std::thread::scope(|s| { s.spawn(move || use_all(r.iter().next().unwrap())); use_all(r.iter().next().unwrap()); }); } L{ use_all(q.iter().next().unwrap()); }",
    "iter": "let mut q = Seq::<T>::new(); q.push(mk()); H{ let r = q.iter(); let k = r.limited_to(1); std::thread::scope(|s| { s.spawn(move || { let mut r = r; use_all(r.next().unwrap()) }); let mut k = k; use_all(k.next().unwrap()); }); } L{ use_all(q.iter().next().unwrap()); }",
    "owned": "let bump = Bump::new(); let b = Owned::<T>::new_in(mk(), &bump); H{ let r = &b; std::thread::scope(|s| { s.spawn(move || use_all(r)); use_all(r); }); } L{ use_all(&b); }",
}
SEND_WAYS = {
    "pin": "let mut b = VBox::<T>::new(mk()); let m: Pin<&mut T> = b.as_mut(); let other = mke2(); std::thread::scope(|s| { s.spawn(move || use_all(&m)); touch2(&other); });",
}
SEND_WAYS_HOSTILE_ONLY = {
    "box": "let b = VBox::<T>::new(mk()); let other = mke2(); H{ std::thread::scope(|s| { s.spawn(move || use_all(&b)); touch2(&other); }); } L{ use_all(&b); touch2(&other); }",
    "seq": "let mut q = Seq::<T>::new(); q.push(mk()); let other = mke2(); H{ std::thread::scope(|s| { s.spawn(move || { let q = q; use_all(q.iter().next().unwrap()) }); touch2(&other); }); } L{ use_all(q.iter().next().unwrap()); touch2(&other); }",
    "iter_mut": "let mut q = Seq::<T>::new(); q.push(mk()); let other = mke2(); H{ let it = q.iter_mut(); std::thread::scope(|s| { s.spawn(move || { let mut it = it; use_all(&it.next().unwrap()) }); touch2(&other); }); } L{ use_all(&q.iter_mut().next().unwrap()); touch2(&other); }",
    "taken": "let mut q = Seq::<T>::new(); q.push(mk()); let other = mke2(); H{ let it = q.take_elems(); std::thread::scope(|s| { s.spawn(move || { let mut it = it; use_all(&it.next().unwrap()) }); touch2(&other); }); } L{ use_all(&q.take_elems().next().unwrap()); touch2(&other); }",
    "elem": "let mut q = Seq::<T>::new(); q.push(mk()); let other = mke2(); H{ let e = q.take_elems().next().unwrap(); std::thread::scope(|s| { s.spawn(move || use_all(&e)); touch2(&other); }); } L{ use_all(&q.take_elems().next().unwrap()); touch2(&other); }",
    "owned": "let bump = Bump::new(); let b = Owned::<T>::new_in(mk(), &bump); let other = mke2(); H{ std::thread::scope(|s| { s.spawn(move || use_all(&b)); touch2(&other); }); } L{ use_all(&b); touch2(&other); }",
}


def thread_program(elem, shape, body, swap_elems=True):
    defs, ty, init, use = SHAPES[shape]
    h, l = expand(body)
    out = []
    for (e, make, touch), b in ((elem[0], h), (elem[1] if swap_elems else elem[0], l)):
        e2 = "" if "other" not in b else (
            "pub fn mke2() -> u32 { 1 } pub fn touch2(e: &u32) {}" if "Guard" in e or e == "u32" else "pub fn mke2() -> E { mke() } pub fn touch2(e: &E) { touch(e) }")
        out.append(THREAD_HEAD + STATICS + "pub type E = %s; pub fn mke() -> E { %s } pub fn touch(e: &E) { %s; }\n%s\npub type T = %s;\n%s\npub fn mk() -> impl Initializer<T> { %s }\npub fn use_all(t: &T) { %s }\npub fn main() { *ASRC.lock().unwrap() = Some(Arc::new(5)); %s }\n" % (
            e, make, touch, defs, ty, e2, init.replace("(2, Fill", "(1, Fill").replace("(3, Fill", "(1, Fill").replace("n: 2, a: Fill", "n: 1, a: Fill").replace("2u16", "1u16") if "Guard" in e else init, use, b))
    return tuple(out)


def c25():
    out = []
    for shape in SHAPES:
        for en, elem in SHARED.items():
            for wn, w in SHARE_WAYS.items():
                out.append(("share_%s/%s/%s" % (wn, shape, en),) + thread_program(elem, shape, w))
            for wn, w in SHARE_WAYS_HOSTILE_ONLY.items():
                out.append(("share_%s/%s/%s" % (wn, shape, en),) + thread_program(elem, shape, w, False))
        for en, elem in SENT.items():
            if en == "guard" and shape == "sgen":
                continue
            for wn, w in SEND_WAYS.items():
                out.append(("send_%s/%s/%s" % (wn, shape, en),) + thread_program(elem, shape, w))
            for wn, w in SEND_WAYS_HOSTILE_ONLY.items():
                out.append(("send_%s/%s/%s" % (wn, shape, en),) + thread_program(elem, shape, w, False))
    return out


# ------------------------------------------------------------------ malformed definitions

DEF_HEAD = HEAD + """
use std::sync::atomic::{AtomicUsize, Ordering}; use std::rc::Rc; use std::cell::{RefCell, OnceCell, UnsafeCell};
pub static COUNTER: AtomicUsize = AtomicUsize::new(2);
pub static mut SM: usize = 2;
pub static ST: usize = 2;
pub const CN: usize = 2;
thread_local! { pub static TL: Cell<usize> = Cell::new(2); }
pub fn runtime() -> usize { COUNTER.fetch_add(1, Ordering::Relaxed) % 7 }
pub const fn fixed(x: usize) -> usize { x / 2 + 1 }
pub struct Plain(pub u32);
"""

# The definition with the two readings; then a program that uses the type, for both readings.
# The struct is M, controlled by n unless said otherwise; G1/G2 in the text are replaced by every kind of surrounding field.
BUILD = "let m = VBox::<M>::new(m::Init { n: 3, other: 9, a: FillSequentially(|k| k as u16), s: Str::copy(\"xyz\") }); assert_eq!(m.refs().a.len() + m.refs().s.len() + m.refs().a.iter().map(|x| *x as usize).sum::<usize>(), 9); drop(m);"


def m_def(n="#[controls_layout] pub n: u8", other="pub other: usize", a="#[varlen_array] pub a: [u16; *n as usize]", s="#[varlen] pub s: Str", vis="pub", outer="", attr="#[define_varlen]"):
    return "%s\n%s\n%s struct M { %s, %s, %s, %s }\n" % (attr, outer, vis, n, other, a, s)


def c26_items():
    d = {}
    # Attributes that exclude each other, on every kind of field, in every order.
    kinds = {"varlen": "s", "varlen_array": "a", "controls_layout": "n"}
    for own, fld in kinds.items():
        for extra in kinds:
            if extra == own:
                continue
            for order in (0, 1):
                base = {"n": "#[controls_layout] pub n: u8", "a": "#[varlen_array] pub a: [u16; *n as usize]", "s": "#[varlen] pub s: Str"}[fld]
                both = ("H{ #[%s] } " % extra) + base if order == 0 else base.replace("pub ", "H{ #[%s] } pub " % extra, 1)
                d["both_%s_%s_%d" % (own, extra, order)] = (m_def(**{fld: both}), BUILD)
        ex = [k for k in kinds if k != own]
        base = {"n": "#[controls_layout] pub n: u8", "a": "#[varlen_array] pub a: [u16; *n as usize]", "s": "#[varlen] pub s: Str"}[fld]
        d["all_three_on_%s" % own] = (m_def(**{fld: "H{ #[%s] #[%s] } " % tuple(ex) + base}), BUILD)
    # varlen_array on what is not an array.
    for nm, ty in {"vec": "Vec<u16>", "slice": "[u16]", "slice_ref": "&'static [u16]", "array_ref": "&'static [u16; 3]", "scalar": "u16", "tuple": "(u16, usize)",
                   "Array": "Array<u16>", "boxed": "Box<[u16; 3]>", "str": "Str", "path": "Arr3", "ptr": "*const u16", "fnptr": "fn() -> [u16; 3]", "never": "!", "group": "std::primitive::u16"}.items():
        d["array_of_%s" % nm] = ("type Arr3 = [u16; 3];\n" + m_def(a="#[varlen_array] pub a: H{ %s } L{ [u16; 3] }" % ty), BUILD)
    # varlen on what is not variable-length.
    for nm, ty in {"u32": "u32", "string": "String", "array": "[u16; 3]", "text": "&'static str", "box_str": "Box<str>", "vbox": "VBox<Str>", "owned": "Owned<'static, Str>",
                   "seq": "Seq<Str>", "plain": "Plain", "tuple": "(Str, Str)", "ref": "&'static Str", "option": "Option<Str>", "unit": "()", "slice": "[u8]"}.items():
        d["varlen_of_%s" % nm] = (m_def(s="#[varlen] pub s: H{ %s } L{ Str }" % ty), BUILD)
    # Lengths that depend on something else than the controlling fields.
    for nm, ex in {"other_field": "*other", "other_by_value": "other", "varlen_field": "s.len()", "itself": "a.len()", "self": "self.n as usize", "self_ref": "(*self).n as usize",
                   "runtime_fn": "runtime()", "runtime_of_n": "{ runtime() + *n as usize }", "atomic": "COUNTER.load(Ordering::Relaxed)", "atomic_add": "COUNTER.fetch_add(1, Ordering::Relaxed)",
                   "static_mut": "SM", "thread_local": "TL.with(|t| t.get())", "unknown": "m", "unknown_fn": "length(n)", "env_fn": "std::env::args().count()",
                   "time": "std::time::Instant::now().elapsed().subsec_nanos() as usize", "heap": "vec![0u8; *n as usize].len()", "string": "\"xyz\".to_string().len()",
                   "rng_ptr": "(n as *const u8 as usize) % 4", "lengths_tuple": "__varlen_lengths.0", "layout_var": "__varlen_size", "init_param": "InitS", "layout": "layout.size()",
                   "refs": "refs.n", "mut_ref": "{ let x: &mut u8 = n; *x as usize }", "assign": "{ *n = 2; 2 }", "closure": "(|| *n as usize)()", "iter": "[1, 2].iter().count()",
                   "local_static": "{ static K: AtomicUsize = AtomicUsize::new(1); K.fetch_add(1, Ordering::Relaxed) }",
                   "break_out": "return_len!()", "await": "async { 1 }.await", "question": "Some(3)?"}.items():
        d["length_%s" % nm] = (m_def(a="#[varlen_array] pub a: [u16; H{ %s } L{ fixed(*n as usize + CN - 1) }]" % ex), BUILD.replace("+ m.refs().a.iter().map(|x| *x as usize).sum::<usize>(), 9)", ", 6)"))
    # A length that changes though the controlling field does not: the sign of a NaN that is computed is not determined.
    d["length_of_nan_bits"] = ("#[define_varlen] pub struct M { #[controls_layout] pub n: f32, #[varlen_array] pub y: [u8; H{ ((*n / *n).to_bits() >> 31) as usize * 40 } L{ (n.to_bits() >> 31) as usize * 40 + 3 }], #[varlen_array] pub z: [u8; 3] }",
                               "for _ in 0..9 { let m = VBox::<M>::new(m::Init { n: 0.0, y: FillSequentially(|k| k as u8), z: FillSequentially(|k| k as u8) }); let k = m.refs().y.len(); for _ in 0..9 { assert_eq!(m.refs().z, &[0, 1, 2]); assert_eq!(m.refs().y.len(), k); } }")
    # Lengths of the wrong type.
    for nm, ex in {"u8": "*n", "ref": "n", "bool": "*n > 2", "str": "\"3\"", "i32": "3i32", "u64": "*n as u64", "unit": "()", "option": "Some(3usize)", "float": "3.0", "stmt": "{ *n as usize; }", "usize_ref": "&3usize", "tuple": "(3usize,)"}.items():
        d["length_type_%s" % nm] = (m_def(a="#[varlen_array] pub a: [u16; H{ %s } L{ *n as usize }]" % ex), BUILD)
    # Two arrays, the second one wrong; controlling field declared after the array that needs it, which is fine.
    d["second_array_wrong"] = (m_def(s="#[varlen] pub s: Str, #[varlen_array] pub b: [u8; H{ *other } L{ *n as usize }]"), BUILD.replace("s: Str", "b: FillWithDefault, s: Str"))
    d["second_array_after_controller"] = (m_def(a="#[varlen_array] pub a: [u16; H{ *k as usize } L{ *n as usize }]", s="#[varlen] pub s: Str, pub k: u8"), BUILD.replace("s: Str", "k: 3, s: Str"))
    d["first_array_needs_later"] = (m_def(n="pub z: u8", other="pub other: usize, #[varlen_array] pub a: [u16; H{ *other } L{ *n as usize }]", a="#[controls_layout] pub n: u8"), BUILD.replace("n: 3", "z: 0, n: 3"))
    # Controlling fields that safe code can change through a shared reference.
    poke = "let m = VBox::<M>::new(m::Init { n: %s, other: 9, a: FillSequentially(|k| k as u16), s: Str::copy(\"xyz\") }); H{ %s } assert_eq!(m.refs().a.len() + m.refs().s.len() + m.refs().a.iter().map(|x| *x as usize).sum::<usize>(), 9); drop(m);"
    for nm, (ty, val, get, st) in {
        "cell": ("Cell<u8>", "Cell::new(3)", "n.get() as usize", "m.n.set(200);"),
        "cell_usize": ("Cell<usize>", "Cell::new(3)", "n.get()", "m.n.set(5);"),
        "cell_shrunk": ("Cell<usize>", "Cell::new(3)", "n.get()", "m.n.set(0);"),
        "cell_array": ("[Cell<u8>; 2]", "[Cell::new(3), Cell::new(1)]", "n[0].get() as usize", "m.n[0].set(200);"),
        "cell_tuple": ("(u8, Cell<u8>)", "(1, Cell::new(3))", "n.1.get() as usize", "m.n.1.set(200);"),
        "cell_option": ("Option<Cell<u8>>", "Some(Cell::new(3))", "match n { Some(c) => c.get() as usize, None => 0 }", "m.n.as_ref().unwrap().set(200);"),
        "cell_struct": ("CellIn", "CellIn { x: 1, c: Cell::new(3) }", "n.c.get() as usize", "m.n.c.set(200);"),
        "cell_generic": ("Wrap<Cell<u8>>", "Wrap(Cell::new(3))", "n.0.get() as usize", "m.n.0.set(200);"),
        "cell_ref": ("&'static Cell<u8>", "Box::leak(Box::new(Cell::new(3)))", "n.get() as usize", "m.n.set(200);"),
        "cell_box": ("Box<Cell<u8>>", "Box::new(Cell::new(3))", "n.get() as usize", "m.n.set(200);"),
    }.items():
        d["controls_%s" % nm] = ("pub struct CellIn { pub x: u8, pub c: Cell<u8> }\npub struct Wrap<T>(pub T);\n" +
                                 m_def(n="#[controls_layout] pub n: H{ %s } L{ u8 }" % ty, a="#[varlen_array] pub a: [u16; H{ %s } L{ *n as usize }]" % get), poke % ("H{ %s } L{ 3 }" % val, st))
    # The same for a controlling field that is not the only one, wherever it stands and whether or not a length uses it.
    for nm, (ty, val) in {"cell": ("Cell<u8>", "Cell::new(3)"), "cell_tuple": ("(u8, Cell<usize>)", "(1, Cell::new(3))"), "cell_ref": ("&'static Cell<u8>", "Box::leak(Box::new(Cell::new(3)))"),
                          "refcell": ("std::cell::RefCell<u8>", "std::cell::RefCell::new(3)"), "once": ("std::cell::OnceCell<u8>", "std::cell::OnceCell::new()")}.items():
        two = "#[controls_layout] pub k: H{ %s } L{ u8 }" % ty
        init = "k: H{ %s } L{ 3 }" % val
        d["second_controls_%s" % nm] = (m_def(other="pub other: usize, " + two), BUILD.replace("n: 3", "n: 3, " + init))
        d["first_controls_%s" % nm] = (m_def(n=two + ", #[controls_layout] pub n: u8"), BUILD.replace("n: 3", init + ", n: 3"))
        d["last_controls_%s" % nm] = (m_def(s="#[varlen] pub s: Str, " + two), BUILD.replace("n: 3", "n: 3, " + init))
        d["third_controls_%s" % nm] = (m_def(n="#[controls_layout] pub n: u8, #[controls_layout] pub z: u16, " + two), BUILD.replace("n: 3", "n: 3, z: 4, " + init))
    # Visibility.
    d["vis_in_path_type"] = ("pub mod inner { use super::*;\n" + m_def(vis="H{ pub(in crate::inner) } L{ pub(super) }") + "}\nuse inner::*;", "H{} L{ " + BUILD + " }")
    d["vis_in_path_field"] = ("pub mod inner { use super::*;\n" + m_def(other="H{ pub(in crate::inner) } L{ pub(super) } other: usize") + "}\nuse inner::*;", "H{} L{ " + BUILD + " }")
    d["vis_in_path_array"] = ("pub mod inner { use super::*;\n" + m_def(a="#[varlen_array] H{ pub(in crate::inner) } L{ pub(super) } a: [u16; *n as usize]") + "}\nuse inner::*;", "H{} L{ " + BUILD + " }")
    d["vis_in_path_varlen"] = ("pub mod inner { use super::*;\n" + m_def(s="#[varlen] H{ pub(in crate::inner) } L{ pub(super) } s: Str") + "}\nuse inner::*;", "H{} L{ " + BUILD + " }")
    d["vis_in_path_controls"] = ("pub mod inner { use super::*;\n" + m_def(n="#[controls_layout] H{ pub(in crate::inner) } L{ pub(super) } n: u8") + "}\nuse inner::*;", "H{} L{ " + BUILD + " }")
    # Not a struct with named fields.
    for nm, it in {"enum": "pub enum M { A { n: u8 }, B }", "unit_enum": "pub enum M { A }", "empty_enum": "pub enum M {}", "union": "pub union M { a: u8, b: u16 }", "tuple": "pub struct M(pub u8, pub Str);",
                   "tuple_attr": "pub struct M(#[varlen] pub Str);", "tuple_array": "pub struct M(#[controls_layout] u8, #[varlen_array] [u16; 3]);", "unit": "pub struct M;", "empty_tuple": "pub struct M();", "fn": "pub fn m() {}", "trait": "pub trait M {}",
                   "impl": "impl Plain {}", "alias": "pub type M = Plain;", "const": "pub const M: u8 = 1;", "static": "pub static M: u8 = 1;", "use": "pub use std::vec::Vec as M;",
                   "mod": "pub mod m { pub struct M { x: u8 } }", "extern": "extern \"C\" {}", "macro": "macro_rules! m { () => {} }"}.items():
        d["item_%s" % nm] = ("H{ #[define_varlen] %s } L{ %s }" % (it, m_def()), "L{ " + BUILD + " }")
    # Traits which would copy the header without the tail, or run the wrong destructor.
    for nm, at in {"clone": "#[derive(Clone)]", "copy": "#[derive(Clone, Copy)]", "default": "#[derive(Default)]"}.items():
        d["derive_%s" % nm] = (m_def(outer="H{ %s }" % at), BUILD)
        d["derive_%s_before" % nm] = (m_def(attr="H{ %s } #[define_varlen]" % at), BUILD)
    d["derive_clone_array_only"] = ("#[define_varlen] H{ #[derive(Clone)] } pub struct M { #[controls_layout] pub n: u8, #[varlen_array] pub a: [u16; *n as usize] }", "let m = VBox::<M>::new(m::Init { n: 3, a: FillSequentially(|k| k as u16) }); assert_eq!(m.refs().a.len(), 3); H{ let c = (*m).clone(); assert_eq!(c.refs().a, m.refs().a); std::mem::forget(c); }")
    d["own_drop"] = (m_def() + "H{ impl Drop for M { fn drop(&mut self) {} } }", BUILD)
    d["own_varlen_drop"] = (m_def() + "H{ unsafe impl VarLen for M { type Layout = <Str as VarLen>::Layout; fn calculate_layout(&self) -> Self::Layout { loop {} } const ALIGN: usize = 1; const NEEDS_VDROP: bool = false; unsafe fn vdrop(self: Pin<&mut Self>, _: Self::Layout) {} } }", BUILD)
    # Fields.
    d["same_name_twice"] = (m_def(other="pub other: usize, pub H{ n } L{ n2 }: u8"), BUILD.replace("n: 3", "n: 3, L{ n2: 1 }"))
    d["same_name_varlen"] = (m_def(s="#[varlen] pub s: Str, #[varlen] pub H{ s } L{ s2 }: Str"), BUILD.replace("s: Str", "s2: Str::copy(\"\"), s: Str"))
    d["same_name_controls"] = (m_def(n="#[controls_layout] pub n: u8, #[controls_layout] pub H{ n } L{ n2 }: u8"), BUILD.replace("n: 3", "n: 3, L{ n2: 1 }"))
    d["unsized_fixed"] = (m_def(other="pub other: usize, pub z: H{ [u8] } L{ [u8; 2] }"), BUILD.replace("n: 3", "n: 3, z: [1, 2]"))
    d["unsized_controls"] = (m_def(n="#[controls_layout] pub n: u8, #[controls_layout] pub z: H{ [u8] } L{ [u8; 2] }"), BUILD.replace("n: 3", "n: 3, z: [1, 2]"))
    d["unsized_elem"] = (m_def(other="pub other: usize, #[varlen_array] pub z: [H{ [u8] } L{ [u8; 1] }; 2]"), BUILD.replace("n: 3", "n: 3, z: FillSequentially(|_| [1])"))
    d["unsized_elem_str"] = (m_def(other="pub other: usize, #[varlen_array] pub z: [H{ str } L{ &'static str }; 2]"), BUILD.replace("n: 3", "n: 3, z: FillSequentially(|_| \"\")"))
    d["unsized_elem_dyn"] = (m_def(other="pub other: usize, #[varlen_array] pub z: [H{ dyn Fn() } L{ fn() }; 2]"), BUILD.replace("n: 3", "n: 3, z: FillSequentially(|_| main as fn())"))
    d["undeclared_generic"] = ("#[define_varlen] pub struct M L{ <T> } { pub x: u8, #[varlen] pub a: Array<T> }", "L{ VBox::<M<u8>>::new(m::Init { x: 1, a: SizedInit(2usize, FillWithDefault) }); }")
    d["undeclared_lifetime"] = ("#[define_varlen] pub struct M L{ <'a> } { pub x: u8, #[varlen] pub a: Array<&'a str> }", "L{ VBox::<M>::new(m::Init { x: 1, a: SizedInit(2usize, FillWithDefault) }); }")
    d["generic_array_without_bound"] = ("#[define_varlen] pub struct M<T: Sync> { #[controls_layout] pub n: T, #[varlen_array] pub a: [u8; H{ *n } L{ 3 }] }", "VBox::<M<usize>>::new(m::Init { n: 1, a: FillWithDefault });")
    d["generic_cell"] = ("pub trait Len2 {} #[define_varlen] pub struct M<T H{ } L{ : Sync }> { #[controls_layout] pub n: (u8, T), #[varlen_array] pub a: [u8; n.0 as usize] }", "VBox::<M<u8>>::new(m::Init { n: (1, 2), a: FillWithDefault });")
    d["attr_on_plain_struct"] = ("L{ #[define_varlen] } pub struct M { pub x: u8, #[varlen] pub s: Str }", "L{ VBox::<M>::new(m::Init { x: 1, s: Str::copy(\"x\") }); }")
    d["attr_on_type"] = (m_def(outer="H{ #[varlen] }"), BUILD)
    d["attr_on_type_array"] = (m_def(outer="H{ #[varlen_array] }"), BUILD)
    d["attr_on_type_controls"] = (m_def(outer="H{ #[controls_layout] }"), BUILD)
    d["attr_misspelt"] = (m_def(s="H{ #[varlenn] } L{ #[varlen] } pub s: Str"), BUILD)
    d["attr_misspelt_array"] = (m_def(a="H{ #[varlen_arrays] } L{ #[varlen_array] } pub a: [u16; *n as usize]"), BUILD)
    # Attributes of the library with arguments, which would be ignored.
    for nm, args in {"list": "(u8)", "empty_list": "()", "value": " = \"n\"", "brackets": "[1]", "braces": "{ n }", "words": "(optional, len = 3)"}.items():
        d["attr_args_%s_varlen" % nm] = (m_def(s="#[varlen H{ %s }] pub s: Str" % args), BUILD)
        d["attr_args_%s_array" % nm] = (m_def(a="#[varlen_array H{ %s }] pub a: [u16; *n as usize]" % args), BUILD)
        d["attr_args_%s_controls" % nm] = (m_def(n="#[controls_layout H{ %s }] pub n: u8" % args), BUILD)
    d["attr_path_varlen"] = (m_def(s="#[H{ varlen:: }varlen] pub s: Str"), BUILD)
    d["attr_path_array"] = (m_def(a="#[H{ varlen:: }varlen_array] pub a: [u16; *n as usize]"), BUILD)
    d["attr_path_controls"] = (m_def(n="#[H{ varlen:: }controls_layout] pub n: u8"), BUILD)
    d["attr_missing_array"] = (m_def(a="L{ #[varlen_array] } pub a: [u16; *n as usize]"), BUILD)
    d["attr_missing_controls"] = (m_def(n="L{ #[controls_layout] } pub n: u8"), BUILD)
    # Initializers.
    d["init_missing"] = (m_def(), BUILD.replace("other: 9,", "L{ other: 9, }"))
    d["init_missing_array"] = (m_def(), BUILD.replace("a: FillSequentially(|k| k as u16),", "L{ a: FillSequentially(|k| k as u16), }"))
    d["init_unknown"] = (m_def(), BUILD.replace("other: 9,", "other: 9, H{ b: 1, }"))
    d["init_wrong_varlen"] = (m_def(), BUILD.replace("Str::copy(\"xyz\")", "H{ \"xyz\" } L{ Str::copy(\"xyz\") }"))
    d["init_wrong_array"] = (m_def(), BUILD.replace("FillSequentially(|k| k as u16)", "H{ [0u16, 1, 2] } L{ MoveFrom([0u16, 1, 2]) }"))
    # The same macros for newtypes.
    nt = "pub mod nt { use super::*; define_varlen_newtype! { %s pub struct N%s(%s); %s with init: pub struct NInit<_>(pub _); with inner_ref: pub fn inner(&self) -> &_; with inner_mut: pub fn inner_mut(self: _) -> _; } } use nt::*;"
    use = "let n = VBox::<N>::new(NInit(Str::copy(\"xyz\"))); assert_eq!(&n.inner()[..], \"xyz\");"
    d["newtype_not_varlen"] = (nt % ("#[repr(transparent)]", "", "H{ String } L{ Str }", ""), "L{ " + use + " }")
    d["newtype_not_varlen_u32"] = (nt % ("#[repr(transparent)]", "", "H{ u32 } L{ Str }", ""), "L{ " + use + " }")
    d["newtype_two_fields"] = (nt % ("#[repr(transparent)]", "", "Str H{ , u32 }", ""), "L{ " + use + " }")
    d["newtype_not_transparent"] = (nt % ("L{ #[repr(transparent)] }", "", "Str", ""), use)
    d["newtype_repr_c"] = (nt % ("H{ #[repr(C)] } L{ #[repr(transparent)] }", "", "Str", ""), use)
    d["newtype_repr_twice"] = (nt % ("#[repr(transparent)] H{ #[repr(align(64))] }", "", "Str", ""), use)
    d["newtype_clone"] = (nt % ("#[repr(transparent)] H{ #[derive(Clone)] }", "", "Str", ""), use)
    d["newtype_generic_undeclared"] = (nt % ("#[repr(transparent)]", "<(T)>", "Array<T>", "L{ with signature: impl<(T)> N<(T)> { _ } }"), "L{ let n = VBox::<N<u8>>::new(NInit(SizedInit(2usize, FillWithDefault))); assert_eq!(n.inner().len(), 2); }")
    d["newtype_init_other"] = (nt % ("#[repr(transparent)]", "", "Str", ""), use.replace("Str::copy(\"xyz\")", "H{ SizedInit(3usize, FillSequentially(|_| 0xffu8)) } L{ Str::copy(\"xyz\") }"))
    d["init_newtype_other"] = ("pub struct J(pub SizedInit<MoveFrom<u16, 3>>); impl_initializer_as_newtype! { impl Initializer<Array<H{ u32 } L{ u16 }>> for J { _ } }", "let a = VBox::<Array<H{ u32 } L{ u16 }>>::new(J(SizedInit(3, MoveFrom([1, 2, 3])))); assert_eq!(a.iter().map(|x| *x as usize).sum::<usize>(), 6);")
    d["init_newtype_not"] = ("pub struct J(pub H{ u32 } L{ SizedInit<MoveFrom<u16, 3>> }); impl_initializer_as_newtype! { impl Initializer<Array<u16>> for J { _ } }", "L{ VBox::<Array<u16>>::new(J(SizedInit(3, MoveFrom([1, 2, 3])))); }")
    return d


def c26():
    out = []
    for name, (items, main) in c26_items().items():
        h, l = expand(items)
        hm, lm = expand(main)
        out.append((name, DEF_HEAD + h + "\npub fn main() { %s }\n" % hm, DEF_HEAD + l + "\npub fn main() { %s }\n" % lm))
    return out
