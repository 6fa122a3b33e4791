//! Generated by tools/genstructs.py vh 3 24 Quickbird: structs and their reference semantics.
#![allow(dead_code, unused_imports, unused_variables, non_snake_case, clippy::all)]
use vh::elem::*;
use vh::objs::{ops, TypeOps};
use vh::spec::*;
use vh::structaid::*;
use vh::tok::*;
use std::mem::{align_of, size_of};
use std::pin::Pin;
use varlen::array::Array;
use varlen::prelude::*;
use varlen::str::Str;

macro_rules! same_ty { ($t:ty) => { $t } }
macro_rules! same_expr { ($e:expr) => { $e } }
pub const SOME_LEN: usize = 3;
pub const fn double_plus(a: usize, b: usize) -> usize { a * 2 + b }
pub const fn maximum(a: usize, b: usize) -> usize { if a > b { a } else { b } }

#[define_varlen]
/// A generated struct.
#[repr(align(32))]
pub struct Quickbird {
    #[controls_layout]
    /// Its documentation.
    pub(crate) initalpha: Pair,
    #[varlen_array]
    /// Its documentation.
    init_alpha: [A16; initalpha.sum()],
}
#[allow(dead_code)]
#[repr(align(32))]
struct MirrorQuickbird(Pair);
impl Quickbird {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_initalpha: u64) -> [u64; 1] { [((c_initalpha & 255) + (c_initalpha >> 8))] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[0].e()) }
}
impl Spec for Quickbird {
    const RALIGN: usize = max_of(&[align_of::<MirrorQuickbird>(), align_of::<A16>()]);
    const RDROP: bool = std::mem::needs_drop::<Pair>() || std::mem::needs_drop::<A16>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Quickbird".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_initalpha = ctl_gen::<Pair>(g, 0);
        let lens = Self::ref_lens(c_initalpha);
        Val::T(vec![Val::E(c_initalpha), Val::A(gen_arr::<A16>(lens[0] as usize, g))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorQuickbird>()));
        *at += size_of::<MirrorQuickbird>();
        place_arr::<A16>(t[1].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(quickbird::Init {
            initalpha: <Pair as Elem>::mk(t[0].e()),
            init_alpha: arr_init::<A16>(t[1].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.initalpha, r.initalpha);
        let v = vec![Val::E(r.initalpha.get()), read_arr(r.init_alpha, o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "init_alpha", v[1].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.initalpha), ext_arr(r.init_alpha)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.initalpha), ext_arr(&*m.init_alpha)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 3); let _ = (&t, mask, &mut m);
        if mask & 2 != 0 { mutate_arr_field::<A16>(m.init_alpha, &mut t[1], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Pair as Elem>::TOKS + <A16 as Elem>::TOKS * t[1].a().len() }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Pair as Elem>::EVENTS + <A16 as Elem>::EVENTS * t[1].a().len() }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<Pair>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = quickbird::LayoutControllers {
            initalpha: <Pair as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
/// A generated struct.
#[repr(C)]
pub(crate) struct Zestyjay {
    #[varlen]
    pub(super) initk: Str<u16>,
    #[varlen_array]
    k: [Plain; *refs as usize],
    #[controls_layout]
    init_k: TokLen,
    #[controls_layout]
    pub(self) refs: u16,
    /// A field.
    #[varlen_array]
    kappa: [u8; match (*refs as usize).saturating_sub(2) { x => [x] }[0]],
    #[varlen_array]
    pub(super) mut_ptr: [i16; SOME_LEN],
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorZestyjay(TokLen, u16);
impl Zestyjay {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_init_k: u64, c_refs: u64) -> [u64; 3] { [c_refs, c_refs.saturating_sub(2), 3u64] }
    fn lens_of(v: &[Val]) -> [u64; 3] { let _ = v; Self::ref_lens(v[2].e(), v[3].e()) }
}
impl Spec for Zestyjay {
    const RALIGN: usize = max_of(&[align_of::<MirrorZestyjay>(), <Str<u16> as Spec>::RALIGN, align_of::<Plain>(), align_of::<u8>(), align_of::<i16>()]);
    const RDROP: bool = <Str<u16> as Spec>::RDROP || std::mem::needs_drop::<Plain>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<u16>() || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<i16>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Zestyjay".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_init_k = ctl_gen::<TokLen>(g, 0);
        let c_refs = ctl_gen::<u16>(g, 1);
        let lens = Self::ref_lens(c_init_k, c_refs);
        Val::T(vec![<Str<u16> as Spec>::gen(g), Val::A(gen_arr::<Plain>(lens[0] as usize, g)), Val::E(c_init_k), Val::E(c_refs), Val::A(gen_arr::<u8>(lens[1] as usize, g)), Val::A(gen_arr::<i16>(lens[2] as usize, g))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorZestyjay>()));
        *at += size_of::<MirrorZestyjay>();
        <Str<u16> as Spec>::place(&t[0], at, lv);
        place_arr::<Plain>(t[1].a().len(), at, lv);
        place_arr::<u8>(t[4].a().len(), at, lv);
        place_arr::<i16>(t[5].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(zestyjay::Init {
            initk: make::<Str<u16>>(&t[0], g),
            k: arr_init::<Plain>(t[1].a(), g),
            init_k: <TokLen as Elem>::mk(t[2].e()),
            refs: <u16 as Elem>::mk(t[3].e()),
            kappa: arr_init::<u8>(t[4].a(), g),
            mut_ptr: arr_init::<i16>(t[5].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.init_k, r.init_k);
        same_fixed(Self::name, self, &self.refs, r.refs);
        let v = vec![r.initk.read(o), read_arr(r.k, o), Val::E(r.init_k.get()), Val::E(r.refs.get()), read_arr(r.kappa, o), read_arr(r.mut_ptr, o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "k", v[1].a().len(), lens[0]);
        arr_len_is(Self::name, "kappa", v[4].a().len(), lens[1]);
        arr_len_is(Self::name, "mut_ptr", v[5].a().len(), lens[2]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![extent(r.initk), ext_arr(r.k), ext(r.init_k), ext(r.refs), ext_arr(r.kappa), ext_arr(r.mut_ptr)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![extent(m.initk.as_ref().get_ref()), ext_arr(&*m.k), ext(&*m.init_k), ext(&*m.refs), ext_arr(&*m.kappa), ext_arr(&*m.mut_ptr)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 63); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { <Str<u16> as Spec>::mutate(m.initk.as_mut(), &mut t[0], g); }
        if mask & 2 != 0 { mutate_arr_field::<Plain>(m.k, &mut t[1], g); }
        if mask & 16 != 0 { mutate_arr_field::<u8>(m.kappa, &mut t[4], g); }
        if mask & 32 != 0 { mutate_arr_field::<i16>(m.mut_ptr, &mut t[5], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Str<u16> as Spec>::toks(&t[0]) + <Plain as Elem>::TOKS * t[1].a().len() + <TokLen as Elem>::TOKS + <u16 as Elem>::TOKS + <u8 as Elem>::TOKS * t[4].a().len() + <i16 as Elem>::TOKS * t[5].a().len() }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Str<u16> as Spec>::events(&t[0]) + <Plain as Elem>::EVENTS * t[1].a().len() + <TokLen as Elem>::EVENTS + <u16 as Elem>::EVENTS + <u8 as Elem>::EVENTS * t[4].a().len() + <i16 as Elem>::EVENTS * t[5].a().len() }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[2].e(), t[3].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<u16>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = zestyjay::LayoutControllers {
            init_k: <TokLen as Elem>::mk(cand[0]),
            refs: <u16 as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[2] = Val::E(cand[0]);
            t[3] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart2 {
    use super::*;
#[define_varlen]
pub(super) struct Use {
    #[controls_layout]
    pub(super) array: u16,
    /// A field.
    #[varlen_array]
    pub(super) val: [Tok; double_plus(*array as usize, 3)],
    #[varlen]
    pub(super) val_layout: same_ty!(Array<u8, u8>),
    #[varlen_array]
    /// Its documentation.
    pub(crate) val_len: [u64; *array as usize],
}
}
use apart2::{Use, r#use};
#[allow(dead_code)]
struct MirrorUse(u16);
impl Use {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_array: u64) -> [u64; 2] { [(c_array * 2 + 3), c_array] }
    fn lens_of(v: &[Val]) -> [u64; 2] { let _ = v; Self::ref_lens(v[0].e()) }
}
impl Spec for Use {
    const RALIGN: usize = max_of(&[align_of::<MirrorUse>(), align_of::<Tok>(), <Array<u8, u8> as Spec>::RALIGN, align_of::<u64>()]);
    const RDROP: bool = std::mem::needs_drop::<u16>() || std::mem::needs_drop::<Tok>() || <Array<u8, u8> as Spec>::RDROP || std::mem::needs_drop::<u64>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Use".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_array = ctl_gen::<u16>(g, 1);
        let lens = Self::ref_lens(c_array);
        Val::T(vec![Val::E(c_array), Val::A(gen_arr::<Tok>(lens[0] as usize, g)), <Array<u8, u8> as Spec>::gen(g), Val::A(gen_arr::<u64>(lens[1] as usize, g))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorUse>()));
        *at += size_of::<MirrorUse>();
        place_arr::<Tok>(t[1].a().len(), at, lv);
        <Array<u8, u8> as Spec>::place(&t[2], at, lv);
        place_arr::<u64>(t[3].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(r#use::Init {
            array: <u16 as Elem>::mk(t[0].e()),
            val: arr_init::<Tok>(t[1].a(), g),
            val_layout: make::<Array<u8, u8>>(&t[2], g),
            val_len: arr_init::<u64>(t[3].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.array, r.array);
        let v = vec![Val::E(r.array.get()), read_arr(r.val, o), r.val_layout.read(o), read_arr(r.val_len, o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "val", v[1].a().len(), lens[0]);
        arr_len_is(Self::name, "val_len", v[3].a().len(), lens[1]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.array), ext_arr(r.val), extent(r.val_layout), ext_arr(r.val_len)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.array), ext_arr(&*m.val), extent(m.val_layout.as_ref().get_ref()), ext_arr(&*m.val_len)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 15); let _ = (&t, mask, &mut m);
        if mask & 2 != 0 { mutate_arr_field::<Tok>(m.val, &mut t[1], g); }
        if mask & 4 != 0 { <Array<u8, u8> as Spec>::mutate(m.val_layout.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { mutate_arr_field::<u64>(m.val_len, &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::TOKS + <Tok as Elem>::TOKS * t[1].a().len() + <Array<u8, u8> as Spec>::toks(&t[2]) + <u64 as Elem>::TOKS * t[3].a().len() }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::EVENTS + <Tok as Elem>::EVENTS * t[1].a().len() + <Array<u8, u8> as Spec>::events(&t[2]) + <u64 as Elem>::EVENTS * t[3].a().len() }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u16>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = r#use::LayoutControllers {
            array: <u16 as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
#[repr(C)]
pub struct ShyWolfNode {
    /// A field.
    /// Its documentation.
    pub(crate) count: same_ty!(same_ty![u8]),
    #[controls_layout]
    alpha_layout: same_ty!(u8),
    #[varlen_array]
    pub(super) iota: [same_ty!(u16); same_expr!(phi[1] as usize)],
    pub(self) size: (()),
    #[varlen_array]
    pub(super) xi: [same_ty!(same_ty![TokA]); loop { break ((*alpha_layout as usize).saturating_sub(4)) + ((*alpha_layout as usize + 2) / 2 * 2) } | 0],
    pub(self) layout: same_ty!(A16),
    #[varlen]
    x: same_ty! { Array<u64> },
    /// A field.
    #[controls_layout]
    pub(self) this: same_ty!([u8; 2]),
    #[controls_layout]
    pub(super) phi: same_ty! { [u8; 2] },
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorShyWolfNode(u8, u8, (), A16, [u8; 2], [u8; 2]);
impl ShyWolfNode {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_alpha_layout: u64, c_this: u64, c_phi: u64) -> [u64; 2] { [(c_phi >> 8), (c_alpha_layout.saturating_sub(4) + ((c_alpha_layout + 2) / 2 * 2))] }
    fn lens_of(v: &[Val]) -> [u64; 2] { let _ = v; Self::ref_lens(v[1].e(), v[7].e(), v[8].e()) }
}
impl Spec for ShyWolfNode {
    const RALIGN: usize = max_of(&[align_of::<MirrorShyWolfNode>(), align_of::<u16>(), align_of::<TokA>(), <Array<u64> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<u16>() || std::mem::needs_drop::<()>() || std::mem::needs_drop::<TokA>() || std::mem::needs_drop::<A16>() || <Array<u64> as Spec>::RDROP || std::mem::needs_drop::<[u8; 2]>() || std::mem::needs_drop::<[u8; 2]>();
    const HAS_CTL: bool = true;
    fn name() -> String { "ShyWolfNode".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_alpha_layout = ctl_gen::<u8>(g, 1);
        let c_this = ctl_gen::<[u8; 2]>(g, 0);
        let c_phi = ctl_gen::<[u8; 2]>(g, 0);
        let lens = Self::ref_lens(c_alpha_layout, c_this, c_phi);
        Val::T(vec![Val::E(<u8 as Elem>::norm(g.u64())), Val::E(c_alpha_layout), Val::A(gen_arr::<u16>(lens[0] as usize, g)), Val::E(<() as Elem>::norm(g.u64())), Val::A(gen_arr::<TokA>(lens[1] as usize, g)), Val::E(<A16 as Elem>::norm(g.u64())), <Array<u64> as Spec>::gen(g), Val::E(c_this), Val::E(c_phi)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorShyWolfNode>()));
        *at += size_of::<MirrorShyWolfNode>();
        place_arr::<u16>(t[2].a().len(), at, lv);
        place_arr::<TokA>(t[4].a().len(), at, lv);
        <Array<u64> as Spec>::place(&t[6], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(shy_wolf_node::Init {
            this: <[u8; 2] as Elem>::mk(t[7].e()),
            size: <() as Elem>::mk(t[3].e()),
            xi: arr_init::<TokA>(t[4].a(), g),
            layout: <A16 as Elem>::mk(t[5].e()),
            phi: <[u8; 2] as Elem>::mk(t[8].e()),
            alpha_layout: <u8 as Elem>::mk(t[1].e()),
            x: make::<Array<u64>>(&t[6], g),
            count: <u8 as Elem>::mk(t[0].e()),
            iota: arr_init::<u16>(t[2].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.count, r.count);
        same_fixed(Self::name, self, &self.alpha_layout, r.alpha_layout);
        same_fixed(Self::name, self, &self.size, r.size);
        same_fixed(Self::name, self, &self.layout, r.layout);
        same_fixed(Self::name, self, &self.this, r.this);
        same_fixed(Self::name, self, &self.phi, r.phi);
        let v = vec![Val::E(r.count.get()), Val::E(r.alpha_layout.get()), read_arr(r.iota, o), Val::E(r.size.get()), read_arr(r.xi, o), Val::E(r.layout.get()), r.x.read(o), Val::E(r.this.get()), Val::E(r.phi.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "iota", v[2].a().len(), lens[0]);
        arr_len_is(Self::name, "xi", v[4].a().len(), lens[1]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.count), ext(r.alpha_layout), ext_arr(r.iota), ext(r.size), ext_arr(r.xi), ext(r.layout), extent(r.x), ext(r.this), ext(r.phi)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.count), ext(&*m.alpha_layout), ext_arr(&*m.iota), ext(&*m.size), ext_arr(&*m.xi), ext(&*m.layout), extent(m.x.as_ref().get_ref()), ext(&*m.this), ext(&*m.phi)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 511); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<u8>(m.count, &mut t[0], g); }
        if mask & 4 != 0 { mutate_arr_field::<u16>(m.iota, &mut t[2], g); }
        if mask & 8 != 0 { set_fixed::<()>(m.size, &mut t[3], g); }
        if mask & 16 != 0 { mutate_arr_field::<TokA>(m.xi, &mut t[4], g); }
        if mask & 32 != 0 { set_fixed::<A16>(m.layout, &mut t[5], g); }
        if mask & 64 != 0 { <Array<u64> as Spec>::mutate(m.x.as_mut(), &mut t[6], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS + <u8 as Elem>::TOKS + <u16 as Elem>::TOKS * t[2].a().len() + <() as Elem>::TOKS + <TokA as Elem>::TOKS * t[4].a().len() + <A16 as Elem>::TOKS + <Array<u64> as Spec>::toks(&t[6]) + <[u8; 2] as Elem>::TOKS + <[u8; 2] as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS + <u8 as Elem>::EVENTS + <u16 as Elem>::EVENTS * t[2].a().len() + <() as Elem>::EVENTS + <TokA as Elem>::EVENTS * t[4].a().len() + <A16 as Elem>::EVENTS + <Array<u64> as Spec>::events(&t[6]) + <[u8; 2] as Elem>::EVENTS + <[u8; 2] as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[1].e(), t[7].e(), t[8].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u8>(g, c),
            1 => ctl_near::<[u8; 2]>(g, c),
            2 => ctl_near::<[u8; 2]>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1], c[2]) == old);
        let want = Self::ref_lens(cand[0], cand[1], cand[2]) == old;
        let lc = shy_wolf_node::LayoutControllers {
            alpha_layout: <u8 as Elem>::mk(cand[0]),
            this: <[u8; 2] as Elem>::mk(cand[1]),
            phi: <[u8; 2] as Elem>::mk(cand[2]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[1] = Val::E(cand[0]);
            t[7] = Val::E(cand[1]);
            t[8] = Val::E(cand[2]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
pub struct BrownKoalaBox<'de, GA: Elem, GV: Spec = Str<u8>, const GN: usize = 2> {
    #[controls_layout]
    zeta: same_ty!(u8),
    #[varlen]
    pub(crate) k_b: same_ty!(ShyWolfNode),
    #[varlen]
    pub kB: same_ty!(same_ty![Array<u16, u32>]),
    #[varlen]
    pub(crate) count: same_ty!(GV),
    #[varlen]
    k__b: GV,
    a_1: same_ty!(GA),
    #[varlen_array]
    pub aA: [same_ty!(same_ty![ZTok]); (*zeta as usize) + GN],
    #[varlen]
    pub(crate) size: FixedLen<CN<GN>>,
    pub mut_ptr: same_ty!(Lt<'de>),
}
#[allow(dead_code)]
struct MirrorBrownKoalaBox<GA>(u8, GA, Lt<'static>);
impl<GA: Elem, GV: Spec, const GN: usize> BrownKoalaBox<'static, GA, GV, GN> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_zeta: u64) -> [u64; 1] { [(c_zeta + GN as u64)] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[0].e()) }
}
impl<GA: Elem, GV: Spec, const GN: usize> Spec for BrownKoalaBox<'static, GA, GV, GN> {
    const RALIGN: usize = max_of(&[align_of::<MirrorBrownKoalaBox<GA>>(), <ShyWolfNode as Spec>::RALIGN, <Array<u16, u32> as Spec>::RALIGN, <GV as Spec>::RALIGN, <GV as Spec>::RALIGN, align_of::<ZTok>(), <FixedLen<CN<GN>> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || <ShyWolfNode as Spec>::RDROP || <Array<u16, u32> as Spec>::RDROP || <GV as Spec>::RDROP || <GV as Spec>::RDROP || std::mem::needs_drop::<GA>() || std::mem::needs_drop::<ZTok>() || <FixedLen<CN<GN>> as Spec>::RDROP || std::mem::needs_drop::<Lt<'static>>();
    const HAS_CTL: bool = true;
    fn name() -> String { "BrownKoalaBox".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_zeta = ctl_gen::<u8>(g, 1);
        let lens = Self::ref_lens(c_zeta);
        Val::T(vec![Val::E(c_zeta), <ShyWolfNode as Spec>::gen(g), <Array<u16, u32> as Spec>::gen(g), <GV as Spec>::gen(g), <GV as Spec>::gen(g), Val::E(<GA as Elem>::norm(g.u64())), Val::A(gen_arr::<ZTok>(lens[0] as usize, g)), <FixedLen<CN<GN>> as Spec>::gen(g), Val::E(<Lt<'static> as Elem>::norm(g.u64()))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorBrownKoalaBox<GA>>()));
        *at += size_of::<MirrorBrownKoalaBox<GA>>();
        <ShyWolfNode as Spec>::place(&t[1], at, lv);
        <Array<u16, u32> as Spec>::place(&t[2], at, lv);
        <GV as Spec>::place(&t[3], at, lv);
        <GV as Spec>::place(&t[4], at, lv);
        place_arr::<ZTok>(t[6].a().len(), at, lv);
        <FixedLen<CN<GN>> as Spec>::place(&t[7], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(brown_koala_box::Init {
            zeta: <u8 as Elem>::mk(t[0].e()),
            k_b: make::<ShyWolfNode>(&t[1], g),
            kB: make::<Array<u16, u32>>(&t[2], g),
            count: make::<GV>(&t[3], g),
            k__b: make::<GV>(&t[4], g),
            a_1: <GA as Elem>::mk(t[5].e()),
            aA: arr_init::<ZTok>(t[6].a(), g),
            size: make::<FixedLen<CN<GN>>>(&t[7], g),
            mut_ptr: <Lt<'static> as Elem>::mk(t[8].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.zeta, r.zeta);
        same_fixed(Self::name, self, &self.a_1, r.a_1);
        same_fixed(Self::name, self, &self.mut_ptr, r.mut_ptr);
        let v = vec![Val::E(r.zeta.get()), r.k_b.read(o), r.kB.read(o), r.count.read(o), r.k__b.read(o), Val::E(r.a_1.get()), read_arr(r.aA, o), r.size.read(o), Val::E(r.mut_ptr.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "aA", v[6].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.zeta), extent(r.k_b), extent(r.kB), extent(r.count), extent(r.k__b), ext(r.a_1), ext_arr(r.aA), extent(r.size), ext(r.mut_ptr)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.zeta), extent(m.k_b.as_ref().get_ref()), extent(m.kB.as_ref().get_ref()), extent(m.count.as_ref().get_ref()), extent(m.k__b.as_ref().get_ref()), ext(&*m.a_1), ext_arr(&*m.aA), extent(m.size.as_ref().get_ref()), ext(&*m.mut_ptr)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 511); let _ = (&t, mask, &mut m);
        if mask & 2 != 0 { <ShyWolfNode as Spec>::mutate(m.k_b.as_mut(), &mut t[1], g); }
        if mask & 4 != 0 { <Array<u16, u32> as Spec>::mutate(m.kB.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { <GV as Spec>::mutate(m.count.as_mut(), &mut t[3], g); }
        if mask & 16 != 0 { <GV as Spec>::mutate(m.k__b.as_mut(), &mut t[4], g); }
        if mask & 32 != 0 { set_fixed::<GA>(m.a_1, &mut t[5], g); }
        if mask & 64 != 0 { mutate_arr_field::<ZTok>(m.aA, &mut t[6], g); }
        if mask & 128 != 0 { <FixedLen<CN<GN>> as Spec>::mutate(m.size.as_mut(), &mut t[7], g); }
        if mask & 256 != 0 { set_fixed::<Lt<'static>>(m.mut_ptr, &mut t[8], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS + <ShyWolfNode as Spec>::toks(&t[1]) + <Array<u16, u32> as Spec>::toks(&t[2]) + <GV as Spec>::toks(&t[3]) + <GV as Spec>::toks(&t[4]) + <GA as Elem>::TOKS + <ZTok as Elem>::TOKS * t[6].a().len() + <FixedLen<CN<GN>> as Spec>::toks(&t[7]) + <Lt<'static> as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS + <ShyWolfNode as Spec>::events(&t[1]) + <Array<u16, u32> as Spec>::events(&t[2]) + <GV as Spec>::events(&t[3]) + <GV as Spec>::events(&t[4]) + <GA as Elem>::EVENTS + <ZTok as Elem>::EVENTS * t[6].a().len() + <FixedLen<CN<GN>> as Spec>::events(&t[7]) + <Lt<'static> as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u8>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = brown_koala_box::LayoutControllers {
            zeta: <u8 as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
/// A generated struct.
#[repr(align(32))]
pub(super) struct VarLenLayout {
    /// A field.
    #[varlen]
    pub(self) k_ref: Use,
    k: P9,
    #[controls_layout]
    pub(self) k_mut: same_ty!(TokLen),
    #[varlen_array]
    len: [same_ty!(same_ty![ZTok]); 5],
    #[varlen_array]
    pub(self) alpha: [same_ty! { A64 }; 5],
    #[varlen_array]
    r#fn: [same_ty!([u8; 3]); match k_mut.n as usize * 2 { x => [x] }[0]],
    #[varlen]
    pub(super) muts: same_ty!(same_ty![FixedLen<()>]),
    #[controls_layout]
    self_mut: TokLen,
}
#[allow(dead_code)]
#[repr(align(32))]
struct MirrorVarLenLayout(P9, TokLen, TokLen);
impl VarLenLayout {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_k_mut: u64, c_self_mut: u64) -> [u64; 3] { [5u64, 5u64, ((c_k_mut & 0xffff) * 2)] }
    fn lens_of(v: &[Val]) -> [u64; 3] { let _ = v; Self::ref_lens(v[2].e(), v[7].e()) }
}
impl Spec for VarLenLayout {
    const RALIGN: usize = max_of(&[align_of::<MirrorVarLenLayout>(), <Use as Spec>::RALIGN, align_of::<ZTok>(), align_of::<A64>(), align_of::<[u8; 3]>(), <FixedLen<()> as Spec>::RALIGN]);
    const RDROP: bool = <Use as Spec>::RDROP || std::mem::needs_drop::<P9>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<ZTok>() || std::mem::needs_drop::<A64>() || std::mem::needs_drop::<[u8; 3]>() || <FixedLen<()> as Spec>::RDROP || std::mem::needs_drop::<TokLen>();
    const HAS_CTL: bool = true;
    fn name() -> String { "VarLenLayout".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_k_mut = ctl_gen::<TokLen>(g, 0);
        let c_self_mut = ctl_gen::<TokLen>(g, 0);
        let lens = Self::ref_lens(c_k_mut, c_self_mut);
        Val::T(vec![<Use as Spec>::gen(g), Val::E(<P9 as Elem>::norm(g.u64())), Val::E(c_k_mut), Val::A(gen_arr::<ZTok>(lens[0] as usize, g)), Val::A(gen_arr::<A64>(lens[1] as usize, g)), Val::A(gen_arr::<[u8; 3]>(lens[2] as usize, g)), <FixedLen<()> as Spec>::gen(g), Val::E(c_self_mut)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorVarLenLayout>()));
        *at += size_of::<MirrorVarLenLayout>();
        <Use as Spec>::place(&t[0], at, lv);
        place_arr::<ZTok>(t[3].a().len(), at, lv);
        place_arr::<A64>(t[4].a().len(), at, lv);
        place_arr::<[u8; 3]>(t[5].a().len(), at, lv);
        <FixedLen<()> as Spec>::place(&t[6], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(var_len_layout::Init {
            k_ref: make::<Use>(&t[0], g),
            k: <P9 as Elem>::mk(t[1].e()),
            k_mut: <TokLen as Elem>::mk(t[2].e()),
            len: arr_init::<ZTok>(t[3].a(), g),
            alpha: arr_init::<A64>(t[4].a(), g),
            r#fn: arr_init::<[u8; 3]>(t[5].a(), g),
            muts: make::<FixedLen<()>>(&t[6], g),
            self_mut: <TokLen as Elem>::mk(t[7].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.k, r.k);
        same_fixed(Self::name, self, &self.k_mut, r.k_mut);
        same_fixed(Self::name, self, &self.self_mut, r.self_mut);
        let v = vec![r.k_ref.read(o), Val::E(r.k.get()), Val::E(r.k_mut.get()), read_arr(r.len, o), read_arr(r.alpha, o), read_arr(r.r#fn, o), r.muts.read(o), Val::E(r.self_mut.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "len", v[3].a().len(), lens[0]);
        arr_len_is(Self::name, "alpha", v[4].a().len(), lens[1]);
        arr_len_is(Self::name, "r#fn", v[5].a().len(), lens[2]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![extent(r.k_ref), ext(r.k), ext(r.k_mut), ext_arr(r.len), ext_arr(r.alpha), ext_arr(r.r#fn), extent(r.muts), ext(r.self_mut)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![extent(m.k_ref.as_ref().get_ref()), ext(&*m.k), ext(&*m.k_mut), ext_arr(&*m.len), ext_arr(&*m.alpha), ext_arr(&*m.r#fn), extent(m.muts.as_ref().get_ref()), ext(&*m.self_mut)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 255); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { <Use as Spec>::mutate(m.k_ref.as_mut(), &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<P9>(m.k, &mut t[1], g); }
        if mask & 8 != 0 { mutate_arr_field::<ZTok>(m.len, &mut t[3], g); }
        if mask & 16 != 0 { mutate_arr_field::<A64>(m.alpha, &mut t[4], g); }
        if mask & 32 != 0 { mutate_arr_field::<[u8; 3]>(m.r#fn, &mut t[5], g); }
        if mask & 64 != 0 { <FixedLen<()> as Spec>::mutate(m.muts.as_mut(), &mut t[6], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Use as Spec>::toks(&t[0]) + <P9 as Elem>::TOKS + <TokLen as Elem>::TOKS + <ZTok as Elem>::TOKS * t[3].a().len() + <A64 as Elem>::TOKS * t[4].a().len() + <[u8; 3] as Elem>::TOKS * t[5].a().len() + <FixedLen<()> as Spec>::toks(&t[6]) + <TokLen as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Use as Spec>::events(&t[0]) + <P9 as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <ZTok as Elem>::EVENTS * t[3].a().len() + <A64 as Elem>::EVENTS * t[4].a().len() + <[u8; 3] as Elem>::EVENTS * t[5].a().len() + <FixedLen<()> as Spec>::events(&t[6]) + <TokLen as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[2].e(), t[7].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<TokLen>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = var_len_layout::LayoutControllers {
            k_mut: <TokLen as Elem>::mk(cand[0]),
            self_mut: <TokLen as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[2] = Val::E(cand[0]);
            t[7] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart6 {
    use super::*;
#[define_varlen]
/// A generated struct.
pub(super) struct Uglybird<'b> {
    pub(super) dst: Lt<'b>,
    #[controls_layout]
    pub(crate) layout: TokLen,
    #[varlen]
    pub(super) val: Str<u8>,
    #[controls_layout]
    pub(super) mut_ptr: Option<u8>,
    #[varlen_array]
    pub val_ref: [u32; layout.n()],
    /// A field.
    #[varlen]
    pub(super) val_mut: FixedLen<()>,
}
}
use apart6::{Uglybird, uglybird};
#[allow(dead_code)]
struct MirrorUglybird(Lt<'static>, TokLen, Option<u8>);
impl Uglybird<'static> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_layout: u64, c_mut_ptr: u64) -> [u64; 1] { [(c_layout & 0xffff)] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[1].e(), v[3].e()) }
}
impl Spec for Uglybird<'static> {
    const RALIGN: usize = max_of(&[align_of::<MirrorUglybird>(), <Str<u8> as Spec>::RALIGN, align_of::<u32>(), <FixedLen<()> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<Lt<'static>>() || std::mem::needs_drop::<TokLen>() || <Str<u8> as Spec>::RDROP || std::mem::needs_drop::<Option<u8>>() || std::mem::needs_drop::<u32>() || <FixedLen<()> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "Uglybird".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_layout = ctl_gen::<TokLen>(g, 0);
        let c_mut_ptr = ctl_gen::<Option<u8>>(g, 0);
        let lens = Self::ref_lens(c_layout, c_mut_ptr);
        Val::T(vec![Val::E(<Lt<'static> as Elem>::norm(g.u64())), Val::E(c_layout), <Str<u8> as Spec>::gen(g), Val::E(c_mut_ptr), Val::A(gen_arr::<u32>(lens[0] as usize, g)), <FixedLen<()> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorUglybird>()));
        *at += size_of::<MirrorUglybird>();
        <Str<u8> as Spec>::place(&t[2], at, lv);
        place_arr::<u32>(t[4].a().len(), at, lv);
        <FixedLen<()> as Spec>::place(&t[5], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(uglybird::Init {
            dst: <Lt<'static> as Elem>::mk(t[0].e()),
            layout: <TokLen as Elem>::mk(t[1].e()),
            val: make::<Str<u8>>(&t[2], g),
            mut_ptr: <Option<u8> as Elem>::mk(t[3].e()),
            val_ref: arr_init::<u32>(t[4].a(), g),
            val_mut: make::<FixedLen<()>>(&t[5], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.dst, r.dst);
        same_fixed(Self::name, self, &self.layout, r.layout);
        same_fixed(Self::name, self, &self.mut_ptr, r.mut_ptr);
        let v = vec![Val::E(r.dst.get()), Val::E(r.layout.get()), r.val.read(o), Val::E(r.mut_ptr.get()), read_arr(r.val_ref, o), r.val_mut.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "val_ref", v[4].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.dst), ext(r.layout), extent(r.val), ext(r.mut_ptr), ext_arr(r.val_ref), extent(r.val_mut)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.dst), ext(&*m.layout), extent(m.val.as_ref().get_ref()), ext(&*m.mut_ptr), ext_arr(&*m.val_ref), extent(m.val_mut.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 63); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<Lt<'static>>(m.dst, &mut t[0], g); }
        if mask & 4 != 0 { <Str<u8> as Spec>::mutate(m.val.as_mut(), &mut t[2], g); }
        if mask & 16 != 0 { mutate_arr_field::<u32>(m.val_ref, &mut t[4], g); }
        if mask & 32 != 0 { <FixedLen<()> as Spec>::mutate(m.val_mut.as_mut(), &mut t[5], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Lt<'static> as Elem>::TOKS + <TokLen as Elem>::TOKS + <Str<u8> as Spec>::toks(&t[2]) + <Option<u8> as Elem>::TOKS + <u32 as Elem>::TOKS * t[4].a().len() + <FixedLen<()> as Spec>::toks(&t[5]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Lt<'static> as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <Str<u8> as Spec>::events(&t[2]) + <Option<u8> as Elem>::EVENTS + <u32 as Elem>::EVENTS * t[4].a().len() + <FixedLen<()> as Spec>::events(&t[5]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[1].e(), t[3].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<Option<u8>>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = uglybird::LayoutControllers {
            layout: <TokLen as Elem>::mk(cand[0]),
            mut_ptr: <Option<u8> as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[1] = Val::E(cand[0]);
            t[3] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
pub(crate) struct ProudMole {
    #[varlen_array]
    alpha_x: [u16; (alpha_len[1] as usize) + (lambda.n())],
    #[varlen]
    pub(super) alpha: Array<u64>,
    alphax: u8,
    /// A field.
    #[controls_layout]
    pub(self) lambda: TokLen,
    #[controls_layout]
    pub(super) alpha_len: [u8; 2],
}
#[allow(dead_code)]
struct MirrorProudMole(u8, TokLen, [u8; 2]);
impl ProudMole {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_lambda: u64, c_alpha_len: u64) -> [u64; 1] { [((c_alpha_len >> 8) + (c_lambda & 0xffff))] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[3].e(), v[4].e()) }
}
impl Spec for ProudMole {
    const RALIGN: usize = max_of(&[align_of::<MirrorProudMole>(), align_of::<u16>(), <Array<u64> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u16>() || <Array<u64> as Spec>::RDROP || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<[u8; 2]>();
    const HAS_CTL: bool = true;
    fn name() -> String { "ProudMole".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_lambda = ctl_gen::<TokLen>(g, 0);
        let c_alpha_len = ctl_gen::<[u8; 2]>(g, 0);
        let lens = Self::ref_lens(c_lambda, c_alpha_len);
        Val::T(vec![Val::A(gen_arr::<u16>(lens[0] as usize, g)), <Array<u64> as Spec>::gen(g), Val::E(<u8 as Elem>::norm(g.u64())), Val::E(c_lambda), Val::E(c_alpha_len)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorProudMole>()));
        *at += size_of::<MirrorProudMole>();
        place_arr::<u16>(t[0].a().len(), at, lv);
        <Array<u64> as Spec>::place(&t[1], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(proud_mole::Init {
            lambda: <TokLen as Elem>::mk(t[3].e()),
            alpha_x: arr_init::<u16>(t[0].a(), g),
            alpha_len: <[u8; 2] as Elem>::mk(t[4].e()),
            alpha: make::<Array<u64>>(&t[1], g),
            alphax: <u8 as Elem>::mk(t[2].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.alphax, r.alphax);
        same_fixed(Self::name, self, &self.lambda, r.lambda);
        same_fixed(Self::name, self, &self.alpha_len, r.alpha_len);
        let v = vec![read_arr(r.alpha_x, o), r.alpha.read(o), Val::E(r.alphax.get()), Val::E(r.lambda.get()), Val::E(r.alpha_len.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "alpha_x", v[0].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.alpha_x), extent(r.alpha), ext(r.alphax), ext(r.lambda), ext(r.alpha_len)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.alpha_x), extent(m.alpha.as_ref().get_ref()), ext(&*m.alphax), ext(&*m.lambda), ext(&*m.alpha_len)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 31); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<u16>(m.alpha_x, &mut t[0], g); }
        if mask & 2 != 0 { <Array<u64> as Spec>::mutate(m.alpha.as_mut(), &mut t[1], g); }
        if mask & 4 != 0 { set_fixed::<u8>(m.alphax, &mut t[2], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::TOKS * t[0].a().len() + <Array<u64> as Spec>::toks(&t[1]) + <u8 as Elem>::TOKS + <TokLen as Elem>::TOKS + <[u8; 2] as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::EVENTS * t[0].a().len() + <Array<u64> as Spec>::events(&t[1]) + <u8 as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <[u8; 2] as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[3].e(), t[4].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<[u8; 2]>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = proud_mole::LayoutControllers {
            lambda: <TokLen as Elem>::mk(cand[0]),
            alpha_len: <[u8; 2] as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[3] = Val::E(cand[0]);
            t[4] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
pub(crate) struct In<'b> {
    #[varlen_array]
    /// Its documentation.
    pub(super) gamma: [char; nu[0] as usize + nu[1] as usize],
    ups: TokS,
    beta: same_ty!(same_ty![u64]),
    #[controls_layout]
    pub(super) nu: [u8; 2],
    init: char,
    #[varlen]
    alpha_layout: same_ty! { Array<Lt<'b>, u8> },
}
#[allow(dead_code)]
struct MirrorIn(TokS, u64, [u8; 2], char);
impl In<'static> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_nu: u64) -> [u64; 1] { [((c_nu & 255) + (c_nu >> 8))] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[3].e()) }
}
impl Spec for In<'static> {
    const RALIGN: usize = max_of(&[align_of::<MirrorIn>(), align_of::<char>(), <Array<Lt<'static>, u8> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<char>() || std::mem::needs_drop::<TokS>() || std::mem::needs_drop::<u64>() || std::mem::needs_drop::<[u8; 2]>() || std::mem::needs_drop::<char>() || <Array<Lt<'static>, u8> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "In".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_nu = ctl_gen::<[u8; 2]>(g, 0);
        let lens = Self::ref_lens(c_nu);
        Val::T(vec![Val::A(gen_arr::<char>(lens[0] as usize, g)), Val::E(<TokS as Elem>::norm(g.u64())), Val::E(<u64 as Elem>::norm(g.u64())), Val::E(c_nu), Val::E(<char as Elem>::norm(g.u64())), <Array<Lt<'static>, u8> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorIn>()));
        *at += size_of::<MirrorIn>();
        place_arr::<char>(t[0].a().len(), at, lv);
        <Array<Lt<'static>, u8> as Spec>::place(&t[5], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(r#in::Init {
            gamma: arr_init::<char>(t[0].a(), g),
            ups: <TokS as Elem>::mk(t[1].e()),
            beta: <u64 as Elem>::mk(t[2].e()),
            nu: <[u8; 2] as Elem>::mk(t[3].e()),
            init: <char as Elem>::mk(t[4].e()),
            alpha_layout: make::<Array<Lt<'static>, u8>>(&t[5], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.ups, r.ups);
        same_fixed(Self::name, self, &self.beta, r.beta);
        same_fixed(Self::name, self, &self.nu, r.nu);
        same_fixed(Self::name, self, &self.init, r.init);
        let v = vec![read_arr(r.gamma, o), Val::E(r.ups.get()), Val::E(r.beta.get()), Val::E(r.nu.get()), Val::E(r.init.get()), r.alpha_layout.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "gamma", v[0].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.gamma), ext(r.ups), ext(r.beta), ext(r.nu), ext(r.init), extent(r.alpha_layout)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.gamma), ext(&*m.ups), ext(&*m.beta), ext(&*m.nu), ext(&*m.init), extent(m.alpha_layout.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 63); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<char>(m.gamma, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<TokS>(m.ups, &mut t[1], g); }
        if mask & 4 != 0 { set_fixed::<u64>(m.beta, &mut t[2], g); }
        if mask & 16 != 0 { set_fixed::<char>(m.init, &mut t[4], g); }
        if mask & 32 != 0 { <Array<Lt<'static>, u8> as Spec>::mutate(m.alpha_layout.as_mut(), &mut t[5], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <char as Elem>::TOKS * t[0].a().len() + <TokS as Elem>::TOKS + <u64 as Elem>::TOKS + <[u8; 2] as Elem>::TOKS + <char as Elem>::TOKS + <Array<Lt<'static>, u8> as Spec>::toks(&t[5]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <char as Elem>::EVENTS * t[0].a().len() + <TokS as Elem>::EVENTS + <u64 as Elem>::EVENTS + <[u8; 2] as Elem>::EVENTS + <char as Elem>::EVENTS + <Array<Lt<'static>, u8> as Spec>::events(&t[5]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[3].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<[u8; 2]>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = r#in::LayoutControllers {
            nu: <[u8; 2] as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[3] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
pub struct HappylynxData<'varlen> {
    #[controls_layout]
    pub(crate) name: same_ty!(same_ty![TokLen]),
    mut_ref: Tok,
    #[controls_layout]
    /// Its documentation.
    pub omega: TokLen,
    /// A field.
    #[varlen_array]
    pub(super) array: [same_ty!(same_ty![u8]); name.n()],
    #[varlen_array]
    pub(crate) z: [u16; maximum(name.n as usize * 2, omega.n())],
    /// A field.
    #[varlen_array]
    sigma: [(u16); name.n()],
    /// A field.
    #[varlen]
    pub(self) count: same_ty!(Uglybird<'static>),
    #[varlen]
    pub(super) alpha: same_ty!(same_ty![Array<Lt<'varlen>, u8>]),
}
#[allow(dead_code)]
struct MirrorHappylynxData(TokLen, Tok, TokLen);
impl HappylynxData<'static> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_name: u64, c_omega: u64) -> [u64; 3] { [(c_name & 0xffff), (((c_name & 0xffff) * 2)).max((c_omega & 0xffff)), (c_name & 0xffff)] }
    fn lens_of(v: &[Val]) -> [u64; 3] { let _ = v; Self::ref_lens(v[0].e(), v[2].e()) }
}
impl Spec for HappylynxData<'static> {
    const RALIGN: usize = max_of(&[align_of::<MirrorHappylynxData>(), align_of::<u8>(), align_of::<u16>(), align_of::<u16>(), <Uglybird<'static> as Spec>::RALIGN, <Array<Lt<'static>, u8> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<Tok>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<u16>() || std::mem::needs_drop::<u16>() || <Uglybird<'static> as Spec>::RDROP || <Array<Lt<'static>, u8> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "HappylynxData".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_name = ctl_gen::<TokLen>(g, 0);
        let c_omega = ctl_gen::<TokLen>(g, 0);
        let lens = Self::ref_lens(c_name, c_omega);
        Val::T(vec![Val::E(c_name), Val::E(<Tok as Elem>::norm(g.u64())), Val::E(c_omega), Val::A(gen_arr::<u8>(lens[0] as usize, g)), Val::A(gen_arr::<u16>(lens[1] as usize, g)), Val::A(gen_arr::<u16>(lens[2] as usize, g)), <Uglybird<'static> as Spec>::gen(g), <Array<Lt<'static>, u8> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorHappylynxData>()));
        *at += size_of::<MirrorHappylynxData>();
        place_arr::<u8>(t[3].a().len(), at, lv);
        place_arr::<u16>(t[4].a().len(), at, lv);
        place_arr::<u16>(t[5].a().len(), at, lv);
        <Uglybird<'static> as Spec>::place(&t[6], at, lv);
        <Array<Lt<'static>, u8> as Spec>::place(&t[7], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(happylynx_data::Init {
            name: <TokLen as Elem>::mk(t[0].e()),
            mut_ref: <Tok as Elem>::mk(t[1].e()),
            omega: <TokLen as Elem>::mk(t[2].e()),
            array: arr_init::<u8>(t[3].a(), g),
            z: arr_init::<u16>(t[4].a(), g),
            sigma: arr_init::<u16>(t[5].a(), g),
            count: make::<Uglybird<'static>>(&t[6], g),
            alpha: make::<Array<Lt<'static>, u8>>(&t[7], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.name, r.name);
        same_fixed(Self::name, self, &self.mut_ref, r.mut_ref);
        same_fixed(Self::name, self, &self.omega, r.omega);
        let v = vec![Val::E(r.name.get()), Val::E(r.mut_ref.get()), Val::E(r.omega.get()), read_arr(r.array, o), read_arr(r.z, o), read_arr(r.sigma, o), r.count.read(o), r.alpha.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "array", v[3].a().len(), lens[0]);
        arr_len_is(Self::name, "z", v[4].a().len(), lens[1]);
        arr_len_is(Self::name, "sigma", v[5].a().len(), lens[2]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.name), ext(r.mut_ref), ext(r.omega), ext_arr(r.array), ext_arr(r.z), ext_arr(r.sigma), extent(r.count), extent(r.alpha)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.name), ext(&*m.mut_ref), ext(&*m.omega), ext_arr(&*m.array), ext_arr(&*m.z), ext_arr(&*m.sigma), extent(m.count.as_ref().get_ref()), extent(m.alpha.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 255); let _ = (&t, mask, &mut m);
        if mask & 2 != 0 { set_fixed::<Tok>(m.mut_ref, &mut t[1], g); }
        if mask & 8 != 0 { mutate_arr_field::<u8>(m.array, &mut t[3], g); }
        if mask & 16 != 0 { mutate_arr_field::<u16>(m.z, &mut t[4], g); }
        if mask & 32 != 0 { mutate_arr_field::<u16>(m.sigma, &mut t[5], g); }
        if mask & 64 != 0 { <Uglybird<'static> as Spec>::mutate(m.count.as_mut(), &mut t[6], g); }
        if mask & 128 != 0 { <Array<Lt<'static>, u8> as Spec>::mutate(m.alpha.as_mut(), &mut t[7], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <TokLen as Elem>::TOKS + <Tok as Elem>::TOKS + <TokLen as Elem>::TOKS + <u8 as Elem>::TOKS * t[3].a().len() + <u16 as Elem>::TOKS * t[4].a().len() + <u16 as Elem>::TOKS * t[5].a().len() + <Uglybird<'static> as Spec>::toks(&t[6]) + <Array<Lt<'static>, u8> as Spec>::toks(&t[7]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <TokLen as Elem>::EVENTS + <Tok as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <u8 as Elem>::EVENTS * t[3].a().len() + <u16 as Elem>::EVENTS * t[4].a().len() + <u16 as Elem>::EVENTS * t[5].a().len() + <Uglybird<'static> as Spec>::events(&t[6]) + <Array<Lt<'static>, u8> as Spec>::events(&t[7]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e(), t[2].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<TokLen>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = happylynx_data::LayoutControllers {
            name: <TokLen as Elem>::mk(cand[0]),
            omega: <TokLen as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
            t[2] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart10 {
    use super::*;
#[define_varlen]
pub(super) struct QuietSeal {
    /// A field.
    pub(crate) slf: u8,
    #[varlen]
    pub(super) this: In<'static>,
}
}
use apart10::{QuietSeal, quiet_seal};
#[allow(dead_code)]
struct MirrorQuietSeal(u8);
impl QuietSeal {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens() -> [u64; 0] { [] }
    fn lens_of(v: &[Val]) -> [u64; 0] { let _ = v; Self::ref_lens() }
}
impl Spec for QuietSeal {
    const RALIGN: usize = max_of(&[align_of::<MirrorQuietSeal>(), <In<'static> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || <In<'static> as Spec>::RDROP;
    fn name() -> String { "QuietSeal".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        Val::T(vec![Val::E(<u8 as Elem>::norm(g.u64())), <In<'static> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorQuietSeal>()));
        *at += size_of::<MirrorQuietSeal>();
        <In<'static> as Spec>::place(&t[1], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(quiet_seal::Init {
            slf: <u8 as Elem>::mk(t[0].e()),
            this: make::<In<'static>>(&t[1], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.slf, r.slf);
        let v = vec![Val::E(r.slf.get()), r.this.read(o)];
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.slf), extent(r.this)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.slf), extent(m.this.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 3); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<u8>(m.slf, &mut t[0], g); }
        if mask & 2 != 0 { <In<'static> as Spec>::mutate(m.this.as_mut(), &mut t[1], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS + <In<'static> as Spec>::toks(&t[1]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS + <In<'static> as Spec>::events(&t[1]) }
}

#[define_varlen]
pub struct LayoutControllers2 {
    /// A field.
    #[varlen]
    pub(self) slf: same_ty!(Array<()>),
    /// A field.
    #[varlen_array]
    this: [(ZTok); *lengths as usize],
    #[varlen]
    pub(self) self_: same_ty!(Array<u64>),
    #[varlen_array]
    pub(super) eps: [same_ty!(u8); (*lengths as usize) / 4],
    pub(super) pi: char,
    #[varlen]
    pub(super) layout: Str<u8>,
    #[controls_layout]
    pub(crate) lengths: u16,
}
#[allow(dead_code)]
struct MirrorLayoutControllers2(char, u16);
impl LayoutControllers2 {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_lengths: u64) -> [u64; 2] { [c_lengths, (c_lengths / 4)] }
    fn lens_of(v: &[Val]) -> [u64; 2] { let _ = v; Self::ref_lens(v[6].e()) }
}
impl Spec for LayoutControllers2 {
    const RALIGN: usize = max_of(&[align_of::<MirrorLayoutControllers2>(), <Array<()> as Spec>::RALIGN, align_of::<ZTok>(), <Array<u64> as Spec>::RALIGN, align_of::<u8>(), <Str<u8> as Spec>::RALIGN]);
    const RDROP: bool = <Array<()> as Spec>::RDROP || std::mem::needs_drop::<ZTok>() || <Array<u64> as Spec>::RDROP || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<char>() || <Str<u8> as Spec>::RDROP || std::mem::needs_drop::<u16>();
    const HAS_CTL: bool = true;
    fn name() -> String { "LayoutControllers2".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_lengths = ctl_gen::<u16>(g, 1);
        let lens = Self::ref_lens(c_lengths);
        Val::T(vec![<Array<()> as Spec>::gen(g), Val::A(gen_arr::<ZTok>(lens[0] as usize, g)), <Array<u64> as Spec>::gen(g), Val::A(gen_arr::<u8>(lens[1] as usize, g)), Val::E(<char as Elem>::norm(g.u64())), <Str<u8> as Spec>::gen(g), Val::E(c_lengths)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorLayoutControllers2>()));
        *at += size_of::<MirrorLayoutControllers2>();
        <Array<()> as Spec>::place(&t[0], at, lv);
        place_arr::<ZTok>(t[1].a().len(), at, lv);
        <Array<u64> as Spec>::place(&t[2], at, lv);
        place_arr::<u8>(t[3].a().len(), at, lv);
        <Str<u8> as Spec>::place(&t[5], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(layout_controllers_2::Init {
            slf: make::<Array<()>>(&t[0], g),
            this: arr_init::<ZTok>(t[1].a(), g),
            self_: make::<Array<u64>>(&t[2], g),
            eps: arr_init::<u8>(t[3].a(), g),
            pi: <char as Elem>::mk(t[4].e()),
            layout: make::<Str<u8>>(&t[5], g),
            lengths: <u16 as Elem>::mk(t[6].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.pi, r.pi);
        same_fixed(Self::name, self, &self.lengths, r.lengths);
        let v = vec![r.slf.read(o), read_arr(r.this, o), r.self_.read(o), read_arr(r.eps, o), Val::E(r.pi.get()), r.layout.read(o), Val::E(r.lengths.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "this", v[1].a().len(), lens[0]);
        arr_len_is(Self::name, "eps", v[3].a().len(), lens[1]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![extent(r.slf), ext_arr(r.this), extent(r.self_), ext_arr(r.eps), ext(r.pi), extent(r.layout), ext(r.lengths)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![extent(m.slf.as_ref().get_ref()), ext_arr(&*m.this), extent(m.self_.as_ref().get_ref()), ext_arr(&*m.eps), ext(&*m.pi), extent(m.layout.as_ref().get_ref()), ext(&*m.lengths)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 127); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { <Array<()> as Spec>::mutate(m.slf.as_mut(), &mut t[0], g); }
        if mask & 2 != 0 { mutate_arr_field::<ZTok>(m.this, &mut t[1], g); }
        if mask & 4 != 0 { <Array<u64> as Spec>::mutate(m.self_.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { mutate_arr_field::<u8>(m.eps, &mut t[3], g); }
        if mask & 16 != 0 { set_fixed::<char>(m.pi, &mut t[4], g); }
        if mask & 32 != 0 { <Str<u8> as Spec>::mutate(m.layout.as_mut(), &mut t[5], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Array<()> as Spec>::toks(&t[0]) + <ZTok as Elem>::TOKS * t[1].a().len() + <Array<u64> as Spec>::toks(&t[2]) + <u8 as Elem>::TOKS * t[3].a().len() + <char as Elem>::TOKS + <Str<u8> as Spec>::toks(&t[5]) + <u16 as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Array<()> as Spec>::events(&t[0]) + <ZTok as Elem>::EVENTS * t[1].a().len() + <Array<u64> as Spec>::events(&t[2]) + <u8 as Elem>::EVENTS * t[3].a().len() + <char as Elem>::EVENTS + <Str<u8> as Spec>::events(&t[5]) + <u16 as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[6].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u16>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = layout_controllers_2::LayoutControllers {
            lengths: <u16 as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[6] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
struct GrimKoalaData {
    #[controls_layout]
    /// Its documentation.
    alpha_len: u64,
    #[controls_layout]
    /// Its documentation.
    drop_it: same_ty!(usize),
    #[varlen_array]
    pub(self) alpha: [[u32; 5]; maximum((*drop_it) / 3, (*alpha_len as usize) * 4)],
    #[varlen]
    /// Its documentation.
    pub(super) alpha_layout: Array<TokA, u8>,
}
#[allow(dead_code)]
struct MirrorGrimKoalaData(u64, usize);
impl GrimKoalaData {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_alpha_len: u64, c_drop_it: u64) -> [u64; 1] { [((c_drop_it / 3)).max((c_alpha_len * 4))] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[0].e(), v[1].e()) }
}
impl Spec for GrimKoalaData {
    const RALIGN: usize = max_of(&[align_of::<MirrorGrimKoalaData>(), align_of::<[u32; 5]>(), <Array<TokA, u8> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u64>() || std::mem::needs_drop::<usize>() || std::mem::needs_drop::<[u32; 5]>() || <Array<TokA, u8> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "GrimKoalaData".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_alpha_len = ctl_gen::<u64>(g, 1);
        let c_drop_it = ctl_gen::<usize>(g, 1);
        let lens = Self::ref_lens(c_alpha_len, c_drop_it);
        Val::T(vec![Val::E(c_alpha_len), Val::E(c_drop_it), Val::A(gen_arr::<[u32; 5]>(lens[0] as usize, g)), <Array<TokA, u8> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorGrimKoalaData>()));
        *at += size_of::<MirrorGrimKoalaData>();
        place_arr::<[u32; 5]>(t[2].a().len(), at, lv);
        <Array<TokA, u8> as Spec>::place(&t[3], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(grim_koala_data::Init {
            alpha_len: <u64 as Elem>::mk(t[0].e()),
            drop_it: <usize as Elem>::mk(t[1].e()),
            alpha: arr_init::<[u32; 5]>(t[2].a(), g),
            alpha_layout: make::<Array<TokA, u8>>(&t[3], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.alpha_len, r.alpha_len);
        same_fixed(Self::name, self, &self.drop_it, r.drop_it);
        let v = vec![Val::E(r.alpha_len.get()), Val::E(r.drop_it.get()), read_arr(r.alpha, o), r.alpha_layout.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "alpha", v[2].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.alpha_len), ext(r.drop_it), ext_arr(r.alpha), extent(r.alpha_layout)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.alpha_len), ext(&*m.drop_it), ext_arr(&*m.alpha), extent(m.alpha_layout.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 15); let _ = (&t, mask, &mut m);
        if mask & 4 != 0 { mutate_arr_field::<[u32; 5]>(m.alpha, &mut t[2], g); }
        if mask & 8 != 0 { <Array<TokA, u8> as Spec>::mutate(m.alpha_layout.as_mut(), &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u64 as Elem>::TOKS + <usize as Elem>::TOKS + <[u32; 5] as Elem>::TOKS * t[2].a().len() + <Array<TokA, u8> as Spec>::toks(&t[3]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u64 as Elem>::EVENTS + <usize as Elem>::EVENTS + <[u32; 5] as Elem>::EVENTS * t[2].a().len() + <Array<TokA, u8> as Spec>::events(&t[3]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e(), t[1].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u64>(g, c),
            1 => ctl_near::<usize>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = grim_koala_data::LayoutControllers {
            alpha_len: <u64 as Elem>::mk(cand[0]),
            drop_it: <usize as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
            t[1] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
/// A generated struct.
pub struct WarmdogBox {
    /// A field.
    #[varlen_array]
    /// Its documentation.
    alpha: [char; (*init as usize) / 4],
    pub(self) pi: fn(u32) -> u32,
    #[controls_layout]
    pub(self) alpha_len: TokLen,
    pub(crate) sigma: A64,
    #[varlen]
    pub(super) omega: ProudMole,
    #[controls_layout]
    pub init: u16,
}
#[allow(dead_code)]
struct MirrorWarmdogBox(fn(u32) -> u32, TokLen, A64, u16);
impl WarmdogBox {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_alpha_len: u64, c_init: u64) -> [u64; 1] { [(c_init / 4)] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[2].e(), v[5].e()) }
}
impl Spec for WarmdogBox {
    const RALIGN: usize = max_of(&[align_of::<MirrorWarmdogBox>(), align_of::<char>(), <ProudMole as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<char>() || std::mem::needs_drop::<fn(u32) -> u32>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<A64>() || <ProudMole as Spec>::RDROP || std::mem::needs_drop::<u16>();
    const HAS_CTL: bool = true;
    fn name() -> String { "WarmdogBox".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_alpha_len = ctl_gen::<TokLen>(g, 0);
        let c_init = ctl_gen::<u16>(g, 1);
        let lens = Self::ref_lens(c_alpha_len, c_init);
        Val::T(vec![Val::A(gen_arr::<char>(lens[0] as usize, g)), Val::E(<fn(u32) -> u32 as Elem>::norm(g.u64())), Val::E(c_alpha_len), Val::E(<A64 as Elem>::norm(g.u64())), <ProudMole as Spec>::gen(g), Val::E(c_init)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorWarmdogBox>()));
        *at += size_of::<MirrorWarmdogBox>();
        place_arr::<char>(t[0].a().len(), at, lv);
        <ProudMole as Spec>::place(&t[4], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(warmdog_box::Init {
            alpha: arr_init::<char>(t[0].a(), g),
            pi: <fn(u32) -> u32 as Elem>::mk(t[1].e()),
            alpha_len: <TokLen as Elem>::mk(t[2].e()),
            sigma: <A64 as Elem>::mk(t[3].e()),
            omega: make::<ProudMole>(&t[4], g),
            init: <u16 as Elem>::mk(t[5].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.pi, r.pi);
        same_fixed(Self::name, self, &self.alpha_len, r.alpha_len);
        same_fixed(Self::name, self, &self.sigma, r.sigma);
        same_fixed(Self::name, self, &self.init, r.init);
        let v = vec![read_arr(r.alpha, o), Val::E(r.pi.get()), Val::E(r.alpha_len.get()), Val::E(r.sigma.get()), r.omega.read(o), Val::E(r.init.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "alpha", v[0].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.alpha), ext(r.pi), ext(r.alpha_len), ext(r.sigma), extent(r.omega), ext(r.init)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.alpha), ext(&*m.pi), ext(&*m.alpha_len), ext(&*m.sigma), extent(m.omega.as_ref().get_ref()), ext(&*m.init)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 63); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<char>(m.alpha, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<fn(u32) -> u32>(m.pi, &mut t[1], g); }
        if mask & 8 != 0 { set_fixed::<A64>(m.sigma, &mut t[3], g); }
        if mask & 16 != 0 { <ProudMole as Spec>::mutate(m.omega.as_mut(), &mut t[4], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <char as Elem>::TOKS * t[0].a().len() + <fn(u32) -> u32 as Elem>::TOKS + <TokLen as Elem>::TOKS + <A64 as Elem>::TOKS + <ProudMole as Spec>::toks(&t[4]) + <u16 as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <char as Elem>::EVENTS * t[0].a().len() + <fn(u32) -> u32 as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <A64 as Elem>::EVENTS + <ProudMole as Spec>::events(&t[4]) + <u16 as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[2].e(), t[5].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<u16>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = warmdog_box::LayoutControllers {
            alpha_len: <TokLen as Elem>::mk(cand[0]),
            init: <u16 as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[2] = Val::E(cand[0]);
            t[5] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart14 {
    use super::*;
#[define_varlen]
#[repr(align(32))]
pub(super) struct Ref<GV, const GN: usize = 2> where GV: Spec {
    /// A field.
    #[varlen_array]
    /// Its documentation.
    pub(crate) val_mut_x: [(u16); maximum(match rho { Some(x) => *x as usize, None => 0 }, (*x) / 2)],
    #[varlen]
    pub(crate) val_mutX: same_ty!(same_ty![Array<Tok, u16>]),
    #[varlen]
    pub(crate) p: same_ty!(GV),
    #[controls_layout]
    /// Its documentation.
    pub(super) rho: same_ty!(Option<u8>),
    /// A field.
    pub(crate) eps: (u32),
    pub(super) offset: (u16),
    #[varlen]
    pub(crate) valMutX: same_ty!(GV),
    #[controls_layout]
    pub(super) x: same_ty!(usize),
    /// A field.
    #[varlen_array]
    /// Its documentation.
    pub(super) count: [same_ty!([u32; 5]); match (maximum((*x) / 4, match rho { Some(x) => *x as usize, None => 0 })) + GN { x => [x] }[0]],
    #[varlen]
    pub(super) eta: same_ty!(FixedLen<CN<GN>>),
}
}
use apart14::{Ref, r#ref};
#[allow(dead_code)]
#[repr(align(32))]
struct MirrorRef(Option<u8>, u32, u16, usize);
impl<GV, const GN: usize> Ref<GV, GN> where GV: Spec {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_rho: u64, c_x: u64) -> [u64; 2] { [((if c_rho & 0x100 != 0 { c_rho & 255 } else { 0 })).max((c_x / 2)), (((c_x / 4)).max((if c_rho & 0x100 != 0 { c_rho & 255 } else { 0 })) + GN as u64)] }
    fn lens_of(v: &[Val]) -> [u64; 2] { let _ = v; Self::ref_lens(v[3].e(), v[7].e()) }
}
impl<GV, const GN: usize> Spec for Ref<GV, GN> where GV: Spec {
    const RALIGN: usize = max_of(&[align_of::<MirrorRef>(), align_of::<u16>(), <Array<Tok, u16> as Spec>::RALIGN, <GV as Spec>::RALIGN, <GV as Spec>::RALIGN, align_of::<[u32; 5]>(), <FixedLen<CN<GN>> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u16>() || <Array<Tok, u16> as Spec>::RDROP || <GV as Spec>::RDROP || std::mem::needs_drop::<Option<u8>>() || std::mem::needs_drop::<u32>() || std::mem::needs_drop::<u16>() || <GV as Spec>::RDROP || std::mem::needs_drop::<usize>() || std::mem::needs_drop::<[u32; 5]>() || <FixedLen<CN<GN>> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "Ref".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_rho = ctl_gen::<Option<u8>>(g, 0);
        let c_x = ctl_gen::<usize>(g, 1);
        let lens = Self::ref_lens(c_rho, c_x);
        Val::T(vec![Val::A(gen_arr::<u16>(lens[0] as usize, g)), <Array<Tok, u16> as Spec>::gen(g), <GV as Spec>::gen(g), Val::E(c_rho), Val::E(<u32 as Elem>::norm(g.u64())), Val::E(<u16 as Elem>::norm(g.u64())), <GV as Spec>::gen(g), Val::E(c_x), Val::A(gen_arr::<[u32; 5]>(lens[1] as usize, g)), <FixedLen<CN<GN>> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorRef>()));
        *at += size_of::<MirrorRef>();
        place_arr::<u16>(t[0].a().len(), at, lv);
        <Array<Tok, u16> as Spec>::place(&t[1], at, lv);
        <GV as Spec>::place(&t[2], at, lv);
        <GV as Spec>::place(&t[6], at, lv);
        place_arr::<[u32; 5]>(t[8].a().len(), at, lv);
        <FixedLen<CN<GN>> as Spec>::place(&t[9], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(r#ref::Init {
            val_mut_x: arr_init::<u16>(t[0].a(), g),
            val_mutX: make::<Array<Tok, u16>>(&t[1], g),
            p: make::<GV>(&t[2], g),
            rho: <Option<u8> as Elem>::mk(t[3].e()),
            eps: <u32 as Elem>::mk(t[4].e()),
            offset: <u16 as Elem>::mk(t[5].e()),
            valMutX: make::<GV>(&t[6], g),
            x: <usize as Elem>::mk(t[7].e()),
            count: arr_init::<[u32; 5]>(t[8].a(), g),
            eta: make::<FixedLen<CN<GN>>>(&t[9], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.rho, r.rho);
        same_fixed(Self::name, self, &self.eps, r.eps);
        same_fixed(Self::name, self, &self.offset, r.offset);
        same_fixed(Self::name, self, &self.x, r.x);
        let v = vec![read_arr(r.val_mut_x, o), r.val_mutX.read(o), r.p.read(o), Val::E(r.rho.get()), Val::E(r.eps.get()), Val::E(r.offset.get()), r.valMutX.read(o), Val::E(r.x.get()), read_arr(r.count, o), r.eta.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "val_mut_x", v[0].a().len(), lens[0]);
        arr_len_is(Self::name, "count", v[8].a().len(), lens[1]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.val_mut_x), extent(r.val_mutX), extent(r.p), ext(r.rho), ext(r.eps), ext(r.offset), extent(r.valMutX), ext(r.x), ext_arr(r.count), extent(r.eta)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.val_mut_x), extent(m.val_mutX.as_ref().get_ref()), extent(m.p.as_ref().get_ref()), ext(&*m.rho), ext(&*m.eps), ext(&*m.offset), extent(m.valMutX.as_ref().get_ref()), ext(&*m.x), ext_arr(&*m.count), extent(m.eta.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 1023); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<u16>(m.val_mut_x, &mut t[0], g); }
        if mask & 2 != 0 { <Array<Tok, u16> as Spec>::mutate(m.val_mutX.as_mut(), &mut t[1], g); }
        if mask & 4 != 0 { <GV as Spec>::mutate(m.p.as_mut(), &mut t[2], g); }
        if mask & 16 != 0 { set_fixed::<u32>(m.eps, &mut t[4], g); }
        if mask & 32 != 0 { set_fixed::<u16>(m.offset, &mut t[5], g); }
        if mask & 64 != 0 { <GV as Spec>::mutate(m.valMutX.as_mut(), &mut t[6], g); }
        if mask & 256 != 0 { mutate_arr_field::<[u32; 5]>(m.count, &mut t[8], g); }
        if mask & 512 != 0 { <FixedLen<CN<GN>> as Spec>::mutate(m.eta.as_mut(), &mut t[9], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::TOKS * t[0].a().len() + <Array<Tok, u16> as Spec>::toks(&t[1]) + <GV as Spec>::toks(&t[2]) + <Option<u8> as Elem>::TOKS + <u32 as Elem>::TOKS + <u16 as Elem>::TOKS + <GV as Spec>::toks(&t[6]) + <usize as Elem>::TOKS + <[u32; 5] as Elem>::TOKS * t[8].a().len() + <FixedLen<CN<GN>> as Spec>::toks(&t[9]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u16 as Elem>::EVENTS * t[0].a().len() + <Array<Tok, u16> as Spec>::events(&t[1]) + <GV as Spec>::events(&t[2]) + <Option<u8> as Elem>::EVENTS + <u32 as Elem>::EVENTS + <u16 as Elem>::EVENTS + <GV as Spec>::events(&t[6]) + <usize as Elem>::EVENTS + <[u32; 5] as Elem>::EVENTS * t[8].a().len() + <FixedLen<CN<GN>> as Spec>::events(&t[9]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[3].e(), t[7].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<Option<u8>>(g, c),
            1 => ctl_near::<usize>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = r#ref::LayoutControllers {
            rho: <Option<u8> as Elem>::mk(cand[0]),
            x: <usize as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[3] = Val::E(cand[0]);
            t[7] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
#[repr(C)]
struct QuickbirdNode {
    #[varlen_array]
    /// Its documentation.
    src: [u8; xi[0] as usize + xi[1] as usize],
    /// A field.
    #[varlen]
    pub(self) dst: FixedLen<ZTok>,
    /// A field.
    #[varlen]
    pub(self) p: Array<u64>,
    #[varlen]
    /// Its documentation.
    pub(crate) size: Array<A64, u8>,
    #[controls_layout]
    pub(self) xi: [u8; 2],
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorQuickbirdNode([u8; 2]);
impl QuickbirdNode {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_xi: u64) -> [u64; 1] { [((c_xi & 255) + (c_xi >> 8))] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[4].e()) }
}
impl Spec for QuickbirdNode {
    const RALIGN: usize = max_of(&[align_of::<MirrorQuickbirdNode>(), align_of::<u8>(), <FixedLen<ZTok> as Spec>::RALIGN, <Array<u64> as Spec>::RALIGN, <Array<A64, u8> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || <FixedLen<ZTok> as Spec>::RDROP || <Array<u64> as Spec>::RDROP || <Array<A64, u8> as Spec>::RDROP || std::mem::needs_drop::<[u8; 2]>();
    const HAS_CTL: bool = true;
    fn name() -> String { "QuickbirdNode".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_xi = ctl_gen::<[u8; 2]>(g, 0);
        let lens = Self::ref_lens(c_xi);
        Val::T(vec![Val::A(gen_arr::<u8>(lens[0] as usize, g)), <FixedLen<ZTok> as Spec>::gen(g), <Array<u64> as Spec>::gen(g), <Array<A64, u8> as Spec>::gen(g), Val::E(c_xi)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorQuickbirdNode>()));
        *at += size_of::<MirrorQuickbirdNode>();
        place_arr::<u8>(t[0].a().len(), at, lv);
        <FixedLen<ZTok> as Spec>::place(&t[1], at, lv);
        <Array<u64> as Spec>::place(&t[2], at, lv);
        <Array<A64, u8> as Spec>::place(&t[3], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(quickbird_node::Init {
            src: arr_init::<u8>(t[0].a(), g),
            dst: make::<FixedLen<ZTok>>(&t[1], g),
            p: make::<Array<u64>>(&t[2], g),
            size: make::<Array<A64, u8>>(&t[3], g),
            xi: <[u8; 2] as Elem>::mk(t[4].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.xi, r.xi);
        let v = vec![read_arr(r.src, o), r.dst.read(o), r.p.read(o), r.size.read(o), Val::E(r.xi.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "src", v[0].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.src), extent(r.dst), extent(r.p), extent(r.size), ext(r.xi)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.src), extent(m.dst.as_ref().get_ref()), extent(m.p.as_ref().get_ref()), extent(m.size.as_ref().get_ref()), ext(&*m.xi)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 31); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<u8>(m.src, &mut t[0], g); }
        if mask & 2 != 0 { <FixedLen<ZTok> as Spec>::mutate(m.dst.as_mut(), &mut t[1], g); }
        if mask & 4 != 0 { <Array<u64> as Spec>::mutate(m.p.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { <Array<A64, u8> as Spec>::mutate(m.size.as_mut(), &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS * t[0].a().len() + <FixedLen<ZTok> as Spec>::toks(&t[1]) + <Array<u64> as Spec>::toks(&t[2]) + <Array<A64, u8> as Spec>::toks(&t[3]) + <[u8; 2] as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS * t[0].a().len() + <FixedLen<ZTok> as Spec>::events(&t[1]) + <Array<u64> as Spec>::events(&t[2]) + <Array<A64, u8> as Spec>::events(&t[3]) + <[u8; 2] as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[4].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<[u8; 2]>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = quickbird_node::LayoutControllers {
            xi: <[u8; 2] as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[4] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
#[repr(C)]
struct Fancylynx<'varlen> {
    p: Lt<'static>,
    /// A field.
    pub(super) dst: Lt<'varlen>,
    #[varlen]
    pub(crate) src: Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>>,
    pub(self) a_1: Lt<'varlen>,
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorFancylynx(Lt<'static>, Lt<'static>, Lt<'static>);
impl Fancylynx<'static> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens() -> [u64; 0] { [] }
    fn lens_of(v: &[Val]) -> [u64; 0] { let _ = v; Self::ref_lens() }
}
impl Spec for Fancylynx<'static> {
    const RALIGN: usize = max_of(&[align_of::<MirrorFancylynx>(), <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<Lt<'static>>() || std::mem::needs_drop::<Lt<'static>>() || <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::RDROP || std::mem::needs_drop::<Lt<'static>>();
    fn name() -> String { "Fancylynx".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        Val::T(vec![Val::E(<Lt<'static> as Elem>::norm(g.u64())), Val::E(<Lt<'static> as Elem>::norm(g.u64())), <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::gen(g), Val::E(<Lt<'static> as Elem>::norm(g.u64()))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorFancylynx>()));
        *at += size_of::<MirrorFancylynx>();
        <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::place(&t[2], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(fancylynx::Init {
            p: <Lt<'static> as Elem>::mk(t[0].e()),
            dst: <Lt<'static> as Elem>::mk(t[1].e()),
            src: make::<Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>>>(&t[2], g),
            a_1: <Lt<'static> as Elem>::mk(t[3].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.p, r.p);
        same_fixed(Self::name, self, &self.dst, r.dst);
        same_fixed(Self::name, self, &self.a_1, r.a_1);
        let v = vec![Val::E(r.p.get()), Val::E(r.dst.get()), r.src.read(o), Val::E(r.a_1.get())];
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.p), ext(r.dst), extent(r.src), ext(r.a_1)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.p), ext(&*m.dst), extent(m.src.as_ref().get_ref()), ext(&*m.a_1)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 15); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<Lt<'static>>(m.p, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<Lt<'static>>(m.dst, &mut t[1], g); }
        if mask & 4 != 0 { <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::mutate(m.src.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { set_fixed::<Lt<'static>>(m.a_1, &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Lt<'static> as Elem>::TOKS + <Lt<'static> as Elem>::TOKS + <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::toks(&t[2]) + <Lt<'static> as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Lt<'static> as Elem>::EVENTS + <Lt<'static> as Elem>::EVENTS + <Tup2<Str<u8>, Tup2<FixedLen<u32>, Array<TokH, u8>>> as Spec>::events(&t[2]) + <Lt<'static> as Elem>::EVENTS }
}

#[define_varlen]
pub struct Str2<GA: Elem, GV> where GV: Spec {
    #[varlen]
    r#match: GV,
    r#type: Option<std::num::NonZeroU16>,
    /// A field.
    #[varlen_array]
    pub(self) r#move: [P9; p.n()],
    #[varlen_array]
    pub(super) self_mut: [A64; p.n as usize * 2],
    #[varlen_array]
    chi: [u32; unsafe { maximum(this.n(), p.n as usize * 2) }.wrapping_add(0)],
    #[controls_layout]
    /// Its documentation.
    pub this: TokLen,
    #[controls_layout]
    /// Its documentation.
    pub(self) p: TokLen,
    /// A field.
    /// Its documentation.
    pub(crate) y: GA,
}
#[allow(dead_code)]
struct MirrorStr2<GA>(Option<std::num::NonZeroU16>, TokLen, TokLen, GA);
impl<GA: Elem, GV> Str2<GA, GV> where GV: Spec {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_this: u64, c_p: u64) -> [u64; 3] { [(c_p & 0xffff), ((c_p & 0xffff) * 2), ((c_this & 0xffff)).max(((c_p & 0xffff) * 2))] }
    fn lens_of(v: &[Val]) -> [u64; 3] { let _ = v; Self::ref_lens(v[5].e(), v[6].e()) }
}
impl<GA: Elem, GV> Spec for Str2<GA, GV> where GV: Spec {
    const RALIGN: usize = max_of(&[align_of::<MirrorStr2<GA>>(), <GV as Spec>::RALIGN, align_of::<P9>(), align_of::<A64>(), align_of::<u32>()]);
    const RDROP: bool = <GV as Spec>::RDROP || std::mem::needs_drop::<Option<std::num::NonZeroU16>>() || std::mem::needs_drop::<P9>() || std::mem::needs_drop::<A64>() || std::mem::needs_drop::<u32>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<GA>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Str2".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_this = ctl_gen::<TokLen>(g, 0);
        let c_p = ctl_gen::<TokLen>(g, 0);
        let lens = Self::ref_lens(c_this, c_p);
        Val::T(vec![<GV as Spec>::gen(g), Val::E(<Option<std::num::NonZeroU16> as Elem>::norm(g.u64())), Val::A(gen_arr::<P9>(lens[0] as usize, g)), Val::A(gen_arr::<A64>(lens[1] as usize, g)), Val::A(gen_arr::<u32>(lens[2] as usize, g)), Val::E(c_this), Val::E(c_p), Val::E(<GA as Elem>::norm(g.u64()))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorStr2<GA>>()));
        *at += size_of::<MirrorStr2<GA>>();
        <GV as Spec>::place(&t[0], at, lv);
        place_arr::<P9>(t[2].a().len(), at, lv);
        place_arr::<A64>(t[3].a().len(), at, lv);
        place_arr::<u32>(t[4].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(str_2::Init {
            r#match: make::<GV>(&t[0], g),
            r#type: <Option<std::num::NonZeroU16> as Elem>::mk(t[1].e()),
            r#move: arr_init::<P9>(t[2].a(), g),
            self_mut: arr_init::<A64>(t[3].a(), g),
            chi: arr_init::<u32>(t[4].a(), g),
            this: <TokLen as Elem>::mk(t[5].e()),
            p: <TokLen as Elem>::mk(t[6].e()),
            y: <GA as Elem>::mk(t[7].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.r#type, r.r#type);
        same_fixed(Self::name, self, &self.this, r.this);
        same_fixed(Self::name, self, &self.p, r.p);
        same_fixed(Self::name, self, &self.y, r.y);
        let v = vec![r.r#match.read(o), Val::E(r.r#type.get()), read_arr(r.r#move, o), read_arr(r.self_mut, o), read_arr(r.chi, o), Val::E(r.this.get()), Val::E(r.p.get()), Val::E(r.y.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "r#move", v[2].a().len(), lens[0]);
        arr_len_is(Self::name, "self_mut", v[3].a().len(), lens[1]);
        arr_len_is(Self::name, "chi", v[4].a().len(), lens[2]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![extent(r.r#match), ext(r.r#type), ext_arr(r.r#move), ext_arr(r.self_mut), ext_arr(r.chi), ext(r.this), ext(r.p), ext(r.y)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![extent(m.r#match.as_ref().get_ref()), ext(&*m.r#type), ext_arr(&*m.r#move), ext_arr(&*m.self_mut), ext_arr(&*m.chi), ext(&*m.this), ext(&*m.p), ext(&*m.y)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 255); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { <GV as Spec>::mutate(m.r#match.as_mut(), &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<Option<std::num::NonZeroU16>>(m.r#type, &mut t[1], g); }
        if mask & 4 != 0 { mutate_arr_field::<P9>(m.r#move, &mut t[2], g); }
        if mask & 8 != 0 { mutate_arr_field::<A64>(m.self_mut, &mut t[3], g); }
        if mask & 16 != 0 { mutate_arr_field::<u32>(m.chi, &mut t[4], g); }
        if mask & 128 != 0 { set_fixed::<GA>(m.y, &mut t[7], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <GV as Spec>::toks(&t[0]) + <Option<std::num::NonZeroU16> as Elem>::TOKS + <P9 as Elem>::TOKS * t[2].a().len() + <A64 as Elem>::TOKS * t[3].a().len() + <u32 as Elem>::TOKS * t[4].a().len() + <TokLen as Elem>::TOKS + <TokLen as Elem>::TOKS + <GA as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <GV as Spec>::events(&t[0]) + <Option<std::num::NonZeroU16> as Elem>::EVENTS + <P9 as Elem>::EVENTS * t[2].a().len() + <A64 as Elem>::EVENTS * t[3].a().len() + <u32 as Elem>::EVENTS * t[4].a().len() + <TokLen as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <GA as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[5].e(), t[6].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<TokLen>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = str_2::LayoutControllers {
            this: <TokLen as Elem>::mk(cand[0]),
            p: <TokLen as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[5] = Val::E(cand[0]);
            t[6] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart18 {
    use super::*;
#[define_varlen]
pub(super) struct JollyKoala {
    pub(super) beta: same_ty! { TokS },
    pub(super) count: same_ty!(bool),
    #[varlen]
    pub(super) drop_it: (FixedLen<A64>),
    #[controls_layout]
    pub(super) muts: same_ty!(TokLen),
    pub(super) tau: same_ty! { fn(u32) -> u32 },
    /// A field.
    #[varlen]
    pub(super) psi: (FixedLen<A64>),
    #[varlen]
    pub(super) aA: (FixedLen<()>),
    #[varlen_array]
    pub(super) theta: [(A64); muts.n()],
}
}
use apart18::{JollyKoala, jolly_koala};
#[allow(dead_code)]
struct MirrorJollyKoala(TokS, bool, TokLen, fn(u32) -> u32);
impl JollyKoala {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_muts: u64) -> [u64; 1] { [(c_muts & 0xffff)] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[3].e()) }
}
impl Spec for JollyKoala {
    const RALIGN: usize = max_of(&[align_of::<MirrorJollyKoala>(), <FixedLen<A64> as Spec>::RALIGN, <FixedLen<A64> as Spec>::RALIGN, <FixedLen<()> as Spec>::RALIGN, align_of::<A64>()]);
    const RDROP: bool = std::mem::needs_drop::<TokS>() || std::mem::needs_drop::<bool>() || <FixedLen<A64> as Spec>::RDROP || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<fn(u32) -> u32>() || <FixedLen<A64> as Spec>::RDROP || <FixedLen<()> as Spec>::RDROP || std::mem::needs_drop::<A64>();
    const HAS_CTL: bool = true;
    fn name() -> String { "JollyKoala".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_muts = ctl_gen::<TokLen>(g, 0);
        let lens = Self::ref_lens(c_muts);
        Val::T(vec![Val::E(<TokS as Elem>::norm(g.u64())), Val::E(<bool as Elem>::norm(g.u64())), <FixedLen<A64> as Spec>::gen(g), Val::E(c_muts), Val::E(<fn(u32) -> u32 as Elem>::norm(g.u64())), <FixedLen<A64> as Spec>::gen(g), <FixedLen<()> as Spec>::gen(g), Val::A(gen_arr::<A64>(lens[0] as usize, g))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorJollyKoala>()));
        *at += size_of::<MirrorJollyKoala>();
        <FixedLen<A64> as Spec>::place(&t[2], at, lv);
        <FixedLen<A64> as Spec>::place(&t[5], at, lv);
        <FixedLen<()> as Spec>::place(&t[6], at, lv);
        place_arr::<A64>(t[7].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(jolly_koala::Init {
            beta: <TokS as Elem>::mk(t[0].e()),
            count: <bool as Elem>::mk(t[1].e()),
            drop_it: make::<FixedLen<A64>>(&t[2], g),
            muts: <TokLen as Elem>::mk(t[3].e()),
            tau: <fn(u32) -> u32 as Elem>::mk(t[4].e()),
            psi: make::<FixedLen<A64>>(&t[5], g),
            aA: make::<FixedLen<()>>(&t[6], g),
            theta: arr_init::<A64>(t[7].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.beta, r.beta);
        same_fixed(Self::name, self, &self.count, r.count);
        same_fixed(Self::name, self, &self.muts, r.muts);
        same_fixed(Self::name, self, &self.tau, r.tau);
        let v = vec![Val::E(r.beta.get()), Val::E(r.count.get()), r.drop_it.read(o), Val::E(r.muts.get()), Val::E(r.tau.get()), r.psi.read(o), r.aA.read(o), read_arr(r.theta, o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "theta", v[7].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.beta), ext(r.count), extent(r.drop_it), ext(r.muts), ext(r.tau), extent(r.psi), extent(r.aA), ext_arr(r.theta)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.beta), ext(&*m.count), extent(m.drop_it.as_ref().get_ref()), ext(&*m.muts), ext(&*m.tau), extent(m.psi.as_ref().get_ref()), extent(m.aA.as_ref().get_ref()), ext_arr(&*m.theta)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 255); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<TokS>(m.beta, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<bool>(m.count, &mut t[1], g); }
        if mask & 4 != 0 { <FixedLen<A64> as Spec>::mutate(m.drop_it.as_mut(), &mut t[2], g); }
        if mask & 16 != 0 { set_fixed::<fn(u32) -> u32>(m.tau, &mut t[4], g); }
        if mask & 32 != 0 { <FixedLen<A64> as Spec>::mutate(m.psi.as_mut(), &mut t[5], g); }
        if mask & 64 != 0 { <FixedLen<()> as Spec>::mutate(m.aA.as_mut(), &mut t[6], g); }
        if mask & 128 != 0 { mutate_arr_field::<A64>(m.theta, &mut t[7], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <TokS as Elem>::TOKS + <bool as Elem>::TOKS + <FixedLen<A64> as Spec>::toks(&t[2]) + <TokLen as Elem>::TOKS + <fn(u32) -> u32 as Elem>::TOKS + <FixedLen<A64> as Spec>::toks(&t[5]) + <FixedLen<()> as Spec>::toks(&t[6]) + <A64 as Elem>::TOKS * t[7].a().len() }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <TokS as Elem>::EVENTS + <bool as Elem>::EVENTS + <FixedLen<A64> as Spec>::events(&t[2]) + <TokLen as Elem>::EVENTS + <fn(u32) -> u32 as Elem>::EVENTS + <FixedLen<A64> as Spec>::events(&t[5]) + <FixedLen<()> as Spec>::events(&t[6]) + <A64 as Elem>::EVENTS * t[7].a().len() }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[3].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = jolly_koala::LayoutControllers {
            muts: <TokLen as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[3] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
pub struct Proudrat {
    /// A field.
    pub(crate) sigma: (u8),
    pub(super) phi: same_ty! { () },
    pub(self) beta_len: same_ty!(A16),
    #[varlen_array]
    pub(self) pi: [same_ty! { Owning }; if SOME_LEN > 2 { 5 } else { 77 } - 0],
}
#[allow(dead_code)]
struct MirrorProudrat(u8, (), A16);
impl Proudrat {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens() -> [u64; 1] { [5u64] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens() }
}
impl Spec for Proudrat {
    const RALIGN: usize = max_of(&[align_of::<MirrorProudrat>(), align_of::<Owning>()]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || std::mem::needs_drop::<()>() || std::mem::needs_drop::<A16>() || std::mem::needs_drop::<Owning>();
    fn name() -> String { "Proudrat".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let lens = Self::ref_lens();
        Val::T(vec![Val::E(<u8 as Elem>::norm(g.u64())), Val::E(<() as Elem>::norm(g.u64())), Val::E(<A16 as Elem>::norm(g.u64())), Val::A(gen_arr::<Owning>(lens[0] as usize, g))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorProudrat>()));
        *at += size_of::<MirrorProudrat>();
        place_arr::<Owning>(t[3].a().len(), at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(proudrat::Init {
            sigma: <u8 as Elem>::mk(t[0].e()),
            phi: <() as Elem>::mk(t[1].e()),
            beta_len: <A16 as Elem>::mk(t[2].e()),
            pi: arr_init::<Owning>(t[3].a(), g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.sigma, r.sigma);
        same_fixed(Self::name, self, &self.phi, r.phi);
        same_fixed(Self::name, self, &self.beta_len, r.beta_len);
        let v = vec![Val::E(r.sigma.get()), Val::E(r.phi.get()), Val::E(r.beta_len.get()), read_arr(r.pi, o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "pi", v[3].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.sigma), ext(r.phi), ext(r.beta_len), ext_arr(r.pi)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.sigma), ext(&*m.phi), ext(&*m.beta_len), ext_arr(&*m.pi)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 15); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<u8>(m.sigma, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<()>(m.phi, &mut t[1], g); }
        if mask & 4 != 0 { set_fixed::<A16>(m.beta_len, &mut t[2], g); }
        if mask & 8 != 0 { mutate_arr_field::<Owning>(m.pi, &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS + <() as Elem>::TOKS + <A16 as Elem>::TOKS + <Owning as Elem>::TOKS * t[3].a().len() }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS + <() as Elem>::EVENTS + <A16 as Elem>::EVENTS + <Owning as Elem>::EVENTS * t[3].a().len() }
}

#[define_varlen]
#[repr(align(32))]
pub(crate) struct Static<'b, GA: Elem = Tok, GV = Str<u8>> where GV: Spec {
    #[varlen_array]
    refs: [u8; 5],
    /// A field.
    pub kappa: GA,
    #[controls_layout]
    pub(crate) eta: u8,
    #[varlen_array]
    vdrop: [char; ((*eta as usize).saturating_sub(3))],
    #[varlen]
    pub muts: GV,
    #[varlen]
    omega: FixedLen<A64>,
    /// A field.
    pub(self) eps: Lt<'b>,
}
#[allow(dead_code)]
#[repr(align(32))]
struct MirrorStatic<GA>(GA, u8, Lt<'static>);
impl<GA: Elem, GV> Static<'static, GA, GV> where GV: Spec {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_eta: u64) -> [u64; 2] { [5u64, c_eta.saturating_sub(3)] }
    fn lens_of(v: &[Val]) -> [u64; 2] { let _ = v; Self::ref_lens(v[2].e()) }
}
impl<GA: Elem, GV> Spec for Static<'static, GA, GV> where GV: Spec {
    const RALIGN: usize = max_of(&[align_of::<MirrorStatic<GA>>(), align_of::<u8>(), align_of::<char>(), <GV as Spec>::RALIGN, <FixedLen<A64> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<u8>() || std::mem::needs_drop::<GA>() || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<char>() || <GV as Spec>::RDROP || <FixedLen<A64> as Spec>::RDROP || std::mem::needs_drop::<Lt<'static>>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Static".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_eta = ctl_gen::<u8>(g, 1);
        let lens = Self::ref_lens(c_eta);
        Val::T(vec![Val::A(gen_arr::<u8>(lens[0] as usize, g)), Val::E(<GA as Elem>::norm(g.u64())), Val::E(c_eta), Val::A(gen_arr::<char>(lens[1] as usize, g)), <GV as Spec>::gen(g), <FixedLen<A64> as Spec>::gen(g), Val::E(<Lt<'static> as Elem>::norm(g.u64()))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorStatic<GA>>()));
        *at += size_of::<MirrorStatic<GA>>();
        place_arr::<u8>(t[0].a().len(), at, lv);
        place_arr::<char>(t[3].a().len(), at, lv);
        <GV as Spec>::place(&t[4], at, lv);
        <FixedLen<A64> as Spec>::place(&t[5], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(r#static::Init {
            refs: arr_init::<u8>(t[0].a(), g),
            kappa: <GA as Elem>::mk(t[1].e()),
            eta: <u8 as Elem>::mk(t[2].e()),
            vdrop: arr_init::<char>(t[3].a(), g),
            muts: make::<GV>(&t[4], g),
            omega: make::<FixedLen<A64>>(&t[5], g),
            eps: <Lt<'static> as Elem>::mk(t[6].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.kappa, r.kappa);
        same_fixed(Self::name, self, &self.eta, r.eta);
        same_fixed(Self::name, self, &self.eps, r.eps);
        let v = vec![read_arr(r.refs, o), Val::E(r.kappa.get()), Val::E(r.eta.get()), read_arr(r.vdrop, o), r.muts.read(o), r.omega.read(o), Val::E(r.eps.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "refs", v[0].a().len(), lens[0]);
        arr_len_is(Self::name, "vdrop", v[3].a().len(), lens[1]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext_arr(r.refs), ext(r.kappa), ext(r.eta), ext_arr(r.vdrop), extent(r.muts), extent(r.omega), ext(r.eps)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext_arr(&*m.refs), ext(&*m.kappa), ext(&*m.eta), ext_arr(&*m.vdrop), extent(m.muts.as_ref().get_ref()), extent(m.omega.as_ref().get_ref()), ext(&*m.eps)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 127); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { mutate_arr_field::<u8>(m.refs, &mut t[0], g); }
        if mask & 2 != 0 { set_fixed::<GA>(m.kappa, &mut t[1], g); }
        if mask & 8 != 0 { mutate_arr_field::<char>(m.vdrop, &mut t[3], g); }
        if mask & 16 != 0 { <GV as Spec>::mutate(m.muts.as_mut(), &mut t[4], g); }
        if mask & 32 != 0 { <FixedLen<A64> as Spec>::mutate(m.omega.as_mut(), &mut t[5], g); }
        if mask & 64 != 0 { set_fixed::<Lt<'static>>(m.eps, &mut t[6], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::TOKS * t[0].a().len() + <GA as Elem>::TOKS + <u8 as Elem>::TOKS + <char as Elem>::TOKS * t[3].a().len() + <GV as Spec>::toks(&t[4]) + <FixedLen<A64> as Spec>::toks(&t[5]) + <Lt<'static> as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <u8 as Elem>::EVENTS * t[0].a().len() + <GA as Elem>::EVENTS + <u8 as Elem>::EVENTS + <char as Elem>::EVENTS * t[3].a().len() + <GV as Spec>::events(&t[4]) + <FixedLen<A64> as Spec>::events(&t[5]) + <Lt<'static> as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[2].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u8>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0]) == old);
        let want = Self::ref_lens(cand[0]) == old;
        let lc = r#static::LayoutControllers {
            eta: <u8 as Elem>::mk(cand[0]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[2] = Val::E(cand[0]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
/// A generated struct.
#[repr(C)]
pub struct QuiethenData<'de, GA: Elem, GV: Spec> {
    pub(super) refs: ZA8,
    #[controls_layout]
    pub vdrop: TokLen,
    #[varlen_array]
    pub(super) muts: [(); self_mut.n()],
    /// A field.
    #[controls_layout]
    pub(crate) self_mut: TokLen,
    #[varlen]
    eps: Static<'static, A16, FixedLen<TokH>>,
    #[varlen]
    pub theta: Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>>,
    #[varlen]
    /// Its documentation.
    name: GV,
    /// A field.
    phi: GA,
    /// Its documentation.
    layout_controllers: Lt<'de>,
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorQuiethenData<GA>(ZA8, TokLen, TokLen, GA, Lt<'static>);
impl<GA: Elem, GV: Spec> QuiethenData<'static, GA, GV> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_vdrop: u64, c_self_mut: u64) -> [u64; 1] { [(c_self_mut & 0xffff)] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[1].e(), v[3].e()) }
}
impl<GA: Elem, GV: Spec> Spec for QuiethenData<'static, GA, GV> {
    const RALIGN: usize = max_of(&[align_of::<MirrorQuiethenData<GA>>(), align_of::<()>(), <Static<'static, A16, FixedLen<TokH>> as Spec>::RALIGN, <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::RALIGN, <GV as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<ZA8>() || std::mem::needs_drop::<TokLen>() || std::mem::needs_drop::<()>() || std::mem::needs_drop::<TokLen>() || <Static<'static, A16, FixedLen<TokH>> as Spec>::RDROP || <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::RDROP || <GV as Spec>::RDROP || std::mem::needs_drop::<GA>() || std::mem::needs_drop::<Lt<'static>>();
    const HAS_CTL: bool = true;
    fn name() -> String { "QuiethenData".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_vdrop = ctl_gen::<TokLen>(g, 0);
        let c_self_mut = ctl_gen::<TokLen>(g, 0);
        let lens = Self::ref_lens(c_vdrop, c_self_mut);
        Val::T(vec![Val::E(<ZA8 as Elem>::norm(g.u64())), Val::E(c_vdrop), Val::A(gen_arr::<()>(lens[0] as usize, g)), Val::E(c_self_mut), <Static<'static, A16, FixedLen<TokH>> as Spec>::gen(g), <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::gen(g), <GV as Spec>::gen(g), Val::E(<GA as Elem>::norm(g.u64())), Val::E(<Lt<'static> as Elem>::norm(g.u64()))])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorQuiethenData<GA>>()));
        *at += size_of::<MirrorQuiethenData<GA>>();
        place_arr::<()>(t[2].a().len(), at, lv);
        <Static<'static, A16, FixedLen<TokH>> as Spec>::place(&t[4], at, lv);
        <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::place(&t[5], at, lv);
        <GV as Spec>::place(&t[6], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(quiethen_data::Init {
            refs: <ZA8 as Elem>::mk(t[0].e()),
            vdrop: <TokLen as Elem>::mk(t[1].e()),
            muts: arr_init::<()>(t[2].a(), g),
            self_mut: <TokLen as Elem>::mk(t[3].e()),
            eps: make::<Static<'static, A16, FixedLen<TokH>>>(&t[4], g),
            theta: make::<Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>>>(&t[5], g),
            name: make::<GV>(&t[6], g),
            phi: <GA as Elem>::mk(t[7].e()),
            layout_controllers: <Lt<'static> as Elem>::mk(t[8].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.refs, r.refs);
        same_fixed(Self::name, self, &self.vdrop, r.vdrop);
        same_fixed(Self::name, self, &self.self_mut, r.self_mut);
        same_fixed(Self::name, self, &self.phi, r.phi);
        same_fixed(Self::name, self, &self.layout_controllers, r.layout_controllers);
        let v = vec![Val::E(r.refs.get()), Val::E(r.vdrop.get()), read_arr(r.muts, o), Val::E(r.self_mut.get()), r.eps.read(o), r.theta.read(o), r.name.read(o), Val::E(r.phi.get()), Val::E(r.layout_controllers.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "muts", v[2].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.refs), ext(r.vdrop), ext_arr(r.muts), ext(r.self_mut), extent(r.eps), extent(r.theta), extent(r.name), ext(r.phi), ext(r.layout_controllers)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.refs), ext(&*m.vdrop), ext_arr(&*m.muts), ext(&*m.self_mut), extent(m.eps.as_ref().get_ref()), extent(m.theta.as_ref().get_ref()), extent(m.name.as_ref().get_ref()), ext(&*m.phi), ext(&*m.layout_controllers)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 511); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { set_fixed::<ZA8>(m.refs, &mut t[0], g); }
        if mask & 4 != 0 { mutate_arr_field::<()>(m.muts, &mut t[2], g); }
        if mask & 16 != 0 { <Static<'static, A16, FixedLen<TokH>> as Spec>::mutate(m.eps.as_mut(), &mut t[4], g); }
        if mask & 32 != 0 { <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::mutate(m.theta.as_mut(), &mut t[5], g); }
        if mask & 64 != 0 { <GV as Spec>::mutate(m.name.as_mut(), &mut t[6], g); }
        if mask & 128 != 0 { set_fixed::<GA>(m.phi, &mut t[7], g); }
        if mask & 256 != 0 { set_fixed::<Lt<'static>>(m.layout_controllers, &mut t[8], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <ZA8 as Elem>::TOKS + <TokLen as Elem>::TOKS + <() as Elem>::TOKS * t[2].a().len() + <TokLen as Elem>::TOKS + <Static<'static, A16, FixedLen<TokH>> as Spec>::toks(&t[4]) + <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::toks(&t[5]) + <GV as Spec>::toks(&t[6]) + <GA as Elem>::TOKS + <Lt<'static> as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <ZA8 as Elem>::EVENTS + <TokLen as Elem>::EVENTS + <() as Elem>::EVENTS * t[2].a().len() + <TokLen as Elem>::EVENTS + <Static<'static, A16, FixedLen<TokH>> as Spec>::events(&t[4]) + <Tup3<FixedLen<Tok>, Array<TokS, u16>, Str<u8>> as Spec>::events(&t[5]) + <GV as Spec>::events(&t[6]) + <GA as Elem>::EVENTS + <Lt<'static> as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[1].e(), t[3].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<TokLen>(g, c),
            1 => ctl_near::<TokLen>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = quiethen_data::LayoutControllers {
            vdrop: <TokLen as Elem>::mk(cand[0]),
            self_mut: <TokLen as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[1] = Val::E(cand[0]);
            t[3] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

mod apart22 {
    use super::*;
#[define_varlen]
#[repr(C)]
pub(crate) struct Zestyhen {
    /// A field.
    #[controls_layout]
    pub(super) a1: bool,
    #[varlen_array]
    /// Its documentation.
    pub alpha: [Owning; 5],
    #[varlen]
    pub alpha_layout: Proudrat,
    #[varlen]
    pub(crate) alpha_len: FixedLen<u8>,
    #[controls_layout]
    /// Its documentation.
    pub(crate) theta: usize,
}
}
use apart22::{Zestyhen, zestyhen};
#[allow(dead_code)]
#[repr(C)]
struct MirrorZestyhen(bool, usize);
impl Zestyhen {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_a1: u64, c_theta: u64) -> [u64; 1] { [5u64] }
    fn lens_of(v: &[Val]) -> [u64; 1] { let _ = v; Self::ref_lens(v[0].e(), v[4].e()) }
}
impl Spec for Zestyhen {
    const RALIGN: usize = max_of(&[align_of::<MirrorZestyhen>(), align_of::<Owning>(), <Proudrat as Spec>::RALIGN, <FixedLen<u8> as Spec>::RALIGN]);
    const RDROP: bool = std::mem::needs_drop::<bool>() || std::mem::needs_drop::<Owning>() || <Proudrat as Spec>::RDROP || <FixedLen<u8> as Spec>::RDROP || std::mem::needs_drop::<usize>();
    const HAS_CTL: bool = true;
    fn name() -> String { "Zestyhen".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_a1 = ctl_gen::<bool>(g, 0);
        let c_theta = ctl_gen::<usize>(g, 1);
        let lens = Self::ref_lens(c_a1, c_theta);
        Val::T(vec![Val::E(c_a1), Val::A(gen_arr::<Owning>(lens[0] as usize, g)), <Proudrat as Spec>::gen(g), <FixedLen<u8> as Spec>::gen(g), Val::E(c_theta)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorZestyhen>()));
        *at += size_of::<MirrorZestyhen>();
        place_arr::<Owning>(t[1].a().len(), at, lv);
        <Proudrat as Spec>::place(&t[2], at, lv);
        <FixedLen<u8> as Spec>::place(&t[3], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(zestyhen::Init {
            a1: <bool as Elem>::mk(t[0].e()),
            alpha: arr_init::<Owning>(t[1].a(), g),
            alpha_layout: make::<Proudrat>(&t[2], g),
            alpha_len: make::<FixedLen<u8>>(&t[3], g),
            theta: <usize as Elem>::mk(t[4].e()),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.a1, r.a1);
        same_fixed(Self::name, self, &self.theta, r.theta);
        let v = vec![Val::E(r.a1.get()), read_arr(r.alpha, o), r.alpha_layout.read(o), r.alpha_len.read(o), Val::E(r.theta.get())];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "alpha", v[1].a().len(), lens[0]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![ext(r.a1), ext_arr(r.alpha), extent(r.alpha_layout), extent(r.alpha_len), ext(r.theta)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![ext(&*m.a1), ext_arr(&*m.alpha), extent(m.alpha_layout.as_ref().get_ref()), extent(m.alpha_len.as_ref().get_ref()), ext(&*m.theta)];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 31); let _ = (&t, mask, &mut m);
        if mask & 2 != 0 { mutate_arr_field::<Owning>(m.alpha, &mut t[1], g); }
        if mask & 4 != 0 { <Proudrat as Spec>::mutate(m.alpha_layout.as_mut(), &mut t[2], g); }
        if mask & 8 != 0 { <FixedLen<u8> as Spec>::mutate(m.alpha_len.as_mut(), &mut t[3], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <bool as Elem>::TOKS + <Owning as Elem>::TOKS * t[1].a().len() + <Proudrat as Spec>::toks(&t[2]) + <FixedLen<u8> as Spec>::toks(&t[3]) + <usize as Elem>::TOKS }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <bool as Elem>::EVENTS + <Owning as Elem>::EVENTS * t[1].a().len() + <Proudrat as Spec>::events(&t[2]) + <FixedLen<u8> as Spec>::events(&t[3]) + <usize as Elem>::EVENTS }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[0].e(), t[4].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<bool>(g, c),
            1 => ctl_near::<usize>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = zestyhen::LayoutControllers {
            a1: <bool as Elem>::mk(cand[0]),
            theta: <usize as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[0] = Val::E(cand[0]);
            t[4] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

#[define_varlen]
#[repr(C)]
pub(crate) struct Array3<'de> {
    #[varlen]
    pub(self) count: Array<Tok, u8>,
    #[varlen]
    pub(self) theta: Array<u64>,
    #[varlen_array]
    pub(super) p: [[u8; 3]; match rho.count() { x => [x] }[0]],
    /// A field.
    #[controls_layout]
    kappa: u32,
    #[varlen_array]
    eta: [u8; same_expr!(match rho { Kind::None => 2, Kind::One => 0, Kind::Many => 5 })],
    #[controls_layout]
    pub(self) rho: Kind,
    #[varlen_array]
    /// Its documentation.
    lambda: [(); match () { () => (match rho { Kind::None => 2, Kind::One => 0, Kind::Many => 5 }) + (*kappa as usize) } * 1],
    #[varlen]
    alpha_layout: Array<Lt<'de>, u8>,
}
#[allow(dead_code)]
#[repr(C)]
struct MirrorArray3(u32, Kind);
impl Array3<'static> {
    #[allow(unused_variables, clippy::all)]
    fn ref_lens(c_kappa: u64, c_rho: u64) -> [u64; 3] { [(match c_rho { 0 => 0u64, 1 => 1, _ => 7 }), (match c_rho { 0 => 2u64, 1 => 0, _ => 5 }), ((match c_rho { 0 => 2u64, 1 => 0, _ => 5 }) + c_kappa)] }
    fn lens_of(v: &[Val]) -> [u64; 3] { let _ = v; Self::ref_lens(v[3].e(), v[5].e()) }
}
impl Spec for Array3<'static> {
    const RALIGN: usize = max_of(&[align_of::<MirrorArray3>(), <Array<Tok, u8> as Spec>::RALIGN, <Array<u64> as Spec>::RALIGN, align_of::<[u8; 3]>(), align_of::<u8>(), align_of::<()>(), <Array<Lt<'static>, u8> as Spec>::RALIGN]);
    const RDROP: bool = <Array<Tok, u8> as Spec>::RDROP || <Array<u64> as Spec>::RDROP || std::mem::needs_drop::<[u8; 3]>() || std::mem::needs_drop::<u32>() || std::mem::needs_drop::<u8>() || std::mem::needs_drop::<Kind>() || std::mem::needs_drop::<()>() || <Array<Lt<'static>, u8> as Spec>::RDROP;
    const HAS_CTL: bool = true;
    fn name() -> String { "Array3".to_string() }
    fn gen(g: &mut vh::spec::Gen) -> Val {
        let mut budget = 600u64; let _ = &mut budget;
        let c_kappa = ctl_gen::<u32>(g, 1);
        let c_rho = ctl_gen::<Kind>(g, 0);
        let lens = Self::ref_lens(c_kappa, c_rho);
        Val::T(vec![<Array<Tok, u8> as Spec>::gen(g), <Array<u64> as Spec>::gen(g), Val::A(gen_arr::<[u8; 3]>(lens[0] as usize, g)), Val::E(c_kappa), Val::A(gen_arr::<u8>(lens[1] as usize, g)), Val::E(c_rho), Val::A(gen_arr::<()>(lens[2] as usize, g)), <Array<Lt<'static>, u8> as Spec>::gen(g)])
    }
    fn place(v: &Val, at: &mut usize, lv: &mut Vec<(usize, usize)>) {
        let t = v.t(); let _ = t;
        *at = up(*at, Self::RALIGN);
        lv.push((*at, size_of::<MirrorArray3>()));
        *at += size_of::<MirrorArray3>();
        <Array<Tok, u8> as Spec>::place(&t[0], at, lv);
        <Array<u64> as Spec>::place(&t[1], at, lv);
        place_arr::<[u8; 3]>(t[2].a().len(), at, lv);
        place_arr::<u8>(t[4].a().len(), at, lv);
        place_arr::<()>(t[6].a().len(), at, lv);
        <Array<Lt<'static>, u8> as Spec>::place(&t[7], at, lv);
    }
    fn init(v: &Val, g: &mut vh::spec::Gen) -> vh::spec::Dyn<'static, Self> {
        let t = v.t(); let _ = (&t, &g);
        dyn_of(array_3::Init {
            alpha_layout: make::<Array<Lt<'static>, u8>>(&t[7], g),
            lambda: arr_init::<()>(t[6].a(), g),
            p: arr_init::<[u8; 3]>(t[2].a(), g),
            eta: arr_init::<u8>(t[4].a(), g),
            kappa: <u32 as Elem>::mk(t[3].e()),
            count: make::<Array<Tok, u8>>(&t[0], g),
            rho: <Kind as Elem>::mk(t[5].e()),
            theta: make::<Array<u64>>(&t[1], g),
        })
    }
    fn read(&self, o: &mut Obs) -> Val {
        let r = self.refs();
        o.leaves.push((self as *const Self as usize, std::mem::size_of_val(self)));
        same_fixed(Self::name, self, &self.kappa, r.kappa);
        same_fixed(Self::name, self, &self.rho, r.rho);
        let v = vec![r.count.read(o), r.theta.read(o), read_arr(r.p, o), Val::E(r.kappa.get()), read_arr(r.eta, o), Val::E(r.rho.get()), read_arr(r.lambda, o), r.alpha_layout.read(o)];
        let lens = Self::lens_of(&v);
        arr_len_is(Self::name, "p", v[2].a().len(), lens[0]);
        arr_len_is(Self::name, "eta", v[4].a().len(), lens[1]);
        arr_len_is(Self::name, "lambda", v[6].a().len(), lens[2]);
        Val::T(v)
    }
    fn mutate(mut self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) {
        let whole = extent(self.as_ref().get_ref());
        let shared = { let r = self.refs(); let _ = &r; vec![extent(r.count), extent(r.theta), ext_arr(r.p), ext(r.kappa), ext_arr(r.eta), ext(r.rho), ext_arr(r.lambda), extent(r.alpha_layout)] };
        #[allow(unused_mut)] let mut m = self.as_mut().muts();
        let parts: Vec<(usize, usize)> = vec![extent(m.count.as_ref().get_ref()), extent(m.theta.as_ref().get_ref()), ext_arr(&*m.p), ext(&*m.kappa), ext_arr(&*m.eta), ext(&*m.rho), ext_arr(&*m.lambda), extent(m.alpha_layout.as_ref().get_ref())];
        check_parts(&Self::name(), whole, &parts, &shared);
        let t = v.tm();
        let mask = g.r.range(1, 255); let _ = (&t, mask, &mut m);
        if mask & 1 != 0 { <Array<Tok, u8> as Spec>::mutate(m.count.as_mut(), &mut t[0], g); }
        if mask & 2 != 0 { <Array<u64> as Spec>::mutate(m.theta.as_mut(), &mut t[1], g); }
        if mask & 4 != 0 { mutate_arr_field::<[u8; 3]>(m.p, &mut t[2], g); }
        if mask & 16 != 0 { mutate_arr_field::<u8>(m.eta, &mut t[4], g); }
        if mask & 64 != 0 { mutate_arr_field::<()>(m.lambda, &mut t[6], g); }
        if mask & 128 != 0 { <Array<Lt<'static>, u8> as Spec>::mutate(m.alpha_layout.as_mut(), &mut t[7], g); }
    }
    fn toks(v: &Val) -> usize { let t = v.t(); let _ = t; <Array<Tok, u8> as Spec>::toks(&t[0]) + <Array<u64> as Spec>::toks(&t[1]) + <[u8; 3] as Elem>::TOKS * t[2].a().len() + <u32 as Elem>::TOKS + <u8 as Elem>::TOKS * t[4].a().len() + <Kind as Elem>::TOKS + <() as Elem>::TOKS * t[6].a().len() + <Array<Lt<'static>, u8> as Spec>::toks(&t[7]) }
    fn events(v: &Val) -> usize { let t = v.t(); let _ = t; <Array<Tok, u8> as Spec>::events(&t[0]) + <Array<u64> as Spec>::events(&t[1]) + <[u8; 3] as Elem>::EVENTS * t[2].a().len() + <u32 as Elem>::EVENTS + <u8 as Elem>::EVENTS * t[4].a().len() + <Kind as Elem>::EVENTS + <() as Elem>::EVENTS * t[6].a().len() + <Array<Lt<'static>, u8> as Spec>::events(&t[7]) }
    fn ctl(self: Pin<&mut Self>, v: &mut Val, g: &mut vh::spec::Gen) -> Ctl {
        let t = v.tm();
        let old = Self::lens_of(t);
        let cur = [t[3].e(), t[5].e()];
        let cand = ctl_candidates(g, &cur, &|g, i, c| match i {
            0 => ctl_near::<u32>(g, c),
            1 => ctl_near::<Kind>(g, c),
            _ => c,
        }, &|c| Self::ref_lens(c[0], c[1]) == old);
        let want = Self::ref_lens(cand[0], cand[1]) == old;
        let lc = array_3::LayoutControllers {
            kappa: <u32 as Elem>::mk(cand[0]),
            rho: <Kind as Elem>::mk(cand[1]),
        };
        let r = ctl_try(g, || self.try_set_layout_controllers(lc).is_ok());
        let ok = r.unwrap_or(want);
        if ok {
            t[3] = Val::E(cand[0]);
            t[5] = Val::E(cand[1]);
        }
        Ctl::Done { ok, want }
    }
}

pub fn types() -> Vec<TypeOps> {
    vec![
        ops::<Quickbird>(None, &["macro"]),
        ops::<Zestyjay>(None, &["macro"]),
        ops::<Use>(None, &["macro"]),
        ops::<ShyWolfNode>(None, &["macro"]),
        ops::<BrownKoalaBox<'static, u64, Array<Tok, u8>, 3>>(None, &["macro"]),
        ops::<VarLenLayout>(None, &["macro"]),
        ops::<Uglybird<'static>>(None, &["macro"]),
        ops::<ProudMole>(None, &["macro"]),
        ops::<In<'static>>(None, &["macro"]),
        ops::<HappylynxData<'static>>(None, &["macro"]),
        ops::<QuietSeal>(None, &["macro"]),
        ops::<LayoutControllers2>(None, &["macro"]),
        ops::<GrimKoalaData>(None, &["macro"]),
        ops::<WarmdogBox>(None, &["macro"]),
        ops::<Ref<Array<Tok, u8>, 1>>(None, &["macro"]),
        ops::<QuickbirdNode>(None, &["macro"]),
        ops::<Fancylynx<'static>>(None, &["macro"]),
        ops::<Str2<u8, Str>>(None, &["macro"]),
        ops::<JollyKoala>(None, &["macro"]),
        ops::<Proudrat>(None, &["macro"]),
        ops::<Static<'static, A16, FixedLen<TokH>>>(None, &["macro"]),
        ops::<QuiethenData<'static, u8, FixedLen<TokH>>>(None, &["macro"]),
        ops::<Zestyhen>(None, &["macro"]),
        ops::<Array3<'static>>(None, &["macro"]),
    ]
}
