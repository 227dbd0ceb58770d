//! Storages under test.
use crate::payload::Pay;
use orx_concurrent_option::ConcurrentOption;
use orx_concurrent_vec::*;

pub type El<T> = ConcurrentElement<T>;
pub type Dbl<T> = SplitVec<El<T>, Doubling>;
pub type Lin<T> = SplitVec<El<T>, Linear>;
pub type Fix<T> = FixedVec<El<T>>;

#[derive(Clone, Copy, Debug, Default)]
pub struct StoreCfg {
    /// Linear: fragment capacity exponent
    pub exp: usize,
    /// Linear: number of fragments
    pub frags: usize,
    /// Fixed: capacity
    pub cap: usize,
}

pub trait Store<T: Pay>: IntoConcurrentPinnedVec<El<T>> + PinnedVec<El<T>> + IntoIterator<Item = El<T>> + Sized + 'static {
    const NAME: &'static str;
    const FIXED: bool;
    const DEFAULT: bool;
    fn build(c: &StoreCfg) -> ConcurrentVec<T, Self>;
    /// an empty pinned vec of this type
    fn pinned(c: &StoreCfg) -> Self;
    /// maximum capacity of a vec built with `build`
    fn max_cap(c: &StoreCfg) -> usize;
    /// the smallest capacity for `n` elements which the growth strategy provides
    fn cap_for(c: &StoreCfg, n: usize) -> usize;
    fn try_clone(_: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>> {
        None
    }
    fn try_collect(_: &mut dyn Iterator<Item = T>) -> Option<ConcurrentVec<T, Self>> {
        None
    }
    fn eq_vv(_: &ConcurrentVec<T, Self>, _: &ConcurrentVec<T, Self>) -> Option<bool> {
        None
    }
    fn eq_vs(_: &ConcurrentVec<T, Self>, _: &ConcurrentSlice<T, Self>) -> Option<bool> {
        None
    }
    fn eq_sv(_: &ConcurrentSlice<T, Self>, _: &ConcurrentVec<T, Self>) -> Option<bool> {
        None
    }
    fn eq_ss(_: &ConcurrentSlice<T, Self>, _: &ConcurrentSlice<T, Self>) -> Option<bool> {
        None
    }
    fn eq_va(_: &ConcurrentVec<T, Self>, _: &[T]) -> Option<bool> {
        None
    }
    fn eq_sa(_: &ConcurrentSlice<T, Self>, _: &[T]) -> Option<bool> {
        None
    }
    fn eq_van<const N: usize>(_: &ConcurrentVec<T, Self>, _: &[T; N]) -> Option<bool> {
        None
    }
    fn eq_san<const N: usize>(_: &ConcurrentSlice<T, Self>, _: &[T; N]) -> Option<bool> {
        None
    }
}

pub fn some_elem<T>(x: T) -> El<T> {
    ConcurrentElement::from(ConcurrentOption::some(x))
}

impl<T: Pay> Store<T> for Dbl<T> {
    const NAME: &'static str = "split-doubling";
    const FIXED: bool = false;
    const DEFAULT: bool = true;
    fn build(c: &StoreCfg) -> ConcurrentVec<T, Self> {
        match c.exp % 3 {
            0 => ConcurrentVec::new(),
            1 => ConcurrentVec::default(),
            _ => ConcurrentVec::with_doubling_growth(),
        }
    }
    fn pinned(c: &StoreCfg) -> Self {
        match c.exp % 2 {
            0 => SplitVec::with_doubling_growth_and_fragments_capacity(32),
            _ => SplitVec::with_doubling_growth_and_fragments_capacity(16),
        }
    }
    fn max_cap(_: &StoreCfg) -> usize {
        // 32 fragments: 4, 8, 16, ...
        4 * ((1usize << 32) - 1)
    }
    fn cap_for(_: &StoreCfg, n: usize) -> usize {
        // 4, 4 + 8, 4 + 8 + 16, ...
        let mut c = 0;
        let mut f = 4;
        while c < n {
            c += f;
            f *= 2;
        }
        c
    }
    fn try_clone(v: &ConcurrentVec<T, Self>) -> Option<ConcurrentVec<T, Self>> {
        Some(v.clone())
    }
    fn try_collect(i: &mut dyn Iterator<Item = T>) -> Option<ConcurrentVec<T, Self>> {
        Some(i.collect())
    }
    fn eq_vv(a: &ConcurrentVec<T, Self>, b: &ConcurrentVec<T, Self>) -> Option<bool> {
        Some(a == b)
    }
    fn eq_vs(a: &ConcurrentVec<T, Self>, b: &ConcurrentSlice<T, Self>) -> Option<bool> {
        Some(a == b)
    }
    fn eq_sv(a: &ConcurrentSlice<T, Self>, b: &ConcurrentVec<T, Self>) -> Option<bool> {
        Some(a == b)
    }
    fn eq_ss(a: &ConcurrentSlice<T, Self>, b: &ConcurrentSlice<T, Self>) -> Option<bool> {
        Some(a == b)
    }
    fn eq_va(a: &ConcurrentVec<T, Self>, b: &[T]) -> Option<bool> {
        Some(a == b)
    }
    fn eq_sa(a: &ConcurrentSlice<T, Self>, b: &[T]) -> Option<bool> {
        Some(a == b)
    }
    fn eq_van<const N: usize>(a: &ConcurrentVec<T, Self>, b: &[T; N]) -> Option<bool> {
        Some(a == b)
    }
    fn eq_san<const N: usize>(a: &ConcurrentSlice<T, Self>, b: &[T; N]) -> Option<bool> {
        Some(a == b)
    }
}
impl<T: Pay> Store<T> for Lin<T> {
    const NAME: &'static str = "split-linear";
    const FIXED: bool = false;
    const DEFAULT: bool = false;
    fn build(c: &StoreCfg) -> ConcurrentVec<T, Self> {
        ConcurrentVec::with_linear_growth(c.exp, c.frags)
    }
    fn pinned(c: &StoreCfg) -> Self {
        SplitVec::with_linear_growth_and_fragments_capacity(c.exp, c.frags)
    }
    fn max_cap(c: &StoreCfg) -> usize {
        c.frags << c.exp
    }
    fn cap_for(c: &StoreCfg, n: usize) -> usize {
        n.div_ceil(1 << c.exp) << c.exp
    }
}
impl<T: Pay> Store<T> for Fix<T> {
    const NAME: &'static str = "fixed";
    const FIXED: bool = true;
    const DEFAULT: bool = false;
    fn build(c: &StoreCfg) -> ConcurrentVec<T, Self> {
        ConcurrentVec::with_fixed_capacity(c.cap)
    }
    fn pinned(c: &StoreCfg) -> Self {
        FixedVec::new(c.cap)
    }
    fn max_cap(c: &StoreCfg) -> usize {
        c.cap
    }
    fn cap_for(c: &StoreCfg, _: usize) -> usize {
        c.cap
    }
}
