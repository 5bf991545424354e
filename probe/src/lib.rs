//! The closed program the monomorphic analyses look at: every public operation of `sherman`, for
//! every parameter configuration, over opaque user types. It is only ever type-checked and lowered
//! to MIR; it is never linked or run.
#![allow(clippy::all, unused)]

use serde::{Deserialize, Serialize};
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::*;

extern "Rust" {
    fn opaque_add(a: u64, b: u64) -> u64;
    fn opaque_drop(p: *mut u64);
    fn opaque_clone(p: *const u64) -> u64;
    fn opaque_split(p: *mut u64, i: u64) -> u64;
    fn opaque_join(a: *mut u64, b: *mut u64) -> bool;
}

/// User index type: every operation is user code.
#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct UI(pub u64);
impl DirectionalAdd for UI {
    fn add_right(self, o: UI) -> UI {
        UI(unsafe { opaque_add(self.0, o.0) })
    }
}
impl DirectionalSub for UI {
    fn sub_left(self, o: UI) -> UI {
        UI(unsafe { opaque_add(self.0, o.0) })
    }
    fn sub_right(self, o: UI) -> UI {
        UI(unsafe { opaque_add(self.0, o.0) })
    }
}
impl Index for UI {
    const ZERO: UI = UI(0);
}

macro_rules! slice_ty {
    ($n:ident, $join:expr) => {
        /// User slice type: clone, drop, split and join are user code.
        pub struct $n(pub u64);
        impl Drop for $n {
            fn drop(&mut self) {
                unsafe { opaque_drop(&mut self.0) }
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                $n(unsafe { opaque_clone(&self.0) })
            }
        }
        impl Slice<UI> for $n {
            const MAY_JOIN: bool = $join;
            fn split_at(&mut self, i: UI) -> Self {
                $n(unsafe { opaque_split(&mut self.0, i.0) })
            }
            fn try_join(mut self, mut o: Self) -> Result<Self, (Self, Self)> {
                if unsafe { opaque_join(&mut self.0, &mut o.0) } {
                    Ok(self)
                } else {
                    Err((self, o))
                }
            }
        }
    };
}
slice_ty!(US, true);
slice_ty!(UN, false);

type Cur = BoundedCursor<6>;

pub mod roots {
    use super::*;

    macro_rules! common {
        ($p:ty, $s:ty) => {
            use super::super::*;
            pub type T = RleTree<UI, $s, $p, 3>;
            pub fn new_empty() -> T {
                T::new_empty()
            }
            pub fn new(s: $s, n: UI) -> T {
                T::new(s, n)
            }
            pub fn size(t: &T) -> UI {
                t.size()
            }
            pub fn number_of_slices(t: &T) -> usize {
                t.number_of_slices()
            }
            pub fn get(t: &T, i: UI) -> SliceEntry<'_, UI, $s, $p, 3> {
                t.get(i)
            }
            pub fn get_with_cursor(t: &T, c: Cur, i: UI) -> SliceEntry<'_, UI, $s, $p, 3> {
                t.get_with_cursor(c, i)
            }
            pub fn cursor_to(t: &T, i: UI) -> Cur {
                t.cursor_to(i)
            }
            pub fn cursor_to_nop(t: &T, i: UI) -> NoCursor {
                t.cursor_to(i)
            }
            pub fn iter(t: &T, r: std::ops::Range<UI>) -> Iter<'_, NoCursor, UI, $s, $p, 3> {
                t.iter(r)
            }
            pub fn iter_full(t: &T) -> Iter<'_, NoCursor, UI, $s, $p, 3> {
                t.iter(..)
            }
            pub fn iter_with_cursor(
                t: &T,
                c: Cur,
                r: std::ops::RangeInclusive<UI>,
            ) -> Iter<'_, Cur, UI, $s, $p, 3> {
                t.iter_with_cursor(c, r)
            }
            pub fn iter_next<'t>(
                i: &mut Iter<'t, Cur, UI, $s, $p, 3>,
            ) -> Option<SliceEntry<'t, UI, $s, $p, 3>> {
                i.next()
            }
            pub fn iter_next_back<'t>(
                i: &mut Iter<'t, Cur, UI, $s, $p, 3>,
            ) -> Option<SliceEntry<'t, UI, $s, $p, 3>> {
                i.next_back()
            }
            pub fn drain(t: &mut T, r: std::ops::Range<UI>) -> Drain<'_, NoCursor, UI, $s, $p, 3> {
                t.drain(r)
            }
            pub fn drain_with_cursor(
                t: &mut T,
                c: Cur,
                r: std::ops::Range<UI>,
            ) -> Drain<'_, Cur, UI, $s, $p, 3> {
                t.drain_with_cursor(c, r)
            }
            pub fn insert(t: &mut T, i: UI, s: $s, n: UI) {
                t.insert(i, s, n)
            }
            pub fn insert_with_cursor(t: &mut T, c: Cur, i: UI, s: $s, n: UI) -> Cur {
                t.insert_with_cursor(c, i, s, n)
            }
            pub fn entry_range(e: &SliceEntry<'_, UI, $s, $p, 3>) -> std::ops::Range<UI> {
                e.range()
            }
            pub fn entry_size(e: &SliceEntry<'_, UI, $s, $p, 3>) -> UI {
                e.size()
            }
            pub fn entry_slice<'t>(e: &SliceEntry<'t, UI, $s, $p, 3>) -> &'t $s {
                e.slice()
            }
            pub fn entry_clone<'t>(
                e: &SliceEntry<'t, UI, $s, $p, 3>,
            ) -> SliceEntry<'t, UI, $s, $p, 3> {
                e.clone()
            }
            pub fn drop_tree(t: T) {
                drop(t)
            }
        };
    }
    macro_rules! cloneable {
        () => {
            pub fn clone(t: &T) -> T {
                t.clone()
            }
        };
    }
    macro_rules! entry_cursor {
        ($p:ty, $s:ty) => {
            pub fn entry_cursor(e: &SliceEntry<'_, UI, $s, $p, 3>) -> Cur {
                e.cursor()
            }
        };
    }
    macro_rules! slice_refs {
        ($s:ty) => {
            pub type R = SliceRef<UI, $s, 3>;
            pub fn insert_ref(t: &mut T, i: UI, s: $s, n: UI) -> R {
                t.insert_ref(i, s, n)
            }
            pub fn insert_ref_with_cursor(t: &mut T, c: Cur, i: UI, s: $s, n: UI) -> (Cur, R) {
                t.insert_ref_with_cursor(c, i, s, n)
            }
            pub fn entry_make_ref(e: &SliceEntry<'_, UI, $s, AllowSliceRefs, 3>) -> R {
                e.make_ref()
            }
            pub fn ref_is_valid(r: &R) -> bool {
                r.is_valid()
            }
            pub fn ref_can_borrow(r: &R) -> bool {
                r.can_borrow()
            }
            pub fn ref_borrow_slice(r: &R) -> Borrow<'_, $s> {
                r.borrow_slice()
            }
            pub fn ref_try_borrow_slice(r: &R) -> Option<Borrow<'_, $s>> {
                r.try_borrow_slice()
            }
            pub fn ref_range(r: &R) -> std::ops::Range<UI> {
                r.range()
            }
            pub fn ref_try_range(r: &R) -> Option<std::ops::Range<UI>> {
                r.try_range()
            }
            pub fn ref_cursor(r: &R) -> Cur {
                r.cursor()
            }
            pub fn ref_try_cursor(r: &R) -> Option<Cur> {
                r.try_cursor()
            }
            pub fn ref_clone(r: &R) -> R {
                r.clone()
            }
            pub fn ref_drop(r: R) {
                drop(r)
            }
            pub fn borrow_deref<'a>(b: &'a Borrow<'_, $s>) -> &'a $s {
                &**b
            }
            pub fn borrow_clone<'a>(b: &Borrow<'a, $s>) -> Borrow<'a, $s> {
                b.clone()
            }
            pub fn borrow_map<'a>(b: Borrow<'a, $s>) -> Borrow<'a, u64> {
                Borrow::map(b, |s| &s.0)
            }
            pub fn borrow_drop(b: Borrow<'_, $s>) {
                drop(b)
            }
        };
    }

    pub mod plain {
        common!(NoFeatures, US);
        cloneable!();
        entry_cursor!(NoFeatures, US);
    }
    pub mod cow {
        common!(AllowCow, US);
        cloneable!();
    }
    pub mod refs {
        common!(AllowSliceRefs, US);
        entry_cursor!(AllowSliceRefs, US);
        slice_refs!(US);
    }
    pub mod plain_nojoin {
        common!(NoFeatures, UN);
        cloneable!();
        entry_cursor!(NoFeatures, UN);
    }
    pub mod cow_nojoin {
        common!(AllowCow, UN);
        cloneable!();
    }
    pub mod refs_nojoin {
        common!(AllowSliceRefs, UN);
        entry_cursor!(AllowSliceRefs, UN);
        slice_refs!(UN);
    }

    pub mod cursors {
        use super::super::*;
        pub fn bounded_next(c: &mut Cur) -> Option<PathComponent> {
            c.next()
        }
        pub fn bounded_prepend(c: &mut Cur, p: PathComponent) {
            c.prepend_to_path(p)
        }
        pub fn bounded_new() -> Cur {
            <Cur as Cursor>::new_empty()
        }
        pub fn bounded_into_path(c: Cur) -> <Cur as Cursor>::PathIter {
            c.into_path()
        }
        pub fn nop_into_path(c: NoCursor) -> <NoCursor as Cursor>::PathIter {
            c.into_path()
        }
    }
}
