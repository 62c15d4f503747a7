@@module crate
@@module foreign
@@alias heapless::Vec=>HVec
@@alias heapless::VecView=>HVecView
@@alias heapless::LenType=>HLen
@@alias arrayvec::ArrayVec=>AArrayVec
@@alias arrayvec::CapacityError=>ACapErr
@@alias smallvec::SmallVec=>SSmallVec
@@alias smallvec::Array=>VpArr
@@alias smallvec::CollectionAllocErr=>SAllocErr
@@alias tinyvec::ArrayVec=>TArrayVec
@@alias tinyvec::Array=>VpArr
@@alias tinyvec::SliceVec=>TSliceVec
@@alias tinyvec::TinyVec=>TTinyVec
@@alias std::io::Write=>IoWrite
@@drop Display for SerError
@@drop Error for SerError
@@drop implement_tinyvec_write
@@subst-path core::slice::from_ref=>vp_from_ref
@@subst-path slice::from_ref=>vp_from_ref
@@head
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, non_camel_case_types, unused_braces, unused_assignments, unreachable_patterns, unreachable_code, unused_must_use, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::string::*;
use std::collections::{VecDeque, TryReserveError};
use std::vec::Vec;
@@prelude
pub use vp_base::*;
pub mod vp_base {
use vstd::prelude::*; use vstd::string::*; use std::collections::{VecDeque, TryReserveError}; use std::vec::Vec;
/// Rust: no object is larger than isize::MAX bytes
pub broadcast axiom fn axiom_slice_size(s: &[u8]) ensures #[trigger] s@.len() <= isize::MAX;
pub broadcast axiom fn axiom_str_size(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
// ---------------------------------------------------------------- assumed contracts of core and std functions
#[verifier::external_body] pub fn vp_from_ref(b: &u8) -> (r: &[u8]) ensures r@ == seq![*b] { core::slice::from_ref(b) }
pub assume_specification<T: Clone> [<[T]>::clone_from_slice] (a: &mut [T], b: &[T])
  requires old(a)@.len() == b@.len()
  ensures final(a)@.len() == b@.len(), forall|i: int| #![trigger final(a)@[i]] #![trigger b@[i]] 0 <= i < b@.len() ==> cloned(b@[i], final(a)@[i]);
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::try_reserve] (v: &mut VecDeque<T, A>, n: usize) -> (r: core::result::Result<(), TryReserveError>)
  ensures final(v)@ == old(v)@;
/// Extend::extend with an iterator over the elements of a slice
pub trait VpExtend: Sized { spec fn ext_view(&self) -> Seq<u8>; fn vp_extend(&mut self, b: &[u8]) ensures final(self).ext_view() == old(self).ext_view() + b@; }
impl VpExtend for VecDeque<u8> { open spec fn ext_view(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_extend(&mut self, b: &[u8]) { self.extend(b.iter().copied()) } }
impl VpExtend for Vec<u8> { open spec fn ext_view(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_extend(&mut self, b: &[u8]) { self.extend(b.iter().copied()) } }
pub struct FmtError;
pub type FmtResult = core::result::Result<(), FmtError>;
pub trait FmtWrite: Sized { spec fn f_pre(&self) -> bool; fn fmt_write_str(&mut self, s: &str) -> FmtResult requires old(self).f_pre(); }
pub trait AsRef<T: ?Sized> { spec fn ar_pre(&self) -> bool; fn as_ref(&self) -> &T requires self.ar_pre(); }
pub trait AsMut<T: ?Sized> { spec fn am_pre(&self) -> bool; fn as_mut(&mut self) -> &mut T requires old(self).am_pre(); }
// ---------------------------------------------------------------- assumed contracts of other crates' containers
/// bytes stored so far, and how many more fit
/// std::io::Cursor: content, position
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Cursor<T> { t: T }
impl<T> Cursor<T> { pub uninterp spec fn bytes(&self) -> Seq<u8>; pub uninterp spec fn pos(&self) -> nat; }
#[verifier::external_body] pub struct IoError { e: u8 }
pub open spec fn stored<T>(a: &Cursor<T>, b: &Cursor<T>, d: Seq<u8>) -> bool {
  b.pos() == a.pos() + d.len() && (d.len() > 0 ==> b.bytes().len() >= b.pos() && b.bytes().subrange(a.pos() as int, b.pos() as int) == d)
  && forall|i: int| 0 <= i < a.bytes().len() && (i < a.pos() || i >= b.pos()) ==> i < b.bytes().len() && #[trigger] b.bytes()[i] == a.bytes()[i]
}
pub trait IoWrite: Sized {
  spec fn io_all(&self, n: &Self, d: Seq<u8>) -> bool;
  fn write_all(&mut self, d: &[u8]) -> (r: core::result::Result<(), IoError>) ensures r is Ok ==> old(self).io_all(final(self), d@);
}
// the trait every writer of T: io::Write for Cursor<T> obeys
pub broadcast axiom fn axiom_cursor<T>(a: &Cursor<T>, b: &Cursor<T>, d: Seq<u8>) where Cursor<T>: IoWrite ensures #[trigger] a.io_all(b, d) ==> stored(a, b, d);
/// arrayvec
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct AArrayVec<T, const N: usize> { t: [T; N] }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct ACapErr<T> { t: T }
impl<const N: usize> AArrayVec<u8, N> {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  pub axiom fn axiom_cap(&self) ensures self.view().len() <= N;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == N, self.view().len() <= N { unimplemented!() }
  #[verifier::external_body] pub fn remaining_capacity(&self) -> (r: usize) ensures r == N - self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn try_extend_from_slice(&mut self, d: &[u8]) -> (r: core::result::Result<(), ACapErr<()>>)
    ensures r is Ok <==> old(self).view().len() + d@.len() <= N, r is Ok ==> final(self).view() == old(self).view() + d@, r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
  #[verifier::external_body] pub fn try_push(&mut self, b: u8) -> (r: core::result::Result<(), ACapErr<u8>>)
    ensures r is Ok <==> old(self).view().len() < N, r is Ok ==> final(self).view() == old(self).view().push(b), r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
  /// panics when full
  #[verifier::external_body] pub fn push(&mut self, b: u8) requires old(self).view().len() < N ensures final(self).view() == old(self).view().push(b) { unimplemented!() }
}
/// heapless
pub trait HLen {}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(L)] pub struct HVec<T, const N: usize, L> { t: [T; N], l: L }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(L)] pub struct HVecView<T, L> { t: T, l: L }
#[verifier::external_body] pub struct HCapErr { e: u8 }
impl<const N: usize, L: HLen> HVec<u8, N, L> {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == N, self.view().len() <= N { unimplemented!() }
  #[verifier::external_body] pub fn extend_from_slice(&mut self, d: &[u8]) -> (r: core::result::Result<(), HCapErr>)
    ensures r is Ok <==> old(self).view().len() + d@.len() <= N, r is Ok ==> final(self).view() == old(self).view() + d@, r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, b: u8) -> (r: core::result::Result<(), u8>)
    ensures r is Ok <==> old(self).view().len() < N, r is Ok ==> final(self).view() == old(self).view().push(b), r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
}
impl<L: HLen> HVecView<u8, L> {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  pub uninterp spec fn cap(&self) -> nat;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == self.cap(), self.view().len() <= self.cap() { unimplemented!() }
  #[verifier::external_body] pub fn extend_from_slice(&mut self, d: &[u8]) -> (r: core::result::Result<(), HCapErr>)
    ensures final(self).cap() == old(self).cap(), r is Ok <==> old(self).view().len() + d@.len() <= old(self).cap(), r is Ok ==> final(self).view() == old(self).view() + d@, r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, b: u8) -> (r: core::result::Result<(), u8>)
    ensures final(self).cap() == old(self).cap(), r is Ok <==> old(self).view().len() < old(self).cap(), r is Ok ==> final(self).view() == old(self).view().push(b), r is Err ==> final(self).view() == old(self).view() { unimplemented!() }
}
/// smallvec
pub trait VpArr { type Item; }
impl<const N: usize> VpArr for [u8; N] { type Item = u8; }
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct SSmallVec<A> { a: A }
#[verifier::external_body] pub struct SAllocErr { e: u8 }
impl<const N: usize> SSmallVec<[u8; N]> {
  pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn try_reserve(&mut self, n: usize) -> (r: core::result::Result<(), SAllocErr>) ensures final(self).view() == old(self).view() { unimplemented!() }
  #[verifier::external_body] pub fn extend_from_slice(&mut self, d: &[u8]) ensures final(self).view() == old(self).view() + d@ { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, b: u8) ensures final(self).view() == old(self).view().push(b) { unimplemented!() }
}
/// tinyvec: an array of `all.len()` bytes of which the first `n` are in use; the length is kept in 16 bits
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct TArrayVec<A> { a: A }
pub open spec fn min16(n: nat) -> nat { if n <= 65535 { n } else { 65535 } }
impl<const N: usize> TArrayVec<[u8; N]> {
  pub uninterp spec fn all(&self) -> Seq<u8>;
  pub uninterp spec fn n(&self) -> nat;
  pub open spec fn view(&self) -> Seq<u8> { self.all().take(self.n() as int) }
  pub open spec fn wf(&self) -> bool { self.all().len() == N && self.n() <= min16(N as nat) }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) requires self.wf() ensures r == min16(N as nat) { unimplemented!() }
  #[verifier::external_body] pub fn grab_spare_slice_mut(&mut self) -> (r: &mut [u8]) requires old(self).wf()
    ensures r@ == old(self).all().skip(old(self).n() as int), final(self).n() == old(self).n(), final(self).all() == old(self).all().take(old(self).n() as int) + final(r)@ { unimplemented!() }
  /// panics beyond the array or beyond 16 bits
  #[verifier::external_body] pub fn set_len(&mut self, n: usize) requires old(self).wf(), n <= N, n <= 65535 ensures final(self).all() == old(self).all(), final(self).n() == n { unimplemented!() }
  /// the length overflows when the array is longer than it can count
  #[verifier::external_body] pub fn try_push(&mut self, b: u8) -> (r: Option<u8>) requires old(self).wf(), old(self).n() < N ==> old(self).n() < 65535
    ensures r is None <==> old(self).n() < N, r is Some ==> final(self).all() == old(self).all() && final(self).n() == old(self).n(),
      r is None ==> final(self).all() == old(self).all().update(old(self).n() as int, b) && final(self).n() == old(self).n() + 1 { unimplemented!() }
  /// panics when it does not fit
  #[verifier::external_body] pub fn extend_from_slice(&mut self, d: &[u8]) requires old(self).wf(), d@.len() > 0 ==> old(self).n() + d@.len() <= min16(N as nat)
    ensures final(self).wf(), final(self).view() == old(self).view() + d@ { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct TSliceVec<'s, T> { a: &'s mut [T] }
impl<'s> TSliceVec<'s, u8> {
  pub uninterp spec fn all(&self) -> Seq<u8>;
  pub uninterp spec fn n(&self) -> nat;
  pub open spec fn view(&self) -> Seq<u8> { self.all().take(self.n() as int) }
  pub open spec fn wf(&self) -> bool { self.n() <= self.all().len() <= isize::MAX }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == self.all().len() { unimplemented!() }
  #[verifier::external_body] pub fn grab_spare_slice_mut(&mut self) -> (r: &mut [u8]) requires old(self).wf()
    ensures r@ == old(self).all().skip(old(self).n() as int), final(self).n() == old(self).n(), final(self).all() == old(self).all().take(old(self).n() as int) + final(r)@ { unimplemented!() }
  /// panics beyond the slice
  #[verifier::external_body] pub fn set_len(&mut self, n: usize) requires n <= old(self).all().len() ensures final(self).all() == old(self).all(), final(self).n() == n { unimplemented!() }
}
pub enum TTinyVec<A: VpArr> { Inline(TArrayVec<A>), Heap(Vec<A::Item>) }
impl<const N: usize> TTinyVec<[u8; N]> {
  pub open spec fn view(&self) -> Seq<u8> { match self { TTinyVec::Inline(a) => a.view(), TTinyVec::Heap(v) => v@ } }
  pub open spec fn wf(&self) -> bool { self is Inline ==> self->Inline_0.wf() }
  pub open spec fn fits(&self, n: nat) -> bool { self is Inline ==> self->Inline_0.n() + n <= min16(N as nat) }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
  #[verifier::external_body] pub fn try_reserve(&mut self, n: usize) -> (r: core::result::Result<(), TryReserveError>) requires old(self).wf()
    ensures final(self).wf(), final(self).view() == old(self).view(), r is Ok ==> final(self).fits(n as nat) { unimplemented!() }
}
pub broadcast proof fn lemma_cloned(a: u8, b: u8) requires #[trigger] cloned(a, b) ensures a == b {}
pub broadcast proof fn lemma_take_all(a: Seq<u8>, b: Seq<u8>, n: int) requires n == a.len() ensures #[trigger] (a + b).take(n) == a { assert((a + b).take(n) =~= a); }
pub broadcast proof fn lemma_arr1(a: [u8; 1]) ensures #[trigger] a@ == seq![a[0]] { assert(a@ =~= seq![a[0]]); }
pub broadcast group group_base { lemma_arr1, axiom_slice_size, axiom_str_size, axiom_cursor, lemma_cloned, lemma_take_all }
} // vp_base
broadcast use {group_base, vstd::std_specs::vecdeque::group_vec_dequeue_axioms};
@@impl SerWrite
  /// what a usable writer satisfies
  spec fn inv(&self) -> bool;
  /// the content of `n` is this content followed by `d`
  #[verifier::prophetic] spec fn app(&self, n: &Self, d: Seq<u8>) -> bool;
  /// `n` has this content
  #[verifier::prophetic] spec fn kept(&self, n: &Self) -> bool;
  /// how many bytes still fit, for writers of a fixed capacity
  spec fn room(&self) -> Option<nat>;
@@def TWRITE
  ensures
    r is Ok ==> old(self).app(final(self), vp_d(D)), // exactly the given bytes are appended #C01
    r is Ok ==> final(self).inv(), // the writer stays usable #C01 #C02
    r is Err ==> final(self).inv(), // the writer stays usable #C02
    old(self).room() is Some ==> (r is Ok <==> vp_d(D).len() <= old(self).room()->0), // succeeds exactly when it fits #C02
    r is Err ==> old(self).kept(final(self)), // nothing is stored on refusal #C02
@@fn SerWrite::write [C01,C02]
  requires old(self).inv()
  ensures
    r is Ok ==> old(self).app(final(self), buf@), // exactly the given bytes are appended #C01
    r is Ok ==> final(self).inv(), // the writer stays usable #C01 #C02
    r is Err ==> final(self).inv(), // the writer stays usable #C02
    old(self).room() is Some ==> (r is Ok <==> buf@.len() <= old(self).room()->0), // succeeds exactly when it fits #C02
    r is Err ==> old(self).kept(final(self)), // nothing is stored on refusal #C02
@@fn SerWrite::write_byte [C01,C02]
  requires old(self).inv()
  ensures
    r is Ok ==> old(self).app(final(self), seq![byte]), // exactly the given byte is appended #C01
    r is Ok ==> final(self).inv(), // the writer stays usable #C01 #C02
    r is Err ==> final(self).inv(), // the writer stays usable #C02
    old(self).room() is Some ==> (r is Ok <==> 1 <= old(self).room()->0), // succeeds exactly when it fits #C02
    r is Err ==> old(self).kept(final(self)), // nothing is stored on refusal #C02
@@fn SerWrite::write_str [C01,C02]
  requires old(self).inv()
  ensures
    r is Ok ==> old(self).app(final(self), s.spec_bytes()), // exactly the given text is appended #C01
    r is Ok ==> final(self).inv(), // the writer stays usable #C01 #C02
    r is Err ==> final(self).inv(), // the writer stays usable #C02
    old(self).room() is Some ==> (r is Ok <==> s.spec_bytes().len() <= old(self).room()->0), // succeeds exactly when it fits #C02
    r is Err ==> old(self).kept(final(self)), // nothing is stored on refusal #C02
@@impl SerWrite for &mut T
  open spec fn inv(&self) -> bool { T::inv(*self) }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { (**self).app(*n, d) && *final(*self) == *final(*n) }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { (**self).kept(*n) && *final(*self) == *final(*n) }
  open spec fn room(&self) -> Option<nat> { (**self).room() }
@@fn SerWrite for &mut T::write [C01,C02]
@@fn SerWrite for &mut T::write_byte [C01,C02]
@@fn SerWrite for &mut T::write_str [C01,C02]
@@def GROWING
  open spec fn inv(&self) -> bool { true }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { true }
  open spec fn room(&self) -> Option<nat> { None }
@@impl SerWrite for Vec
%GROWING%
@@fn SerWrite for Vec::write [C01,C02]
@@fn SerWrite for Vec::write_byte [C01,C02]
@@impl SerWrite for VecDeque
%GROWING%
@@fn SerWrite for VecDeque::write [C01,C02]
@@fn SerWrite for VecDeque::write_byte [C01,C02]
@@at end :: SerWrite for VecDeque::write_byte
proof { assert(self@ =~= old(self)@ + seq![byte]); }
@@impl SerWrite for Cursor
  open spec fn inv(&self) -> bool { true }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { stored(self, n, d) }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { true }
  open spec fn room(&self) -> Option<nat> { None }
@@fn SerWrite for Cursor::write [C01]
@@impl SerWrite for AArrayVec
  open spec fn inv(&self) -> bool { self@.len() <= CAP }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n@ =~= self@ }
  open spec fn room(&self) -> Option<nat> { Some((CAP - self@.len()) as nat) }
@@fn SerWrite for AArrayVec::write [C01,C02]
@@fn SerWrite for AArrayVec::write_byte [C01,C02]
@@at begin :: SerWrite for AArrayVec::write_byte
proof { assert(self@.push(byte) =~= self@ + seq![byte]); }
@@impl SerWrite for HVec
  open spec fn inv(&self) -> bool { self@.len() <= CAP }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n@ =~= self@ }
  open spec fn room(&self) -> Option<nat> { Some((CAP - self@.len()) as nat) }
@@fn SerWrite for HVec::write [C01,C02]
@@fn SerWrite for HVec::write_byte [C01,C02]
@@at begin :: SerWrite for HVec::write_byte
proof { assert(self@.push(byte) =~= self@ + seq![byte]); }
@@impl SerWrite for HVecView
  open spec fn inv(&self) -> bool { self@.len() <= self.cap() }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d && n.cap() == self.cap() }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n@ == self@ && n.cap() == self.cap() }
  open spec fn room(&self) -> Option<nat> { Some((self.cap() - self@.len()) as nat) }
@@fn SerWrite for HVecView::write [C01,C02]
@@fn SerWrite for HVecView::write_byte [C01,C02]
@@at begin :: SerWrite for HVecView::write_byte
proof { assert(self@.push(byte) =~= self@ + seq![byte]); }
@@impl SerWrite for SSmallVec
%GROWING%
@@fn SerWrite for SSmallVec::write [C01,C02]
@@fn SerWrite for SSmallVec::write_byte [C01,C02]
@@at begin :: SerWrite for SSmallVec::write_byte
proof { assert(self@.push(byte) =~= self@ + seq![byte]); }
@@impl SerWrite for TArrayVec
  open spec fn inv(&self) -> bool { self.wf() }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n@ =~= self@ }
  open spec fn room(&self) -> Option<nat> { Some((min16(CAP as nat) - self.n()) as nat) }
@@def TINYEND
proof { assert(self@ =~= old(self)@ + buf@); }
@@fn SerWrite for TArrayVec::write [C01,C02]
@@at tail :: SerWrite for TArrayVec::write
proof { if vp_r is Ok { assert(self@ =~= old(self)@ + buf@); } else { assert(self@ =~= old(self)@); } }
@@at begin :: SerWrite for TArrayVec::write
proof { if buf@.len() == 0 { assert(self@ =~= self@ + buf@); } }
@@fn SerWrite for TArrayVec::write_byte [C01,C02]
@@at tail :: SerWrite for TArrayVec::write_byte
proof { if vp_r is Ok { assert(self@ =~= old(self)@ + seq![byte]); } else { assert(self@ =~= old(self)@); } }
@@impl SerWrite for TSliceVec
  open spec fn inv(&self) -> bool { self.wf() }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d && n.all().len() == self.all().len() }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n@ =~= self@ && n.all().len() == self.all().len() }
  open spec fn room(&self) -> Option<nat> { Some((self.all().len() - self.n()) as nat) }
@@fn SerWrite for TSliceVec::write [C01,C02]
@@at tail :: SerWrite for TSliceVec::write
proof { if vp_r is Ok { assert(self@ =~= old(self)@ + buf@); } else { assert(self@ =~= old(self)@); } }
@@at begin :: SerWrite for TSliceVec::write
proof { if buf@.len() == 0 { assert(self@ =~= self@ + buf@); } }
@@impl SerWrite for TTinyVec
  open spec fn inv(&self) -> bool { self.wf() }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool { n@ =~= self@ + d }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { true }
  open spec fn room(&self) -> Option<nat> { None }
@@fn SerWrite for TTinyVec::write [C01,C02]
@@at tail :: SerWrite for TTinyVec::write
proof { assert(self@ =~= old(self)@ + buf@); }
@@impl SerWrite for SliceWriter
  open spec fn inv(&self) -> bool { self.sw_inv() }
  #[verifier::prophetic] open spec fn app(&self, n: &Self, d: Seq<u8>) -> bool {
    n.written() == self.written() + d && n.buf@.len() == self.buf@.len() && n.buf@.skip(n.len as int) == self.buf@.skip(n.len as int) && final(self.buf)@ == final(n.buf)@
  }
  #[verifier::prophetic] open spec fn kept(&self, n: &Self) -> bool { n.buf@ == self.buf@ && n.len == self.len && final(self.buf)@ == final(n.buf)@ }
  open spec fn room(&self) -> Option<nat> { Some((self.buf@.len() - self.len) as nat) }
@@fn SerWrite for SliceWriter::write [C01,C02,C03]
@@at tail :: SerWrite for SliceWriter::write
proof { if vp_r is Ok { assert(self.written() =~= old(self).written() + buf@); assert(self.buf@.skip(self.len as int) =~= old(self).buf@.skip(self.len as int)); } }
@@impl SliceWriter
  pub open spec fn sw_inv(&self) -> bool { self.len <= self.buf@.len() }
  pub open spec fn written(&self) -> Seq<u8> { self.buf@.take(self.len as int) }
@@fn SliceWriter::new [C01,C02,C03]
  ensures r.sw_inv(), r.written().len() == 0, r.buf@ == old(buf)@, r.len == 0, final(r.buf)@ == final(buf)@
@@fn SliceWriter::len [C03]
  ensures r == self.len
@@fn SliceWriter::is_empty [C03]
  ensures r <==> self.len == 0
@@fn SliceWriter::capacity [C03]
  ensures r == old(self.buf)@.len()
@@fn SliceWriter::rem_capacity [C03]
  requires self.sw_inv()
  ensures r + self.len == old(self.buf)@.len()
@@fn SliceWriter::clear [C03]
  ensures final(self).len == 0, final(self).buf@ == old(self).buf@, final(final(self).buf)@ == final(old(self).buf)@
@@fn SliceWriter::split [C03]
  requires self.sw_inv()
  ensures r.0@ == self.written(), r.1.len == 0, r.1.buf@ == old(self.buf)@.skip(self.len as int), final(self.buf)@ == final(r.0)@ + final(r.1.buf)@
@@impl AsRef<[u8]> for SliceWriter
  open spec fn ar_pre(&self) -> bool { self.sw_inv() }
@@fn AsRef<[u8]> for SliceWriter::as_ref [C03]
  ensures r@ == self.written()
@@impl AsMut<[u8]> for SliceWriter
  open spec fn am_pre(&self) -> bool { self.sw_inv() }
@@fn AsMut<[u8]> for SliceWriter::as_mut [C03]
  ensures r@ == old(self).written(), final(self).len == old(self).len, final(self).buf@ == final(r)@ + old(self).buf@.skip(old(self).len as int), final(final(self).buf)@ == final(old(self).buf)@
@@impl Write for SliceWriter
  open spec fn f_pre(&self) -> bool { self.sw_inv() }
@@rename Write for SliceWriter::write_str fmt_write_str
@@fn Write for SliceWriter::write_str [C01,C02]
  ensures
    r is Ok ==> SliceWriter::app(&*old(self), &*final(self), s.spec_bytes()), // exactly the given text is appended #C01
    r is Ok <==> s.spec_bytes().len() <= old(self).buf@.len() - old(self).len, // succeeds exactly when it fits #C02
    r is Err ==> SliceWriter::kept(&*old(self), &*final(self)), // nothing is stored on refusal #C02
    final(self).sw_inv() // the writer stays usable #C01 #C02
