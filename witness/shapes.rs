//! Programs that must not compile, each with a twin that must.
//!
//! A case begins with `//! == name`. Lines ending in `//- ` belong to the program that must be
//! rejected only, lines ending in `//+` to its twin only; all other lines to both. Every program
//! starts with the prelude.

//! == prelude
#![no_std]
#![allow(internal_features, incomplete_features, dead_code, unused, clippy::all)]
#![feature(allocator_api, ptr_metadata, unsize, unsized_fn_params, type_alias_impl_trait, impl_trait_in_assoc_type)]
extern crate alloc;
extern crate std;
use alloc::{boxed::Box, rc::Rc, string::String, vec::Vec};
use core::{alloc::Layout, cell::{Cell, RefCell}, fmt::Debug, marker::PhantomData};
use emplacable::*;
use unsized_vec::*;
fn is_send<T: ?Sized + Send>() {}
fn is_sync<T: ?Sized + Sync>() {}
fn send_val<T: Send>(_: T) {}
fn sync_val<T: Sync>(_: T) {}
fn used<T: ?Sized>(_: &T) {}

//! == a shared element reference across a push
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let r = &v[0];
    used(r); //+
    v.push_with(e);
    used(r); //-
}

//! == a shared element reference from get across a push by value
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, x: Box<T>) {
    let r = v.get(0);
    used(&r); //+
    v.push(*x);
    used(&r); //-
}

//! == a shared element reference across an insertion
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let r = v.get(0);
    used(&r); //+
    v.insert_with(0, e);
    used(&r); //-
}

//! == a shared element reference across a removal
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let r = v.get(0);
    used(&r); //+
    drop(v.remove_into(0));
    used(&r); //-
}

//! == a shared element reference across a pop
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let r = v.get(0);
    used(&r); //+
    drop(v.pop_into());
    used(&r); //-
}

//! == a shared element reference across a reservation
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let r = &v[0];
    used(r); //+
    v.reserve(9);
    used(r); //-
}

//! == a shared element reference across shrinking
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let r = &v[0];
    used(r); //+
    v.shrink_to_fit();
    used(r); //-
}

//! == a shared element reference across extension
fn f<T: ?Sized, F: EmplacableFn<T>>(v: &mut UnsizedVec<T>, i: Vec<Emplacable<T, F>>) {
    let r = &v[0];
    used(r); //+
    v.extend(i);
    used(r); //-
}

//! == a shared element reference across the drop of the vector
fn f<T: ?Sized>(v: UnsizedVec<T>) {
    let r = &v[0];
    used(r); //+
    drop(v);
    used(r); //-
}

//! == a shared element reference across unsizing the vector
fn f(v: UnsizedVec<i32>) {
    let r = &v[0];
    used(r); //+
    let u: UnsizedVec<dyn Debug> = v.unsize();
    used(r); //-
}

//! == a shared element reference across conversion into a standard vector
fn f(v: UnsizedVec<String>) {
    let r = &v[0];
    used(r); //+
    let u: Vec<String> = v.into();
    used(r); //-
}

//! == a mutable element reference while another is live
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let a = v.get_mut(0);
    drop(a); //+
    let b = v.get_mut(1);
    drop(a); //-
    used(&b);
}

//! == two mutable element references by indexing
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let a = &mut v[0];
    used(a); //+
    let b = &mut v[1];
    used(a); //-
    used(b);
}

//! == a shared and a mutable element reference
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let a = v.get(0);
    used(&a); //+
    let b = v.get_mut(0);
    used(&a); //-
    used(&b);
}

//! == a mutable element from a shared vector
fn f<T: ?Sized>(v: &UnsizedVec<T>) {
    let r = v.get_mut(0); //-
    let r = v.get(0); //+
    used(&r);
}

//! == an element reference outlives the borrow it came from
fn f<'a, 'b, T: ?Sized>(v: &'a UnsizedVec<T>) -> Option<&'b T> //-
fn f<'a, T: ?Sized>(v: &'a UnsizedVec<T>) -> Option<&'a T> //+
{
    v.get(0)
}

//! == a mutable element reference outlives the borrow it came from
fn f<'a, 'b, T: ?Sized>(v: &'a mut UnsizedVec<T>) -> Option<&'b mut T> //-
fn f<'a, T: ?Sized>(v: &'a mut UnsizedVec<T>) -> Option<&'a mut T> //+
{
    v.get_mut(0)
}

//! == an indexed reference outlives the borrow it came from
fn f<'a, 'b, T: ?Sized>(v: &'a UnsizedVec<T>) -> &'b T //-
fn f<'a, T: ?Sized>(v: &'a UnsizedVec<T>) -> &'a T //+
{
    &v[0]
}

//! == an iterator across a push
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let mut i = v.iter();
    drop(i); //+
    v.push_with(e);
    used(&i.next()); //-
}

//! == an iterator across a removal
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let mut i = v.iter();
    drop(i); //+
    v.remove_into(0).forget();
    used(&i.next()); //-
}

//! == an iterator across the drop of the vector
fn f<T: ?Sized>(v: UnsizedVec<T>) {
    let mut i = v.iter();
    drop(i); //+
    drop(v);
    used(&i.next()); //-
}

//! == an item of an iterator across a push
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let x = v.iter().last();
    used(&x); //+
    v.push_with(e);
    used(&x); //-
}

//! == an item of a mutable iterator across a push
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let x = v.iter_mut().next_back();
    used(&x); //+
    v.push_with(e);
    used(&x); //-
}

//! == an item of a loop over the vector kept across a push
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, e: Emplacable<T, impl EmplacableFn<T>>) {
    let mut k = None;
    for x in &*v {
        k = Some(x);
    }
    used(&k); //+
    v.push_with(e);
    used(&k); //-
}

//! == an item of a mutable loop over the vector kept across a read
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let mut k = None;
    for x in &mut *v {
        k = Some(x);
    }
    drop(k); //+
    used(&v[0]);
    drop(k); //-
}

//! == two mutable iterators
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let mut a = v.iter_mut();
    drop(a); //+
    let mut b = v.iter_mut();
    drop(a.next()); //-
    drop(b.next());
}

//! == a mutable iterator with a shared look at the vector
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let mut a = v.iter_mut();
    drop(a); //+
    let n = v.len();
    drop(a.next()); //-
}

//! == a copy of a mutable iterator
fn f<'a, T: ?Sized>(i: UnsizedIterMut<'a, T>) {
    let mut j = i.clone(); //-
    let mut j = i; //+
    drop(j.next());
}

//! == a mutable iterator used after it was given away
fn f<'a, T: ?Sized>(i: UnsizedIterMut<'a, T>) {
    let mut i = i;
    let mut j = i; //-
    let j = &mut i; //+
    drop(j.next());
    drop(i.next());
}

//! == an iterator outlives the borrow it came from
fn f<'a, 'b, T: ?Sized + 'b>(v: &'a UnsizedVec<T>) -> UnsizedIter<'b, T> //-
fn f<'a, T: ?Sized>(v: &'a UnsizedVec<T>) -> UnsizedIter<'a, T> //+
{
    v.iter()
}

//! == a mutable iterator outlives the borrow it came from
fn f<'a, 'b, T: ?Sized + 'b>(v: &'a mut UnsizedVec<T>) -> UnsizedIterMut<'b, T> //-
fn f<'a, T: ?Sized>(v: &'a mut UnsizedVec<T>) -> UnsizedIterMut<'a, T> //+
{
    v.iter_mut()
}

//! == an item outlives the borrow of its iterator
fn f<'a, 'b, T: ?Sized>(mut i: UnsizedIter<'a, T>) -> Option<&'b T> //-
fn f<'a, T: ?Sized>(mut i: UnsizedIter<'a, T>) -> Option<&'a T> //+
{
    i.next()
}

//! == an item of a mutable iterator outlives the borrow of its iterator
fn f<'a, 'b, T: ?Sized>(mut i: UnsizedIterMut<'a, T>) -> Option<&'b mut T> //-
fn f<'a, T: ?Sized>(mut i: UnsizedIterMut<'a, T>) -> Option<&'a mut T> //+
{
    i.next()
}

//! == an iterator of borrowed elements loses their lifetime
fn f<'a, 'b, 'c>(i: UnsizedIter<'a, &'b str>) -> UnsizedIter<'a, &'c str> //-
fn f<'a, 'b>(i: UnsizedIter<'a, &'b str>) -> UnsizedIter<'a, &'b str> //+
{
    i
}

//! == a mutable iterator changes the lifetime of its elements
fn f<'a, 'b: 'c, 'c>(i: UnsizedIterMut<'a, &'b str>) -> UnsizedIterMut<'a, &'c str> //-
fn f<'a, 'b, 'c>(i: UnsizedIterMut<'a, &'b str>) -> UnsizedIterMut<'a, &'b str> //+
{
    i
}

//! == a vector lengthens the lifetime of its elements
fn f<'b, 'c>(v: UnsizedVec<&'b str>) -> UnsizedVec<&'c str> //-
fn f<'b>(v: UnsizedVec<&'b str>) -> UnsizedVec<&'b str> //+
{
    v
}

//! == a borrow in a vector outlives its referent
fn f() {
    let s = String::new(); //+
    let mut v: UnsizedVec<&str> = UnsizedVec::new();
    {
        let s = String::new(); //-
        v.push(&s);
    }
    used(&v);
}

//! == a vector is dropped after what its elements look at when dropped
struct Look<'a>(&'a String);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        used(self.0.as_str());
    }
}
fn f() {
    let mut v: UnsizedVec<Look<'_>>; //-
    let s = String::new();
    let mut v: UnsizedVec<Look<'_>>; //+
    v = UnsizedVec::new();
    v.push(Look(&s));
}

//! == an unsized-element vector is dropped after what its elements look at when dropped
struct Look<'a>(&'a String);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        used(self.0.as_str());
    }
}
trait Tr {}
impl Tr for Look<'_> {}
fn f() {
    let mut v: UnsizedVec<dyn Tr + '_>; //-
    let s = String::new();
    let mut v: UnsizedVec<dyn Tr + '_>; //+
    v = UnsizedVec::new();
    v.push_unsize(Look(&s));
}

//! == a slice-element vector is dropped after what its elements look at when dropped
struct Look<'a>(&'a String);
impl Drop for Look<'_> {
    fn drop(&mut self) {
        used(self.0.as_str());
    }
}
fn f() {
    let mut v: UnsizedVec<[Look<'_>]>; //-
    let s = String::new();
    let mut v: UnsizedVec<[Look<'_>]>; //+
    v = UnsizedVec::new();
    v.push_unsize([Look(&s)]);
}

//! == a vector used while a removal is pending
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let e = v.remove_into(0);
    drop(e); //+
    let n = v.len();
    drop(e); //-
}

//! == a vector pushed to while a removal is pending
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, x: Emplacable<T, impl EmplacableFn<T>>) {
    let e = v.remove_into(0);
    drop(e); //+
    v.push_with(x);
    drop(e); //-
}

//! == two pending removals
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let a = v.remove_into(0);
    a.forget(); //+
    let b = v.remove_into(0);
    a.forget(); //-
    b.forget();
}

//! == a vector used while a pop is pending
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    let e = v.pop_into();
    drop(e); //+
    let n = v.is_empty();
    drop(e); //-
}

//! == a pending removal outlives the vector
fn f(v: UnsizedVec<str>) {
    let mut v = v;
    let e = v.remove_into(0);
    let s = e.into_string(); //+
    drop(v);
    let s = e.into_string(); //-
}

//! == a pending pop outlives the vector
fn f(v: UnsizedVec<str>) {
    let mut v = v;
    let e = v.pop_into();
    drop(e); //+
    drop(v);
    drop(e); //-
}

//! == an element pushed onto its own vector while being removed
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, w: &mut UnsizedVec<T>) {
    let e = v.remove_into(0);
    v.push_with(e); //-
    w.push_with(e); //+
}

//! == an emplacable of a borrowed slice outlives it
fn f() {
    let v: Vec<String> = Vec::new();
    let e: Emplacable<[String], _> = (&*v).into();
    let r: Box<[String]> = box_new_with(e); //+
    drop(v);
    let r: Box<[String]> = box_new_with(e); //-
}

//! == an emplacable of a borrowed string outlives it
fn f(s: String) {
    let e: Emplacable<str, _> = (&*s).into();
    let r = box_new_with(e); //+
    drop(s);
    let r = box_new_with(e); //-
}

//! == an emplacable of a borrowed path outlives it
fn f(s: std::path::PathBuf) {
    let e: Emplacable<std::path::Path, _> = (&*s).into();
    let r = box_new_with(e); //+
    drop(s);
    let r = box_new_with(e); //-
}

//! == an emplacable of a borrowed C string outlives it
fn f(s: std::ffi::CString) {
    let e: Emplacable<core::ffi::CStr, _> = (&*s).into();
    let r = box_new_with(e); //+
    drop(s);
    let r = box_new_with(e); //-
}

//! == an emplacable of a borrowed OS string outlives it
fn f(s: std::ffi::OsString) {
    let e: Emplacable<std::ffi::OsStr, _> = (&*s).into();
    let r = box_new_with(e); //+
    drop(s);
    let r = box_new_with(e); //-
}

//! == an emplacable of a value with borrows outlives their referent
fn f(s: String) {
    let e: Emplacable<&str, _> = s.as_str().into();
    let r = e.get(); //+
    drop(s);
    let r = e.get(); //-
}

//! == an emplacable of a box with borrows outlives their referent
fn f(s: String) {
    let b: Box<dyn Debug + '_> = Box::new(s.as_str());
    let e: Emplacable<dyn Debug + '_, _> = b.into();
    drop(box_new_with(e)); //+
    drop(s);
    drop(box_new_with(e)); //-
}

//! == an emplacable used twice
fn f<T: ?Sized>(e: Emplacable<T, impl EmplacableFn<T>>) {
    let a = box_new_with(e);
    let b = box_new_with(e); //-
}

//! == an emplacable used after it was forgotten
fn f<T>(e: Emplacable<T, impl EmplacableFn<T>>) {
    e.forget(); //-
    let x = e.get();
}

//! == an emplacable copied
fn f<T: ?Sized, F: EmplacableFn<T> + Clone>(e: Emplacable<T, F>) {
    let d = e.clone(); //-
    let d = e; //+
}

//! == an emplacable lengthens the lifetime of its value
fn f<'a, 'b, F: EmplacableFn<&'a str>>(e: Emplacable<&'a str, F>) -> &'b str //-
fn f<'a, F: EmplacableFn<&'a str>>(e: Emplacable<&'a str, F>) -> &'a str //+
{
    e.get()
}

//! == a lent emplacable escapes its callback
fn f<T: ?Sized + 'static>(v: Box<T>) {
    let mut out = None; //-
    with_emplacable_for(*v, |e| {
        out = Some(e); //-
        drop(e); //+
    });
}

//! == a lent emplacable is returned from its callback
fn f<T: ?Sized + 'static>(v: Box<T>) {
    let e = with_emplacable_for(*v, |e| e); //-
    let e = with_emplacable_for(*v, |e| box_new_with(e)); //+
    drop(e);
}

//! == a vector that keeps a lent emplacable
fn f(v: Box<str>) {
    let mut k = Vec::new();
    with_emplacable_for(*v, |e| {
        k.push(e); //-
        k.push(box_new_with(e)); //+
    });
}

//! == an unsized value used after it was moved into a vector
fn f<T: ?Sized>(v: &mut UnsizedVec<T>, x: T) {
    used(&x); //+
    v.push(x);
    used(&x); //-
}

//! == an unsized value used after it was boxed
fn f<T: ?Sized>(x: T) -> Box<T> {
    used(&x); //+
    let b = box_new(x);
    used(&x); //-
    b
}

//! == a shared non-Send element sent to another thread
fn f() {
    is_send::<UnsizedVec<Rc<i32>>>(); //-
    is_send::<UnsizedVec<i32>>(); //+
}

//! == a non-Sync element shared between threads
fn f() {
    is_sync::<UnsizedVec<Cell<i32>>>(); //-
    is_sync::<UnsizedVec<i32>>(); //+
}

//! == a vector of slices of non-Send elements sent to another thread
fn f() {
    is_send::<UnsizedVec<[Rc<i32>]>>(); //-
    is_send::<Box<[i32]>>(); //+
}

//! == a vector of slices of non-Sync elements shared between threads
fn f() {
    is_sync::<UnsizedVec<[Cell<i32>]>>(); //-
    is_sync::<Box<[i32]>>(); //+
}

//! == a vector of unsized non-Send elements sent to another thread
fn f() {
    is_send::<UnsizedVec<dyn Debug>>(); //-
    is_send::<Box<dyn Debug + Send>>(); //+
}

//! == a vector of unsized non-Sync elements shared between threads
fn f() {
    is_sync::<UnsizedVec<dyn Debug + Send>>(); //-
    is_sync::<Box<dyn Debug + Sync>>(); //+
}

//! == a generic vector sent to another thread
fn f<T: ?Sized>() {
    is_send::<UnsizedVec<T>>(); //-
}

//! == a generic vector shared between threads
fn f<T: ?Sized + Send>() {
    is_sync::<UnsizedVec<T>>(); //-
}

//! == an iterator over non-Sync elements sent to another thread
fn f() {
    is_send::<UnsizedIter<'static, Cell<i32>>>(); //-
    is_send::<UnsizedIter<'static, i32>>(); //+
}

//! == an iterator over non-Sync slices sent to another thread
fn f() {
    is_send::<UnsizedIter<'static, [Cell<i32>]>>(); //-
}

//! == an iterator over non-Sync unsized elements sent to another thread
fn f() {
    is_send::<UnsizedIter<'static, dyn Debug + Send>>(); //-
}

//! == a mutable iterator over non-Send elements sent to another thread
fn f() {
    is_send::<UnsizedIterMut<'static, Rc<i32>>>(); //-
    is_send::<UnsizedIterMut<'static, i32>>(); //+
}

//! == a mutable iterator over non-Send slices sent to another thread
fn f() {
    is_send::<UnsizedIterMut<'static, [Rc<i32>]>>(); //-
}

//! == a mutable iterator over non-Send unsized elements sent to another thread
fn f() {
    is_send::<UnsizedIterMut<'static, dyn Debug>>(); //-
}

//! == an emplacable that owns a non-Send value sent to another thread
fn f(r: Rc<i32>) {
    let e: Emplacable<Rc<i32>, _> = r.into();
    drop(e); //+
    send_val(e); //-
}

//! == an emplacable that owns a non-Send box sent to another thread
fn f(r: Box<dyn Debug>) {
    let e: Emplacable<dyn Debug, _> = r.into();
    drop(e); //+
    send_val(e); //-
}

//! == an emplacable that borrows a non-Sync slice sent to another thread
fn f(r: &[Cell<i32>]) {
    let e: Emplacable<[Cell<i32>], _> = r.into();
    drop(e); //+
    send_val(e); //-
}

//! == a pending removal of a non-Send element sent to another thread
fn f(v: &mut UnsizedVec<Rc<i32>>) {
    let e = v.remove_into(0);
    drop(e); //+
    send_val(e); //-
}

//! == a pending removal of a non-Send unsized element sent to another thread
fn f(v: &mut UnsizedVec<dyn Debug>) {
    let e = v.remove_into(0);
    drop(e); //+
    send_val(e); //-
}

//! == unchecked access without an unsafe block
fn f<T: ?Sized>(v: &UnsizedVec<T>) {
    used(v.get_unchecked(0)); //-
    used(unsafe { v.get_unchecked(0) }); //+
}

//! == unchecked mutable access without an unsafe block
fn f<T: ?Sized>(v: &mut UnsizedVec<T>) {
    used(v.get_unchecked_mut(0)); //-
    used(unsafe { v.get_unchecked_mut(0) }); //+
}

//! == an emplacable from any closure without an unsafe block
fn f() {
    let e = Emplacable::<str, _>::from_fn(|_: &mut Emplacer<'_, str>| {}); //-
    let e = unsafe { Emplacable::<str, _>::from_fn(|_: &mut Emplacer<'_, str>| {}) }; //+
}

//! == an emplacer from any closure without an unsafe block
fn f(g: &mut EmplacerFn<'_, str>) {
    let e = Emplacer::from_fn(g); //-
    let e = unsafe { Emplacer::from_fn(g) }; //+
}

//! == the closure of an emplacer without an unsafe block
fn f(g: &mut Emplacer<'_, str>) {
    let e = g.into_fn(); //-
    let e = unsafe { g.into_fn() }; //+
}

//! == an emplacable built from its fields
fn f() {
    let e: Emplacable<str, _> = Emplacable { closure: |_: &mut Emplacer<'_, str>| {}, phantom: PhantomData }; //-
}

//! == the closure of an emplacable taken by its field
fn f<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>) -> F {
    core::mem::ManuallyDrop::into_inner(e.closure) //-
    e.into_fn() //+
}

//! == the closure of an emplacer taken by its field
fn f(e: &mut Emplacer<'_, str>) {
    let f = &mut e.0; //-
}

//! == the parts of a vector taken by its field
fn f<T: ?Sized>(v: UnsizedVec<T>) {
    let f = v.inner; //-
}

//! == an emplacer of one type used for another
fn f<'a, 'b>(e: &'a mut Emplacer<'b, str>) -> &'a mut Emplacer<'b, [u8]> //-
fn f<'a, 'b>(e: &'a mut Emplacer<'b, str>) -> &'a mut Emplacer<'b, str> //+
{
    e
}

//! == an emplacer lengthens its borrows
fn f<'a, 'b, 'c>(e: &'a mut Emplacer<'b, str>) -> &'a mut Emplacer<'c, str> //-
fn f<'a, 'b, 'c>(e: &'a mut Emplacer<'b, str>) -> &'a mut Emplacer<'b, str> //+
{
    e
}

//! == an emplacable whose closure takes something else
fn f<F: EmplacableFn<str>>(f: F) {
    let e: Emplacable<[u8], _> = unsafe { Emplacable::from_fn(f) }; //-
    let e: Emplacable<str, _> = unsafe { Emplacable::from_fn(f) }; //+
}

//! == unsizing a vector to something its elements do not unsize to
fn f(v: UnsizedVec<[i32; 3]>) {
    let u: UnsizedVec<[u8]> = v.unsize(); //-
    let u: UnsizedVec<[i32]> = v.unsize(); //+
}

//! == unsizing a vector of borrowed elements to a longer lifetime
fn f<'a>(v: UnsizedVec<&'a str>) -> UnsizedVec<dyn Debug + 'static> //-
fn f<'a>(v: UnsizedVec<&'a str>) -> UnsizedVec<dyn Debug + 'a> //+
{
    v.unsize()
}

//! == unsizing a vector loses that its elements are not Send
fn f(v: UnsizedVec<Rc<i32>>) {
    let u: UnsizedVec<dyn Debug + Send> = v.unsize(); //-
    let u: UnsizedVec<dyn Debug> = v.unsize(); //+
}

//! == pushing a value that does not unsize to the element type
fn f(v: &mut UnsizedVec<[i32]>) {
    v.push_unsize([1u8; 3]); //-
    v.push_unsize([1i32; 3]); //+
}

//! == inserting a value that does not unsize to the element type
fn f(v: &mut UnsizedVec<dyn Debug>) {
    struct NoDebug;
    v.insert_unsize(0, NoDebug); //-
    v.insert_unsize(0, 1u8); //+
}

//! == pushing a borrow that does not live as long as the element type
fn f<'a>(v: &mut UnsizedVec<dyn Debug + 'static>, s: &'a str) {
    v.push_unsize(s); //-
    v.push_unsize(String::from(s)); //+
}

//! == unsizing an emplacable to something its value does not unsize to
fn f<F: EmplacableFn<[i32; 3]>>(e: Emplacable<[i32; 3], F>) {
    let u: Emplacable<[u8], _> = e.unsize(); //-
    let u: Emplacable<[i32], _> = e.unsize(); //+
}

//! == an emplacable of bytes taken for one of a string
fn f<F: EmplacableFn<[u8]>>(e: Emplacable<[u8], F>) {
    let u: Emplacable<str, _> = e.into(); //-
    let u: Vec<u8> = e.into(); //+
}

//! == getting an unsized value from its emplacable
fn f<F: EmplacableFn<str>>(e: Emplacable<str, F>) {
    let u = e.get(); //-
    let u = e.into_string(); //+
}

//! == cloning a slice whose items cannot be cloned into an emplacable
struct NoClone;
fn f(e: &[NoClone]) {
    let u: Emplacable<[NoClone], _> = e.into(); //-
}

//! == cloning a vector whose elements cannot be cloned
struct NoClone;
fn f(e: &UnsizedVec<NoClone>) -> UnsizedVec<NoClone> {
    e.clone() //-
    UnsizedVec::new() //+
}

//! == a shared borrow of a vector while a standard slice iterator made from its iterator is live
fn f(v: &mut UnsizedVec<i32>) {
    let mut i: core::slice::Iter<'_, i32> = v.iter().into();
    used(&i.next()); //+
    v.push(1);
    used(&i.next()); //-
}

//! == an iterator made from a slice iterator outlives the slice
fn f(v: Vec<i32>) {
    let mut i: UnsizedIter<'_, i32> = v.iter().into();
    used(&i.next()); //+
    drop(v);
    used(&i.next()); //-
}

//! == an extension borrows what it appends
fn f(v: &mut UnsizedVec<str>, s: String) {
    let it = [Emplacable::<str, _>::from(&*s)].into_iter();
    v.extend(it); //+
    drop(s);
    v.extend(it); //-
}

//! == an unsized emplacable outlives what its value borrows
fn f(s: String) {
    let e = Emplacable::<&str, _>::from(s.as_str());
    let u: Emplacable<dyn Debug + '_, _> = e.unsize();
    drop(box_new_with(u)); //+
    drop(s);
    drop(box_new_with(u)); //-
}

//! == a string emplacable seen as bytes outlives the string
fn f(s: String) {
    let e = Emplacable::<str, _>::from(s.as_str());
    let u: Emplacable<[u8], _> = e.into();
    drop(u.into_vec()); //+
    drop(s);
    drop(u.into_vec()); //-
}

//! == an emplacable of many outlives what its items borrow
fn f(s: String) {
    let a = [Emplacable::<&str, _>::from(s.as_str())];
    let u: Emplacable<[&str], _> = a.into();
    drop(u.into_vec()); //+
    drop(s);
    drop(u.into_vec()); //-
}

//! == an emplacable from an iterator outlives what the iterator borrows
fn f(s: Vec<u8>) {
    let i = s.iter().map(|x| Emplacable::<u8, _>::from(*x));
    let u = Emplacable::<u8, _>::from_iter(i);
    drop(u.into_vec()); //+
    drop(s);
    drop(u.into_vec()); //-
}

//! == an emplacable from an iterator used with the iterator's source borrowed mutably
fn f(s: &mut Vec<u8>) {
    let u = Emplacable::<u8, _>::from_iter(s.iter_mut().map(|x| Emplacable::<u8, _>::from(*x)));
    drop(u); //+
    s.push(1);
    drop(u); //-
}

//! == a by-value string from something that is no literal
fn f(s: &str) {
    let b = box_new(by_value_str!(s)); //-
    let b = box_new(by_value_str!("s")); //+
}

//! == unsizing by value to something the value does not unsize to
fn f(s: [u8; 3]) {
    let b: Box<[i32]> = box_new(unsize!(s, ([u8; 3]) -> [i32])); //-
    let b: Box<[u8]> = box_new(unsize!(s, ([u8; 3]) -> [u8])); //+
}

//! == unsizing by value to a longer lifetime
fn f<'a>(s: &'a str) -> Box<dyn Debug + 'static> //-
fn f<'a>(s: &'a str) -> Box<dyn Debug + 'a> //+
{
    box_new(unsize!(s, (&'a str) -> dyn Debug))
}

//! == a value used after it was unsized by value
fn f(s: String) {
    used(&s); //+
    let b: Box<dyn Debug> = box_new(unsize!(s, (String) -> dyn Debug));
    used(&s); //-
}

//! == a vector literal of values of two types
fn f() {
    let v = unsized_vec![1u8, String::new()]; //-
    let v = unsized_vec![1u8, 2u8]; //+
}

//! == a vector of trait objects with borrows grows older than them
fn f() {
    let s = String::new(); //+
    let mut v: UnsizedVec<dyn Debug + '_>;
    {
        let s = String::new(); //-
        v = unsize_vec![s.as_str()];
    }
    used(&v);
}

//! == a vector of trait objects lengthens the lifetime of its elements
fn f<'a, 'b>(v: UnsizedVec<dyn Debug + 'a>) -> UnsizedVec<dyn Debug + 'b> //-
fn f<'a>(v: UnsizedVec<dyn Debug + 'a>) -> UnsizedVec<dyn Debug + 'a> //+
{
    v
}

//! == an element of a trait-object vector lengthens its lifetime
fn f<'v, 'a>(v: &'v UnsizedVec<dyn Debug + 'a>) -> Option<&'v (dyn Debug + 'static)> //-
fn f<'v, 'a>(v: &'v UnsizedVec<dyn Debug + 'a>) -> Option<&'v (dyn Debug + 'a)> //+
{
    v.get(0)
}

//! == a reference-counted pointer to a value with borrows outlives their referent
fn f(s: String) {
    let r: Rc<dyn Debug + '_> = rc_new_with(Emplacable::<&str, _>::from(s.as_str()).unsize());
    used(&r); //+
    drop(r); //+
    drop(s);
    drop(r); //-
}

//! == a pinned box moved out of in safe code
fn f<T: ?Sized>(x: T) {
    let p = box_pin(x);
    let b: &T = &*core::pin::Pin::into_inner(p); //-
    let b: &T = p.as_ref().get_ref(); //+
    used(b);
}

//! == debug output of elements that have none
struct NoDebug;
fn f(v: &UnsizedVec<NoDebug>, w: &UnsizedVec<dyn Debug>) {
    used::<dyn Debug>(v); //-
    used::<dyn Debug>(w); //+
}

//! == a standard vector from unsized elements
fn f(v: UnsizedVec<str>, w: UnsizedVec<u8>) {
    let x: Vec<_> = v.into(); //-
    let x: Vec<_> = w.into(); //+
}
