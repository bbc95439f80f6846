//! What each feature has to offer. A case begins with `//! == crate features: name`; it must compile
//! against every feature combination of that crate that includes the named features.

//! == prelude
#![no_std]
#![allow(internal_features, incomplete_features, dead_code, unused, clippy::all)]
#![feature(allocator_api, ptr_metadata, unsize, unsized_fn_params)]

//! == emplacable : sized values
use emplacable::*;
fn f(x: u32) -> u32 {
    let e: Emplacable<u32, _> = x.into();
    e.get()
}
fn g<F: EmplacableFn<u32>>(e: Emplacable<u32, F>) {
    e.forget();
}
fn i<T>(x: T) -> Emplacable<T, impl EmplacableFn<T>> {
    Emplacable::from(x)
}

//! == emplacable : borrowed slices and strings
use emplacable::*;
fn f<'a>(x: &'a str) -> Emplacable<str, impl EmplacableFn<str> + 'a> {
    Emplacable::from(x)
}
fn g<'a>(x: &'a [u8]) -> Emplacable<[u8], impl EmplacableFn<[u8]> + 'a> {
    Emplacable::from(x)
}
fn h<'a>(x: &'a core::ffi::CStr) -> Emplacable<core::ffi::CStr, impl EmplacableFn<core::ffi::CStr> + 'a> {
    Emplacable::from(x)
}
fn c<'a, T: Clone>(x: &'a [T]) -> Emplacable<[T], impl EmplacableFn<[T]> + 'a> {
    Emplacable::from(x)
}

//! == emplacable : arrays and iterators
use emplacable::*;
fn f<F: EmplacableFn<u8>>(x: [Emplacable<u8, F>; 3]) -> Emplacable<[u8; 3], impl EmplacableFn<[u8; 3]>> {
    Emplacable::from(x)
}
fn g<F: EmplacableFn<u8>>(x: [Emplacable<u8, F>; 3]) -> Emplacable<[u8], impl EmplacableFn<[u8]>> {
    Emplacable::from(x)
}
fn h<F: EmplacableFn<[u8; 2]>>(x: Emplacable<[u8; 2], F>) -> Emplacable<[u8], impl EmplacableFn<[u8]>> {
    Emplacable::from(x)
}
fn i<F: EmplacableFn<u8>, I: ExactSizeIterator<Item = Emplacable<u8, F>>>(x: I) -> Emplacable<[u8], impl EmplacableFn<[u8]>> {
    Emplacable::<u8, F>::from_iter(x)
}
fn b<F: EmplacableFn<str>>(x: Emplacable<str, F>) -> Emplacable<[u8], impl EmplacableFn<[u8]>> {
    Emplacable::from(x)
}

//! == emplacable : unsizing
use emplacable::*;
fn f<F: EmplacableFn<[u8; 3]>>(e: Emplacable<[u8; 3], F>) -> Emplacable<[u8], impl EmplacableFn<[u8]>> {
    e.unsize()
}
fn g<F: EmplacableFn<u8>>(e: Emplacable<u8, F>) -> Emplacable<dyn core::fmt::Debug, impl EmplacableFn<dyn core::fmt::Debug>> {
    e.unsize()
}

//! == emplacable : own producers and consumers
use core::{alloc::Layout, marker::PhantomData, mem::MaybeUninit};
use emplacable::*;
fn f() -> Emplacable<u32, impl EmplacableFn<u32>> {
    unsafe {
        Emplacable::<u32, _>::from_fn(|em: &mut Emplacer<'_, u32>| {
            let f = em.into_fn();
            f(Layout::new::<u32>(), (), &mut |p: *mut PhantomData<u32>| {
                if !p.is_null() {
                    p.cast::<u32>().write(7);
                }
            });
        })
    }
}
fn g<F: EmplacableFn<u32>>(e: Emplacable<u32, F>) -> u32 {
    let mut out = MaybeUninit::<u32>::uninit();
    let c = e.into_fn();
    let f = &mut |_: Layout, _: (), w: &mut dyn FnMut(*mut PhantomData<u32>)| w(out.as_mut_ptr().cast());
    c(unsafe { Emplacer::from_fn(f) });
    unsafe { out.assume_init() }
}

//! == emplacable : lending a by-value argument
use emplacable::*;
fn f(x: u8) -> u8 {
    with_emplacable_for(x, |e| e.get())
}

//! == emplacable alloc: boxes
extern crate alloc;
use alloc::{boxed::Box, rc::Rc, sync::Arc};
use core::pin::Pin;
use emplacable::*;
fn a<T: ?Sized>(x: T) -> Box<T> {
    box_new(x)
}
fn b<T: ?Sized>(x: T) -> Pin<Box<T>> {
    box_pin(x)
}
fn c<T: ?Sized>(x: T) -> Rc<T> {
    rc_new(x)
}
fn d<T: ?Sized>(x: T) -> Pin<Rc<T>> {
    rc_pin(x)
}
fn e<T: ?Sized>(x: T) -> Arc<T> {
    arc_new(x)
}
fn f<T: ?Sized>(x: T) -> Pin<Arc<T>> {
    arc_pin(x)
}
fn g<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Box<T> {
    box_new_with(x)
}
fn h<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Pin<Box<T>> {
    box_pin_with(x)
}
fn i<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Rc<T> {
    rc_new_with(x)
}
fn j<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Pin<Rc<T>> {
    rc_pin_with(x)
}
fn k<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Arc<T> {
    arc_new_with(x)
}
fn l<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Pin<Arc<T>> {
    arc_pin_with(x)
}
fn m<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Rc<T> {
    x.into()
}
fn n<T: ?Sized>(x: Emplacable<T, impl EmplacableFn<T>>) -> Arc<T> {
    x.into()
}
fn o<T: ?Sized>(x: Box<T>) -> Emplacable<T, impl EmplacableFn<T>> {
    x.into()
}

//! == emplacable alloc: vectors and strings
extern crate alloc;
use alloc::{ffi::CString, string::String, vec::Vec};
use emplacable::*;
fn a<T>(x: Vec<T>) -> Emplacable<[T], impl EmplacableFn<[T]>> {
    x.into()
}
fn b<T>(x: Emplacable<[T], impl EmplacableFn<[T]>>) -> Vec<T> {
    x.into_vec()
}
fn c<T>(x: Emplacable<[T], impl EmplacableFn<[T]>>) -> Vec<T> {
    x.into()
}
fn d(x: Emplacable<str, impl EmplacableFn<str>>) -> String {
    x.into_string()
}
fn e(x: Emplacable<str, impl EmplacableFn<str>>) -> String {
    x.into()
}
fn f(x: Emplacable<core::ffi::CStr, impl EmplacableFn<core::ffi::CStr>>) -> CString {
    x.into()
}
fn g<T, F: EmplacableFn<T>>(x: impl Iterator<Item = Emplacable<T, F>>, v: &mut Vec<T>) -> Vec<T> {
    v.extend([] as [Emplacable<T, F>; 0]);
    x.collect()
}

//! == emplacable alloc: macros, in a crate that names neither alloc nor std
use emplacable::{box_new, by_value_str, unsize};
fn a() {
    box_new(by_value_str!("text"));
}
fn b(x: [u8; 3]) {
    box_new(unsize!(x, ([u8; 3]) -> [u8]));
}
fn c(x: u8) {
    box_new(unsize!(x, (u8) -> dyn core::fmt::Debug));
}

//! == emplacable std: OS strings and paths
extern crate std;
use emplacable::*;
use std::{ffi::{OsStr, OsString}, path::{Path, PathBuf}};
fn a<'a>(x: &'a OsStr) -> Emplacable<OsStr, impl EmplacableFn<OsStr> + 'a> {
    x.into()
}
fn b<'a>(x: &'a Path) -> Emplacable<Path, impl EmplacableFn<Path> + 'a> {
    x.into()
}
fn c(x: Emplacable<OsStr, impl EmplacableFn<OsStr>>) -> OsString {
    x.into()
}
fn d(x: Emplacable<Path, impl EmplacableFn<Path>>) -> PathBuf {
    x.into()
}

//! == unsized_vec : the vector
extern crate alloc;
use alloc::{boxed::Box, vec::Vec};
use core::fmt::Debug;
use emplacable::*;
use unsized_vec::*;
fn a<T: ?Sized>(v: &mut UnsizedVec<T>, x: Box<T>, e: Emplacable<T, impl EmplacableFn<T>>) -> Option<Box<T>> {
    v.push(*x);
    v.insert_with(0, e);
    v.try_reserve(1).ok()?;
    for x in v.iter() {}
    v.pop_into().map(box_new_with)
}
fn b(v: Vec<u8>) -> UnsizedVec<dyn Debug> {
    UnsizedVec::from(v).unsize()
}
fn c(v: UnsizedVec<dyn Debug>, w: &UnsizedVec<str>, x: &UnsizedVec<u64>) -> (UnsizedVec<dyn Debug>, bool, UnsizedVec<u64>) {
    (v, w == w && x <= x, x.clone())
}

//! == unsized_vec : macros, in a crate that names neither alloc nor std
use unsized_vec::{UnsizedVec, unsize_vec, unsized_vec};
fn a() -> UnsizedVec<u8> {
    unsized_vec![1, 2, 3]
}
fn b() -> UnsizedVec<[u8]> {
    unsize_vec![[1u8], [2u8]]
}

//! == unsized_vec serde: serialization
use serde::Serialize;
use unsized_vec::*;
fn ser<T: Serialize + ?Sized>() {}
fn a() {
    ser::<UnsizedVec<u8>>();
    ser::<UnsizedVec<[u8]>>();
    ser::<UnsizedVec<str>>();
}
fn b<T: Serialize + ?Sized>() {
    ser::<UnsizedVec<T>>();
}
