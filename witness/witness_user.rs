//! Uses of the crates' macros, analysed together with the crates.
#![no_std]
#![allow(internal_features, incomplete_features, clippy::all)]
#![feature(allocator_api, ptr_metadata, unsize, unsized_fn_params)]
extern crate alloc;
use alloc::boxed::Box;
use core::marker::Unsize;
use emplacable::{Emplacable, EmplacableFn, box_new, by_value_str, unsize};
use unsized_vec::{UnsizedVec, unsize_vec, unsized_vec};

pub fn w_values0<T>() -> UnsizedVec<T> {
    unsized_vec![]
}

pub fn w_values1<T>(a: T) -> UnsizedVec<T> {
    unsized_vec![a]
}

pub fn w_values2<T>(a: T, b: T) -> UnsizedVec<T> {
    unsized_vec![a, b]
}

pub fn w_emps2<T: ?Sized, F: EmplacableFn<T>>(
    a: Emplacable<T, F>,
    b: Emplacable<T, F>,
) -> UnsizedVec<T> {
    unsized_vec![a, b,]
}

pub fn w_unsize0<T: ?Sized>() -> UnsizedVec<T> {
    unsize_vec![]
}

pub fn w_unsize2<T: ?Sized, S: Unsize<T>>(a: S, b: S) -> UnsizedVec<T> {
    unsize_vec![a, b]
}

pub fn w_unsize_value<T: ?Sized, S: Unsize<T>>(a: S) -> Box<T> {
    box_new(unsize!(a, (S) -> T))
}

pub fn w_str() -> Box<str> {
    box_new(by_value_str!("a literal"))
}
