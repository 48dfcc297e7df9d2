//! The shipped (no_std, panic=abort) form of tribute-runtime as a static library, nothing else.
#![no_std]
extern crate tribute_runtime;
