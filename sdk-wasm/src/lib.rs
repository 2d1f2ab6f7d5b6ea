// Written by tools/sdkgen.py.
#![allow(warnings)]
#[cfg(feature = "scalars")]
mod scalars;
#[cfg(feature = "arrays")]
mod arrays;
#[cfg(feature = "mixed")]
mod mixed;
#[cfg(feature = "alike")]
mod alike;
#[cfg(feature = "long")]
mod long;
#[cfg(feature = "app")]
mod app;
