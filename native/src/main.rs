//! Concrete evaluation of the contracts of the cryptographic properties against the compiled
//! code of /repo/crylib.
#![allow(clippy::all)]
mod a;
mod e;
mod f;
mod h;
mod s;

fn main() {
    vsrc::main(&[
        ("A01", a::a01()),
        ("A02", a::a02()),
        ("A03", a::a03()),
        ("A04", a::a04()),
        ("F01", f::f01()),
        ("F02", f::f02()),
        ("E01", e::e01()),
        ("E02", e::e02()),
        ("E03", e::e03()),
        ("H01", h::h01()),
        ("H02", h::h02()),
        ("S01", s::s01()),
        ("S02", s::s02()),
        ("S03", s::s03()),
        ("S04", s::s04()),
    ])
}
