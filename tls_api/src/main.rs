//! Concrete evaluation of the contracts of the TLS properties through the library's C interface.
#![allow(clippy::all)]
mod cases;
mod peer;
mod sim;
use cases::*;
use vsrc::case;

fn main() {
    vsrc::main(&[
        ("T01", vec![case!(read_nonces)]),
        ("T02", vec![case!(framing), case!(protected_framing)]),
        ("T03", vec![case!(good_records), case!(bad_protected), case!(bad_plain)]),
        ("T04", vec![case!(fragments), case!(bad_messages), case!(largest)]),
        ("T05", vec![case!(keys), case!(fragments)]),
        ("T06", vec![case!(hello), case!(key_edges), case!(flags, 512)]),
        ("T07", vec![case!(any_sh), case!(short_sh, 121), case!(any_ee), case!(short_ee, 60), case!(any_cert), case!(short_cert, 1500)]),
        ("T08", vec![case!(negotiation), case!(all_codes, 131072)]),
        ("T09", vec![case!(bad_certs), case!(any_cert)]),
        ("T10", vec![case!(peer_alerts, 1024), case!(texts, 27), case!(bad_protected)]),
        ("T11", vec![case!(resume), case!(reuse), case!(retry)]),
    ])
}
