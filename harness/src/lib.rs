//! Entry points for the symbolic executor: each `h_*` function states one property of the real code
//! over symbolic inputs. `a`, `b`, `c` select the concrete configuration (sizes, types, encodings).
#![allow(clippy::missing_safety_doc)]
extern crate vrt;
pub mod h;
pub mod arr;
pub mod codec2;
pub mod codec_int;
pub mod elt2;
pub mod enc;
pub mod file;
pub mod io;
pub mod ops;
pub mod ops2;
pub mod smoke;
pub mod valid;
include!(concat!(env!("OUT_DIR"), "/reg.rs"));
