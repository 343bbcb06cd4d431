#![allow(warnings)]
include!(concat!(env!("MCX_GEN_DIR"), "/s0.rs"));
