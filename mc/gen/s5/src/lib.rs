#![allow(warnings)]
include!(concat!(env!("MCX_GEN_DIR"), "/s5.rs"));
