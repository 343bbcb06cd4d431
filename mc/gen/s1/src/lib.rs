#![allow(warnings)]
include!(concat!(env!("MCX_GEN_DIR"), "/s1.rs"));
