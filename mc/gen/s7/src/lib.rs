#![allow(warnings)]
include!(concat!(env!("MCX_GEN_DIR"), "/s7.rs"));
