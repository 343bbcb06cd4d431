#![allow(warnings)]
include!(concat!(env!("MCX_GEN_DIR"), "/s3.rs"));
