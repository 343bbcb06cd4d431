// The same exploration, compiled against chain-map's thread-safe configuration.
include!("../../chain/src/main.rs");
