//! Answers questions about the library as built with one set of features: one request per line on
//! standard input, one line of observations on standard output.
#![allow(dead_code, unused_imports, unused_macros)]
#[cfg(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility"))]
#[path = "../../harness/src/codec.rs"]
mod codec;
#[macro_use]
#[cfg(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility"))]
#[path = "../../harness/src/engine.rs"]
mod engine;
#[cfg(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility"))]
#[path = "../../harness/src/types.rs"]
mod types;
#[cfg(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility"))]
mod probe;

/// a probe draws nothing: the inputs come with the requests
mod hints {
    pub struct Dictionary {
        pub all: Vec<u64>,
        pub new: Vec<u64>,
    }
    pub fn dictionary() -> &'static Dictionary {
        static NONE: Dictionary = Dictionary { all: vec![], new: vec![] };
        &NONE
    }
}

/// built without any message family there is nothing to ask
#[cfg(not(any(feature = "channel-voice1", feature = "channel-voice2", feature = "flex-data", feature = "sysex7", feature = "sysex8", feature = "system-common", feature = "ump-stream", feature = "utility")))]
mod probe {
    pub fn main() {
        let _ = midi2::error::BufferOverflow;
    }
}

fn main() {
    probe::main()
}
