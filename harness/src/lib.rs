//! Makes cargo build the crates of /repo; the probes are linked with them directly.
