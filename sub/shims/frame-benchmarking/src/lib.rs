//! Benchmarks are not run here.
