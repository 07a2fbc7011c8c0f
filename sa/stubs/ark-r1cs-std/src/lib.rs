//! Empty stand-in: only needed so that optional dependencies resolve offline.
#![no_std]
