#!/bin/bash
# Compiles /repo's current papaya and the harness with the nightly compiler through mirdump and
# writes the monomorphic MIR as JSON to $1.  Build products go to $2 (never into /repo).
set -e
OUT=$1; TGT=$2; D=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$TGT RUSTUP_TOOLCHAIN=nightly
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib:$LD_LIBRARY_PATH
export RUSTC_WORKSPACE_WRAPPER=
export RUSTC_WRAPPER=$D/build/mirdump
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Zub-checks=off -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Coverflow-checks=on -Cdebuginfo=0 --cap-lints warn -Awarnings"
export MIRDUMP_OUT=$OUT
export MIRDUMP_STOP="core::fmt;std::fmt;<std::fmt;std::io;std::sys;std::thread;std::sync::;std::collections;std::alloc::;alloc::;std::boxed;std::vec;std::string;std::rt::;std::panic;std::panicking;std::process;core::panicking;std::hint;std::env;std::time;std::backtrace;std::intrinsics;std::hash::random;std::hash::Build;std::error;std::any;core::str;std::str;std::slice::sort;<std::collections;<std::vec;<std::string;<std::thread;hashbrown;libc;serde;serde_core;<verif_harness;verif_harness::f_;verif_harness::sd::mk;std::option::expect_failed;std::option::unwrap_failed;std::result::unwrap_failed;std::hash::impls;std::sync::atomic;std::hash::BuildHasher"
export MIRDUMP_GO="<verif_harness::sd::De as serde::Deserializer<'de>>::deserialize_map;<verif_harness::sd::De as serde::Deserializer<'de>>::deserialize_seq;std::iter::Iterator::;std::cmp::PartialEq::"
cd "$D/harness"
cargo clean --offline -q -p papaya -p verif-harness 2>/dev/null || cargo clean --offline -q -p papaya
exec cargo build --offline
