#!/bin/bash
# ll.sh CRATE: compile a harness crate to whole-program LLVM IR
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/../harness/$1" && cargo rustc --release --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error" -A12
ls -la target/release/deps/h$1.ll
