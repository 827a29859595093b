#!/bin/bash
# Textual IR of the standard library of the pinned toolchain (its rlibs carry bitcode).
set -e
OUT=$1
T=/root/.rustup/toolchains
B=$T/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
L=$T/nightly-2024-09-04-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/lib
mkdir -p "$OUT.tmp"; cd "$OUT.tmp"
for n in core alloc std hashbrown memchr compiler_builtins std_detect cfg_if rustc_demangle; do
  for r in $L/lib$n-*.rlib; do
    [ -e "$r" ] || continue
    mkdir -p x; (cd x; "$B/llvm-ar" x "$r")
    for o in x/*.o; do
      b=$(basename "$o" .o)
      if "$B/llvm-objcopy" --dump-section .llvmbc="$b.bc" "$o" "$b.tmpo" 2>/dev/null; then
        "$B/llvm-dis" "$b.bc" -o "$b.ll" || true
      fi
      unlink "$b.tmpo" 2>/dev/null || true; unlink "$b.bc" 2>/dev/null || true
    done
    find x -type f -delete
  done
done
rmdir x 2>/dev/null || true
mv "$OUT.tmp" "$OUT"
