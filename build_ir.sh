#!/bin/bash
# Regenerates the LLVM IR of /repo's current code (plus harnesses and std) into $1/all.ll
set -euo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(realpath -m "$1")
mkdir -p "$OUT/std"
S=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu
(
  for c in core alloc std hashbrown gimli addr2line object miniz_oxide memchr rustc_demangle libc cfg_if unwind adler2; do
    [ -f "$OUT/std/$c.done" ] && continue
    ls "$S"/lib/lib$c-*.rlib >/dev/null 2>&1 || continue
    mkdir -p "$OUT/std/$c"; cd "$OUT/std/$c"
    "$S/bin/llvm-ar" x "$S"/lib/lib$c-*.rlib
    for o in *.o; do objcopy -O binary --only-section=.llvmbc --set-section-flags .llvmbc=alloc "$o" "${o%.o}.bc"; done
    find . -name '*.bc' -size 0 -delete
    rm -f ./*.o ./*.rmeta
    touch "$OUT/std/$c.done"
  done
) &
BG=$!
cd "$HERE/harness"
T=$OUT/target
rm -rf "$T/x86_64-unknown-linux-gnu/debug/deps"
RUSTFLAGS="--emit=llvm-bc ${VK_FLAGS:-}" CARGO_NET_OFFLINE=true cargo build -q --features sym --lib --target x86_64-unknown-linux-gnu --target-dir "$T" 2> "$OUT/cargo.log" || { cat "$OUT/cargo.log" >&2; exit 2; }
wait $BG
API=$(grep -ohE '^(pub )?fn (h|ov)_[a-z0-9_]+' src/*.rs | sed 's/.*fn //' | paste -sd,)
"$S/bin/llvm-link" "$T"/x86_64-unknown-linux-gnu/debug/deps/*.bc "$OUT"/std/*/*.bc -o "$OUT/all0.bc" 2> "$OUT/link.log" || { cat "$OUT/link.log" >&2; exit 2; }
"$S/bin/opt" -strip-debug -passes='internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)' -internalize-public-api-list="$API" "$OUT/all0.bc" -o "$OUT/all1.bc"
"$S/bin/llvm-dis" "$OUT/all1.bc" -o "$OUT/all.ll"
