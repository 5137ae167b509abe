#!/bin/bash
# Builds the harness crate with /repo's vcard4: native replay binary and the
# LLVM IR (harness + vcard4 + dependencies + std) of the very same compilation.
# Usage: build_ir.sh BUILD_DIR [FEATURES]    -> BUILD_DIR/a.ll, BUILD_DIR/replay
set -e
B=$(realpath -m "$1")
cd "$(dirname "$0")/../harness"
mkdir -p $B
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
TRIPLE=x86_64-unknown-linux-gnu
T=$B/cargo
# stale bitcode of the crates under test must never be picked up
rm -rf $T/$TRIPLE/release/build/vcard4 $T/$TRIPLE/release/build/vharness
RUSTFLAGS="--emit=llvm-bc,link -Cno-vectorize-loops -Cno-vectorize-slp" CARGO_TARGET_DIR=$T \
  cargo +nightly build --release --offline ${2:+--features $2} --target $TRIPLE >$B/build.log 2>&1 || { tail -60 $B/build.log >&2; exit 2; }
cp $T/$TRIPLE/release/replay $B/replay
SYS=$(rustc +nightly --print sysroot)
N=$SYS/lib/rustlib/$TRIPLE/bin
# bitcode of the prebuilt standard library (embedded in its rlibs)
if [ ! -e $B/stdbc/done ]; then
  rm -rf $B/stdbc; mkdir -p $B/stdbc/x; cd $B/stdbc
  for c in core alloc std hashbrown std_detect cfg_if rustc_demangle memchr rustc_literal_escaper; do
    for r in $SYS/lib/rustlib/$TRIPLE/lib/lib$c-*.rlib; do
      [ -e "$r" ] || continue
      (cd x && ar x $r)
      for o in x/*.o; do
        objcopy -O binary --only-section=.llvmbc --set-section-flags .llvmbc=alloc $o $c.$(basename $o).bc 2>/dev/null || true
      done
      rm -f x/*
    done
  done
  find . -name '*.bc' -size 0 -delete
  touch done
  cd - >/dev/null
fi
ls -t $T/$TRIPLE/release/build/*/*/out/*.bc | grep -v /replay.bc | awk -F/ '{n=$NF; sub(/-[0-9a-f]*\.bc$/,"",n); if (!(n in s)) {s[n]=1; print}}' > $B/files
$N/llvm-link $(cat $B/files) $B/stdbc/*.bc -o $B/all.bc
API=$(grep -ho 'entry!(h_[a-zA-Z0-9_]*' src/*.rs | sed 's/.*(//' | paste -sd,)
$N/opt -passes='internalize,globaldce,function(scalarizer<load-store>)' -internalize-public-api-list=$API -strip-debug $B/all.bc -o $B/out.bc
$N/llvm-dis $B/out.bc -o $B/a.ll
