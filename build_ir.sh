#!/bin/bash
# build_ir.sh CRATE_DIR OUT_DIR: whole-program LLVM IR (OUT_DIR/prog.ll) and the
# native dev binary (OUT_DIR/native) of one harness crate.
set -e
OUT=$(realpath -m "$2"); cd "$1"; mkdir -p "$OUT"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$OUT/target"
NAME=$(sed -n 's/^name = "\(.*\)"/\1/p' Cargo.toml | head -1)
touch src/main.rs; rm -f "$OUT"/target/debug/deps/"$NAME"-*.ll
cargo rustc -q --offline --bin "$NAME" -- --emit=llvm-ir,link -Cstrip=none 2>"$OUT/build.log" || { cat "$OUT/build.log"; exit 1; }
cp "$OUT/target/debug/$NAME" "$OUT/native"
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
"$B/opt" --strip-debug -S -passes='internalize,globaldce' --internalize-public-api-list=se_run "$OUT"/target/debug/deps/"$NAME"-*.ll -o "$OUT/a.ll"
sed -E '/^define.*(@se_|hash_one|panicking|expect_failed|unwrap_failed|6memchr|slice_error_fail|handle_alloc_error|capacity_overflow|rust_begin_unwind|slice_index_fail)/s/ (#[0-9]+)/ noinline \1/' "$OUT/a.ll" > "$OUT/a2.ll"
"$B/opt" -S -passes='function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce' "$OUT/a2.ll" -o "$OUT/prog.ll"
rm -f "$OUT/a.ll" "$OUT/a2.ll" "$OUT"/target/debug/deps/"$NAME"-*.ll
