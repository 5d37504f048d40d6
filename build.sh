#!/bin/bash
# Builds the simulator against /repo's working tree, offline:
#   BIN_0  with the standard-library build of the crate,
#   BIN_1  with the no_std build, debug assertions and overflow checks,
#   BIN_2  like BIN_0, every basic block, load and store instrumented (points of preemption; steps counted),
#   BIN_3  like BIN_0, but with the no_std build.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTC_BOOTSTRAP=1 # for set_alloc_error_hook in the simulator
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
BIN_0=$V/sim/target-std/release/unsim
BIN_1=$V/sim/target-nostd/chk/unsim
BIN_2=$V/sim/target-preempt/x86_64-unknown-linux-gnu/release/unsim
BIN_3=$V/sim/target-nostd2/release/unsim
SANCOV="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
# builds_for C01: which binaries a check needs
builds_for() {
  case $1 in C12) echo 0 1 2 ;; C22) echo 0 3 ;; C23) echo 0 2 ;; *) echo 0 1 ;; esac
}
# build_all LOG 0 1 ...
build_all() {
  local log=$1 p=() r=0 q t; shift
  cd "$V/sim" || return 1
  for q in "$@"; do
    # Cargo trusts mtimes; drop the fingerprints of the crate under test so that it is always looked at anew.
    case $q in
    0) rm -rf target-std/release/.fingerprint/unicode-normalization-*
      cargo build --offline --locked --release --target-dir target-std >"$log.0" 2>&1 & ;;
    1) rm -rf target-nostd/chk/.fingerprint/unicode-normalization-*
      cargo build --offline --locked --profile chk --no-default-features --target-dir target-nostd >"$log.1" 2>&1 & ;;
    2) rm -rf target-preempt/x86_64-unknown-linux-gnu/release/.fingerprint/unicode-normalization-*
      RUSTFLAGS=$SANCOV cargo build --offline --locked --release --features instrumented --target x86_64-unknown-linux-gnu \
        --target-dir target-preempt >"$log.2" 2>&1 & ;;
    3) rm -rf target-nostd2/release/.fingerprint/unicode-normalization-*
      cargo build --offline --locked --release --no-default-features --target-dir target-nostd2 >"$log.3" 2>&1 & ;;
    esac
    p+=($!)
  done
  for q in "${p[@]}"; do wait "$q" || r=1; done
  [ $r = 0 ] || cat "$log".[0123] >&2
  rm -f "$log" "$log".[0123]
  return $r
}
