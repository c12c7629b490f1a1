#!/bin/bash
# build.sh VARIANT...   (h = hashed transcript, m = mutual authentication; n0 = neither)
# Builds the explorer against /repo's working tree and leaves it as target/bin/mc-VARIANT.
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
PINNED=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$PINNED/rustc RUSTDOC=$PINNED/rustdoc
export RUSTC_WORKSPACE_WRAPPER= RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR SPDM_CONFIG
cd "$(dirname "$0")" || exit 2
mkdir -p ../target/bin
one() {
  local v=$1 f
  if [ $v = ring ]; then   # the bundled crypto provider, in a crate of its own
    (cd ../mcr && cargo build --release --offline --features hashed --target-dir ../target/cargo-ring) || return 2
    cp -f ../target/cargo-ring/release/mc ../target/bin/mc-ring.tmp && mv -f ../target/bin/mc-ring.tmp ../target/bin/mc-ring
    return
  fi
  case $v in
    hm) f=hashed,mutauth;; h) f=hashed;; m) f=mutauth;; n0) f=;; *) echo "bad variant $v"; return 2;;
  esac
  cargo build --release --offline --no-default-features --features "$f" --target-dir ../target/cargo-$v || return 2
  cp -f ../target/cargo-$v/release/mc ../target/bin/mc-$v.tmp && mv -f ../target/bin/mc-$v.tmp ../target/bin/mc-$v || return 2
}
# the variants are built side by side
pids=()
for v in "$@"; do one "$v" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
exit $rc
