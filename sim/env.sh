# Sourced by the check scripts: one fixed toolchain and flag set for every harness build.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=1.85.0 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$VERIF_DIR/sim/rustc-wrap" CARGO_TARGET_DIR="$VERIF_DIR/target"
export RUSTFLAGS="--cfg=tokio_unstable --cfg=rustix_use_libc -Crelocation-model=static -Cforce-frame-pointers=no --cap-lints=warn"
export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu
unset CARGO_ENCODED_RUSTFLAGS
