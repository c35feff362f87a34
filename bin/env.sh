# Sourced by the scripts here.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_DIR=$VERIF HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=${VERIF_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER= RUST_BACKTRACE=0
