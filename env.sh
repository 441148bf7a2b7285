# Sourced by the checks: offline toolchain, build output below /verif/target.
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
