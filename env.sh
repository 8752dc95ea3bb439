# Sourced by check.sh: toolchain and build settings of every check.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL RUSTFLAGS
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/target}"
