# Sourced by run.sh: the toolchain and flags of every build made here.
export HOME=/root
export RUSTUP_TOOLCHAIN=1.95
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG
export RUSTFLAGS="--cfg vp_hooks"
VT=/verif/target
