# Sourced by every command of this framework.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.76.0 CARGO_TARGET_DIR=${MC_TARGET:-/verif/target} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
