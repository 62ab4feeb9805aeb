# Sourced by setup.sh and check.sh: pins the toolchain and the build folders.
export RUSTUP_TOOLCHAIN=stable
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export CARGO_INCREMENTAL=1
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_BUILD_TARGET
