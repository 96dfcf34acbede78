# Sourced: the offline build environment of the simulator.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export RUSTC_WRAPPER=/verif/sim/wrap.sh
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC CARGO_BUILD_TARGET
