# Environment of every build and run of the simulator (sourced).
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="--cfg dst_sim"
