export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg cambrian_sim --cfg cambrian_ops -A warnings" CARGO_TARGET_DIR=/verif/sim/target
