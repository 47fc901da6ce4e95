# Sourced by every command in MANIFEST.json.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export ORT_LIB_LOCATION=/nonexistent
export CARGO_TARGET_X86_64_UNKNOWN_LINUX_GNU_LINKER=/verif/bin/cc-without-ort
export RUSTFLAGS="--cfg acorn_verif"
export CARGO_TARGET_DIR=/verif/target
