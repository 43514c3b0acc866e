VR=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_ROOT=$VR CARGO_TARGET_DIR=${CARGO_TARGET_DIR_OVERRIDE:-$VR/build} RUSTC_WRAPPER=$VR/tools/rustc-wrap.sh RUSTC_BOOTSTRAP=1 RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE CARGO_BUILD_TARGET
