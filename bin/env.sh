# Toolchain environment for every build of this framework (same compilers as the repository's build).
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70.0
TC=/root/.rustup/toolchains/1.69.0-x86_64-unknown-linux-gnu/bin
export RUSTC=$TC/rustc RUSTDOC=$TC/rustdoc RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export LIBCLANG_PATH=/usr/lib/llvm-14/lib CXXFLAGS="-include cstdint"
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR CARGO_BUILD_TARGET
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
B=$V/build
REPO=${REPO:-/repo}
