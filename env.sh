export RUSTUP_TOOLCHAIN=1.73 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/sim/target"
