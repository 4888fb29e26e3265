export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="${VERIF_DIR:-/verif}/target" CARGO_TERM_COLOR=never
