# toolchain of /repo's build
export RUSTUP_TOOLCHAIN=nightly-2025-03-27 CARGO_NET_OFFLINE=true PROTOC=/usr/bin/protoc RUSTC_WRAPPER= CARGO_TERM_COLOR=never
