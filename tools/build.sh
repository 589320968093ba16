# build <crate> and binary <crate>: how the monitors are built, and where they are.
build() {
  if [ "$1" = ffi ]; then
    RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR=/verif/harness/target/asan cargo +nightly build -q --offline --target x86_64-unknown-linux-gnu --manifest-path harness/ffi/Cargo.toml
  else
    cargo +1.89.0 build -q --offline --manifest-path "harness/$1/Cargo.toml"
  fi
}
binary() {
  if [ "$1" = ffi ]; then echo /verif/harness/target/asan/x86_64-unknown-linux-gnu/debug/mon-ffi; else echo "/verif/harness/target/debug/mon-$1"; fi
}
