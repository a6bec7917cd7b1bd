#!/bin/bash
# run.sh <ID> [harness flags]   run one check against /repo's working tree
# run.sh setup                  build everything once
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
export HOME=/root PATH=/opt/typst/bin:/root/.cargo/bin:/opt/veriftools/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$VERIF_DIR/target" RUST_BACKTRACE=0
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p work evidence replays

# The sources the checks are built from; a changed content forces a rebuild even
# if time stamps say otherwise.
src_hash() {
    (cd /repo && find Cargo.toml crates packages -type f -not -path '*/target/*' -not -path '*/node_modules/*' -print0 |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}
fresh() {
    local h; h=$(src_hash)
    if [ "$h" != "$(cat "$CARGO_TARGET_DIR/.src-hash" 2>/dev/null)" ]; then
        # drop what was built from the other content (dependencies stay)
        rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/mitex*
        mkdir -p "$CARGO_TARGET_DIR"
        echo "$h" > "$CARGO_TARGET_DIR/.src-hash"
    fi
}
build() { # build <bin>
    fresh
    local log="$VERIF_DIR/work/build-$1.log"
    if ! cargo build --release --offline --manifest-path harness/Cargo.toml --bin "$1" $(extra "$1") >"$log" 2>&1; then
        tail -40 "$log"
        echo "ERROR: harness does not build against /repo"
        exit 3
    fi
}
# The package as it is shipped, in target/package: the plugin's source compiled to
# WebAssembly and put beside packages/mitex.
package() {
    local nightly=nightly-x86_64-unknown-linux-gnu lib root="$VERIF_DIR/target/wasmstd" log="$VERIF_DIR/work/build-wasm.log"
    lib="$root/lib/rustlib/wasm32-unknown-unknown/lib"
    if ! ls "$lib"/libstd-*.rlib >/dev/null 2>&1; then
        # std for this target is not installed: build it from its source
        local vendor="$HOME/.rustup/toolchains/$nightly/lib/rustlib/src/rust/library/vendor" out="$VERIF_DIR/target/wasmstd-build"
        RUSTUP_TOOLCHAIN=$nightly CARGO_TARGET_DIR="$out" cargo build --offline --release --target wasm32-unknown-unknown \
            -Zbuild-std=std,panic_abort --manifest-path plugin/sysroot/Cargo.toml \
            --config 'source.crates-io.replace-with="std-vendor"' --config "source.std-vendor.directory=\"$vendor\"" >"$log" 2>&1 ||
            { tail -20 "$log"; echo "ERROR: std does not build for wasm32"; exit 3; }
        mkdir -p "$lib"
        find "$out/wasm32-unknown-unknown" \( -name '*.rlib' -o -name '*.rmeta' \) ! -name 'libwasm_std*' -exec cp {} "$lib" \;
        rm -rf "$VERIF_DIR/target/wasmstd-build"
    fi
    if [ "$(src_hash)" != "$(cat "$VERIF_DIR/target/.wasm-hash" 2>/dev/null)" ]; then
        # (a partial build is not to be trusted to notice older files)
        rm -rf "$VERIF_DIR/target/wasm" "$VERIF_DIR/target/package" "$VERIF_DIR/target/.wasm-hash"
        RUSTUP_TOOLCHAIN=$nightly CARGO_TARGET_DIR="$VERIF_DIR/target/wasm" RUSTFLAGS="--sysroot $root" cargo build --offline --release \
            --target wasm32-unknown-unknown --manifest-path plugin/Cargo.toml >"$log" 2>&1 ||
            { tail -40 "$log"; echo "ERROR: the plugin does not build"; exit 3; }
        mkdir -p "$VERIF_DIR/target/package"
        cp -r /repo/packages/mitex/. "$VERIF_DIR/target/package/"
        cp "$VERIF_DIR/target/wasm/wasm32-unknown-unknown/release/mitex_plugin.wasm" "$VERIF_DIR/target/package/mitex.wasm" || exit 3
        src_hash > "$VERIF_DIR/target/.wasm-hash"
    fi
}
# binaries a check runs besides its own
extra() {
    case $1 in
    spec) echo --bin specgen --bin mitexcli ;;
    apps) echo --bin mitexcli ;;
    esac
}
bin_of() {
    case $1 in
    C01) echo lexmac ;;
    C04|C14|C15|C16|C18) echo conv ;;
    C17|C20|C25) echo docs ;;
    C12|C13|C19) echo total ;;
    C09) echo glob ;;
    C02|C03) echo parse ;;
    C28) echo views ;;
    C30) echo scale ;;
    C31) echo parts ;;
    C10) echo spec ;;
    C21|C22) echo apps ;;
    C11) echo cat ;;
    C23) echo eval ;;
    C26) echo pkg ;;
    C24|C29) echo web ;;
    C27) echo play ;;
    C05|C06|C07|C08) echo macros ;;
    *) echo "" ;;
    esac
}
case $1 in
build)
    build "$2"
    grep -A12 -E '^error' "work/build-$2.log"
    ;;
setup)
    fresh
    package
    cargo build --release --offline --manifest-path harness/Cargo.toml --bins 2>&1 | tail -5
    exit "${PIPESTATUS[0]}"
    ;;
*)
    b=$(bin_of "$1")
    [ -n "$b" ] || { echo "unknown check $1"; exit 3; }
    # (not built with cargo: node runs the sources of packages/typst-dom)
    [ "$b" != web ] || exec node web/check.mjs "$@"
    [ "$b" != play ] || { package; exec node web/check.mjs "$@"; }
    build "$b"
    [ "$b" != pkg ] || package
    exec "$CARGO_TARGET_DIR/release/$b" "$@"
    ;;
esac
