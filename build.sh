# Sourced by run.sh and setup.sh.  Cargo decides by modification times whether to rebuild; /repo may be
# laid out with arbitrary ones, so the contents of its crates decide here.
: "${here:?}"

repo_hash() {
    (cd /repo && find Cargo.toml owned_subslice socket-io-protocol socket-io-client -type f \( -name '*.rs' -o -name Cargo.toml \) \
        -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# build_in CRATE_DIR TARGET_DIR cargo-args...: with the environment of the caller
build_in() {
    local dir="$1" target="$2"
    shift 2
    mkdir -p "$target"
    (
        flock 9
        local h stamp
        h="$(repo_hash)"
        stamp="$target/repo.hash"
        if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$h" ]; then
            # (two layouts of cargo's build directory)
            find "$target" -maxdepth 6 -type d \
                \( -path '*/.fingerprint/owned_subslice-*' -o -path '*/.fingerprint/socket-io-*' \
                -o -path '*/build/owned_subslice' -o -path '*/build/socket-io-*' \) \
                -prune -exec rm -r -- {} +
        fi
        cd "$dir" || exit 1
        CARGO_TARGET_DIR="$target" CARGO_NET_OFFLINE=true cargo "$@" >"$target/build.log" 2>&1
        rc=$?
        if [ $rc -ne 0 ]; then
            tail -40 "$target/build.log" >&2
            exit 1
        fi
        echo "$h" >"$stamp"
    ) 9>"$target/lock"
}

build_plain() {
    build_in "$here/harness" "$here/harness/target" build --offline --bin mon
}

host=x86_64-unknown-linux-gnu

# The sanitizers and the interpreter.  The first three need nightly; the standard library is rebuilt
# with the instrumentation where leaving it out would mean false alarms.
build_asan() {
    RUSTFLAGS="-Zsanitizer=address" CARGO_INCREMENTAL=0 \
        build_in "$here/harness" "$here/harness/target-asan" +nightly build --offline --target $host --bin mon
}

build_msan() {
    RUSTFLAGS="-Zsanitizer=memory -Zsanitizer-memory-track-origins" CARGO_INCREMENTAL=0 \
        build_in "$here/harness" "$here/harness/target-msan" +nightly build --offline -Zbuild-std --target $host --bin mon
}

build_tsan() {
    RUSTFLAGS="-Zsanitizer=thread" CARGO_INCREMENTAL=0 \
        build_in "$here/harness" "$here/harness/target-tsan" +nightly build --offline -Zbuild-std --target $host --bin mon
}

build_miri() {
    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" \
        build_in "$here/harness" "$here/harness/target-miri" +nightly miri run --offline --bin mon -- list
}
