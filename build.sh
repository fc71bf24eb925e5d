#!/bin/bash
# Builds the checker from /repo's working tree, plain and instrumented for the guided search.
# Prints the path of the plain binary; the instrumented one is target/cov/release/ilcheck.
# Modification times are not trusted: whenever the content of the sources differs from what
# the last build used, the library is built anew.
set -u
here=$(cd "$(dirname "$0")" && pwd)
target="$here/target"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
mkdir -p "$target/cov" "$here/out" "$here/evidence"
exec 9>"$target/.verif-lock"
flock 9
hash=$( (cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum
         cd "$here/harness" && find src covrt Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum
         sha256sum <"$here/tools/covwrap.sh") | sha256sum | cut -d' ' -f1)
one() { # directory, log
    local bin="$1/release/ilcheck" stamp="$1/.verif-hash"
    [ "$(cat "$stamp" 2>/dev/null)" = "$hash" ] && [ -x "$bin" ] && return 0
    rm -f "$stamp" "$bin"
    export CARGO_TARGET_DIR="$1"
    cargo clean --manifest-path "$here/harness/Cargo.toml" --release -p il2-iltags -p ilcheck --offline >/dev/null 2>&1
    cargo build --manifest-path "$here/harness/Cargo.toml" --release --offline --locked >"$2" 2>&1 || return 1
    echo "$hash" >"$stamp"
}
# Without the instrumented build there is no guided search; all the rest works.
(RUSTC_WRAPPER="$here/tools/covwrap.sh" one "$target/cov" "$here/out/build-cov.log") &
one "$target" "$here/out/build.log"
rc=$?
wait
if [ $rc != 0 ]; then
    tail -60 "$here/out/build.log" >&2
    echo "the checker does not build" >&2
    exit 2
fi
echo "$target/release/ilcheck"
