#!/bin/bash
# check.sh PROPERTY quick|thorough   decide one property on the current tree of /repo
# check.sh build                     build both harness binaries only
# check.sh replay FILE               run a recorded failure again
set -u
root="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC CARGO_TARGET_DIR
export RUSTC_WRAPPER="$root/harness/rustc-wrap.sh"
export CARGO_TARGET_DIR="$root/harness/target"
mkdir -p "$root/out" "$root/evidence" "$CARGO_TARGET_DIR"

build() {
    # Cargo looks at modification times only; a changed tree with old times must be rebuilt too.
    local now last
    now="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum; sha256sum "$root"/harness/rustc-wrap.sh)"
    last="$(cat "$CARGO_TARGET_DIR/tree.sum" 2>/dev/null)"
    if [ "$now" != "$last" ]; then
        rm -f "$CARGO_TARGET_DIR/tree.sum"
        for p in checked release; do
            cargo clean --offline --quiet --manifest-path "$root/harness/Cargo.toml" --profile "$p" -p clarith 2>/dev/null
        done
    fi
    for p in checked release; do
        cargo build --offline --quiet --locked --manifest-path "$root/harness/Cargo.toml" --profile "$p" >"$root/out/build.log" 2>&1 || {
            cat "$root/out/build.log" >&2
            echo "check error: build failed" >&2
            return 2
        }
    done
    printf '%s\n' "$now" >"$CARGO_TARGET_DIR/tree.sum"
}

(
    flock 9
    build
) 9>"$CARGO_TARGET_DIR/build.lock" || exit 2
bins=("$CARGO_TARGET_DIR/checked/clarith-verif" "$CARGO_TARGET_DIR/release/clarith-verif")

case "${1:-}" in
build) exit 0 ;;
replay)
    id="$(sed -n 's/^property //p' "$2")"
    [ -f "$root/harness/regress/$id.txt" ] && export VERIF_REGRESS="$root/harness/regress/$id.txt"
    exec "${bins[0]}" replay "$2" "${bins[@]}"
    ;;
C*) exec "${bins[0]}" check "$1" "${2:-${VERIF_TIER:-quick}}" "$root" "${bins[@]}" ;;
*)
    echo "usage: check.sh PROPERTY quick|thorough | build | replay FILE" >&2
    exit 2
    ;;
esac
