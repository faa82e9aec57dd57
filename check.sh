#!/bin/bash
# check.sh PROPERTY [TIER]   build what the check needs from /repo, and run it
# check.sh replay FILE       run the case of a replay file again
# check.sh build CONFIG..    build only
#
# 0: the property held on everything explored; 1: a violation; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export MC_ROOT=$here
export CARGO_NET_OFFLINE=true RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET

features() {
    local out=() part
    for part in ${1//-/ }; do
        case $part in
            strict) ;;
            dir) out+=(ignore-incomplete-directories) ;;
            marks) out+=(ignore-incomplete-marks) ;;
            checksums) out+=(ignore-invalid-checksums) ;;
            lang) out+=(default-language) ;;
            all) out+=(ignore-incomplete-directories ignore-incomplete-marks ignore-invalid-checksums default-language) ;;
            *) echo "no such build: $1" >&2; return 1 ;;
        esac
    done
    local IFS=,
    echo "${out[*]}"
}

# The sources a build is made of, told apart by content and not by age.
stamp() {
    { cat "$here/mc/Cargo.toml" "$here/mc/Cargo.lock" "$here/mc/registry.tsv"
      find /repo/src /repo/Cargo.toml /repo/build.rs "$here/mc/src" -type f -print0 2>/dev/null |
          LC_ALL=C sort -z | xargs -0 sha256sum; rustc -V; } | sha256sum | cut -d' ' -f1
}

build() {
    local config=$1 target="$here/target/$1" list now
    list=$(features "$config") || return 1
    mkdir -p "$target"
    now=$(stamp)
    if [ "$(cat "$target/stamp" 2>/dev/null)" = "$now" ] && [ -x "$target/release/mc" ]; then
        return 0
    fi
    rm -f "$target/stamp" "$target/release/mc"
    ( cd "$here/mc" &&
      rm -rf "$target"/release/.fingerprint/opentype-* "$target"/release/.fingerprint/mc-* &&
      cargo build --quiet --offline --locked --release --features "$list" --target-dir "$target" ) \
        2>"$target/log" || { echo "building ($config) failed:" >&2; tail -40 "$target/log" >&2; return 1; }
    echo "$now" >"$target/stamp"
}

run() {
    exec 9>"$here/target/lock" && flock 9
    case ${1:-} in
        build)
            shift
            for c in "$@"; do build "$c" || return 2; done
            return 0 ;;
        replay)
            local config
            config=$(sed -n 's/^config: //p' "$2" | head -1)
            build "$config" || return 2
            exec 9>&-
            "$here/target/$config/release/mc" replay "$2"
            return ;;
        C[0-9][0-9])
            local tier=${2:-${VERIF_TIER:-quick}} c bins=()
            build strict || return 2
            local list
            list=$("$here/target/strict/release/mc" configs "$1" "$tier") || return 2
            for c in $list; do
                build "$c" || return 2
                bins+=("$c=$here/target/$c/release/mc")
            done
            exec 9>&-
            "$here/target/strict/release/mc" check "$1" "$tier" "${bins[@]}"
            return ;;
    esac
    sed -n '2,6p' "$0" >&2
    return 2
}

mkdir -p "$here/target"
run "$@"
code=$?
case $code in 0|1) exit $code ;; *) exit 2 ;; esac
