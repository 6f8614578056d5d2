# Sourced by check.sh and setup.sh: builds the simulator (and the programs under test).
ROOT=$(pwd)
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER="$ROOT/sim/rustc-wrap.sh" CARGO_INCREMENTAL=0 SIMCHECK_ROOT="$ROOT"
mkdir -p "$ROOT/build"

build_log() { # label, command...
    local l=$1; shift
    if ! "$@" >"$ROOT/build/$l.log" 2>&1; then
        tail -40 "$ROOT/build/$l.log" >&2
        echo "simcheck: building $l failed" >&2
        return 1
    fi
}

build_sim() {
    SIM="$ROOT/build/sim/release/simcheck"
    build_sim_as release || return 1
    case $1 in
    C0* | C10) build_sim_as shipped || return 1 ;;
    esac
}

build_sim_as() { # profile
    local again
    for again in 0 1; do
        build_log "sim-$1" cargo build --profile "$1" --offline --manifest-path "$ROOT/sim/Cargo.toml" --target-dir "$ROOT/build/sim" || return 1
        [ "$("$ROOT/build/sim/$1/simcheck" edges)" = 0 ] || return 0
        # a library left by a build without the wrapper
        rm -rf "$ROOT"/build/sim/"$1"/.fingerprint/rusty-chromaprint-*
    done
}

build_cli() {
    # the programs themselves, without instrumentation, arithmetic checks on in our own code only
    build_log shim gcc -O1 -shared -fPIC -o "$ROOT/build/shim.so" "$ROOT/sim/shim/shim.c" || return 1
    build_log cli env RUSTC_WRAPPER= cargo build --release --offline --manifest-path /repo/Cargo.toml \
        -p fpcalc -p compare --target-dir "$ROOT/build/cli" \
        --config 'profile.release.package.fpcalc.overflow-checks=true' \
        --config 'profile.release.package.compare.overflow-checks=true' \
        --config 'profile.release.package.rusty-chromaprint.overflow-checks=true'
}

build_for() {
    case $1 in
    C11 | C12 | C13 | C14 | C15 | C18 | C19) build_cli || return 1 ;;
    esac
    build_sim "$1"
}
