# Sourced by run.sh and setup.sh.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
# The hooks are on; lints never decide whether a tree can be checked.
export RUSTFLAGS="--cfg futures_signals_verif --cap-lints=warn -A warnings"
export VERIF_ROOT=$here
# The checks whose schedules also preempt between basic blocks (see harness/src/fine.rs).
fine="c22 c23 c24"
# use BIN: sets where it is built and how
use() {
    case " $fine " in
    *" $1 "*) target=$here/target/fine; export RUSTC_WRAPPER=$here/tools/rustc-fine ;;
    *) target=$here/target; export RUSTC_WRAPPER= ;;
    esac
}
# build BIN...: all of one kind
build() {
    use "$1"
    mkdir -p "$target"
    # cargo decides by modification times; the contents decide here.
    local sum old
    sum=$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat "$target/repo.sum" 2>/dev/null)
    if [ "$sum" != "$old" ]; then
        rm -f "$target/repo.sum"
        (cd "$here/harness" && cargo clean --offline --target-dir "$target" -p futures-signals >/dev/null 2>&1)
    fi
    (cd "$here/harness" && cargo build --offline --locked --quiet --target-dir "$target" $(printf -- '--bin %s ' "$@") 1>&2) || return 1
    echo "$sum" > "$target/repo.sum"
}
