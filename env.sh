# Sourced by setup.sh and check.sh: an offline cargo environment independent of the caller's.
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS="-A warnings"
unset CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$VERIF" VERIF_KNOWN="$VERIF/known_findings.txt"

# build_a: the checker of the linear and nonlinear crates, from /repo's working tree.
# The two crates are always recompiled (no trust in modification times).
build_a() {
  ( flock 9
    cd "$VERIF/mc_crates" || exit 2
    cargo clean --offline --release --target-dir "$VERIF/target-a" -p linear -p nonlinear -p mc_crates >/dev/null 2>&1
    cargo build --offline --locked --release --target-dir "$VERIF/target-a" >"$VERIF/target-a.log" 2>&1 || { cat "$VERIF/target-a.log" >&2; echo "build of the checker against /repo failed" >&2; exit 2; }
  ) 9>"$VERIF/.lock-a" || return 2
}

# build_b: the checker of the integrator.  /repo/src is not a member of /repo's own workspace (it still
# speaks ndarray, and its `linear` and `nonlinear` modules have moved to crates/): its current files are
# copied beside the bridge modules, which delegate to the real crates, and compiled with the shims.
build_b() {
  ( flock 9
    d="$VERIF/build/ida_src"
    rm -rf "$d" && mkdir -p "$d" && cp -R /repo/src/. "$d/" && cp "$VERIF/bridge/linear.rs" "$VERIF/bridge/nonlinear.rs" "$d/" || exit 2
    cd "$VERIF/mc_ida" || exit 2
    cargo clean --offline --release --target-dir "$VERIF/target-b" -p ida -p linear -p nonlinear -p mc_ida >/dev/null 2>&1
    cargo build --offline --locked --release --target-dir "$VERIF/target-b" >"$VERIF/target-b.log" 2>&1 || { cat "$VERIF/target-b.log" >&2; echo "build of the checker against /repo failed" >&2; exit 2; }
  ) 9>"$VERIF/.lock-b" || return 2
}
