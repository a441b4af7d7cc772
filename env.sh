# sourced by check.sh and setup.sh
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2026-04-01
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export RUSTC_WRAPPER=
export RUSTFLAGS="--cfg aether_mc -Awarnings"
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
crate_of() {
  case "$1" in
    T0*) echo t_time ;;
    W0*|C0*) echo m_cat ;;
    U0*|K0*|X0*|N0*) echo m_misc ;;
    M06) echo m_nostd ;;
    M08) echo m_arch ;;
    M09) echo m_wide ;;
    V04) echo m_viewer ;;
    M0*|A0*) echo m_core ;;
    V0*) echo m_viz ;;
    G0*) echo m_models ;;
    H0*) echo m_iso ;;
    R0*|O0*|S0*|I0*|L0*|P0*|F0*) echo m_opt ;;
    *) return 1 ;;
  esac
}
# the other build of the core whose space is explored first
other_build() {
  case "$1" in
    A01|A02|A03|M01|M02|M03|M05) echo m_nostd "without std and SIMD" ;;
    M06) echo m_core "with std" ;;
    *) return 1 ;;
  esac
}
CRATES="m_iso t_time m_wide m_core m_viz m_viewer m_opt m_models m_cat m_misc m_nostd m_arch"
build_crate() {
  mkdir -p "$CARGO_TARGET_DIR"
  local log="$CARGO_TARGET_DIR/$1.build.log" manifest="$1/Cargo.toml"
  if [ "$1" = m_arch ]; then
    # many builds of one crate: written below target first
    manifest="$CARGO_TARGET_DIR/arch/Cargo.toml"
    python3 m_arch/make.py /repo "$CARGO_TARGET_DIR/arch" >"$log" 2>&1 || { tail -n 60 "$log" >&2; return 1; }
  fi
  cargo build --release --offline --locked -q --manifest-path "$manifest" >"$log" 2>&1 || { tail -n 60 "$log" >&2; return 1; }
}
