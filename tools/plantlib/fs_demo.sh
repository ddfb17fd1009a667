#!/bin/bash
# Run in /repo after a build: exits 0 if the behaviour in demo.py holds, nonzero otherwise.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
if [ -f "$here/need-build-crate" ]; then
  mkdir -p "$t/driver/src"
  cp "$repo/Cargo.lock" "$t/driver/"
  printf '[package]\nname = "driver"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nmabo-build = { path = "%s/crates/mabo-build" }\n[workspace]\n' "$repo" > "$t/driver/Cargo.toml"
  cat > "$t/driver/src/main.rs" <<'R'
fn main() {
    let dir = std::env::args().nth(1).unwrap();
    if let Err(e) = mabo_build::Compiler::default().compile(&dir) {
        eprintln!("{e:?}");
        std::process::exit(1);
    }
}
R
  cargo build --offline -q --manifest-path "$t/driver/Cargo.toml" --target-dir "$t/target" || exit 1
elif [ -f "$here/need-search" ]; then
  mkdir -p "$t/driver/src"
  cp "$repo/Cargo.lock" "$t/driver/"
  printf '[package]\nname = "driver"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nmabo-project = { path = "%s/crates/mabo-project" }\n[workspace]\n' "$repo" > "$t/driver/Cargo.toml"
  cat > "$t/driver/src/main.rs" <<'R'
fn main() {
    match mabo_project::discover(std::env::args().nth(1).unwrap()) {
        Ok(ps) => ps.iter().for_each(|p| println!("{} {:?}", p.project_path.display(), p.files)),
        Err(e) => {
            eprintln!("{e:?}");
            std::process::exit(1);
        }
    }
}
R
  cargo build --offline -q --manifest-path "$t/driver/Cargo.toml" --target-dir "$t/target" || exit 1
elif [ -f "$here/need-go" ]; then
  cargo build --offline --locked -q -p mabo-go --target-dir "$t/target" || exit 1
else
  cargo build --offline --locked -q -p mabo-cli --target-dir "$t/target" || exit 1
fi
mkdir "$t/scratch"
BIN="$t/target/debug" SCRATCH="$t/scratch" PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$here/demo.py"
