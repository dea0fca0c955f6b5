cd "$(dirname "$0")" && export CARGO_TARGET_DIR=$PWD/target RUSTC_WRAPPER=$PWD/rustc-wrap.sh && cargo build ${P:---release} --offline 2>&1 | grep -E "^(error|warning: unused)|-->" -A9 | grep -v "^warning: use of dep" | sed -n "/lazsim/,\$p" | head -120
