#!/bin/bash
# usage: run.sh ID [quick|thorough]   -- builds the monitors from /repo's working tree and runs one of them
ID=${1:?id}; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
export VERIF_TIER=$TIER
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export RUSTUP_TOOLCHAIN=1.97.1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
unset LD_LIBRARY_PATH PYTHONPATH REZ_PACKAGES_PATH REZ_CONFIG_FILE RUSTFLAGS
export CARGO_TARGET_DIR=/repo/target
OUT=$HERE/evidence; mkdir -p "$OUT"
LOG=$(mktemp /tmp/rezmon-build.XXXXXX)
build() { # what, command...
  local what=$1; shift
  if ! "$@" >"$LOG" 2>&1; then
    echo "ERROR: building $what failed"; tail -40 "$LOG"; rm -f "$LOG"; exit 2
  fi
}
build harness cargo build --offline --locked --manifest-path "$HERE/harness/Cargo.toml"
[ "$ID" = build ] && { rm -f "$LOG"; exit 0; }
case " F01 I01 K01 L01 N01 T01 U01 " in *" $ID "*)
  build rez-next cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin rez-next ;;
esac
rm -f "$LOG"
# Everything below runs as an unprivileged user inside a scratch directory of its own.
SCR=$(mktemp -d /tmp/rezmon.XXXXXX)
trap 'chmod -R u+rwx "$SCR" 2>/dev/null; rm -rf "$SCR"' EXIT
mkdir -p "$SCR/bin" "$SCR/home" "$SCR/tmp" "$SCR/out" "$SCR/work"
cp /repo/target/debug/rezmon "$SCR/bin/rezmon"
[ -x /repo/target/debug/rez-next ] && cp /repo/target/debug/rez-next "$SCR/bin/rez-next"
cp "$HERE/KNOWN_FINDINGS.txt" "$SCR/known.txt" 2>/dev/null || : > "$SCR/known.txt"
chmod 755 "$SCR"; chown -R 65534:65534 "$SCR"
LIMIT=600; [ "$TIER" = thorough ] && LIMIT=3000
cd "$SCR/work" || exit 2
env -i HOME="$SCR/home" TMPDIR="$SCR/tmp" PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 \
  PYTHONDONTWRITEBYTECODE=1 REZMON_SCRATCH="$SCR/work" REZMON_BIN="$SCR/bin" ${REZMON_DEBUG:+REZMON_DEBUG=1} \
  setpriv --reuid=65534 --regid=65534 --clear-groups \
  prlimit --as=20000000000 timeout -k 10 $LIMIT "$SCR/bin/rezmon" "$ID" "$TIER" "$SEED" "$SCR/out" "$SCR/known.txt" > "$SCR/log" 2>&1
RC=$?
rm -f "$OUT/replay/$ID-"*.json
mkdir -p "$OUT/replay"
cp "$SCR/out/$ID.json" "$OUT/$ID.json" 2>/dev/null
cp "$SCR/out/replay/"*.json "$OUT/replay/" 2>/dev/null
sed "s#$SCR/out/#$OUT/#g" "$SCR/log" | tail -200
if [ $RC -eq 134 ] || [ $RC -eq 139 ]; then # the code under test aborted the process (stack overflow, abort)
  R=$OUT/replay/$ID-$SEED-abort.json
  echo "{\"property\":\"$ID\",\"rule\":\"process aborted\",\"status\":$RC,\"rerun\":\"VERIF_SEED=$SEED bash /verif/run.sh $ID $TIER\"}" > "$R"
  echo "{\"property\":\"$ID\",\"tier\":\"$TIER\",\"seed\":$SEED,\"level\":\"exploration\",\"coverage\":{\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":\"process aborted\",\"samples\":[\"abort\"]},\"assumptions\":[],\"wall_s\":0,\"violations\":[{\"rule\":\"process aborted\"}]}" > "$OUT/$ID.json"
  echo "VIOLATION property=$ID replay=$R"; exit 1
fi
if [ $RC -ne 0 ] && [ $RC -ne 1 ]; then echo "ERROR: monitor ended with status $RC"; exit 2; fi
exit $RC
