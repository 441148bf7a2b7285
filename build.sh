# Sourced: functions that build the parts of the framework from /repo's working tree (offline).
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/scratch" "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
run_logged() { # NAME COMMAND...
    local n=$1; shift
    "$@" > "$VERIF_DIR/scratch/build-$n.log" 2>&1 || {
        tail -50 "$VERIF_DIR/scratch/build-$n.log"; echo "build of $n failed"; return 1; }
}
# The simulator with the library crates linked in.
build_sim() {
    run_logged sim env -C "$VERIF_DIR/sim" CARGO_TARGET_DIR="$VERIF_DIR/target/sim" cargo build --release --offline
}
# The shipped programs, unmodified, and the simulated kernel they are run over.
build_programs() {
    run_logged shim gcc -O2 -shared -fPIC -fno-delete-null-pointer-checks -o "$VERIF_DIR/target/simos.so.$$" "$VERIF_DIR/sysshim/simos.c" -ldl &&
        mv "$VERIF_DIR/target/simos.so.$$" "$VERIF_DIR/target/simos.so" || return 1
    run_logged command gcc -O2 -static -o "$VERIF_DIR/target/command.$$" "$VERIF_DIR/stubs/command.c" &&
        mv "$VERIF_DIR/target/command.$$" "$VERIF_DIR/target/command" || return 1
    local lock=
    if [ ! -e /repo/Cargo.lock ]; then # an ignored file of the repository; needed to build offline
        cp "$VERIF_DIR/sysdata/Cargo.lock" /repo/Cargo.lock; lock=1
    fi
    run_logged programs env -C /repo CARGO_TARGET_DIR="$VERIF_DIR/target/bins" cargo build --release --offline -p unic-cli -p unic-gen
    local rc=$?
    [ -z "$lock" ] || rm -f /repo/Cargo.lock
    return $rc
}
# The simulator with every edge, load and store of the library a point where the simulated scheduler may switch threads.
build_threads() {
    run_logged sched gcc -O2 -c -fPIC -o "$VERIF_DIR/target/sched.$$.o" "$VERIF_DIR/sim/mt/sched.c" &&
        { cmp -s "$VERIF_DIR/target/sched.$$.o" "$VERIF_DIR/target/sched.o" && rm -f "$VERIF_DIR/target/sched.$$.o" ||
            mv "$VERIF_DIR/target/sched.$$.o" "$VERIF_DIR/target/sched.o"; } || return 1
    local cov="-Cpasses=function(tsan),sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard"
    cov="$cov -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
    run_logged threads env -C "$VERIF_DIR/sim" CARGO_TARGET_DIR="$VERIF_DIR/target/threads" \
        RUSTFLAGS="$cov -Clink-arg=$VERIF_DIR/target/sched.o" \
        cargo build --profile mt --features threads --offline --target x86_64-unknown-linux-gnu &&
        cp "$VERIF_DIR/target/threads/x86_64-unknown-linux-gnu/mt/sim" "$VERIF_DIR/target/threads/sim"
}
