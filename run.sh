#!/bin/bash
# run.sh <property>         runs its check (VERIF_SEED, VERIF_TIER)
# run.sh replay <file>      runs one saved case
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else: the check itself failed.
. "$(dirname "$0")/env.sh"
cd "$VERIF" || exit 2
id="$1"
[ "$id" = replay ] && id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
case "$id" in
    C0[1-9] | C1[0-4] | C23 | C25)
        build_harness || { echo "the harness does not build" >&2; exit 2; }
        build_fuzz || echo "no coverage-guided stage: the fuzzing program does not build" >&2
        if [ "$id" = C06 ]; then
            build_sched || echo "no search over schedules: the scheduling program does not build" >&2
        fi
        exec "$BUILD/harness/release/uvh" "$@"
        ;;
    C20)
        build_internals || { echo "the harness does not build" >&2; exit 2; }
        build_fuzz || echo "no coverage-guided stage: the fuzzing program does not build" >&2
        exec "$BUILD/internals/release/uvh-internals" "$@"
        ;;
    C1[5-9] | C22 | C24)
        build_pyext || { echo "the extension module does not build" >&2; exit 2; }
        exec python "$VERIF/pycheck/main.py" "$@"
        ;;
    C21)
        exec python "$VERIF/pycheck/main.py" "$@"
        ;;
    *)
        echo "unknown property: $id" >&2
        exit 2
        ;;
esac
