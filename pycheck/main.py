"""main.py <property> | main.py replay <file>"""
import json
import os
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = Path(os.environ.get("UVH_VERIF", HERE.parent))
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE))
scratch = VERIF / "build" / "hypothesis"
scratch.mkdir(parents=True, exist_ok=True)
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = str(scratch)


def load_extension():
    sys.path.insert(0, str(VERIF / "build" / "pyext"))
    import unicode_intervals

    if not unicode_intervals.__file__.startswith(str(VERIF / "build" / "pyext")):
        raise RuntimeError(f"wrong module: {unicode_intervals.__file__}")
    return unicode_intervals


def main(argv):
    import engine

    replay = None
    if argv[0] == "replay":
        replay = json.loads(Path(argv[1]).read_text())
        ident = replay["property"]
    else:
        ident = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    scale = float(os.environ.get("UVH_SCALE") or (20 if tier == "thorough" else 1))
    seed = int(os.environ.get("VERIF_SEED") or 1)
    session = engine.Session(ident, seed, scale, tier, replay)
    started = time.monotonic()
    if ident == "C21":
        import generator as module
    elif ident in ("C18",):
        import charmaps as module
    elif ident == "C22":
        import stubs as module
    elif ident == "C24":
        import leaks as module
    elif ident == "C19":
        import history as module
    else:
        import calls as module
    run = getattr(module, ident.lower())
    info = run(session, load_extension() if ident != "C21" else None)
    if replay is not None:
        if session.replay_result is None:
            print(f"no such test: {replay['test']}", file=sys.stderr)
            return 2
        message = session.replay_result[0]
        print(message or "held")
        if message:
            print(f"VIOLATION property={ident} replay={argv[1]}")
        return 1 if message else 0
    return session.finish(info["rule"], info.get("exhaustive", False), info["assumptions"], time.monotonic() - started)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
