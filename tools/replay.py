#!/usr/bin/env python3
"""Runs the operations of a replay file on the real code again and prints the specification's verdict."""
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="pd_replay_")
    os.makedirs(os.path.join(scratch, "mpl"))
    try:
        for op in r["operations"]:
            print(json.dumps(op, ensure_ascii=False))
        found, events, _, _, _ = check.run_shard([(0, r["operations"])], scratch, "replay", (r["hashseed"],))
        for f in found:
            if f["op"] >= 0:
                print("operation %d: failed %s known %s" % (f["op"], f["bad"], f["known"]))
        print("%d events" % events)
        sys.exit(1 if any(f["bad"] for f in found) else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
