"""Offline self-check of the framework: toolchain present, specifications parse, reference traces accepted."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402


def main() -> int:
    ctx = check.Ctx("setup")
    try:
        if not check.sanity(ctx):
            print("the reference traces are not accepted", file=sys.stderr)
            return 1
        print("setup: reference traces accepted")
        return 0
    finally:
        check.shutil.rmtree(ctx.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
