"""Entry point: python -m mc <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]."""

import pathlib
import sys

from mc import core


def module_for(prop):
    here = pathlib.Path(__file__).parent / "checks"
    hits = sorted(here.glob(f"{prop.lower()}_*.py"))
    if len(hits) != 1:
        raise SystemExit(f"no unique check module for {prop}: {hits}")
    return f"mc.checks.{hits[0].stem}"


if __name__ == "__main__":
    sys.exit(core.main(module_for(sys.argv[1]), sys.argv[2:]))
