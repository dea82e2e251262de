"""Entry point: run.py <PROPERTY> [--replay FILE] [--oracle NAME] | --selftest"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness


def selftest():
    """ Everything can be imported, and comes from the repository """

    from lib import common
    from checks import INDEX
    common.assert_repo()
    for prop in INDEX:
        harness.load_property(prop)
        assert harness.ORACLES[prop]
    n = sum(map(len, harness.ORACLES.values()))
    print(f"selftest: {len(INDEX)} properties, {n} oracles, repository at {harness.REPO}")
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        sys.exit(selftest())
    sys.exit(harness.main(sys.argv[1:]))
