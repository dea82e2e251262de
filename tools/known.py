"""Writes known-findings.json: defects found in /repo, repaired or not."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
P07 9c142c0
P03 d7eb00d
P03 180eb93
P03 9031f2a
P03 3097ced
P05 331ffd9
P05 9632e79
P10 d544f35
P06 783082e
P08 2d6de16
P09 f0616bf
P09 9e08197
P09 8704002
R05 055811f
P05 96c872c
P04 1b0ff52
P10 a06937c
P10 cc15064
T02 aeaec77
T02 514512f
T01 6dddb1b
T03 74d4d58
T01 9ff7e54
T03 2bda2d9
T04 9f87f8a
T04 3e87c73
T04 9470b55
T05 1ade1f3
T03 c3c55bb
T01 c01f997
T03 caebfb6
T01 dc1ad3d
T01 8da4d24
T01 ab6f79b
R01 c10c3e9
R04 261b6bc
R02 05c4c20
R02 e3ea8b7
R05 994a124
R07 9911d19
R02 9e117e6
G06 b932db3
G06 0e5cb1d
G06 b9ed304
G05 7d3cc5a
G08 6556e47
G06 d10f3a7
G08 e744738
G02 3ef4dd2
G03 0c7cdf7
G03 6600107
G03 66a4474
G04 3b5da99
S01 139d91c
P02 0db2019
P08 71775a6
R06 f3e6a80
T05 81de24b
T03 1819ce7
R02 76e62b9
R03 c3c8ab6
P05 d14d598
R03 ac551b1
G01 607cac3
G04 46d47d5
G05 245f2c5
R05 b0278f1
S01 77500d2
G02 be2a9da
G08 1a09b17
G03 f188412
G04 37d541a
P08 d7f58e2
P11 58443b9
P13 dde2521
T05 1d1f7f4
R02 8aeb302
T05 b267987
P06 e7bca2a
G08 e3a9203
G04 4facb5f
G02 75a0415
"""
FINDINGS = []


def main():
    extra = os.path.join(HERE, "tools", "findings.json")
    findings = json.load(open(extra)) if os.path.exists(extra) else []
    fixed = []
    for line in FIXED.split("\n"):
        if line:
            prop, commit = line.split()
            what = subprocess.check_output(["git", "-C", "/repo", "log", "-1",
                                            "--format=%s", commit], text=True).strip()
            assert what.startswith("fix:")
            fixed.append(f"fixed: property={prop} {commit} {what[4:].strip()}")
    with open(os.path.join(HERE, "known-findings.json"), "w") as f:
        json.dump(dict(findings=findings, fixed=fixed), f, indent=1)
        f.write("\n")


main()
