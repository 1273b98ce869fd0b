"""Lists planted bugs that touch lines added by the fix commits (they would not count)."""
import pathlib, re, subprocess, sys
first = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
fixes = set(subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^fix:"], capture_output=True, text=True).stdout.split())
cache = {}
def blame(path):
    if path not in cache:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", path], capture_output=True, text=True).stdout.splitlines()
        cache[path] = [l.split()[0].lstrip("^") for l in out]
    return cache[path]
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    path = line = None
    bad, minus, plus = [], 0, 0
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif line is not None and not l.startswith("+++"):
            if l.startswith("-"):
                minus += 1
                b = blame(path)[line - 1]
                if any(f.startswith(b) or b.startswith(f[:len(b)]) for f in fixes):
                    bad.append(line)
            plus += l.startswith("+")
            if not l.startswith("+"):
                line += 1
        if l.startswith("diff "):
            line = None
    if bad:
        print(d.name, "removes lines of a fix:", bad, "of", minus)
