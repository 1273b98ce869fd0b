"""A small reader of the repository's Snakemake files: enough to run their rules one job at a time, in any order.

Supported: `workdir`, `include`, `rule` with input/output/params/run/shell/script, wildcards, named and positional files, `expand`, `touch`, input
functions. A job runs in the directory of the run; its outputs are removed if it is interrupted, as Snakemake does.
"""

import inspect
import itertools
import os
import pathlib
import re
import sys
import types

DIRECTIVES = {"input", "output", "params", "run", "shell", "script", "threads", "resources", "log", "message", "priority", "group", "conda", "benchmark", "wildcard_constraints"}


class Files(list):
    """Positional and named files, printed as Snakemake prints them."""

    def __init__(self, args=(), kwargs=None):
        super().__init__()
        self._names = {}
        for a in args:
            self.extend(flat(a))
        for k, v in (kwargs or {}).items():
            several = not isinstance(v, str)
            v = list(flat(v))
            self._names[k] = v if several else v[0]
            setattr(self, k, Files([v]) if several else v[0])
            self.extend(v)

    def __str__(self):
        return " ".join(map(str, self))


def flat(a):
    if isinstance(a, str):
        yield a
    elif a is not None:
        for x in a:
            yield from flat(x)


class Touch(str):
    pass


class Space(types.SimpleNamespace):
    def __getitem__(self, k):
        return getattr(self, k)


class Open(dict):
    """Wildcards left in place."""

    def __missing__(self, k):
        return "{" + k + "}"


def expand(patterns, _product=itertools.product, allow_missing=False, **wild):
    out = []
    wild = {k: ([v] if isinstance(v, (str, int, float)) else list(v)) for k, v in wild.items()}
    for p in flat(patterns):
        for combo in _product(*wild.values()):
            values = dict(zip(wild, combo))
            out.append(p.format_map(Open(values)) if allow_missing else p.format(**values))
    return out


def regex(pattern):
    seen, out = set(), ""
    for part in re.split(r"(\{[^}]*\})", pattern):
        if part.startswith("{"):
            name = part[1:-1].split(",")[0].strip()
            out += f"(?P={name})" if name in seen else f"(?P<{name}>.+)"
            seen.add(name)
        else:
            out += re.escape(part)
    return re.compile(out)


class Rule:
    def __init__(self, name, workflow):
        self.name, self.workflow, self.parts = name, workflow, {}

    def files(self, part):
        return self.parts.get(part, ((), {}))

    def outputs(self):
        args, kwargs = self.files("output")
        return [p for a in list(args) + list(kwargs.values()) for p in flat(a)]

    def match(self, path):
        for p in self.outputs():
            m = regex(p).fullmatch(path)
            if m:
                return m.groupdict()
        return None

    def job(self, wild):
        space = Space(**wild)

        def fill(v):
            if callable(v):
                return fill(v(space))
            if isinstance(v, Touch):
                return Touch(v.format(**wild))
            if isinstance(v, str):
                return v.format(**wild) if "{" in v else v
            return [fill(x) for x in v]

        def resolve(part):
            args, kwargs = self.files(part)
            return Files([fill(a) for a in args], {k: fill(v) for k, v in kwargs.items()})

        return Job(self, wild, resolve("input"), resolve("output"))


class Job:
    def __init__(self, rule, wild, inputs, outputs):
        self.rule, self.wild, self.input, self.output = rule, wild, inputs, outputs

    @property
    def id(self):
        return (self.rule.name,) + tuple(sorted(self.wild.items()))

    def run(self):
        """The body of the rule in the current directory."""
        for o in self.output:
            os.makedirs(os.path.dirname(o) or ".", exist_ok=True)
        body = self.rule.parts.get("run")
        if body is not None:
            args, kwargs = self.rule.files("params")
            params = Space(**{k: (v(Space(**self.wild)) if callable(v) else v) for k, v in kwargs.items()})
            body(self.input, self.output, params, Space(**self.wild), 1, Space(), Files())
        for o in self.output:
            if isinstance(o, Touch):
                pathlib.Path(o).touch()
            assert os.path.exists(o), f"{self.id}: no output {o}"


class Workflow:
    """`path` is read and its top level executed; `given` are names put there beforehand; `keep` selects top-level statements to leave out."""

    def __init__(self, path, given=None, edit=None):
        self.path = pathlib.Path(path)
        self.rules, self.workdir = {}, None
        self.edit = edit or (lambda text, path: text)
        self.env = {"expand": expand, "touch": Touch, "workflow": self, "__name__": "smk", "__builtins__": __builtins__}
        self.env.update(given or {})
        # dataclasses look their module up
        sys.modules.setdefault("smk", types.ModuleType("smk"))
        self.include(self.path)

    def include(self, path):
        path = pathlib.Path(path)
        source = translate(self.edit(path.read_text(), path))
        self.env["__include__"] = lambda rel: self.include(path.parent / rel)
        self.env["__workdir__"] = self.set_workdir
        self.env["__rule__"] = self.add
        exec(compile(source, str(path), "exec"), self.env)

    def set_workdir(self, d):
        self.workdir = d

    def add(self, name):
        assert name not in self.rules, f"rule {name} twice"
        self.rules[name] = Rule(name, self)
        return self.rules[name].parts

    def producers(self, path):
        return [(r, w) for r in self.rules.values() for w in [r.match(path)] if w is not None]

    def first(self):
        return next(iter(self.rules.values()))

    def dag(self, targets=None, external=()):
        """Every job needed for the first rule (or the given files) -> the jobs it waits for; `external` files come from elsewhere."""
        jobs = {}

        def need(path):
            if path in external:
                return None
            found = self.producers(path)
            if len(found) != 1:
                raise LookupError(f"{path}: produced by {[r.name for r, _ in found]}")
            return visit(found[0][0].job(found[0][1]))

        def visit(job):
            if job.id not in jobs:
                jobs[job.id] = (job, None)
                jobs[job.id] = (job, {need(p) for p in job.input} - {None})
            elif jobs[job.id][1] is None:
                raise LookupError(f"{job.id} waits for itself")
            return job.id

        if targets is None:
            visit(self.first().job({}))
        else:
            for t in targets:
                need(t)
        return jobs


def translate(text):
    """Snakemake to Python: a rule becomes a dictionary of its parts, a `run` block a function."""
    lines = text.split("\n")
    out, i = [], 0

    def block(i, indent):
        j = i
        while j < len(lines) and (not lines[j].strip() or len(lines[j]) - len(lines[j].lstrip()) > indent):
            j += 1
        return j

    while i < len(lines):
        line = lines[i]
        m = re.match(r"(include|workdir)\s*:\s*(.*)", line)
        if m:
            out.append(f"__{m.group(1)}__({m.group(2)})")
            i += 1
            continue
        m = re.match(r"rule\s+(\w+)\s*:\s*(#.*)?$", line)
        if not m:
            out.append(line)
            i += 1
            continue
        name = m.group(1)
        out.append(f"__parts = __rule__({name!r})")
        end = block(i + 1, 0)
        i += 1
        while i < end:
            m = re.match(r"(\s+)(\w+)\s*:\s*(.*)$", lines[i])
            if re.match(r'\s+"""', lines[i]):  # a description of the rule
                while lines[i].count('"""') < 2 and '"""' not in lines[i + 1]:
                    out.append("")
                    i += 1
                if lines[i].count('"""') < 2:
                    out.append("")
                    i += 1
                out.append("")
                i += 1
                continue
            if not lines[i].strip() or lines[i].strip().startswith("#"):
                out.append("")
                i += 1
                continue
            assert m and m.group(2) in DIRECTIVES, lines[i]
            stop = min(block(i + 1, len(m.group(1))), end)
            if m.group(2) == "run":
                out.append("def __run(input, output, params, wildcards, threads, resources, log):")
                out += lines[i + 1 : stop]
                out.append("__parts['run'] = __run")
            else:
                out.append(f"__parts[{m.group(2)!r}] = (lambda *a, **k: (a, k))({m.group(3)}")
                out += lines[i + 1 : stop]
                out.append(")")
            i = stop
    return "\n".join(out)


def snapshot(directory):
    """Every file below a directory -> its bytes."""
    base = pathlib.Path(directory)
    return {str(p.relative_to(base)): p.read_bytes() for p in sorted(base.rglob("*")) if p.is_file()}
