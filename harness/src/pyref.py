# Reference reader of package.py: CPython itself. argv: programs.json results.json
import json, sys, os, resource
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
STR = ["name","version","description","build_command","build_system","uuid","pre_build_commands","requires_rez_version","help","base","preprocess"]
LST = ["authors","requires","build_requires","private_build_requires","tools","plugin_for"]
BOOL = ["relocatable","cachable","hashed_variants","has_plugins"]
CMD = ["commands","pre_commands","post_commands","pre_test_commands"]
class Bad(Exception): pass
def text(v):
    if isinstance(v, (str, int, float, bool)) and v is not None:
        if isinstance(v, str) and len(v) > 1 << 20: raise Bad("too big")
        return str(v)
    raise Bad("not a text")
def lst(v):
    if isinstance(v, (list, tuple)): return [text(x) for x in v]
    raise Bad("not a list")
class V(str):
    def _c(self, i):
        p = self.split(".")
        if i >= len(p): raise AttributeError(i)
        return p[i]
    major = property(lambda s: s._c(0)); minor = property(lambda s: s._c(1)); patch = property(lambda s: s._c(2))
class Var:
    def __init__(s, log, n): s.__dict__.update(l=log, n=n)
    def prepend(s, v): s.l.append(["prepend", s.n, text(v)])
    def append(s, v): s.l.append(["append", s.n, text(v)])
    def set(s, v): s.l.append(["setenv", s.n, text(v)])
    def unset(s): s.l.append(["unsetenv", s.n])
class Env:
    def __init__(s, log): s.__dict__["l"] = log
    def __setattr__(s, k, v): s.l.append(["setenv", k, text(v)])
    def __setitem__(s, k, v): s.l.append(["setenv", text(k), text(v)])
    def __getattr__(s, k): return Var(s.l, k)
    def __getitem__(s, k): return Var(s.l, k)
    def setenv(s, k, v): s.l.append(["setenv", text(k), text(v)])
    def unsetenv(s, k): s.l.append(["unsetenv", text(k)])
    def prepend_path(s, k, v): s.l.append(["prepend", text(k), text(v)])
    def append_path(s, k, v): s.l.append(["append", text(k), text(v)])
    def setenv_if_empty(s, k, v): s.l.append(["setenv_if_empty", text(k), text(v)])
class NS: pass
def run(src):
    log = []
    g = {"__name__": "package"}
    system = NS(); system.platform = "linux"
    g["system"] = system
    exec(compile(src, "package.py", "exec"), g)
    out = {}
    for f in STR:
        if f in g: out[f] = text(g[f])
    for f in LST:
        if f in g: out[f] = lst(g[f])
    for f in BOOL:
        if f in g:
            if g[f] is not None and not isinstance(g[f], bool): raise Bad("not a flag")
            out[f] = g[f]
    if "variants" in g:
        if not isinstance(g["variants"], list): raise Bad("variants")
        out["variants"] = [lst(x) for x in g["variants"]]
    if "tests" in g:
        if not isinstance(g["tests"], dict): raise Bad("tests")
        for k, v in g["tests"].items():
            if not isinstance(k, str) or not isinstance(v, str): raise Bad("tests")
        out["tests"] = g["tests"]
    if "format_version" in g:
        if not isinstance(g["format_version"], int): raise Bad("format_version")
        out["format_version"] = g["format_version"]
    if "name" not in out: raise Bad("no name")
    for f in CMD:
        if f not in g: continue
        c = g[f]
        if callable(c):
            del log[:]
            this = NS(); this.name = out["name"]; this.version = V(out.get("version", ""))
            h = c.__globals__
            h["env"] = Env(log); h["this"] = this
            one = lambda op: (lambda *a: (_ for _ in ()).throw(Bad("args")) if len(a) != 1 else log.append([op, text(a[0])]))
            two = lambda op: (lambda *a: (_ for _ in ()).throw(Bad("args")) if len(a) != 2 else log.append([op] + [text(x) for x in a]))
            h["alias"] = two("alias"); h["setenv"] = two("setenv"); h["prependenv"] = two("prepend"); h["appendenv"] = two("append")
            for op in ["command","source","info","error","resetenv","unsetenv"]: h[op] = one(op)
            h["stop"] = lambda *a: log.append(["stop"] + [text(x) for x in a[:1]])
            c()
            out[f] = list(log)
        elif c is None: out[f] = None
        else: out[f] = {"text": text(c)}
    return out
progs = json.load(open(sys.argv[1]))
res = []
for p in progs:
    try: res.append({"ok": run(p)})
    except BaseException as e: res.append({"err": type(e).__name__ + ": " + str(e)[:200]})
json.dump(res, open(sys.argv[2], "w"))
