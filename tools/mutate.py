"""Development only: random small mutants of the anchored files, judged by one check.

usage: mutate.py PROP COUNT [SEED] [GLOB ...]   (paths relative to src/probnum; default: the property's anchor files)
Prints one line per mutant: KILLED / SURVIVED / INVALID and for survivors the diff.
"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/wrepo")
prop, count = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
globs = sys.argv[4:]
if not globs:
    for line in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(line)
        if d["id"] == prop:
            globs = [f[len("src/probnum/"):] for f in d["anchors"]["files"]]
files = []
for g in globs:
    for f in glob.glob(f"{SRC}/src/probnum/{g}"):
        files += [f] if f.endswith(".py") else glob.glob(f + "/**/*.py", recursive=True)
files = sorted(set(f for f in files if not f.endswith("__init__.py")))
rnd = random.Random(f"{prop}/{seed}")


def span(src_lines, node):
    off = [0]
    for l in src_lines:
        off.append(off[-1] + len(l.encode()))
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    b = src.encode()
    tree = ast.parse(src)
    out = []

    def put(node, new, op):
        s, e = span(lines, node)
        out.append((op, node.lineno, s, e, new))

    for fn in [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]:
        doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(getattr(fn.body[0], "value", None), ast.Constant) else None
        names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id not in ("np", "self", "super", "float", "int")} | {a.arg for a in fn.args.args if a.arg != "self"})
        for n in ast.walk(fn):
            seg = lambda x: b[slice(*span(lines, x))].decode()
            if n is doc or isinstance(n, (ast.Raise,)):
                continue
            if isinstance(n, ast.BinOp):
                sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
                if sw:
                    put(n, f"{seg(n.left)} {sw} {seg(n.right)}", "binop")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}.get(type(n.ops[0]))
                if sw:
                    put(n, f"{seg(n.left)} {sw} {seg(n.comparators[0])}", "compare")
            elif isinstance(n, ast.BoolOp):
                put(n, (" and " if isinstance(n.op, ast.Or) else " or ").join("(" + seg(v) + ")" for v in n.values), "boolop")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                put(n, seg(n.operand), "unary")
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                put(n, str(not n.value), "bool")
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                put(n, str(n.value + 1) if n.value != 1 else "0", "int")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, seg(n.func.value), "nocopy")
            elif isinstance(n, ast.Attribute) and n.attr == "T":
                put(n, seg(n.value), "noT")
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and isinstance(k.value, ast.Name) and len(names) > 1:
                        o = rnd.choice([x for x in names if x != k.value.id] or names)
                        put(k.value, o, "kwname")
                for a in n.args:
                    if isinstance(a, ast.Name) and len(names) > 1:
                        o = rnd.choice([x for x in names if x != a.id] or names)
                        put(a, o, "argname")
            if isinstance(n, (ast.Assign, ast.AugAssign)) :
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(tgt, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                    put(n, "pass", "delstmt")
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                put(n, "pass", "delcall")
            if isinstance(n, ast.If) and not n.orelse:
                put(n.test, "True" if rnd.random() < 0.5 else "False", "iftest")
    return src, b, out


pool = []
for f in files:
    src, b, ms = mutants(f)
    for m in ms:
        pool.append((f, m))
# balance over operators
byop = {}
for p in pool:
    byop.setdefault(p[1][0], []).append(p)
for v in byop.values():
    rnd.shuffle(v)
picked = []
while len(picked) < count and any(byop.values()):
    for op in sorted(byop):
        if byop[op]:
            picked.append(byop[op].pop())
picked = picked[:count]
work = tempfile.mkdtemp(prefix="mutate-")
try:
    shutil.copytree(f"{SRC}/src", f"{work}/r/src", ignore=shutil.ignore_patterns("__pycache__"))
    stat = {}
    for f, (op, line, s, e, new) in picked:
        rel = os.path.relpath(f, SRC)
        b = open(f, "rb").read()
        nb = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(nb)
        except SyntaxError:
            continue
        open(f"{work}/r/{rel}", "wb").write(nb)
        p = subprocess.run([sys.executable, "check.py", prop, "--no-evidence"] + (["--runs", os.environ["MUT_RUNS"]] if "MUT_RUNS" in os.environ else []), cwd=HERE, env=dict(os.environ, VERIF_REPO=f"{work}/r"), capture_output=True, text=True)
        st = {0: "SURVIVED", 1: "KILLED"}.get(p.returncode, "INVALID")
        stat[st] = stat.get(st, 0) + 1
        cls = ""
        if st == "KILLED":
            cls = next((l for l in p.stdout.splitlines() if "class" in l.lower() and "KNOWN" not in l), "")[:100]
        print(st, op, f"{os.path.relpath(f, SRC + '/src/probnum')}:{line}", repr(b[s:e].decode())[:90], "->", repr(new)[:90], cls, flush=True)
        shutil.copy(f, f"{work}/r/{rel}")
    print(prop, stat)
finally:
    shutil.rmtree(work)
