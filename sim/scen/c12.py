"""C12: SuiteSparse retrieval is all-or-nothing under network faults.

Real code: probnum's retrieval, requests (sessions, redirects, content decoding), urllib3's response body reader
(length enforcement, chunked decoding, gzip decoding), tarfile/gzip/scipy.io.  Stub: the transport adapter and the server.
"""
import glob
import gzip
import io
import os
import tarfile
import tempfile

import numpy as np
import requests
import scipy.io
import scipy.sparse
import urllib3

from probnum import linops
from probnum.problems.zoo.linalg import suitesparse_matrix

from .. import ref
from ..core import Violation

GROUPS = ["HB", "Oberwolfach", "Pothen"]
NAMES = ["ash85", "bcsstk01", "mesh1", "LFAT5", "ash8"]
KINDS = ["least squares problem", "structural problem", "2D/3D problem", '"quoted, kind"', "model reduction problem"]


class Server:
    """A simulated mirror with a seeded catalogue."""

    def __init__(self, ctx):
        rs = ctx.rs("catalogue")
        self.rows = []
        self.mats = {}
        n = ctx.integer(1, 6, "nmat")
        pairs = [(g, m) for m in NAMES for g in GROUPS]
        rs.shuffle(pairs)
        for g, name in pairs[:n]:
            field = ["real", "integer", "pattern", "symmetric", "dense"][rs.randint(5)]
            r, c = int(rs.randint(1, 6)), int(rs.randint(1, 6))
            if field == "symmetric":
                c = r
            A = (rs.uniform(size=(r, c)) < 0.6) * rs.randint(1, 9, (r, c)).astype(float)
            if field == "real":
                A = A * 0.5
            elif field == "pattern":
                A = (A != 0).astype(float)
            elif field == "complex":
                A = A * (1 + 0.5j)
            elif field == "symmetric":
                A = A + A.T
            buf = io.BytesIO()
            if field == "dense":
                scipy.io.mmwrite(buf, A)
            else:
                scipy.io.mmwrite(buf, scipy.sparse.coo_matrix(A), field=field if field in ("integer", "pattern", "complex") else "real",
                                 symmetry="symmetric" if field == "symmetric" else "general")
            row = dict(group=g, name=name, nrows=r, ncols=c, nnz=int(np.count_nonzero(A)), real=1, logical=0,
                       is2d3d=int(rs.randint(2)), isspd=int(rs.randint(2)), psym=round(float(rs.uniform()), 4),
                       nsym=round(float(rs.uniform()), 4), kind=KINDS[rs.randint(len(KINDS))])
            self.rows.append(row)
            self.mats[g, name] = (A, buf.getvalue())
        self.extra = ctx.choice(["none", "after", "before", "dir"], "archive", [4, 1, 1, 1])
        self.level = ctx.choice([6, 0, 9], "gzip-level")

    def index(self):
        out = [str(len(self.rows)), "31-Oct-2023 18:12:37"]
        for r in self.rows:
            out.append(",".join(str(v) for v in r.values()))
        return ("\n".join(out) + "\n").encode()

    def archive(self, g, name):
        A, mtx = self.mats[g, name]
        raw = io.BytesIO()
        with tarfile.open(fileobj=raw, mode="w") as tar:
            def add(path, data):
                ti = tarfile.TarInfo(path)
                ti.size = len(data)
                tar.addfile(ti, io.BytesIO(data))
            if self.extra == "dir":
                ti = tarfile.TarInfo(name)
                ti.type = tarfile.DIRTYPE
                tar.addfile(ti)
            if self.extra == "before":
                b = io.BytesIO()
                scipy.io.mmwrite(b, np.full((2, 1), 7.0))
                add(f"{name}/{name}_b.mtx", b.getvalue())
            add(f"{name}/{name}.mtx", mtx)
            if self.extra == "after":
                add(f"{name}/{name}_coord.mtx", mtx[: len(mtx) // 2])
        out = io.BytesIO()
        with gzip.GzipFile(fileobj=out, mode="wb", compresslevel=self.level, mtime=0) as fh:
            fh.write(raw.getvalue())
        return out.getvalue()


class Body(io.RawIOBase):
    """The bytes of one response; may stall or reset after ``cut`` bytes, delivers short reads."""

    def __init__(self, data, cut=None, exc=None, short=None):
        self.data, self.pos, self.cut, self.exc, self.short = data, 0, cut, exc, short

    def readable(self):
        return True

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def read(self, n=-1):
        end = len(self.data) if self.cut is None else min(self.cut, len(self.data))
        if self.pos >= end and self.cut is not None and self.exc is not None:
            raise self.exc
        if n is None or n < 0:
            n = end - self.pos
        if self.short:
            n = min(n, self.short)
        d = self.data[self.pos:min(end, self.pos + n)]
        self.pos += len(d)
        return d


FAULTS = ["none", "refused", "timeout-connect", "status", "status-html", "soft-html", "empty", "truncated-framed", "reset-midway",
          "timeout-midway", "corrupt", "wrong-archive-type", "redirect-loop", "dns", "two-copies", "truncated-eof"]
BENIGN = ["plain", "no-length", "short-reads", "content-encoding-gzip", "redirect"]


class Adapter(requests.adapters.HTTPAdapter):
    def __init__(self, ctx, server, plan, log):
        super().__init__()
        self.ctx, self.server, self.plan, self.log = ctx, server, plan, log

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        ctx = self.ctx
        url = request.url
        path = url.split("sparse.tamu.edu", 1)[-1].split("?")[0]
        kind = "index" if path.endswith("ssstats.csv") else "matrix"
        fault, benign = self.plan.get(kind, ("none", "plain"))
        self.log.append((kind, path))
        ctx.sched(f"{kind}:{fault}:{benign}")
        ctx.steps += 1
        if len(self.log) > 60:
            raise Violation("liveness", "more than 60 requests for one retrieval")
        if fault == "refused":
            raise requests.exceptions.ConnectionError("refused (simulated)")
        if fault == "dns":
            raise requests.exceptions.ConnectionError("name resolution failed (simulated)")
        if fault == "timeout-connect":
            raise requests.exceptions.ConnectTimeout("simulated")
        if fault == "redirect-loop":
            return self.respond(request, 302, {"Location": url}, b"", stream)
        if benign == "redirect" and "/moved" not in path:
            return self.respond(request, 302, {"Location": url.replace("sparse.tamu.edu/", "sparse.tamu.edu/moved/")}, b"", stream)
        path = path.replace("/moved", "")
        html = b"<html><head><title>Service unavailable</title></head><body>\n" + b"HB,ash85 try again\n" * 5 + b"</body></html>\n"
        status = 200
        if kind == "index":
            data = self.server.index()
        else:
            parts = path.strip("/").split("/")
            ok = len(parts) == 3 and parts[0] == "MM" and parts[2].endswith(".tar.gz") and (parts[1], parts[2][:-7]) in self.server.mats
            if not ok:
                return self.respond(request, 404, {}, html, stream)
            data = self.server.archive(parts[1], parts[2][:-7])
        if fault == "status":
            return self.respond(request, ctx.choice([404, 500, 503, 429, 403], "status"), {}, b"", stream)
        if fault == "status-html":
            return self.respond(request, ctx.choice([404, 500, 503], "status"), {"Content-Type": "text/html"}, html, stream)
        if fault == "soft-html":
            return self.respond(request, 200, {"Content-Type": "text/html"}, html, stream)
        if fault == "empty":
            return self.respond(request, 200, {"Content-Length": "0"}, b"", stream)
        if fault == "wrong-archive-type":
            data = gzip.compress(b"%%MatrixMarket matrix coordinate real general\n1 1 1\n1 1 5.0\n", mtime=0) if kind == "matrix" else html
        if fault == "two-copies" and kind == "matrix":
            data = data + data
        if fault == "truncated-eof":  # connection closed early, no length announced (index: between two rows)
            ends = [i + 1 for i, ch in enumerate(data) if ch == 10] if kind == "index" else range(len(data))
            data = data[:ctx.choice(ends, "eof")]
            benign = "no-length"
        headers = {"Content-Length": str(len(data)), "Content-Type": "application/octet-stream"}
        cut = exc = None
        if fault == "corrupt":
            # one bit of the payload flips (matrix) / one byte lost (index rows become garbage)
            if kind == "matrix":
                k = ctx.integer(10, len(data) - 1, "byte")
                data = data[:k] + bytes([data[k] ^ (1 << ctx.integer(0, 7, "bit"))]) + data[k + 1:]
            else:
                data = data.replace(b",", b";")
        if fault in ("truncated-framed", "reset-midway", "timeout-midway"):
            cut = ctx.integer(0, max(0, len(data) - 1), "cut")
            if fault == "reset-midway":
                exc = ConnectionResetError("simulated")
            elif fault == "timeout-midway":
                exc = TimeoutError("simulated")
        if benign == "no-length" and fault not in ("truncated-framed",):
            headers.pop("Content-Length")
        short = ctx.choice([1, 7, 100], "short") if benign == "short-reads" else None
        if benign == "content-encoding-gzip" and cut is None:
            data = gzip.compress(data, mtime=0)
            headers["Content-Encoding"] = "gzip"
            headers["Content-Length"] = str(len(data))
        return self.respond(request, status, headers, data, stream, cut, exc, short)

    def respond(self, request, status, headers, data, stream, cut=None, exc=None, short=None):
        raw = urllib3.HTTPResponse(body=Body(data, cut, exc, short), headers=headers, status=status, preload_content=False,
                                   decode_content=False, request_method=request.method, reason="simulated")
        resp = self.build_response(request, raw)
        if not stream:
            resp.content
        return resp

    def close(self):
        pass


_SCRATCH = None


def _scratch():
    """Temporary directory of this process (other workers share the system's one)."""
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.TemporaryDirectory(prefix="verif-c12-")
        tempfile.tempdir = _SCRATCH.name
        os.environ["TMPDIR"] = _SCRATCH.name
        os.chdir(_SCRATCH.name)
    return _SCRATCH.name


def _tmp_files():
    return set(glob.glob(os.path.join(_scratch(), "**"), recursive=True))


def retrieve(ctx):
    """A history of retrievals against a server whose behaviour changes from call to call."""
    server = Server(ctx)
    log = []
    plan = {}
    adapter = Adapter(ctx, server, plan, log)
    saved = requests.Session.get_adapter
    requests.Session.get_adapter = lambda self, url: adapter
    ctx.cleanups.append(lambda: setattr(requests.Session, "get_adapter", saved))
    stderr = os.environ.get("TQDM_DISABLE")
    before = _tmp_files()
    for call in range(ctx.integer(1, 3, "ncalls")):
        plan.clear()
        faults = []
        for kind in ("index", "matrix"):
            f = ctx.choice(FAULTS, "fault-" + kind, [14] + [1] * (len(FAULTS) - 1))
            b = ctx.choice(BENIGN, "benign-" + kind)
            if f == "corrupt" and kind == "index" and b == "content-encoding-gzip":
                b = "plain"
            plan[kind] = (f, b)
            if f != "none":
                ctx.fault(f"{kind}:{f}")
                faults.append((kind, f))
            ctx.fault(f"framing:{b}")
        missing = ctx.flag(0.15, "missing")
        row = ctx.choice(server.rows, "row")
        g, name = (row["group"], row["name"]) if not missing else (row["group"], row["name"] + ctx.choice(["x", " ", ""], "suffix"))
        if missing and (g, name) in server.mats:
            g = "Nobody"
        ctx.event("retrieve", call=call, want=f"{g}/{name}", index=plan["index"], matrix=plan["matrix"])
        must_fail = missing or any(f not in ("two-copies",) for _, f in faults)
        may_ok = not missing and all((k, f) in (("matrix", "corrupt"), ("index", "truncated-eof")) for k, f in faults if f != "two-copies")
        del log[:]
        devnull = open(os.devnull, "w")
        import sys
        old = sys.stderr
        sys.stderr = devnull
        try:
            M = suitesparse_matrix(name=name, group=g)
        except Violation:
            raise
        except Exception as exc:  # noqa: BLE001
            ctx.probe("raised")
            ctx.check(must_fail, "refused-valid", lambda: f"{g}/{name}: a complete valid response ({plan}) was rejected with {type(exc).__name__}: {exc}")
            continue
        finally:
            sys.stderr = old
            devnull.close()
        ctx.probe("returned")
        ctx.check(not must_fail or may_ok, "accepted-invalid", lambda: f"{g}/{name}: returned although the exchange failed: {plan}")
        A, _ = server.mats[g, name]
        want = next(r for r in server.rows if (r["group"], r["name"]) == (g, name))
        ctx.check(isinstance(M, linops.LinearOperator) and M.shape == A.shape, "wrong-object", lambda: f"{g}/{name}: shape {M.shape}, stored {A.shape} ({plan})")
        ctx.check(np.array_equal(np.asarray(M.todense()), A), "wrong-object", lambda: f"{g}/{name}: wrong entries ({plan})")
        kind = want["kind"].strip('"')
        meta = dict(group=g, name=name, nnz=want["nnz"], is2d3d=bool(want["is2d3d"]), isspd=bool(want["isspd"]), psym=want["psym"], nsym=want["nsym"], kind=kind,
                    matid=str(server.rows.index(want) + 1))
        for k, v in meta.items():
            ctx.check(getattr(M, k) == v, "wrong-metadata", lambda: f"{g}/{name}.{k} = {getattr(M, k)!r}, index says {v!r}")
        x = ctx.rs("x").uniform(-1, 1, A.shape[1])
        ref.close(np.abs(M @ x - A @ x), np.zeros(A.shape[0]), "wrong-object", "matrix-vector product", 1e-10, 1e-10)
    left = _tmp_files() - before
    ctx.check(not left, "temp-files", f"temporary files left behind: {sorted(left)[:3]}")


SCENARIOS = {"retrieve": (retrieve, 1)}


def nontrivial(ctx):
    return any(not k.startswith("framing:plain") for k in ctx.faults)
