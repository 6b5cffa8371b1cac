"""The public operations, as data.

op = {"op": name, "d": number of the document, "src": "content"|"str"|"file"|"shared", ...}
A `Desk` holds the documents (bytes and files in the working directory) and shared objects; `Desk.do(op)` performs one
operation with the real code and returns its canonical outcome {"r": value} or {"e": error}, plus its warnings."""
import gc
import os
import subprocess

from sim import canon, docs, sched

VERSIONS = ["1.0", "1.1", "1.2"] + ["1.3.%d" % i for i in range(1, 12)]
KINDS = ["parse", "process", "process", "convert", "serialize", "save", "map", "validate", "validate", "log"]


class FakeDot:
    """stands in for graphviz: writes a small deterministic SVG that contains the text of the graph"""

    def __init__(self):
        self.fail = None
        self.calls = 0

    def run(self, args, **kw):
        self.calls += 1
        if self.fail is not None and self.calls == self.fail:
            raise subprocess.CalledProcessError(1, args)
        if "-V" in args:
            return subprocess.CompletedProcess(args, 0, b"", b"")
        src = kw["input"]
        esc = src.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        svg = f'<?xml version="1.0"?>\n<svg width="10pt" height="10pt" viewBox="0 0 10 10"><text>{esc}</text></svg>\n'
        with open(args[args.index("-o") + 1], "w", encoding="utf-8") as f:
            f.write(svg)
        return subprocess.CompletedProcess(args, 0, None, None)


def fake_dot():
    import rustworkx.visualization.graphviz as g
    d = FakeDot()
    g.HAS_PILLOW = True

    class Sub:
        run = staticmethod(d.run)
        CalledProcessError = subprocess.CalledProcessError
    g.subprocess = Sub
    return d


def log_text(path):
    """the document packed into a log file"""
    import base64
    import gzip
    import re
    with open(path, encoding="utf-8", errors="backslashreplace") as f:
        s = f.read()
    m = re.search(r'compressedDataBase64 = "([^"]*)"', s)
    return gzip.decompress(base64.b64decode(m.group(1))).decode() if m else "?" + s[:500]


def draw(rng, ndocs, kinds=KINDS, shared=True, files=("a", "b")):
    k = rng.pick(kinds)
    o = {"op": k, "d": rng.below(ndocs)}
    srcs = ["content", "content", "str", "file"]
    if k in ("process", "convert", "serialize", "save", "map", "log") and shared:
        srcs += ["shared", "shared", "shared"]
    o["src"] = rng.pick(srcs)
    if k in ("serialize", "save"):
        o["pretty"] = int(rng.p(0.5))
        o["decl"] = int(rng.p(0.7))
    if k == "save":
        o["to"] = rng.pick(files)
    if k == "log":
        o["to"] = rng.pick(files)
    if k == "validate":
        o["v"] = rng.pick(VERSIONS + [None, None, None])
        o["exc"] = int(rng.p(0.6))
    return o


class Desk:
    sweep = False                        # free what a call left behind, so that the next objects take its places

    def __init__(self, dlist, home):
        self.bytes = [docs.data(d) for d in dlist]
        self.enc = [d["enc"] for d in dlist]
        self.home = home
        self.parsed = {}
        self.processed = {}
        self.late = False                # read output files later, not as part of the operation
        os.chdir(home)
        for i, b in enumerate(self.bytes):
            with open("in%d.svd" % i, "wb") as f:
                f.write(b)

    # ------------------------------------------------------------ inputs
    def text(self, i):
        try:
            return self.bytes[i].decode(self.enc[i]).replace(f'encoding="{self.enc[i]}"', 'encoding="utf-8"')
        except UnicodeDecodeError:
            return self.bytes[i].decode("latin-1")

    def parse(self, op):
        from svdsuite import Parser
        i = op["d"]
        if op["src"] == "str":
            return Parser.from_xml_str(self.text(i)).get_parsed_device()
        if op["src"] == "file":
            return Parser.from_svd_file("in%d.svd" % i).get_parsed_device()
        return Parser.from_xml_content(self.bytes[i]).get_parsed_device()

    def share(self, ops):
        """create the shared parsed / processed devices these operations need; failures leave None"""
        from svdsuite import Process
        for op in ops:
            if op.get("src") != "shared":
                continue
            i = op["d"]
            if i not in self.parsed:
                try:
                    self.parsed[i] = self.parse({"d": i, "src": "content"})
                except Exception:  # noqa
                    self.parsed[i] = None
            if op["op"] in ("map", "convert") and i not in self.processed:
                try:
                    self.processed[i] = Process(self.parsed[i], None).get_processed_device()
                except Exception:  # noqa
                    self.processed[i] = None
        sched.take_warnings()

    def dev(self, op):
        return self.parsed[op["d"]] if op["src"] == "shared" else self.parse(op)

    # ------------------------------------------------------------ one operation
    @staticmethod
    def readback(op):
        """what the operation wrote"""
        if op["op"] == "log":
            return log_text("%s.log.html" % op["to"])
        with open("%s.svd" % op["to"], "rb") as f:
            return f.read().decode("utf-8", "backslashreplace")

    def call(self, op, keep=None):
        from svdsuite import Process, Serializer, PeripheralRegisterMap, Validator, SVDSchemaVersion
        k, i = op["op"], op["d"]
        keep = keep if keep is not None else []
        if k == "parse":
            d = self.parse(op)
            keep.append(d)
            return [canon.parsed(d), canon.parents_ok(d)]
        if k in ("process", "log"):
            to = op.get("to")
            log = None if k == "process" else "%s.log.html" % to
            if op["src"] == "content":
                p = Process.from_xml_content(self.bytes[i], log)
            elif op["src"] == "str":
                p = Process.from_xml_str(self.text(i), log)
            elif op["src"] == "file":
                p = Process.from_svd_file("in%d.svd" % i, log)
            else:
                p = Process(self.parsed[i], log)
            d = p.get_processed_device()
            keep.append(d)
            r = [canon.processed(d)]
            if log and not self.late:
                r.append(self.readback(op))
            return r
        if k == "convert":
            from svdsuite.util.process_parse_model_convert import process_parse_convert_device
            if op["src"] == "shared":
                d = process_parse_convert_device(self.processed[i])
            else:
                d = Process(self.parse(op), None).convert_processed_device_to_svd_device()
            keep.append(d)
            return [canon.parsed(d), canon.parents_ok(d)]
        if k == "serialize":
            d = self.dev(op)
            if op["src"] == "str":
                return Serializer.device_to_svd_str(d, bool(op["pretty"]))
            return Serializer.device_to_svd_content(d, bool(op["pretty"]), bool(op["decl"])).decode("utf-8")
        if k == "save":
            Serializer.device_to_svd_file("%s.svd" % op["to"], self.dev(op), bool(op["pretty"]), bool(op["decl"]))
            return None if self.late else self.readback(op)
        if k == "map":
            if op["src"] == "shared":
                m = PeripheralRegisterMap(self.processed[i])
            elif op["src"] == "str":
                m = PeripheralRegisterMap.from_xml_str(self.text(i))
            elif op["src"] == "file":
                m = PeripheralRegisterMap.from_svd_file("in%d.svd" % i)
            else:
                m = PeripheralRegisterMap.from_xml_content(self.bytes[i])
            keep.append(m)
            return canon.regmap(m)
        if k == "validate":
            kw = {"get_exception": bool(op["exc"])}
            if op["v"] is not None:
                kw["schema_version"] = SVDSchemaVersion(op["v"])
            if op["src"] == "str":
                return Validator.validate_xml_str(self.text(i), **kw)
            if op["src"] == "file":
                return Validator.validate_xml_file("in%d.svd" % i, **kw)
            return Validator.validate_xml_content(self.bytes[i], **kw)
        raise AssertionError(k)

    def do(self, op, sink=None, keep=None):
        """-> {"r"|"e", "w"}; `sink` is the list the warnings of this caller go to"""
        s = sched.CURRENT
        sink = sink if sink is not None else (s.warn_sink() if s is not None else sched._PLAIN)
        n = len(sink)
        try:
            out = {"r": self.call(op, keep)}
        except (sched.StepBudget, sched.Abort):
            raise
        except BaseException as e:  # noqa: interruptions are outcomes, too
            out = {"e": canon.exc(e)}
        out["w"] = sink[n:]
        if self.sweep:
            gc.collect()
        return out

    def sweeping(self):
        gc.collect()
        gc.freeze()
        self.sweep = True
        return self


def solo(desk, ops, budget=20_000_000):
    """the operations one after another, nothing else -> outcomes, steps"""
    s = sched.Sched(budget=budget)
    r = s.run([lambda: [desk.do(o) for o in ops]])[0]
    if r[0] != "ok":
        return [{"e": ["!" + type(r[1]).__name__, str(r[1])[:200], []], "w": []}], s.step
    return r[1], s.step


def brief(op):
    return " ".join(str(op[k]) for k in ("op", "d", "src") if k in op) + "".join(
        f" {k}={op[k]}" for k in sorted(op) if k not in ("op", "d", "src"))


def compare(want, got):
    """-> list of differences between two outcomes of one operation"""
    if ("e" in want) != ("e" in got):
        return [f"expected {'error ' + str(want['e']) if 'e' in want else 'a result'}, got "
                f"{'error ' + str(got['e']) if 'e' in got else 'a result'}"]
    out = canon.diff(want.get("r"), got.get("r"), "result") if "r" in want else canon.diff(want["e"], got["e"], "error")
    return out + canon.diff(want["w"], got["w"], "warnings")
