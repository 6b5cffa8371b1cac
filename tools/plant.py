#!/usr/bin/env python3
"""plant.py FILE...: write /verif/seeded/<id> from a spec: a Python file defining ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)] and
DEMO (text; `dev`, `periph`, `reg` build small descriptions).  The patch is made in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile

PRE = '''import os, sys, warnings
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
warnings.simplefilter("ignore")
import svdsuite
from svdsuite import *
from svdsuite.model import *


def dev(body, extra=""):
    return f"""<?xml version="1.0" encoding="utf-8"?>
<device schemaVersion="1.3" xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd">
<name>D</name><version>1.0</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width>
{extra}<peripherals>{body}</peripherals></device>"""


def periph(name, base, regs="", extra="", attr="", blocks="<addressBlock><offset>0</offset><size>0x100</size><usage>registers</usage></addressBlock>"):
    inner = f"<registers>{regs}</registers>" if regs else ""
    return f"<peripheral{attr}><name>{name}</name>{extra}<baseAddress>{base:#x}</baseAddress>{blocks}{inner}</peripheral>"


def reg(name, offset, fields="", extra="", attr=""):
    inner = f"<fields>{fields}</fields>" if fields else ""
    return f"<register{attr}><name>{name}</name>{extra}<addressOffset>{offset:#x}</addressOffset>{inner}</register>"


def process(text, log=None):
    return Process.from_xml_str(text, log)


def device(text):
    return process(text).get_processed_device()


def fail(message):
    print("FAIL:", message)
    sys.exit(1)


'''
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    out = f"/verif/seeded/{s['ID']}"
    w = tempfile.mkdtemp(prefix="plant.")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        for name, old, new in s["EDITS"]:
            p = f"{w}/repo/src/svdsuite/{name}"
            t = open(p).read()
            assert t.count(old) == 1, (spec, name, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=w + "/repo", capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.py", "w").write(PRE + s["DEMO"].strip() + "\n")
    open(out + "/demo.sh", "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    print("planted", s["ID"])
