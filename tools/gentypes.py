#!/usr/bin/env python3
"""Writes harness/codec_types.go: the named types the reflective codec is exercised with."""
import os
ENC = ["", "av", "ap", "jv", "jp", "tv", "tp", "avjv", "apjp", "jvtv", "jptp"]
DEC = ["", "n", "j", "t", "nj", "jt"]
OMIT = ["ov", "op", "zv", "xb"]
KIND = {"a": "append", "j": "json", "t": "text", "n": "node"}
out = ["// Code generated by tools/gentypes.py; DO NOT EDIT.", "", "package main", "", 'import "github.com/alxarch/njson"', ""]
reg = []


def pairs(s):
    return [s[i:i + 2] for i in range(0, len(s), 2)]


def typ(base, enc, dec, omit):
    name = "%s_%s_%s_%s" % (base, enc, dec, omit)
    out.append("type %s %s" % (name, "string" if base == "S" else "struct{ S string }"))
    get = "string(x)" if base == "S" else "x.S"
    pget = "string(*x)" if base == "S" else "x.S"
    put = "*x = %s(s)" % name if base == "S" else "x.S = s"
    for e in pairs(enc):
        recv = "x " + name if e[1] == "v" else "x *" + name
        g = get if e[1] == "v" else pget
        if e[0] == "a":
            out.append("func (%s) AppendJSON(out []byte) ([]byte, error) { return mAppend(out, %s) }" % (recv, g))
        if e[0] == "j":
            out.append("func (%s) MarshalJSON() ([]byte, error) { return mJSON(%s) }" % (recv, g))
        if e[0] == "t":
            out.append("func (%s) MarshalText() ([]byte, error) { return mText(%s) }" % (recv, g))
    for d in dec:
        m, a, f = {"n": ("UnmarshalNodeJSON", "b njson.Node", "uNode"), "j": ("UnmarshalJSON", "b []byte", "uJSON"), "t": ("UnmarshalText", "b []byte", "uText")}[d]
        out.append("func (x *%s) %s(%s) error {\n\ts, err := %s(b)\n\tif err == nil {\n\t\t%s\n\t}\n\treturn err\n}" % (name, m, a, f, put))
    om = ""
    if omit:
        recv = "x *" + name if omit == "op" else "x " + name
        g = pget if omit == "op" else get
        if omit[0] == "o":
            out.append('func (%s) Omit() bool { return %s == "0" }' % (recv, g))
            om = "Omit:0"
        if omit[0] == "z":
            out.append('func (%s) IsZero() bool { return %s == "1" }' % (recv, g))
            om = "IsZero:1"
        if omit[0] == "x":
            out.append("func (%s) Omit() int { return 1 }" % recv)
    out.append("")
    zero = '%s("")' % name if base == "S" else name + "{}"
    reg.append('\tregLib("%s", %s, "%s", %s, "%s", "%s")' % (
        name, zero, ",".join(KIND[e[0]] for e in pairs(enc)), "true" if "p" in [e[1] for e in pairs(enc)] else "false",
        ",".join(KIND[d] for d in dec), om))


for b in "SR":
    for e in ENC:
        for d in DEC:
            if e or d:
                typ(b, e, d, "")
    for e, d in [("", ""), ("jv", "j"), ("tp", "t"), ("av", "n")]:
        for o in OMIT:
            typ(b, e, d, o)
out += ["func init() {"] + reg + ["}", ""]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "codec_types.go")
open(p, "w").write("\n".join(out))
import subprocess
subprocess.run(["gofmt", "-w", p])
