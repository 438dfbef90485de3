"""What each property's check runs."""
import json, os, shutil, subprocess, sys, time
import vlib

BYTES = '{34, 92, 32, 44, 58, 91, 93, 123, 125, 48, 45, 46, 101, 116, 114, 117, 110, 108, 102, 97, 115, 120, 7}'


def json_table(R, n=None):
    """Model checks JsonText and exports its control table."""
    out = R.path("table.json")
    n = n or (4 if R.quick else 6)
    R.tlc("MCJsonText", "SPECIFICATION Spec\nCONSTANTS\n  N = %d\n  Alphabet = %s\nINVARIANT Inv\nPOSTCONDITION Export\nCHECK_DEADLOCK FALSE\n" % (n, BYTES),
          env=dict(OUT=out), timeout=600)
    return out


def parse_props(rec, msg):
    kind = msg.split(":")[0]
    want = {"ok": "C01", "err": "C02", "eof": "C03"}
    if kind == "kind":
        spec = msg.split("spec ")[1].strip()
        ps = [want.get(spec)]
        if "eof" in (spec, rec["kind"]):
            ps.append("C03")
        if rec["kind"] in ("err", "panic"):
            ps.append("C02")
        return ps
    if kind in ("type", "position"):
        return [want.get(rec["kind"]), "C25"]
    if kind in ("tail", "tree"):
        return ["C01"]
    return ["C04"]


def run_parse(R):
    table = json_table(R)
    q = R.quick
    r = R.harness("parse", infile=table, budget=15 if q else 300, n=3000 if q else 60000)
    if r:
        st = r["stats"]
        R.judge("JsonTextTrace", os.path.join(r["out"], "parse.ndjson"), parse_props)
        R.traces += sum(v for k, v in st.items() if k.startswith("texts."))
    R.cover["rule"] = "texts: all live prefixes up to a depth x 256 last bytes, all states below a stack of up to 3 containers x 256 bytes, seeded grammar texts, their cuts and mutations; each compared with the control table TLC exported"


PARSE_ASSUME = ["nesting depth within the Go stack limit", "control table exported by TLC from JsonText.tla is interpreted by a 60-line Go mirror of Step, cross-checked by TLC on a sample of the same runs"]

# ---------------------------------------------------------------- documents (C05-C09)
DOM_TRACE = "SPECIFICATION Spec\nINVARIANTS Judged ForestInv\nPOSTCONDITION AllJudged\nCHECK_DEADLOCK FALSE\n"


def dom_props(rec, msg):
    w = msg.split()
    e = rec["ev"][int(w[1]) - 1]
    op, tag = e["op"], e.get("tag", "")
    ps = {"get": ["C05"], "index": ["C05"], "iter": ["C05"], "lookup": ["C05"], "kids": ["C05"], "root": ["C05"], "copyref": ["C05"],
          "conv": ["C05", "C25"], "new": ["C14"], "parse": ["C01"], "parsebad": ["C02"], "reset": ["C08"],
          "set": ["C06", "C07"], "append": ["C06", "C07"], "replace": ["C06", "C07"], "write": ["C06", "C14"]}.get(op, ["C06"])
    ps = list(ps)
    if "conversions" in msg:
        ps += ["C11", "C12", "C13"]
    if "reused" in tag:
        ps.append("C09")
    if "stale" in tag or "stale" in w[3:7]:
        ps.append("C08")
    return ps


def dom_mc(R):
    q = R.quick
    tests = R.path("dom-tests.ndjson")
    n = 0
    for sc, depth in [("link", 4 if q else 5), ("link0", 4 if q else 5), ("edit", 2 if q else 3), ("read", 1), ("stale", 3)]:
        cfg = 'CONSTANTS\n Scenario = "%s"\n Depth = %d\n Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANT Inv\nPROPERTIES StaleInert Frame Inserted\nCHECK_DEADLOCK FALSE\n' % (sc, depth)
        n += R.tests(R.tlc("MCDom", cfg, name="MCDom-" + sc, workers=4), tests)
    R.harness("dom-tests", infile=tests)
    R.traces += n


def dom_judge(R, trace, area="DomTrace", props=None):
    for t in R.chunks(trace):
        R.mismatches(R.tlc("DomTrace", DOM_TRACE, env=dict(TRACE=t), timeout=1500), t, props or dom_props, area)
    R.traces += sum(1 for _ in open(trace, "rb"))


def run_dom(R):
    q = R.quick
    dom_mc(R)
    r = R.harness("dom", n=1600 if q else 30000)
    if r and r["stats"]["histories"]:
        dom_judge(R, os.path.join(r["out"], "dom.ndjson"))
    R.cover["rule"] = "every call sequence of five scenarios up to a depth (TLC, replayed on the real code), and seeded histories of up to 48 calls on 1-2 documents with 3-6 references, every reference observed after every call, judged by TLC"


def rerun_dom(R, case):
    f = R.path("case.json")
    json.dump(case, open(f, "w"))
    r = R.harness("dom-rerun", infile=f)
    t = os.path.join(r["out"], "dom.ndjson") if r else ""
    if t and os.path.exists(t):
        dom_judge(R, t)


PROPS = {}
for _p in ("C05", "C06", "C07", "C08", "C09"):
    PROPS[_p] = dict(run=run_dom, level="model_checking",
                     assumptions=["texts inside the histories come from a fixed universe of keys, strings and numbers", "one Append call does not insert two values of which one holds the other or the target"],
                     technique="TLA+ state machine of documents, nodes and references (TLC): exhaustive call sequences replayed on the real code, recorded histories checked by TLC",
                     note="Dom.tla gives the effect of every API call; TLC checks forest, frame and staleness properties on it, emits every call sequence up to a depth as a test, and judges recorded random histories in which every live and stale reference is observed after every call. Bounded depth and a fixed universe of texts.")
for _p in ("C01", "C02", "C03", "C04"):
    PROPS[_p] = dict(run=run_parse, level="model_checking", assumptions=PARSE_ASSUME,
                     technique="TLA+ pushdown automaton (TLC): exported control table as oracle for the parser, logged parses judged by TLC",
                     note="Every (control state, byte) pair is exercised below stacks of up to three containers, all short texts over byte classes, and millions of seeded longer texts, cuts and mutations; each outcome is compared with the specification. Trusts TLC, the Go mirror of Step (cross-checked by TLC) and the bounds stated in the evidence.")


# ---------------------------------------------------------------- strings (C10, C11)
def strs_props(rec, msg):
    return ["C10", "C14"] if rec["op"] == "esc" else ["C11"]


def run_strs(R):
    q = R.quick
    tests = R.path("esc-tests.ndjson")
    n = R.tests(R.tlc("MCEscape", "CONSTANTS\n N = %d\n Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Inv Test\nCHECK_DEADLOCK FALSE\n" % (3 if q else 4)), tests)
    R.harness("strs-tests", infile=tests)
    R.traces += n
    r = R.harness("strs", budget=10 if q else 240)
    if r and r["stats"]["logged"]:
        R.judge("EscapeTrace", os.path.join(r["out"], "strs.ndjson"), strs_props)
    R.cover["rule"] = "all texts of up to N pieces (TLC, replayed), all one- and two-byte texts, all \\uXXXX units alone and in pairs with 8 neighbours, all code points, short texts over byte classes, seeded longer texts; both HTML modes, all forms, varied buffers"


def rerun_strs(R, case):
    if "s" not in case:
        return
    f = R.path("case.json")
    json.dump(case, open(f, "w"))
    R.harness("strs-rerun", infile=f)


for _p in ("C10", "C11"):
    PROPS[_p] = dict(run=run_strs, level="model_checking",
                     assumptions=["a \\u followed by four bytes that are not all hex digits is only required to be handled alike by all forms"],
                     technique="TLA+ definition of escaped text (TLC): generated texts replayed on the real code, logged calls judged by TLC, a Go transliteration cross-checked by TLC for volume",
                     note="Escape.tla defines what an escaped body is and denotes; escaping is judged by that relation, not by one fixed spelling. Exhaustive over short texts, all code units and code points, sampled beyond.")


# ---------------------------------------------------------------- numbers (C12, C13) and scalars (C14)
def nums_props(rec, msg):
    return {"float": ["C13"], "format": ["C13", "C14"]}.get(rec["op"], ["C12"])


def run_nums(R):
    q = R.quick
    tests = R.path("num-tests.ndjson")
    n = R.tests(R.tlc("MCNumber", "CONSTANTS\n N = %d\n Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Inv Test\nCHECK_DEADLOCK FALSE\n" % (4 if q else 5), timeout=600), tests)
    R.harness("nums-tests", infile=tests)
    R.traces += n
    r = R.harness("nums", budget=10 if q else 240)
    if r and r["stats"]["logged"]:
        R.judge("NumberTrace", os.path.join(r["out"], "nums.ndjson"), nums_props)
    R.cover["rule"] = "all texts of up to N pieces (TLC, replayed), all short texts over a 10 letter alphabet, every byte at every place of a number, all decimal and binary exponents with neighbours, seeded spellings, midpoints and near-midpoints between floats, random bit patterns"


def rerun_nums(R, case):
    f = R.path("case.json")
    json.dump(case, open(f, "w"))
    R.harness("nums-rerun", infile=f)


for _p in ("C12", "C13"):
    PROPS[_p] = dict(run=run_nums, level="model_checking", assumptions=["format inputs are finite floats"],
                     technique="TLA+ definition of number text, exact integers and correct rounding (TLC, bignum arithmetic): generated texts replayed on the real code, logged conversions judged by TLC",
                     note="Number.tla decides rounding exactly on arbitrary precision naturals; a math/big transliteration covers volume and is cross-checked by TLC on a sample of the same run and on every generated text. Exhaustive over short texts, sampled over 64-bit patterns.")


def run_scalars(R):
    q = R.quick
    run_nums(R)
    rule = R.cover["rule"]
    tests = R.path("esc-tests.ndjson")
    n = R.tests(R.tlc("MCEscape", "CONSTANTS\n N = 3\n Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Inv Test\nCHECK_DEADLOCK FALSE\n"), tests)
    R.harness("strs-tests", infile=tests)
    R.traces += n
    R.harness("strs", budget=8 if q else 60)
    run_dom(R)
    R.cover["rule"] = "values written to and read back from nodes of every kind, with an independent decoder; " + rule


PROPS["C14"] = dict(run=run_scalars, level="model_checking", assumptions=["floats are finite, strings valid or sanitized"],
                    technique="TLA+ (Dom, Escape, Number; TLC): write operations in generated and recorded histories, written texts judged by the text specifications, independent decoder on the serialized document",
                    note="Write calls are transitions of Dom.tla (including on containers with children); the text each write leaves is judged by Escape.tla and Number.tla. Values are exhaustive over short strings and all exponents, sampled beyond.")


# ---------------------------------------------------------------- kinds and errors (C25)
def run_kinds(R):
    tests = R.path("kind-tests.ndjson")
    R.traces += R.tests(R.tlc("MCKinds", "SPECIFICATION Spec\nINVARIANTS Inv Test\nCHECK_DEADLOCK FALSE\n"), tests)
    R.harness("kinds", infile=tests)
    run_parse(R)
    rule = R.cover["rule"]
    run_dom(R)
    R.cover["rule"] = "every mask, every (actual kind, wanted mask) pair and every (kind, read) pair on references made in every way (TLC, replayed); the text of every error of " + rule + "; reads in histories of " + R.cover["rule"]


def rerun_kinds(R, case):
    f = R.path("case.json")
    open(f, "w").write(json.dumps(case) + "\n")
    R.harness("kinds-rerun", infile=f)


PROPS["C25"] = dict(run=run_kinds, level="model_checking", assumptions=PARSE_ASSUME + ["masks consist of the six kinds"],
                    technique="TLA+ (Kinds, JsonText, Dom; TLC): exhaustive masks, kinds and reads replayed on the real code; parse errors compared with the automaton's position, kind and expected bytes",
                    note="Kinds.tla enumerates every mask, error and read; JsonText.tla gives for every rejected text the position, the kind and the set of bytes that would have gone on, which the error must name. Error wording beyond these facts is free.")


# ---------------------------------------------------------------- reflective codec (C15-C18)
def codec_props(rec, msg):
    return [{"enc": "C15", "dec": "C16", "round": "C17"}[rec["op"]]] + (["C18"] if rec["cust"] else [])


CODEC_OPS = {"C15": ["enc"], "C16": ["dec"], "C17": ["round"], "C18": ["enc", "dec", "round"]}


def run_codec(R):
    q = R.quick
    e = R.harness("codec-export")
    lib = os.path.join(e["out"], "lib.json")
    tests = R.path("codec-tests.ndjson")
    ops = "{%s}" % ", ".join('"%s"' % o for o in CODEC_OPS[R.prop])
    n = 0
    for sc, deep in [("custom", 1), ("shape", 2 if q and R.prop != "C18" else 1 if q else 3)] + ([("field", 1)] if R.prop != "C18" else []):
        cfg = 'CONSTANTS\n Scenario = "%s"\n Deep = %d\n Ops = %s\n Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS RoundTrip FieldOrder DecodeNull Again Untouched Test\nCHECK_DEADLOCK FALSE\n' % (sc, deep, ops)
        n += R.tests(R.tlc("MCCodec", cfg, name="MCCodec-" + sc, env=dict(LIB=lib), timeout=1500), tests)
    R.traces += n
    for area, kw in [("codec-tests", dict(infile=tests)), ("codec", dict(n=40000 if q else 600000, budget=60 if q else 1200))]:
        r = R.harness(area, **kw)
        if r:
            log = os.path.join(r["out"], "codec.ndjson")
            if os.path.getsize(log):
                R.judge("CodecTrace", log, codec_props, area="codec", timeout=1500)
            os.remove(log)
    R.cover["rule"] = "all cases of small universes of types, values, JSON texts and options (TLC, replayed through every entry point), and seeded random types (structs, embeddings, tags, recursion, own methods) with random values and texts, judged by TLC"


def rerun_codec(R, case):
    f = R.path("case.json")
    open(f, "w").write(json.dumps({k: case[k] for k in ("op", "t", "v", "old", "text", "o", "cust") if k in case}) + "\n")
    r = R.harness("codec-rerun", infile=f)
    log = os.path.join(r["out"], "codec.ndjson") if r else ""
    if log and os.path.exists(log) and os.path.getsize(log):
        R.judge("CodecTrace", log, codec_props, area="codec")


CODEC_NOTE = {
    "C15": "What is written for a value follows from its type, tags and options by Enc of Codec.tla; map order, escapes and float spelling are free.",
    "C16": "What a text decodes to over an old value follows from the type by Dec of Codec.tla, stale spare capacity and shared codecs included.",
    "C17": "TLC proves on the small universes that decoding an encoding keeps everything that was not left out, and judges round trips of the real code by Kept.",
    "C18": "156 types instrumented with every combination of encoding, decoding and omit methods, by value and by pointer, in every context.",
}
for _p in ("C15", "C16", "C17", "C18"):
    PROPS[_p] = dict(run=run_codec, level="model_checking",
                     assumptions=["types without two fields of one name at the same depth, without exported names of embedded unexported pointers, without tags that name nothing on embedded structs", "custom methods behave like those of the instrumented types"],
                     technique="TLA+ denotational specification of encoding and decoding by type (TLC): small universes enumerated and replayed on the real code, random types and values judged by TLC",
                     note=CODEC_NOTE[_p] + " Exhaustive over the small universes, sampled over random types.")


# ---------------------------------------------------------------- line streams (C19)
def line_props(rec, msg):
    return ["C19"]


def run_lines(R):
    q = R.quick
    tests = R.path("line-tests.ndjson")
    cfg = "CONSTANTS\n N = %d\n Cap = 2\n Symbols = {10, 55, 120, 32}\n Emit = TRUE\nSPECIFICATION Spec\nINVARIANTS Inv Test\nCHECK_DEADLOCK FALSE\n" % (3 if q else 4)
    R.traces += R.tests(R.tlc("MCNdjson", cfg, timeout=1500), tests)
    for area, kw in [("lines-tests", dict(infile=tests)), ("lines", dict(n=16000 if q else 300000, budget=60 if q else 900))]:
        r = R.harness(area, **kw)
        if r:
            log = os.path.join(r["out"], "lines.ndjson")
            if os.path.getsize(log):
                R.judge("NdjsonTrace", log, line_props, area="lines", timeout=1500)
            os.remove(log)
    R.cover["rule"] = "all event sequences of up to N bytes and reads or failures (TLC, replayed with several fragmentations and buffer sizes), seeded streams of long and short lines, custom and failing types, failing readers and writers, judged by TLC"


def rerun_lines(R, case):
    f = R.path("case.json")
    open(f, "w").write(json.dumps({k: case[k] for k in ("op", "t", "o", "cust", "ev", "buf", "typed", "reuse", "pieces", "calls") if k in case}) + "\n")
    r = R.harness("lines-rerun", infile=f)
    log = os.path.join(r["out"], "lines.ndjson") if r else ""
    if log and os.path.exists(log) and os.path.getsize(log):
        R.judge("NdjsonTrace", log, line_props, area="lines")


PROPS["C19"] = dict(run=run_lines, level="model_checking",
                    assumptions=["a blank line is an error for that line", "the bytes a reader delivered before a failure are the start of the next line"],
                    technique="TLA+ machine of a buffered line reader (TLC): all short event sequences replayed on the real code; recorded streams and writes judged by TLC with the codec specification",
                    note="Ndjson.tla gives the results of Decode for every sequence of bytes, failures and ends of a reader; TLC proves that a machine of single reads delivers exactly these. Exhaustive over short streams, sampled beyond.")


# ---------------------------------------------------------------- concurrency (C20, C21, C22)
def only(prop):
    return lambda rec, msg: [prop]


def conc(R, area, module, tests=None, n=0, budget=0, mode="sched", log=None):
    """Runs an area and has TLC judge its log."""
    r = R.harness(area, mode=mode, infile=tests, n=n, budget=budget, crash="final")
    if not r:
        return
    f = os.path.join(r["out"], log)
    if os.path.getsize(f):
        if module == "DomTrace":
            dom_judge(R, f, area, only(R.prop))
        else:
            R.judge(module, f, only(R.prop), area=area, timeout=1500)
    os.remove(f)
    if mode == "sched" and not r["stats"].get("steps"):
        R.log("no lock or pool of the code under test is under control")


def mc(R, module, consts, props="", spec="Spec", invs="", name=None):
    return R.tlc(module, "CONSTANTS\n %s\nSPECIFICATION %s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % ("\n ".join(consts), spec, invs, props and "PROPERTIES %s\n" % props), name=name, timeout=2400)


def run_registry(R):
    q = R.quick
    tests = R.path("reg-tests.ndjson")
    base = ['Type = {"a", "b", "x"}', 'Bad = {"x"}']
    inv = "Inv Published Test"
    mc(R, "MCRegistry", ["Proc = {1, 2%s}" % ("" if q else ", 3"), "Long = 2", "Emit = FALSE"] + base, props="Stable Answered", spec="FairSpec", invs="Inv Published", name="MCRegistry-live")
    n = R.tests(mc(R, "MCRegistry", ["Proc = {1, 2}", "Long = %d" % (2 if q else 3), "Emit = TRUE"] + base, invs=inv), tests)
    n += R.tests(mc(R, "MCRegistry", ["Proc = {1, 2, 3}", "Long = 1", "Emit = TRUE"] + base, invs=inv, name="MCRegistry-3"), tests)
    R.traces += n
    conc(R, "registry", "RegistryTrace", tests, log="registry.ndjson")
    conc(R, "registry-free", "RegistryTrace", n=20000 if q else 400000, budget=60 if q else 900, mode="race", log="registry.ndjson")
    R.cover["rule"] = "every interleaving of the lock operations of two callers with up to two requests and three with one (TLC; run on the real registry with its locks under control of a scheduler), and rounds of 8 unsynchronised goroutines asking new registries for random types and using the codecs, under the race detector"


def run_pool(R):
    q = R.quick
    tests = R.path("pool-tests.ndjson")
    inv = "PoolInv Live"
    mc(R, "MCPool", ["Proc = {1, 2}", 'Name = {"a", "b"}', "Steps = %d" % (4 if q else 5), "Emit = FALSE"], invs=inv, name="MCPool-deep")
    n = R.tests(mc(R, "MCPool", ["Proc = {1, 2}", 'Name = {"a"}', "Steps = 4", "Emit = TRUE"], invs=inv + " Test"), tests)
    if not q:
        n += R.tests(mc(R, "MCPool", ["Proc = {1, 2, 3}", 'Name = {"a"}', "Steps = 3", "Emit = TRUE"], invs=inv + " Test", name="MCPool-3"), tests)
    R.traces += n
    conc(R, "pool", "PoolTrace", tests, log="pool.ndjson")
    conc(R, "pool-dom", "DomTrace", n=500 if q else 8000, log="dom.ndjson")
    conc(R, "pool-free", "DomTrace", n=100 if q else 2000, mode="race", log="dom.ndjson")
    R.cover["rule"] = "every interleaving of two holders that get, fill, change and return documents, whatever the pool hands out (TLC; run on the real pools under control of a scheduler), histories of Dom.tla side by side on common pools with random schedules and pool choices, and the same unsynchronised under the race detector"


def run_readers(R):
    q = R.quick
    tests = R.path("frame-tests.ndjson")
    inv = "BufInv Live"
    if not q:
        mc(R, "MCBuffers", ["Proc = {1, 2}", "Calls = 3", 'Kinds = {"x"}', 'Ends = {""}', "Emit = FALSE"], invs=inv, name="MCBuffers-deep")
    n = R.tests(mc(R, "MCBuffers", ["Proc = {1, 2}", "Calls = 2", 'Kinds = {"x"}', 'Ends = {""}', "Emit = TRUE"], invs=inv + " Test"), tests)
    n += R.tests(mc(R, "MCBuffers", ["Proc = {1}", "Calls = %d" % (2 if q else 3), 'Kinds = {"print", "json", "text", "append", "decode", "encode", "line", "unmarshal"}' if q else 'Kinds = {"print", "json", "text", "append"}', 'Ends = {"", "err", "panic"}', "Emit = TRUE"], invs=inv + " Test", name="MCBuffers-kinds"), tests)
    R.traces += n
    conc(R, "frames", "BuffersTrace", tests, log="frames.ndjson")
    conc(R, "frames-free", "BuffersTrace", n=1500 if q else 30000, budget=40 if q else 600, mode="race", log="frames.ndjson")
    conc(R, "readers-free", "DomTrace", n=160 if q else 3000, mode="race", log="dom.ndjson")
    R.cover["rule"] = "every interleaving of two processes with two nested or successive calls, and all pairs (triples) of kinds and outcomes nested in every way, whatever buffers the pool hands out (TLC; run on the real code under control of a scheduler, returned buffers overwritten), random call trees of 8 goroutines and histories of 6 readers of common documents under the race detector"


CONC = {
    "C20": (run_registry, "RWMutex registry", "Registry.tla: TLC proves agreement, lock safety and termination for all interleavings; the real registry runs every one of them. Larger numbers of callers are sampled under the race detector."),
    "C21": (run_pool, "document pool", "Pool.tla: one holder at a time and blank arrival for all interleavings of small programs; the real pools run them, with stale references looked at throughout. Longer histories are sampled and judged by Dom.tla."),
    "C22": (run_readers, "buffer pool with nested callbacks, and of concurrent readers (Dom)", "Buffers.tla: the bytes of an open call are its own in all interleavings; the real code runs them with an adversarial pool that overwrites what is returned. Concurrent readers are judged by Dom.tla per reader."),
}
for _p in CONC:
    PROPS[_p] = dict(run=CONC[_p][0], level="model_checking",
                     assumptions=["goroutines are scheduled at the operations of package sync and at calls; interleavings inside these are left to the race detector"] + (["a reference to a document somebody else holds is not used at the same time without synchronisation"] if _p == "C21" else []),
                     technique="TLA+ model of the %s (TLC): all interleavings enumerated and replayed on the real code through an instrumented package sync, recorded runs judged by TLC" % CONC[_p][1],
                     note=CONC[_p][2])


# ---------------------------------------------------------------- the test kit (C24)
def kit(R, tests=None, n=0):
    """Runs cases of the test kit as subtests; returns the log of the random ones, or of those that went wrong."""
    exe = R.build("kit")
    jobs = []
    lines = open(tests).readlines() if tests else None
    k = 8
    for w in range(k):
        f, o = "", R.path("kit-%s-%d.out" % ("tests" if tests else "random", w))
        if tests:
            f = R.path("kit-tests-%d" % w)
            open(f, "w").writelines(lines[w::k])
        e = dict(R.env, VH_IN=f, VH_OUT=o, VH_N=str(n // k), VH_SEED=str(R.seed * 1000 + w))
        err = open(o + ".err", "w")
        jobs.append((o, subprocess.Popen([exe, "-test.run=TestKit", "-test.v", "-test.timeout=0"], cwd=R.dir, env=e, stdout=subprocess.DEVNULL, stderr=err)))
    out = R.path("kit-%s.ndjson" % ("tests" if tests else "random"))
    end = time.time() + (400 if R.quick else 3000)
    with open(out, "wb") as g:
        for o, p in jobs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                R.violation("the process running the test cases does not come to an end", dict(area="kit", seed=R.seed))
                continue
            err = open(o + ".err").read()
            if rc not in (0, 1) or "panic:" in err or not os.path.exists(o):
                R.violation("the process running the test cases ended with %d: %s" % (rc, err[:3000]), dict(area="kit", seed=R.seed))
            elif os.path.exists(o):
                g.write(open(o, "rb").read())
    R.log("test kit: %s" % ("%d generated cases" % len(lines) if tests else "%d random cases" % n))
    return out


def run_kit(R):
    q = R.quick
    tests = R.path("kit-tests.ndjson")
    n = R.tests(mc(R, "MCTestKit", ["Free = 2", "Emit = TRUE"], invs="Plain Silent LastWins Test"), tests)
    R.traces += n
    out = kit(R, tests)
    for k, l in enumerate(open(out)):
        if k < 3:
            rec = json.loads(l)
            R.violation("the case should have turned out the other way: " + json.dumps(rec["got"]) + " " + rec.get("msg", ""), dict(area="kit", case=rec["case"]))
    if R.violations:
        return
    out = kit(R, n=60000 if q else 1500000)
    R.judge("TestKitTrace", out, only("C24"), area="kit", timeout=1500)
    R.cover["rule"] = "every value, method shape, behaviour and up to two options of MCTestKit.tla (TLC, run as subtests), and random cases of up to four options, run twice each, judged by TLC"


def rerun_kit(R, case):
    f = R.path("case.ndjson")
    open(f, "w").write(json.dumps(dict(case=case.get("case", case))) + "\n")
    out = kit(R, f)
    R.judge("TestKitTrace", out, only("C24"), area="kit")


PROPS["C24"] = dict(run=run_kit, level="model_checking",
                    assumptions=["the method under test does not panic itself", "Value is an option of Unmarshal cases", "errors are compared with comparable ones, not wrapped", "the input has nothing behind its first value"],
                    technique="TLA+ definition of the verdict of a test case (TLC): all combinations of values, method shapes, behaviours and up to two options enumerated and run as real subtests, random cases judged by TLC",
                    note="TestKit.tla decides pass or fail from the case alone; the harness runs each case with instrumented types and compares what the subtest did. Exhaustive over the listed forms, sampled over longer option lists.")


# ---------------------------------------------------------------- generated code (C23)
def run_gencode(R):
    q = R.quick
    tests = R.path("gencode-tests.ndjson")
    for sc in ("shape", "field"):
        R.traces += R.tests(mc(R, "MCGenerated", ['Scenario = "%s"' % sc, "Deep = %d" % (1 if q else 2), "Emit = TRUE"], invs="Inv Test", name="MCGenerated-" + sc), tests)
    for area, kw in [("gencode-tests", dict(infile=tests)), ("gencode", dict(n=1500 if q else 20000))]:
        r = R.harness(area, crash=False, timeout=700 if q else 3000, **kw)
        R.judge("GeneratedTrace", os.path.join(r["out"], "gencode.ndjson"), only("C23"), area=area, timeout=1500)
    R.cover["rule"] = "struct types of one field of every shape and of two fields over tags, embedding, hiding and omission, under every option (TLC), and random packages of nested types, tags and options; each through the real generator four times (to a file and to the output, in and outside the directory), compiled, and run on generated and random values and texts, judged by TLC"


def rerun_gencode(R, case):
    f = R.path("case.ndjson")
    open(f, "w").write(json.dumps(case.get("case", case)) + "\n")
    r = R.harness("gencode-rerun", infile=f, crash=False, timeout=300)
    R.judge("GeneratedTrace", os.path.join(r["out"], "gencode.ndjson"), only("C23"), area="gencode")


PROPS["C23"] = dict(run=run_gencode, level="model_checking",
                    assumptions=["a type refers to itself only from the root", "no alias, generic or array types, and no two packages of one name", "embedded types have no methods of their own", "of two fields of one name at one depth either may count", "times in UTC, durations as a whole number of one unit", "slices of composite elements start empty when they are decoded into"],
                    technique="TLA+ definition of the generated methods (TLC): enumerated struct types, options, values and texts, and random ones, put through the real generator and the Go compiler; the code's results judged by TLC",
                    note="Generated.tla defines which fields a type has under the options, the text AppendJSON gives and the value UnmarshalNodeJSON leaves. Exhaustive over the listed small types, sampled beyond.")


def replay(prop, path):
    """Repeats a recorded case on the current tree."""
    d = json.load(open(path))
    R = vlib.Run(prop, d.get("tier", "quick"), d.get("seed", 1))
    try:
        print(json.dumps(d, indent=1)[:3000])
        if d["area"] in RERUN and "case" in d:
            RERUN[d["area"]](R, d["case"])
            for msg, case in R.violations:
                print("STILL FAILS:", msg[:2000])
            return 1 if R.violations else 0
        print("re-running the whole check with the recorded seed")
        PROPS[prop]["run"](R)
        return vlib.verdict(R, PROPS[prop]["level"], PROPS[prop]["assumptions"])
    finally:
        R.close()


def rerun_parse(R, case):
    table = json_table(R, 2)
    o = R.path("out-parse-rerun")
    os.makedirs(o)
    shutil.copy(table, o)
    f = R.path("case.json")
    json.dump(case, open(f, "w"))
    R.harness("parse-rerun", infile=f, out=o)


RERUN = {"gencode": rerun_gencode, "gencode-tests": rerun_gencode, "GeneratedTrace": rerun_gencode, "kit": rerun_kit, "lines": rerun_lines, "lines-tests": rerun_lines, "NdjsonTrace": rerun_lines, "codec": rerun_codec, "codec-tests": rerun_codec, "CodecTrace": rerun_codec, "kinds": rerun_kinds, "nums": rerun_nums, "nums-tests": rerun_nums, "NumberTrace": rerun_nums, "strs": rerun_strs, "strs-tests": rerun_strs, "EscapeTrace": rerun_strs, "dom": rerun_dom, "dom-tests": rerun_dom, "DomTrace": rerun_dom, "parse": rerun_parse, "JsonTextTrace": rerun_parse}
