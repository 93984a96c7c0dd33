"""What each check runs, and what it rests on."""
import os

TYPES = ["setup", "lease", "keepalive", "request_response", "request_fnf", "request_stream",
         "request_channel", "request_n", "cancel", "payload", "error", "metadata_push", "resume",
         "resume_ok"]

# ---- trusted base -----------------------------------------------------------
KANI = "Kani 0.68.0 (rustc MIR to GOTO), CBMC 6.11.0, CaDiCaL"
BYTES = ("contract model of bytes 1.0.1 (models/bytes: Bytes, BytesMut), compared with the real crate "
         "by the native runs")
BUF = "contract of bytes::Buf (harness/src/lazy.rs)"
UTF8 = "contracts of core::str::from_utf8 and str::is_ascii (harness/src/stubs.rs)"
MILLIS = "Duration::from_millis as an injective function (the real one in C07)"
SAFE = "memory safety of binate by the absence of `unsafe` (scanned on every run)"
NOLEAK = "termination is not proved"


def m(mod, names):
    return ["%s::%s" % (mod, n) for n in names]


VERUS = "Verus 0.2026.09.13, Z3"
CUT = ("the rewrites of checks/extract.py and the contracts of std, bytes and binate's callees in contracts/*.rs "
       "(external_body)")
T_CUT = ("contract-based deductive verification: Verus on the functions as cut out of the source on every run; "
         "beside it contracts on the compiled functions (Kani/CBMC), bounded, which report violations")
T_KANI = "contract-based deductive verification of the compiled functions (Kani/CBMC, loop-free, no bounds)"
N_CODEC = ("every obligation of the harnesses of every frame type is discharged for all inputs of all lengths; "
           "assumes the contracts of bytes, std::str and the verifier itself")
NOT_APPLICABLE = {
    "C21": "liveness of detached async tasks against wall-clock time (tokio timers, atomics of timestamps): no installed deductive verifier for Rust has contracts for time or tasks",
}

HEADER = ["header::stream_id", "header::flags"]
DECODE = m("c05", TYPES + ["extension", "unassigned"])

SETUPS = ["setup_%d" % k for k in range(12)]
CASES = SETUPS + [t for t in TYPES if t != "setup"]
DECODED = ["setup_plain", "setup_meta", "setup_token", "setup_token_meta"] + TYPES[1:]
BIG = "one allocation is shorter than 2^46 bytes"
VALID = ("frames are built within the documented limits: resume tokens up to 65,535 bytes and metadata "
         "up to 16,777,215 bytes where the constructor does not check")

PROPS = {}


def prop(name, level="proof", technique=T_KANI, note=N_CODEC, trusted=(KANI, BYTES, SAFE), assumptions=(),
         **more):
    PROPS[name] = dict(level=level, technique=technique, note=note, trusted=list(trusted),
                       assumptions=list(assumptions) + [NOLEAK], **more)


prop("C01",
     kani=[dict(features="c01", harnesses=["c01::decode"], timeout=700)],
     native=[dict(feature="c01")],
     trusted=[KANI, BYTES, BUF, UTF8, SAFE],
     assumptions=[BIG, "from_utf8, is_ascii: any result, no panic", "Debug output of frames is not covered"])

C02_ALL = m("c02", CASES) + m("c02::dec", DECODED)
prop("C02",
     kani=[dict(features="header,c02", cfgs=["header"], harnesses=C02_ALL + DECODE + HEADER,
                lemmas=HEADER + DECODE, timeout=700,
                fallback=dict(features="c02,c02full", harnesses=C02_ALL, timeout=700, jobs=4))],
     native=[dict(feature="c02")],
     trusted=[KANI, BYTES, BUF, UTF8, MILLIS, SAFE],
     assumptions=[BIG, VALID])

C03_DEC = m("c03::dec", TYPES)
C03_REST = m("c03", CASES) + m("c03::parts", ["version", "u24", "payload"])
prop("C03",
     kani=[dict(features="header,c03", cfgs=["header"], harnesses=C03_REST + C03_DEC + HEADER,
                lemmas=HEADER, timeout=700,
                fallback=dict(features="c03", harnesses=C03_DEC, timeout=700))],
     native=[dict(feature="c03")],
     trusted=[KANI, BYTES, BUF, UTF8, SAFE],
     assumptions=[BIG, VALID])

prop("C04",
     kani=[dict(features="c04", harnesses=m("c04", CASES), timeout=700)],
     native=[dict(feature="c04")],
     trusted=[KANI, BYTES, UTF8, SAFE],
     assumptions=[BIG, VALID])

for _p, _f in (("C05", "c05"), ("C06", "c06")):
    prop(_p,
         kani=[dict(features="header," + _f, cfgs=["header"], harnesses=DECODE + HEADER, lemmas=HEADER,
                    fallback=dict(features=_f, harnesses=DECODE, timeout=600))],
         native=[dict(feature=_f)],
         trusted=[KANI, BYTES, BUF, UTF8, MILLIS, SAFE],
         assumptions=[
             BIG,
             "MIME types in SETUP frames: what the accessor reports for bytes that are not ASCII is C07's and C01's",
         ])

REJECTS = m("c07::rejects", ["metadata_mimetype", "data_mimetype", "resume_token"])
prop("C07",
     kani=[dict(features="c07",
                harnesses=m("c07", CASES) + m("c07::setter", [
                    "resume_flag", "lease_flag", "version", "keepalive_interval", "keepalive_timeout",
                    "resume_token", "metadata_mimetype", "data_mimetype", "metadata", "data"])
                + ["c07::defaults::setup", "c07::times::setup", "c07::times::lease", "c07::ascii::mimetypes"]
                + REJECTS,
                panics=REJECTS, env={"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false"}, timeout=700)],
     native=[dict(feature="c07", share=0.5), dict(feature="c07", profile="noassert", share=0.5)],
     trusted=[KANI, BYTES, UTF8, SAFE],
     assumptions=[BIG, "debug assertions off (with them, out-of-range arguments panic and no frame is built); "
                  "the native runs use both builds"])

N_FULL = "every obligation is discharged for the whole domain; assumes the verifier itself%s"

prop("C15", note=N_FULL % "",
     kani=[dict(features="c15", timeout=600,
                harnesses=m("c15", ["names_%d" % k for k in range(0, 48, 8)] + ["no_name", "longer"]
                            + ["len_%d" % k for k in range(42)]))],
     native=[dict(feature="c15")],
     trusted=[KANI, SAFE],
     assumptions=["the registry's names (harness/src/registry.rs) are typed from the RSocket extension document",
                  "strings longer than 41 bytes: " + BIG])

prop("C16", note=N_FULL % "",
     kani=[dict(features="c16", harnesses=m("c16", ["from_value", "from_bits", "names", "flags", "constants"]))],
     native=[dict(feature="c16")], seconds=3,
     trusted=[KANI, SAFE])

_r = m("c17::rejects", ["from_u32", "from_usize"])
prop("C17", note=N_FULL % " and the contract of BytesMut",
     kani=[dict(features="c17", harnesses=m("c17", ["from_u32", "from_usize", "new", "same"]) + _r, panics=_r)],
     native=[dict(feature="c17"), dict(feature="c17", profile="noassert", share=0.5)],
     trusted=[KANI, BYTES, SAFE])

prop("C18", note=N_FULL % " and the contract of BytesMut",
     kani=[dict(features="c18", harnesses=m("c18", ["compare", "reports", "displays"]))],
     native=[dict(feature="c18")],
     trusted=[KANI, BYTES, SAFE],
     assumptions=["text: with the default format specification"])

_c = ["invalid_setup", "unsupported_setup", "rejected_setup", "rejected_resume", "connection_error",
      "connection_close", "application_error", "rejected", "canceled", "invalid"]
prop("C19", note=N_FULL % "; I/O errors: of 15 kinds",
     kani=[dict(features="c19,hooks", cfgs=["errors"], timeout=240,
                harnesses=["c19::protocol::%s::asked" % c for c in _c] + ["c19::io", "c19::io_inner", "c19::decode"]),
           dict(features="c19,hooks", cfgs=["errors"], timeout=600, flags=["-Z", "restrict-vtable"], tag="text",
                harnesses=["c19::protocol::%s::shown" % c for c in _c] + ["c19::decode_text", "c19::stream_text", "c19::io_text"])],
     native=[dict(feature="c19", cfgs=["errors"]), dict(feature="c19", instead=True)],
     trusted=[KANI, SAFE, "<u32 as Display> shows the number; <io::Error as Display> writes a text",
              "dynamic calls go to implementations of the same trait (-Z restrict-vtable), for the texts"],
     assumptions=["the protocol errors are made through the hook protocol_error (nothing public makes them yet)",
                  "an error made from a string is represented by that string (std's private type)",
                  "I/O errors: 15 kinds without an error inside, one with; the others natively"])

prop("C20", note=N_FULL % ", the contract of Bytes and that of from_utf8",
     kani=[dict(features="c20", harnesses=m("c20", ["no_calls", "one_call", "two_calls", "three_calls", "text"]))],
     native=[dict(feature="c20")],
     trusted=[KANI, BYTES, "contract of core::str::from_utf8 (harness/src/c20.rs)", SAFE],
     assumptions=[BIG, "states of the builder: all that one or two calls reach, then one more call; a builder is "
                  "determined by its two parts"])

prop("C08", note="every obligation is discharged for all parts, chunk sizes and states of the iterator; the statement "
                 "follows by induction (lemmas/c08.rs, Verus); assumes the contract of Bytes",
     kani=[dict(features="c08,hooks", cfgs=["chunks"], timeout=300,
                harnesses=["c08::state::" + h for h in ("step", "start", "count_metadata", "count_data", "count_both")]
                + ["c08::rejects"], panics=["c08::rejects"],
                standin=dict(features="c08", harnesses=["c08::whole", "c08::rejects"], panics=["c08::rejects"],
                             timeout=400, bounded={"c08::whole": "parts of up to 3 bytes, chunk sizes 1 to 4"}))],
     verus=[dict(name="lemma-c08", file="lemmas/c08.rs")],
     native=[dict(feature="c08")],
     trusted=[KANI, "Z3 4.8.12 (count_*)", "Verus 0.2026.09.13 (lemmas)", BYTES, SAFE],
     assumptions=[BIG, "the states of the iterator are read through the hook verif_state"])


N_C09 = "proved for lists of any length by Verus; the bounded obligations of the compiled code (up to three fragments) are extra"
_b = {"c09::" + n: "lists of exactly %d fragments (parts of any length)" % k
      for k, n in enumerate(["none", "one", "two", "three"])}
prop("C09", note=N_C09, technique=T_CUT,
     verus=[dict(name="cut-c09", extract="contracts/reassemble.rs")],
     kani=[dict(features="c09,hooks", cfgs=["list"], timeout=500, harnesses=sorted(_b), bounded=_b)],
     native=[dict(feature="c09", cfgs=["list"])],
     trusted=[VERUS, CUT, KANI, BYTES, "contract of Frame::decode (any frame or error; what it decodes to is C05's)", SAFE],
     assumptions=[BIG, "the reassembly is reached through the hook verif::reassemble"])

N_C10 = "proved for lists of any length by Verus; the bounded obligations of the compiled code (up to three buffers) are extra"
_sz = ["none", "one", "two", "three"]
_h = ["c10::%s::%s" % (n, h) for n in _sz
      for h in ("observed", "vectored", "advanced", "copied", "advance_rejects", "copy_rejects")]
if os.environ.get("VERIF_TIER") != "thorough":
    # the longest ones
    _h.remove("c10::two::copied")
    _h.remove("c10::three::copied")
prop("C10", note=N_C10, technique=T_CUT,
     verus=[dict(name="cut-c10", extract="contracts/buf.rs")],
     kani=[dict(features="c10,hooks", cfgs=["list"], timeout=700, harnesses=_h,
                panics=[h for h in _h if h.endswith("rejects")],
                bounded={h: "lists of exactly %d buffers (of any length)" % _sz.index(h.split("::")[1])
                         for h in _h})],
     native=[dict(feature="c10", cfgs=["list"])],
     trusted=[VERUS, CUT, KANI, BYTES, "contract of bytes::Buf for the buffers in the list (harness/src/c10.rs)", SAFE],
     assumptions=[BIG, "no buffer is empty when it is added (the list's documented precondition)"])

ATOMIC = "rely/guarantee contracts of the atomic operations (harness/src/atomics.rs; sequentially consistent)"
DASH = "contract of dashmap's contains_key (models/dashmap)"
T_RG = "rely/guarantee contracts on the compiled functions, atomics by contract (Kani/CBMC)"
prop("C11", technique=T_CUT,
     note="proved for every counter value and every set of IDs in use by Verus; the bounded obligations of the compiled "
          "code (up to three candidates in use) are extra; if all IDs are in use the call does not return",
     verus=[dict(name="cut-c11", extract="contracts/ids.rs")],
     kani=[dict(features="c11", timeout=600, harnesses=["ids::c11::" + h for h in ("client", "server", "first", "period")],
                bounded={"ids::c11::client": "at most three candidates in a row are in use",
                         "ids::c11::server": "at most three candidates in a row are in use"})],
     native=[dict(feature="c11", cfgs=["ids"]), dict(feature="c11", instead=True)],
     trusted=[VERUS, CUT, KANI, DASH, ATOMIC, SAFE],
     assumptions=["one call at a time (C12 is the concurrent case)"])
prop("C12", technique="rely/guarantee contracts: " + T_CUT,
     note="proved by Verus for any number of steps: a call touches the counter only by atomic steps of two and hands out "
          "what a step of its own has claimed; beside it the compiled code with an arbitrary environment, bounded to five "
          "atomic operations of the call looked at",
     verus=[dict(name="cut-c12", extract="contracts/claims.rs")],
     kani=[dict(features="c12", timeout=600, harnesses=["ids::c12::client", "ids::c12::server"],
                bounded={"ids::c12::client": "five atomic operations of the call",
                         "ids::c12::server": "five atomic operations of the call"})],
     native=[dict(feature="c12", cfgs=["ids"]), dict(feature="c12", instead=True)],
     trusted=[VERUS, CUT, KANI, DASH, ATOMIC, "fetch_add is atomic", SAFE],
     assumptions=["the counter does not wrap around during the calls (as the property says)"])
prop("C13", technique=T_RG,
     note="every interleaving, by rely/guarantee: other threads may change the count by any amount between two operations",
     kani=[dict(features="c13", timeout=300, harnesses=m("c13", ["dec", "add", "load_", "is_zero", "history"]))],
     verus=[dict(name="lemma-c13", file="lemmas/c13.rs")],
     native=[dict(feature="c13")],
     trusted=[KANI, VERUS, ATOMIC, SAFE],
     assumptions=["the count stays within 31 bits (documented precondition)"])

_c14 = ["whole", "by_1", "by_2", "by_5", "pushed", "by_any"]
_b = {"c14::by_%d" % k: "chunks of %d bytes, at most three of them" % k for k in (1, 2, 5)}
_b["c14::by_any"] = "at most two chunks (of any size)"
prop("C14", technique=T_CUT,
     note="fire_and_forget is proved for any number of chunks by Verus, single frames and metadata pushes for all inputs "
          "by Kani; the bounded obligations of the compiled code (up to three chunks) are extra",
     verus=[dict(name="cut-c14", extract="contracts/machine.rs")],
     kani=[dict(features="c14,hooks", cfgs=["machine"], timeout=500, harnesses=m("c14", _c14), bounded=_b)],
     native=[dict(feature="c14", cfgs=["machine"])],
     trusted=[VERUS, CUT, KANI, BYTES, DASH, ATOMIC, "a connection that answers any result (harness/src/c14.rs)", SAFE],
     assumptions=[BIG, "the socket is made through the hook verif::socket"])
