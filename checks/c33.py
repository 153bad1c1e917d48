"""C33: command lines mean what they say."""
import argparse
import contextlib
import io
import os
import runpy
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut, run_blocking

vp.silence_logging()
warnings.simplefilter("ignore")
import conv
import graphio as gio
import numpy as np

from deepgnn import arg_types
from deepgnn.graph_engine.backends.options import BackendOptions, GraphType
from deepgnn.graph_engine.graph_dataset import BackendType
from deepgnn.graph_engine.snark.converter.options import DataConverterType
from deepgnn.graph_engine.utils import define_param_graph_engine

c = Check(
    "C33",
    "'convert': a generated graph (JSON with or without lifetimes, or TSV) is converted by the commands of the converter and "
    "of the merger of metadata with generated arguments (short or long names, flags spelled in several ways or left out, workers, "
    "watermark); partitions, metadata and which tables for samplers exist must be those of a conversion in code with the same "
    "options. 'options': values rendered as text arguments must be parsed back, and arguments of a job reach its options. "
    "Non-trivial: the graph has edges, or at least two arguments are given.",
)
FLAGS = {True: ["True", "true", "1", "yes"], False: ["False", "false", "0", "no"]}


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["json", "json", "tsv"]))
    g = draw(conv.graphs_for(fmt, max_nodes=5, max_edges=5, hi_features=2))
    temporal = fmt == "json" and draw(st.booleans())
    if temporal:
        for n in g["nodes"]:
            n["created_at"] = draw(st.integers(0, 9))
            for e in n["edges"]:
                e["created_at"] = n["created_at"] + draw(st.integers(0, 5))
                e["removed_at"] = draw(st.sampled_from([-1, e["created_at"] + 3]))
    flag = st.one_of(st.none(), st.booleans().flatmap(lambda b: st.sampled_from(FLAGS[b]).map(lambda s: [b, s])))
    return {
        "fmt": fmt,
        "graph": g,
        "watermark": draw(st.sampled_from([0, 7, 20])) if temporal else draw(st.sampled_from([None, -1])),
        "partitions": draw(st.integers(1, 4)),
        "workers": draw(st.sampled_from([1, 1, 2, 3])),
        "node_flag": draw(flag),
        "edge_flag": draw(flag),
        "short": draw(st.booleans()),
        "say": draw(st.booleans()),
    }


def command(module, argv, what):
    def go():
        old, sys.argv = sys.argv, [module] + argv
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runpy.run_module(module, run_name="__main__")
        except SystemExit as e:
            require(not e.code, f"{what} ended with {e.code}")
        finally:
            sys.argv = old

    with sut(what):
        run_blocking(go, what)


def content(out, parts):
    found = [gio.read_partition(out, p) for p in range(parts)]
    return (
        [p.nodes for p in found],
        conv.read_meta(out),
        sorted(x for x in os.listdir(out) if x.endswith(".alias")),
    )


def plain(nodes):
    return [[dict(n, edges=[dict(e, ts=None) for e in n["edges"]]) for n in part] for part in nodes]


def body(case, tmp):
    src = os.path.join(tmp, "in")
    w = case["workers"]
    # every worker gets alike nodes: merging needs the same numbers of types and features from each of them
    graph = {"nodes": [dict(n, id=10 * k + i) for k in range(w) for i, n in enumerate(case["graph"]["nodes"])]}
    path = conv.write_files(graph, case["fmt"], src, w)[0] if w == 1 else src
    if w > 1:
        conv.write_files(graph, case["fmt"], src, w)
    per = -(-max(case["partitions"], w) // w)
    parts = per * (w - 1) + max(1, min(per, case["partitions"] - per * (w - 1)))
    a, b = os.path.join(tmp, "a"), os.path.join(tmp, "b")
    flags = {k: case[f"{k}_flag"] for k in ("node", "edge")}
    mark = case["watermark"] if case["watermark"] != -1 else None
    conv.convert(
        path, a, conv.decoder_for(case["fmt"]), parts, w, watermark=mark,
        skip_node_sampler=bool(flags["node"] and flags["node"][0]), skip_edge_sampler=bool(flags["edge"] and flags["edge"][0]),
    )
    os.makedirs(b)
    for i in range(w):
        s = case["short"]
        argv = ["-d" if s else "--data", path, "-p" if s else "--partitions", str(parts), "-o" if s else "--out", b]
        if w > 1 or case["say"]:
            argv += ["-i" if s else "--worker_index", str(i), "-n" if s else "--worker_count", str(w)]
        if case["fmt"] != "json" or case["say"]:
            argv += ["-t" if s else "--type", case["fmt"]]
        for k, v in flags.items():
            if v:
                argv += [f"--skip_{k}_sampler", v[1]]
        if case["watermark"] is not None:
            argv += ["--watermark", str(case["watermark"])]
        command("deepgnn.graph_engine.snark.convert", argv, f"conversion with {argv[6:]}")
    if w > 1:
        command("deepgnn.graph_engine.snark.meta_merger", ["-d" if case["short"] else "--data_dir", b], "merging of metadata")
    want, got = content(a, parts), content(b, parts)
    if mark is None:
        # times of a graph without watermark are not read by anyone
        want, got = (plain(want[0]),) + want[1:], (plain(got[0]),) + got[1:]
    equal(got[1], want[1], "metadata")
    equal(got[2], want[2], "tables for samplers")
    equal(got[0], want[0], "nodes of partitions")
    if any(n["edges"] for n in case["graph"]["nodes"]):
        c.note(case)


words = st.text("abcxyz/._-0", min_size=1, max_size=8).filter(lambda s: not s.startswith("-"))


@st.composite
def option_cases(draw):
    table = {
        "graph_type": st.sampled_from(["local", "remote"]),
        "data_dir": words,
        "enable_ssl": st.sampled_from(FLAGS[True] + FLAGS[False]),
        "ssl_cert": words,
        "backend": st.sampled_from(["snark", "custom"]),
        "servers": st.lists(words, min_size=1, max_size=3),
        "converter": st.sampled_from(["skip", "local"]),
        "num_ge": st.integers(0, 9),
        "ge_start_timeout": st.integers(1, 90),
        "server_idx": st.integers(0, 9),
        "client_rank": st.integers(0, 9),
        "skip_ge_start": st.sampled_from(FLAGS[True] + FLAGS[False]),
        "sync_dir": words,
    }
    chosen = draw(st.lists(st.sampled_from(sorted(table)), unique=True))
    return {
        "args": {k: draw(table[k]) for k in chosen},
        "ints": draw(st.lists(st.integers(-9, 10**6), max_size=4)),
        "lists": draw(st.lists(st.lists(st.integers(-9, 10**6), min_size=1, max_size=3), max_size=4)),
        "texts": draw(st.lists(st.lists(st.text("abq_9", min_size=1, max_size=3), min_size=1, max_size=3), max_size=4)),
        "vector": draw(st.lists(st.lists(st.integers(-40, 40).map(lambda i: i / 4), min_size=2, max_size=2), min_size=1, max_size=3)),
        "whole": draw(st.booleans()),
    }


DEFAULTS = {
    "graph_type": GraphType.LOCAL, "data_dir": "", "enable_ssl": False, "ssl_cert": "", "backend": BackendType.SNARK,
    "converter": DataConverterType.LOCAL, "num_ge": 0, "ge_start_timeout": 30, "server_idx": None,
    "client_rank": None, "skip_ge_start": False, "sync_dir": "",
}
ENUMS = {"graph_type": GraphType, "backend": BackendType, "converter": DataConverterType}


def option_body(case, tmp):
    parser = argparse.ArgumentParser()
    argv = []
    want = dict(DEFAULTS)
    for k, v in case["args"].items():
        argv += [f"--{k}"] + ([str(x) for x in v] if isinstance(v, list) else [str(v)])
        want[k] = ENUMS[k](v) if k in ENUMS else v in FLAGS[True] if k in ("enable_ssl", "skip_ge_start") else v
    with sut("parsing of arguments"):
        try:
            define_param_graph_engine(parser)
            with contextlib.redirect_stderr(io.StringIO()):
                args = parser.parse_args(argv)
        except SystemExit:
            require(False, f"arguments {argv} were refused")
        o = BackendOptions(args)
    for k, v in want.items():
        equal(getattr(args, k), v, f"argument {k} of {argv}")
        equal(getattr(o, k), v, f"option {k} of {argv}")
    equal(list(o.servers), case["args"].get("servers", []), "servers")
    equal(o.converter_options.converter, want["converter"], "converter")
    with sut("parsing of lists"):
        equal(arg_types.str2list_int(",".join(map(str, case["ints"]))), case["ints"], "list of numbers")
        equal(arg_types.str2list_int(case["ints"]), case["ints"], "list of numbers")
        for xs, f in ((case["lists"], arg_types.str2list2_int), (case["texts"], arg_types.str2list2)):
            equal(f(";".join(",".join(map(str, x)) for x in xs)), xs, "list of lists")
            equal(f(xs), xs, "list of lists")
        flat = [y for x in case["texts"] for y in x]
        if flat:
            equal(arg_types.str2list_str(",".join(flat)), flat, "list of texts")
        for b, spellings in FLAGS.items():
            for s in spellings + [b]:
                equal(arg_types.str2bool(s), b, f"flag {s}")
        try:
            arg_types.str2bool("maybe")
            require(False, "a flag that is neither true nor false was accepted")
        except argparse.ArgumentTypeError:
            pass
        v = np.array(case["vector"] if case["whole"] else case["vector"][0])
        back = [[float(x) for x in y.split(" ")] for y in arg_types.vec2str(v).split(",")]
        equal(back if case["whole"] else back[0], v.tolist(), "vector as text")
    if len(argv) >= 4:
        c.note(case)


c.campaign("convert", cases(), body, 250, 3000)
c.campaign("options", option_cases(), option_body, 1500, 20000)

if __name__ == "__main__":
    c.main()
