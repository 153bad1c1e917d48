"""Driving the converter on generated graphs."""
import json
import os

from vp import equal, run_blocking, sut, st
import graphio as gio

from deepgnn.graph_engine.snark.convert import MultiWorkersConverter
from deepgnn.graph_engine.snark.decoders import EdgeListDecoder, JsonDecoder, TsvDecoder


def decoder_for(fmt, opt=None, temporal=False):
    if fmt == "json":
        return JsonDecoder(is_temporal=temporal)
    if fmt == "tsv":
        return TsvDecoder()
    opt = opt or {}
    kw = {}
    for a, b in (
        ("node_type", "default_node_type"),
        ("edge_type", "default_edge_type"),
        ("node_weight", "default_node_weight"),
        ("edge_weight", "default_edge_weight"),
        ("node_feature_types", "default_node_feature_types"),
        ("node_feature_lens", "default_node_feature_lens"),
        ("edge_feature_types", "default_edge_feature_types"),
        ("edge_feature_lens", "default_edge_feature_lens"),
        ("delimiter", "delimiter"),
        ("length_delimiter", "length_delimiter"),
        ("escape", "binary_escape"),
        ("created_at", "default_created_at"),
        ("removed_at", "default_removed_at"),
        ("temporal", "is_temporal"),
    ):
        if a in opt and opt[a] is not None:
            kw[b] = opt[a]
    return EdgeListDecoder(**kw)


def lines_for(fmt, node, opt=None):
    if fmt == "json":
        return [gio.json_line(node)]
    if fmt == "tsv":
        return [gio.tsv_line(node)]
    return gio.el_lines(node, opt)


def write_files(graph, fmt, folder, n_files, opt=None, trailing=True):
    """Whole nodes go to one file, files take contiguous runs of nodes."""
    os.makedirs(folder, exist_ok=True)
    nodes = graph["nodes"]
    per = max(1, -(-len(nodes) // n_files))
    paths = []
    for i in range(n_files):
        chunk = nodes[i * per : (i + 1) * per]
        lines = [x for n in chunk for x in lines_for(fmt, n, opt)]
        p = os.path.join(folder, f"graph_{i:02d}.txt")
        with open(p, "w", encoding="utf-8", newline="\n") as f:
            f.write("\n".join(lines) + ("\n" if trailing and lines else ""))
        paths.append(p)
    return paths


def convert(
    src,
    out,
    decoder,
    partitions=1,
    workers=1,
    order=None,
    merge=True,
    **kw,
):
    """Run all workers of a distributed conversion one after another, then merge."""
    os.makedirs(out, exist_ok=True)

    def go():
        for w in order or range(workers):
            MultiWorkersConverter(
                graph_path=src,
                output_dir=out,
                decoder=decoder,
                partition_count=partitions,
                worker_index=w,
                worker_count=workers,
                thread_count=kw.get("threads", 2),
                record_per_step=kw.get("record_per_step", 512),
                buffer_size=kw.get("buffer_size", 1),
                skip_node_sampler=kw.get("skip_node_sampler", False),
                skip_edge_sampler=kw.get("skip_edge_sampler", False),
                debug=kw.get("debug", False),
                watermark=kw.get("watermark"),
            ).convert()
        if workers > 1 and merge:
            from deepgnn.graph_engine.snark.meta_merger import merge_metadata_files

            merge_metadata_files(out)

    with sut("conversion"):
        run_blocking(go, "conversion")


def read_meta(out):
    with open(os.path.join(out, "meta.json")) as f:
        return json.load(f)


def read_parts(out, n):
    return [gio.read_partition(out, p) for p in range(n)]


def check_meta(m, g, parts, watermark=None):
    """Every number of the metadata against the converted graph and decoded partitions."""
    nodes = g["nodes"]
    edges = [e for n in nodes for e in n["edges"]]
    nt = max(n["type"] for n in nodes) + 1
    et = max([e["type"] for e in edges] + [-1]) + 1
    equal(m["node_count"], len(nodes), "node count")
    equal(m["edge_count"], len(edges), "edge count")
    equal(m["node_type_count"], nt, "number of node types")
    equal(m["edge_type_count"], et, "number of edge types")
    equal(m["node_feature_count"], max(len(n["features"]) for n in nodes), "number of node features")
    equal(m["edge_feature_count"], max([len(e["features"]) for e in edges] + [0]), "number of edge features")
    equal(list(m["node_count_per_type"]), [sum(n["type"] == t for n in nodes) for t in range(nt)], "nodes per type")
    equal(list(m["edge_count_per_type"]), [sum(e["type"] == t for e in edges) for t in range(et)], "edges per type")
    equal(m["watermark"], -1 if watermark is None else watermark, "watermark")
    equal(sorted(map(int, m["partitions"])), list(range(len(parts))), "partition ids")
    nw = {n["id"]: n["weight"] for n in nodes}
    for i, part in enumerate(parts):
        wn, we = [0.0] * nt, [0.0] * et
        for n in part.nodes:
            if n["type"] >= 0:
                wn[n["type"]] += nw[n["id"]]
            for e in n["edges"]:
                we[e["type"]] += e["weight"]
        equal([float(x) for x in m["partitions"][str(i)]["node_weight"]], wn, f"node weight of partition {i}")
        equal([float(x) for x in m["partitions"][str(i)]["edge_weight"]], we, f"edge weight of partition {i}")
    return nodes, edges


# ------------------------------------------------------------------ generated inputs
ALL = (gio.dense(), gio.binary(lo=1), gio.sparse())
TSV_TEXT = "abcXYZ019_.é中🙂"
TSVK = (gio.dense(), gio.binary(alphabet=TSV_TEXT, lo=1))
EL_TEXT = "abcXYZ019 _.é中,;|/"
ELK = (gio.dense(), gio.binary(alphabet=EL_TEXT, lo=1), gio.sparse())


def graphs_for(fmt, **kw):
    if fmt == "json":
        return gio.graphs(ALL, **kw)
    if fmt == "tsv":
        return gio.graphs(TSVK, **kw)
    return gio.graphs(ELK, **kw)
