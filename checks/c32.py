"""C32: results uploaded to a remote store arrive complete."""
import logging
import os
import queue
import sys
import time
import traceback
import warnings
from collections import Counter

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut, run_blocking

vp.silence_logging()
warnings.simplefilter("ignore")
from azure.datalake.store import core, lib

from deepgnn.graph_engine import adl_uploader

c = Check(
    "C32",
    "a case is a configuration of the uploader (1-3 processes, 1-3 threads each, size of queues, lines per chunk, chunks per file), a "
    "history of texts and lists of lines handed over, and delays of the store (a stand-in that keeps files in a scratch folder). "
    "After closing, the files below the prefix must hold every line and text exactly once and nothing else, lines of one chunk together and in "
    "order, no file more chunks than allowed, and all files must be closed. Non-trivial: several chunks were uploaded by several "
    "workers or into several files.",
    assumptions=("the store accepts all data; an upload refused because queues were full for a second decides nothing",),
)
logging.disable(logging.CRITICAL)
TENANT = "72f988bf-86f1-41af-91ab-2d7cd011db47"
XML = (
    "<configuration><property><name>fs.adl.oauth2.refresh.url</name><value>https://login.microsoftonline.com/%s/oauth2/token</value>"
    "</property><property><name>fs.adl.oauth2.client.id</name><value>me</value></property><property>"
    "<name>fs.adl.oauth2.credential</name><value>secret</value></property></configuration>" % TENANT
)


class Store:
    """Files of the store, kept in a scratch folder; every write is one record."""

    root = None
    delays = [0]

    def __init__(self, token=None, store_name=None, **kw):
        self.ok = token == (TENANT, "me", "secret") and store_name == "mystore"
        self.n = 0

    def open(self, path, mode="rb", **kw):
        real = os.path.join(self.root, path.replace("/", "%"))
        if not self.ok or mode != "wb" or os.path.exists(real):
            with open(os.path.join(self.root, "errors"), "a") as f:
                f.write(f"{path} opened as {mode}, credentials right: {self.ok}\n")
        return File(self, real)

    def pause(self):
        self.n += 1
        time.sleep(self.delays[self.n % len(self.delays)] / 1000)


class File:
    def __init__(self, store, real):
        self.store, self.real = store, real
        self.parts = []
        open(real, "wb").close()

    def write(self, data):
        self.store.pause()
        self.parts.append(bytes(data))
        return len(data)

    def close(self):
        # data arrive when the file is closed
        self.store.pause()
        with open(self.real, "wb") as f:
            for p in self.parts:
                f.write(len(p).to_bytes(8, "little") + p)

    def flush(self, *a, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


core.AzureDLFileSystem = Store
lib.auth = lambda tenant_id=None, client_secret=None, client_id=None, **kw: (tenant_id, client_id, client_secret)

lines = st.one_of(
    st.integers(0, 999).map(lambda i: f"{i}\t{i / 8},{-i}"), st.text("ab \t,é", max_size=6), st.integers(-5, 10**12), st.floats(-9, 9).map(lambda x: round(x, 3))
)


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        if draw(st.booleans()):
            ops.append({"op": "lines", "lines": draw(st.lists(lines, max_size=12))})
        else:
            ops.append({"op": "text", "text": draw(st.one_of(st.text("ab\n\té", max_size=8), st.just("")))})
    return {
        "processes": draw(st.integers(1, 3)),
        "threads": draw(st.integers(1, 3)),
        "queue": draw(st.sampled_from([1, 2, 5, 100])),
        "chunk": draw(st.sampled_from([1, 2, 3, 1024])),
        "file": draw(st.sampled_from([0, 1, 2, 3])),
        "delays": draw(st.lists(st.integers(0, 4), min_size=1, max_size=4)),
        "ops": ops,
        "leave": draw(st.booleans()),
    }


def upload(case):
    with sut("creating the uploader"):
        w = adl_uploader.AdlDataWriter(
            "mystore",
            "out/emb",
            **vp.lean(
                {
                    "max_chunks_per_file": (case["file"], 0),
                    "queue_size": (case["queue"], 100),
                    "max_lines_per_chunk": (case["chunk"], 1024),
                }
            ),
            process_num=case["processes"],
            threads_per_process=case["threads"],
        )
    if case["leave"]:
        w.__enter__()
    for o in case["ops"]:
        if o["op"] == "lines":
            with sut("uploading lines"):
                try:
                    ok = w.writelines(o["lines"])
                except queue.Full:
                    # refused by a store that is slow for more than a second
                    return False
            equal(ok, True, "result of uploading lines")
        else:
            with sut("uploading a text"):
                w.write(o["text"])
    with sut("closing the uploader"):
        if case["leave"]:
            w.__exit__(None, None, None)
        else:
            w.close()
    return True


def apart(case, path):
    """Upload in a process of its own: the uploader leaves threads behind."""
    pid = os.fork()
    if pid == 0:
        try:
            text = "" if run_blocking(lambda: upload(case), "uploading", stall_ticks=800) else "refused"
        except vp.Violation as v:
            text = "violation " + str(v)
        except BaseException:  # noqa: B902
            text = "error " + traceback.format_exc()
        with open(path, "w") as f:
            f.write(text)
        os._exit(0)
    os.waitpid(pid, 0)
    with open(path) as f:
        kind, _, text = f.read().partition(" ")
    require(kind != "violation", text)
    if kind == "error":
        raise RuntimeError(text)
    return not kind


def body(case, tmp):
    Store.root, Store.delays = os.path.join(tmp, "store"), case["delays"]
    os.makedirs(Store.root)
    home = os.path.join(tmp, "home", "etc", "hadoop")
    os.makedirs(home)
    with open(os.path.join(home, "core-site.xml"), "w") as f:
        f.write(XML)
    os.environ["HADOOP_HOME"] = os.path.join(tmp, "home")
    if not apart(case, os.path.join(tmp, "result")):
        return
    want = []
    for o in case["ops"]:
        if o["op"] == "text":
            want.append(o["text"])
        else:
            xs = [str(x) for x in o["lines"]]
            want += ["\n".join(xs[i : i + case["chunk"]]) + "\n" for i in range(0, len(xs), case["chunk"])]
    names = sorted(os.listdir(Store.root))
    if "errors" in names:
        with open(os.path.join(Store.root, "errors")) as f:
            require(False, f.read())
    got, files = [], 0
    for n in names:
        require(n.startswith("out%emb"), f"file {n} outside of the prefix")
        with open(os.path.join(Store.root, n), "rb") as f:
            data = f.read()
        records, at = [], 0
        while at < len(data):
            size = int.from_bytes(data[at : at + 8], "little")
            records.append(data[at + 8 : at + 8 + size].decode("utf-8"))
            at += 8 + size
        if case["file"]:
            require(len(records) <= case["file"], f"file {n} holds {len(records)} chunks, allowed are {case['file']}")
        got += records
        files += 1
    # nothing is written for an empty text
    equal(Counter(x for x in got if x), Counter(x for x in want if x), "uploaded chunks")
    if len(want) > 1 and (files > 1 or case["processes"] * case["threads"] > 1):
        c.note(case)


c.campaign("upload", cases(), body, 300, 4000)

if __name__ == "__main__":
    c.main()
