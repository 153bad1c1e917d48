"""C08: text inputs are delivered line by line, each line exactly once per epoch, whatever the chunking."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, sut, equal, require, run_blocking

vp.silence_logging()
from collections import Counter

from deepgnn.graph_engine._adl_reader import TextFileIterator, TextFileSplitIterator

c = Check(
    "C08",
    "a case is a set of 1-5 text files (lines of 1-300 bytes, multi-byte characters, unicode separators, LF or CRLF, with or "
    "without a final newline, empty files) read with generated block size (1 byte to 1 MB), reader threads, batch "
    "size, epochs, queue size, worker index / count, shuffle and drop_last, possibly abandoned and restarted; "
    "lines received are compared with the lines written. faults: one read fails at a generated point, the error must "
    "reach the consumer. Non-trivial: two or more lines and a block boundary inside the data (or a fault hit).",
    ["no blank lines in the data: their treatment is unspecified"],
)
ALPH = "abcdefgh 0123456789,;{}\"é中🙂 \x85\x0b\x1c\t"


def line():
    return st.one_of(
        st.text(alphabet=ALPH, min_size=1, max_size=12),
        st.text(alphabet="ab中🙂", min_size=1, max_size=40),
        st.integers(1, 300).map(lambda n: "z" * n),
    )


@st.composite
def cases(draw):
    workers = draw(st.sampled_from([1, 1, 2, 3]))
    nf = draw(st.integers(workers, 5))
    files = [
        {"lines": draw(st.lists(line(), max_size=12)), "final": draw(st.booleans()), "crlf": draw(st.sampled_from([False, False, True]))}
        for _ in range(nf)
    ]
    size = sum(len(x.encode()) + 2 for f in files for x in f["lines"])
    # from one block for everything to a couple of dozens, at any alignment
    block = max(1, size // draw(st.integers(1, 12)) + draw(st.integers(-5, 5)))
    return {
        "files": files,
        "block": block if size > 24 else draw(st.sampled_from([1, 2, 3, block])),
        "threads": draw(st.integers(1, 5)),
        "batch": draw(st.sampled_from([1, 2, 3, 7, 512])),
        "epochs": draw(st.integers(1, 3)),
        "queue": draw(st.integers(1, 4)),
        "workers": workers,
        "shuffle": draw(st.sampled_from([False, False, True])),
        "drop_last": draw(st.sampled_from([False, False, True])),
        "abandon": draw(st.sampled_from([-1, -1, 0, 1, 2])),
        "again": draw(st.booleans()),
    }


def write(files, d):
    paths = []
    os.makedirs(d, exist_ok=True)
    for i, f in enumerate(files):
        sep = "\r\n" if f["crlf"] else "\n"
        data = sep.join(f["lines"]) + (sep if f["final"] and f["lines"] else "")
        p = os.path.join(d, f"f{i}.txt")
        with open(p, "wb") as h:
            h.write(data.encode("utf-8"))
        paths.append(p)
    return paths


def make(case, src, w):
    return TextFileIterator(
        src,
        batch_size=case["batch"], epochs=case["epochs"], read_block_in_M=(case["block"] + 0.5) / 1e6,
        buffer_queue_size=case["queue"], thread_count=case["threads"], worker_index=w, num_workers=case["workers"],
        shuffle=case["shuffle"], drop_last=case["drop_last"],
    )


def body(case, d):
    src = os.path.join(d, "in")
    write(case["files"], src)
    total = 0
    seen = Counter()
    for w in range(case["workers"]):
        mine = case["files"][w :: case["workers"]]
        want = [x for f in mine for x in f["lines"]] * case["epochs"]

        def go():
            it = make(case, src, w)
            if case["abandon"] >= 0:
                for k, _ in enumerate(it):
                    if k >= case["abandon"]:
                        break
            out = [list(map(list, it))]
            if case["again"]:
                out.append(list(map(list, it)))
            it.join()
            return out

        with sut("reading"):
            runs = run_blocking(go, "reading")
        for batches in runs:
            sizes = [len(b) for b in batches]
            require(all(s == case["batch"] for s in sizes[:-1]), f"a batch before the last one is not full: {sizes}")
            got = [x for b in batches for x in b]
            n = len(want)
            if case["drop_last"]:
                n -= n % case["batch"]
                require(all(s == case["batch"] for s in sizes), f"incomplete batch although it was to be dropped: {sizes}")
            equal(len(got), n, "number of lines")
            if not case["shuffle"]:
                equal(got, want[:n], "lines")
            else:
                extra = Counter(got) - Counter(want)
                require(not extra, lambda: f"unexpected lines {vp.short(dict(extra))}")
                if not case["drop_last"]:
                    # every epoch delivers every line once
                    per = n // case["epochs"]
                    for e in range(case["epochs"]):
                        equal(
                            Counter(got[e * per : (e + 1) * per]),
                            Counter(x for f in mine for x in f["lines"]),
                            f"lines of epoch {e}",
                        )
        total += len(want)
    size = sum(len(x.encode()) for f in case["files"] for x in f["lines"])
    if total >= 2 and case["block"] < size:
        c.note(case)


@st.composite
def split_cases(draw):
    lines = draw(st.lists(line(), min_size=1, max_size=20))
    return {
        "lines": lines,
        "cuts": sorted(draw(st.lists(st.integers(0, len(lines)), max_size=3))),
        "block": draw(st.sampled_from([1, 3, 7, 50, 10**6])),
        "threads": draw(st.integers(1, 4)),
        "batch": draw(st.sampled_from([1, 3, 512])),
        "rest": draw(st.booleans()),
    }


def split_body(case, d):
    """Byte ranges aligned with lines, each given to its own reader, partition the file."""
    p = os.path.join(d, "f.txt")
    with open(p, "wb") as f:
        f.write("".join(x + "\n" for x in case["lines"]).encode())
    sizes = [len((x + "\n").encode()) for x in case["lines"]]
    cuts = [0] + case["cuts"] + [len(sizes)]
    for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
        last = i == len(cuts) - 2
        length = -1 if last and case["rest"] else sum(sizes[a:b])
        off = sum(sizes[:a])

        def go():
            it = TextFileSplitIterator(
                p, batch_size=case["batch"], read_block_in_M=(case["block"] + 0.5) / 1e6,
                thread_count=case["threads"], worker_offset=off, total_read_length=length,
            )
            r = [x for bt in it for x in bt]
            it.join()
            return r

        with sut("reading a byte range"):
            got = run_blocking(go, "reading a byte range")
        equal(got, case["lines"][a:b], f"lines {a}..{b}")
    if len(case["lines"]) > 1:
        c.note(("split", case))


class Faulty:
    """File system stand-in whose n-th read fails."""

    def __init__(self, fs, nth, kind):
        self.fs, self.left, self.kind, self.hit = fs, nth, kind, False

    def open(self, path, mode):
        f = self.fs.open(path, mode)
        me = self

        class F:
            def __enter__(s):
                return s

            def __exit__(s, *a):
                f.close()

            def seek(s, o):
                return f.seek(o)

            def read(s, n):
                b = f.read(n)
                if len(b):
                    me.left -= 1
                    if me.left == 0:
                        me.hit = True
                        if me.kind == "io":
                            raise OSError("injected read failure")
                        raise TimeoutError("injected timeout")
                return b

        return F()

    def __getattr__(self, n):
        return getattr(self.fs, n)


@st.composite
def fault_cases(draw):
    return {
        "case": dict(draw(cases()), workers=1, shuffle=False, drop_last=False, abandon=-1, again=False),
        "nth": draw(st.integers(1, 12)),
        "kind": draw(st.sampled_from(["io", "timeout"])),
    }


def fault_body(fc, d):
    case = fc["case"]
    src = os.path.join(d, "in")
    write(case["files"], src)
    want = [x for f in case["files"] for x in f["lines"]] * case["epochs"]
    box = {}

    def go():
        it = make(case, src, 0)
        it.fs = box["fs"] = Faulty(it.fs, fc["nth"], fc["kind"])
        got, err = [], None
        try:
            for b in it:
                got += b
        except (OSError, TimeoutError) as e:
            err = e
        it.join()
        return got, err

    with sut("reading with a failing store"):
        got, err = run_blocking(go, "reading with a failing store", thread_death_is_error=False)
    if box["fs"].hit:
        require(err is not None, f"a failed read was hidden; got {len(got)} of {len(want)} lines")
        equal(got, want[: len(got)], "lines before the failure")
        c.note(("fault", fc))
    else:
        equal(got, want, "lines")


c.campaign("files", cases(), body, 500, 6000)
c.campaign("ranges", split_cases(), split_body, 200, 1500)
c.campaign("faults", fault_cases(), fault_body, 400, 4000)

if __name__ == "__main__":
    c.main()
