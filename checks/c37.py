"""C37: texts of nodes become the numbers of their tokens and the embeddings of those."""
import argparse
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
from vp import Check, st, equal, require, sut

vp.silence_logging()
import numpy as np
import faketorch as torch

torch.install()
with sut("importing the feature encoders"):
    from deepgnn.pytorch.encoding.feature_encoder import MultiTypeFeatureEncoder, TwinBERTFeatureEncoder, get_feature_encoder
    from deepgnn.pytorch.encoding.twinbert import StdBertTokenizer, TriLetterTokenizer, TwinBERTEncoder

c = Check(
    "C37",
    "a case of 'tokens' is a vocabulary, a text (letters, digits, signs, spaces, other alphabets), a number of words and of letter groups; numbers and mask must be those "
    "of the definition. A case of 'transform' is texts in arrays of bytes of 2-4 dimensions, padded with zeros or cut at their width, nested in a context beside other data, "
    "or rows of numbers and masks made before; the context must hold each text's own numbers at its place. A case of 'encode' runs the encoder on a stand-in for torch: each "
    "text's embedding must be that of the text alone and follow the definition (sum of letter groups and position, weighted mean over words, scaling), with one encoder "
    "or several types. A case of 'weights' starts an encoder with weights of a file. Non-trivial: at least two words, two texts, or weights under other names.",
    assumptions=("torch and the pre-trained language model are replaced by stand-ins; comparison within 1e-4", "texts are valid UTF-8 up to the cut; embeddings of texts without words are only compared with each other"),
)
LETTERS = "abcdeABCDE012"
OTHER = "  \t-.,'_éßЖ中😀"


@st.composite
def sentence(draw):
    words = draw(st.lists(st.text(LETTERS, min_size=1, max_size=7), max_size=5))
    out = ""
    for w in words:
        out += w + draw(st.sampled_from([" ", " ", " ", "  ", "-", " . ", "é", " Ж ", "中"]))
    return draw(st.sampled_from(["", "", " ", "  ", "!"])) + out.rstrip("" if draw(st.booleans()) else " ")


texts = st.one_of(sentence(), sentence(), st.text(LETTERS + OTHER, max_size=12))


def groups(text):
    """All groups of three characters the words of a text have."""
    out = []
    for w in words_of(text):
        w = "#" + (w or "#") + "#"
        out += [w[i : i + 3] for i in range(len(w) - 2)]
    return out


def words_of(text):
    kept = "".join(x for x in text.lower() if x in "abcdefghijklmnopqrstuvwxyz0123456789 ")
    return [w for w in kept.split(" ") if w] or [""]


@st.composite
def vocabularies(draw, of):
    """Lines of a vocabulary that holds many, not all, of the groups of the texts."""
    have = []
    for t in of:
        for g in groups(t):
            if g not in have:
                have.append(g)
    lines = [g for g in have if draw(st.integers(0, 3))]
    lines = draw(st.permutations(lines)) if len(lines) < 8 else lines[::-1]
    more = draw(st.lists(st.sampled_from(["zzz", "#q#", "", "yyy"]), max_size=3, unique=True))
    at = draw(st.integers(0, len(lines)))
    return list(lines[:at]) + more + list(lines[at:])


def write_vocabulary(path, lines, end):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("".join(x + end for x in lines))


def numbers_of(text, lines, words, letters):
    ids = {x: i + 1 for i, x in enumerate(lines) if x}
    seq, mask = [0] * (words * letters), [0] * words
    for i, w in enumerate(words_of(text)[:words]):
        mask[i] = 1
        w = "#" + (w or "#") + "#"
        for j in range(min(letters, len(w) - 2)):
            seq[i * letters + j] = ids.get(w[j : j + 3], 0)
    return seq, mask


def pieces_of(text, lines, words):
    ids = {x: i for i, x in enumerate(lines)}
    seq = [ids.get(w, 0) for w in text.lower().split()][:words]
    return seq + [0] * (words - len(seq)), [1] * len(seq) + [0] * (words - len(seq))


@st.composite
def token_cases(draw):
    t = draw(texts)
    return {"text": t, "lines": draw(vocabularies([t])), "words": draw(st.integers(1, 5)), "letters": draw(st.integers(1, 6)), "end": draw(st.sampled_from(["\n", "\n", "\r\n"])), "more": draw(texts)}


def tokens(case, d):
    path = os.path.join(d, "vocabulary.txt")
    write_vocabulary(path, case["lines"], case["end"])
    with sut("reading a vocabulary"):
        tokenizer = TriLetterTokenizer(path)
    for text in (case["text"], case["more"], case["text"]):  # nothing of a text stays behind
        with sut("extracting letter groups"):
            seq, mask = tokenizer.extract_from_sentence(text, case["words"], case["letters"])
        equal([list(seq), list(mask)], [list(x) for x in numbers_of(text, case["lines"], case["words"], case["letters"])], f"numbers and mask of {text!r}")
    lines = ["[UNK]"] + [w for w in dict.fromkeys(case["text"].lower().split())][::2]
    write_vocabulary(path, lines, "\n")
    with sut("extracting words"):
        seq, mask = StdBertTokenizer(path).extract_from_sentence(case["text"], case["words"])
    equal([list(seq), list(mask)], [list(x) for x in pieces_of(case["text"], lines, case["words"])], f"numbers and mask of words of {case['text']!r}")
    if len(words_of(case["text"])) > 1:
        c.note(case)


def configuration(case, d):
    write_vocabulary(os.path.join(d, "vocabulary.txt"), case["lines"], "\n")
    return {
        "downscale": case["scale"], "hidden_size": case["hidden"], "max_seq_len": case["words"], "metadir": d, "vocab_file": "vocabulary.txt",
        "embedding_type": "triletter" if case["letters"] else "wordpiece", "triletter_max_letters_in_word": case["letters"], "max_sentence_characters": 30,
        "pooler_type": "weightpooler", "vocab_size": len(case["lines"]) + 1, "max_position_embeddings": 8,
    }


@st.composite
def common(draw, of):
    kind = draw(st.booleans())
    lines = draw(vocabularies(of)) if kind else ["[UNK]"] + list(dict.fromkeys(w for t in of for w in t.lower().split()))[::-2]
    return {
        "lines": lines, "letters": draw(st.integers(1, 5)) if kind else 0, "words": draw(st.integers(1, 4)), "scale": draw(st.sampled_from([0, 1, 3])),
        "hidden": draw(st.integers(1, 4)), "poolers": draw(st.integers(1, 3)),
    }


def wanted(case, text):
    if case["letters"]:
        return numbers_of(text, case["lines"], case["words"], case["letters"])
    return pieces_of(text, case["lines"], case["words"])


@st.composite
def transform_cases(draw):
    shape = draw(st.one_of(st.tuples(st.integers(1, 4)), st.tuples(st.integers(1, 3), st.integers(1, 3)), st.tuples(st.integers(1, 2), st.integers(1, 2), st.integers(1, 2))))
    n = int(np.prod(shape))
    of = [draw(texts) for _ in range(n)]
    if not draw(st.integers(0, 7)):
        of = [""] * n
    case = draw(common(of))
    longest = max(len(t.encode()) for t in of)
    case.update(
        shape=list(shape), texts=of, width=draw(st.one_of(st.just(longest), st.integers(longest, longest + 3), st.integers(min(1, longest), longest))), signed=draw(st.booleans()), depth=draw(st.integers(0, 2)),
        before=draw(st.booleans()), second=draw(st.booleans()), numbers=draw(st.sampled_from(["int64", "int64", "uint64"])),
    )
    return case


def cut(text, width):
    """The text whose bytes end at a width, without the character that is cut in two, and without padding."""
    return text.encode()[:width].decode("utf-8", "ignore").strip("\0 \t\n")


def nest(x, depth):
    for i in range(depth):
        x = {f"level{i}": x}
    return x


def unnest(x, depth):
    for i in reversed(range(depth)):
        x = x[f"level{i}"]
    return x


def transform(case, d):
    shape, width = case["shape"], case["width"]
    other = np.arange(6, dtype=np.float32).reshape(2, 3)
    want = [wanted(case, cut(t, width)) for t in case["texts"]]
    length = len(want[0][0])
    if case["before"]:
        data = np.array([s + m for s, m in want], dtype=case["numbers"]).reshape(shape + [length + case["words"]])
    else:
        rows = [list(t.encode()[:width].ljust(width, b"\0")) for t in case["texts"]]
        data = np.array(rows, dtype=np.uint8).reshape(shape + [width])
        if case["signed"]:
            data = data.view(np.int8)
    original = data.copy()
    inner = {"feature": data, "other": other.copy()}
    if case["second"]:
        inner["again"] = data.copy()
    context = nest(inner, case["depth"])
    with sut("transforming a context"):
        encoder = TwinBERTFeatureEncoder(np.int64 if case["before"] else np.uint8, configuration(case, d), case["poolers"])
        encoder.transform(context)
    equal(encoder.embed_dim, case["scale"] or case["hidden"], "dimension of the output")
    if case["before"]:
        equal(encoder.feature_dim, data.shape[-1], "dimension of the features")
    equal(data.tobytes(), original.tobytes(), "array of the caller")
    out = unnest(context, case["depth"])
    equal(sorted(out), sorted(inner), "keys of the context")
    equal(np.asarray(out["other"]).tolist(), other.tolist(), "other data")
    for key in ("feature", "again") if case["second"] else ("feature",):
        equal(sorted(out[key]), ["encoder_mask", "encoder_seq"], "parts of an encoded text")
        seq, mask = np.asarray(out[key]["encoder_seq"]), np.asarray(out[key]["encoder_mask"])
        equal(list(seq.shape), shape + [length], "shape of the numbers")
        equal(list(mask.shape), shape + [case["words"]], "shape of the masks")
        for i, (s, m) in enumerate(want):
            equal([seq.reshape(-1, length)[i].tolist(), mask.reshape(-1, case["words"])[i].tolist()], [s, m], f"numbers and mask of text {i}, {case['texts'][i]!r}")
    if len(want) > 1:
        c.note(case)


@st.composite
def encode_cases(draw):
    n = draw(st.integers(1, 4))
    of = [draw(texts) for _ in range(n)]
    case = draw(common(of))
    case.update(
        texts=of, pooler=draw(st.integers(0, case["poolers"] - 1)), layer=draw(st.booleans()), depth=draw(st.integers(0, 2)), split=n % 2 == 0 and draw(st.booleans()),
        types=[draw(st.lists(st.sampled_from("kqs"), min_size=1, max_size=1 if i == 0 else 2)) for i in range(draw(st.integers(1, 3)))], shared=draw(st.booleans()), by_file=draw(st.booleans()),
    )
    return case


def close(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    equal(a.shape, b.shape, f"shape of {what}")
    require(np.isfinite(a).all(), f"{what} is not finite")
    require(np.allclose(a, b, rtol=1e-4, atol=1e-4), f"{what}: got {vp.short(a.tolist(), 300)}, expected {vp.short(b.tolist(), 300)}")


def defined(case, encoder, seq, mask, pooler):
    """Vectors of the terms of a text and its embedding, one by one."""
    inner = encoder.encoder
    terms = []
    if case["letters"]:
        table = inner.bert_encoder.embeddings
        for i in range(case["words"]):
            v = np.asarray(table.position_embeddings.weight)[i + 1].astype(np.float64)
            for j in range(case["letters"]):
                k = seq[i * case["letters"] + j]
                if k:
                    v = v + np.asarray(table.triletter_embeddings.weight)[k]
            terms.append(v)
    else:
        terms = [np.asarray(inner.bert_encoder.embeddings.weight)[k].astype(np.float64) for k in seq]
    terms = np.array(terms)
    if not any(mask):
        return terms, None
    p = inner.poolers[pooler].weighting
    at = [i for i, m in enumerate(mask) if m]
    w = np.array([float(np.asarray(p.weight)[0] @ terms[i] + np.asarray(p.bias)[0]) for i in at])
    w = np.exp(w - w.max())
    out = sum(x * terms[i] for x, i in zip(w / w.sum(), at))
    if case["scale"]:
        out = np.tanh(np.asarray(inner.downscale.weight) @ out + np.asarray(inner.downscale.bias))
    return terms, out


def encode(case, d):
    want = [wanted(case, t) for t in case["texts"]]
    n = len(want)
    config = configuration(case, d)
    seq, mask = np.array([s for s, _ in want]), np.array([m for _, m in want])
    shape = (n // 2, 2) if case["split"] else (n,)

    def context(s, m):
        return {"encoder_seq": torch.tensor(s), "encoder_mask": torch.tensor(m)}

    with sut("making an encoder"):
        if case["by_file"]:
            case_config = dict(config, pooler_type="weightpooler")
            del case_config["metadir"]
            with open(os.path.join(d, "config.json"), "w") as f:
                json.dump(case_config, f)
            encoder = get_feature_encoder(argparse.Namespace(meta_dir=d, featenc_config="config.json", fp16="no", feature_type="binary"))
        else:
            encoder = TwinBERTFeatureEncoder(np.uint8, config, case["poolers"])
    pooler = 0 if case["by_file"] else case["pooler"]
    ctx = nest({"a": context(seq.reshape(shape + seq.shape[1:]), mask.reshape(shape + mask.shape[1:]))}, case["depth"])
    with sut("encoding"):
        encoder.forward(ctx, pooler, case["layer"])
    out = unnest(ctx, case["depth"])["a"]
    if case["layer"]:
        require(isinstance(out, dict), "result without the vectors of terms")
        equal(sorted(out), ["output", "term_tensor"], "parts of the result")
        layer, out = np.asarray(out["term_tensor"]), out["output"]
        equal(list(layer.shape), [n, case["words"], case["hidden"]], "shape of the vectors of terms")
    equal(list(out.shape), list(shape) + [encoder.embed_dim], "shape of the embeddings")
    out = np.asarray(out).reshape(n, -1)
    for i in range(n):
        terms, one = defined(case, encoder, *want[i], pooler)
        if case["layer"]:
            close(layer[i], terms, f"vectors of terms of text {i}")
        if one is not None:
            close(out[i], one, f"embedding of text {i}")
        alone = {"x": context(seq[i : i + 1], mask[i : i + 1])}
        with sut("encoding one text"):
            encoder.forward(alone, pooler)
        close(out[i], np.asarray(alone["x"])[0], f"embedding of text {i} in a batch and alone")
    several(case, config, want, context)
    if n > 1:
        c.note(case)


def several(case, config, want, context):
    names = ["k", "q", "s"]
    with sut("making encoders of types"):
        many = MultiTypeFeatureEncoder(np.uint8, config, names, case["shared"])
    equal(many.embed_dim, case["scale"] or case["hidden"], "dimension of the output of encoders of types")
    seq, mask = np.array([s for s, _ in want]), np.array([m for _, m in want])
    order = [[np.roll(np.arange(len(want)), i + j) for j in range(len(t))] for i, t in enumerate(case["types"])]
    ctx = {
        "encoder_seq": [[torch.tensor(seq[o][None]) for o in row] for row in order],
        "encoder_mask": [[torch.tensor(mask[o][None]) for o in row] for row in order],
        "encoder_types": case["types"],
    }
    with sut("encoding texts of types"):
        many.forward(ctx)
    equal([len(x) for x in ctx["embs_list"]], [len(t) for t in case["types"]], "numbers of embeddings")
    for i, row in enumerate(case["types"]):
        for j, name in enumerate(row):
            encoder = many.get_feature_encoder(name)
            for k, at in enumerate(order[i][j]):
                terms, one = defined(case, encoder, *want[at], names.index(name) if case["shared"] else 0)
                if one is not None:
                    close(np.asarray(ctx["embs_list"][i][j])[k], one, f"embedding {k} of type {name}")
                if i == 0:
                    close(np.asarray(ctx["term_tensor"])[k], terms, f"vectors of terms of text {k}")
    equal(np.asarray(ctx["encoder_mask"]).tolist(), mask[order[0][0]].tolist(), "mask of the first texts")


@st.composite
def weight_cases(draw):
    case = draw(common([draw(texts)]))
    case.update(
        form=draw(st.sampled_from(["own", "twin", "standard"])), query=draw(st.booleans()), wrapped=draw(st.booleans()), given=draw(st.booleans()), turned=draw(st.booleans()),
        prefix=draw(st.sampled_from(["twinbert", "model.twinbert"])), standard=draw(st.sampled_from(["bert.bert", "bert", "encoder"])), partly=draw(st.booleans()),
    )
    return case


def weights(case, d):
    """An encoder started with weights of a file: those of its own kind, of one half of a pair, or of a language model alone."""
    config = configuration(case, d)
    path = os.path.join(d, "start.pt")
    parts = [("bert_encoder", "bert_sentencoder"), ("poolers.0", "pooler"), ("downscale", "downscale")]
    with sut("making encoders"):
        first, second = (TwinBERTEncoder(dict(config), None, 1) for _ in range(2))
    mine, state = {k: np.array(v) for k, v in first.state_dict().items()}, {}
    head = "module." if case["wrapped"] else ""
    if case["form"] == "own":
        state = dict(mine)
    elif case["form"] == "twin":
        config.update(init_ckpt_prefix=case["prefix"], is_query=case["query"])
        for letter, other in (("q", first.state_dict()), ("k", second.state_dict())):
            for k, v in other.items():
                a, b = next(x for x in parts if k.startswith(x[0]))
                if not (case["partly"] and a == "poolers.0"):
                    state[f"{head}{case['prefix']}.{letter}{b}{k[len(a):]}"] = np.array(v)
        mine = mine if case["query"] else {k: np.array(v) for k, v in second.state_dict().items()}
    else:
        config.update(init_ckpt_prefix=case["standard"], is_query=case["query"])
        state = {f"{head}{case['standard']}{k[len('bert_encoder'):]}": v for k, v in mine.items() if k.startswith("bert_encoder")}
        state["cls.predictions"] = np.ones(3)
    if case["turned"]:
        state = dict(reversed(list(state.items())))
    torch.save({k: torch.tensor(v) for k, v in state.items()}, path)
    if not case["given"]:
        config["init_ckpt_file"] = path
    fresh = torch._layers.n
    with sut("starting with weights of a file"):
        got = TwinBERTEncoder(dict(config), path if case["given"] else None, 1).state_dict()
    torch._layers.n = fresh
    with sut("making an encoder"):
        plain = TwinBERTEncoder({k: v for k, v in config.items() if not k.startswith("init")}, None, 1).state_dict()
    equal(sorted(got), sorted(mine), "names of weights")
    for k in mine:
        kept = (case["form"] == "standard" and not k.startswith("bert_encoder")) or (case["form"] == "twin" and case["partly"] and k.startswith("poolers"))
        close(got[k], plain[k] if kept else mine[k], f"weights {k}")
    if case["form"] != "own":
        c.note(case)


c.campaign("tokens", token_cases(), tokens, 3000, 60000)
c.campaign("transform", transform_cases(), transform, 1200, 20000)
c.campaign("encode", encode_cases(), encode, 800, 15000)
c.campaign("weights", weight_cases(), weights, 400, 6000)
c.main()
