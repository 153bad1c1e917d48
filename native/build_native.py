"""Build libwrapper.so from the working tree with stand-ins for gRPC, glog and mimalloc.

Output goes to <verif>/build/native-<hash of inputs>/libwrapper.so, older builds are removed.
"""
import concurrent.futures
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
CXX = ["g++", "-std=c++20", "-O1", "-g1", "-fPIC", "-fvisibility=hidden", "-w", "-D_GLIBCXX_ASSERTIONS"]
DEFS = ["-DNDEBUG", "-DSNARK_PLATFORM_LINUX", "-DGLOG_NO_ABBREVIATED_SEVERITIES"]


def service_header(proto):
    """Declare services of the proto file for the in-process stand-in of gRPC."""
    text = re.sub(r"//[^\n]*", "", open(proto).read())
    out = ['#pragma once', '#include <grpcpp/grpcpp.h>', '#include "src/cc/lib/distributed/service.pb.h"', "namespace snark {"]
    for name, body in re.findall(r"service\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}", text):
        rpcs = re.findall(r"rpc\s+(\w+)\s*\(\s*(\w+)\s*\)\s*returns\s*\(\s*(\w+)\s*\)", body)
        out.append(f"class {name} final {{ public:")
        out.append("class Stub { public: explicit Stub(std::shared_ptr<grpc::Channel> c) : m_channel(std::move(c)) {}")
        for m, q, r in rpcs:
            out.append(
                f"std::unique_ptr<grpc::ClientAsyncResponseReader<{r}>> PrepareAsync{m}(grpc::ClientContext*, const {q}& request, grpc::CompletionQueue* cq)"
                f'{{ return std::make_unique<grpc::ClientAsyncResponseReader<{r}>>(m_channel, "{name}/{m}", request.SerializeAsString(), cq); }}'
            )
        out.append("private: std::shared_ptr<grpc::Channel> m_channel; };")
        out.append("static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel>& c) { return std::make_unique<Stub>(c); }")
        out.append("class Service : public grpc::Service { public: virtual ~Service() = default;")
        for m, q, r in rpcs:
            out.append(
                f'virtual grpc::Status {m}(grpc::ServerContext*, const {q}*, {r}*) {{ return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, "{m}"); }}'
            )
        out.append("};")
        out.append("class AsyncService : public grpc::Service { public:")
        for m, q, r in rpcs:
            out.append(
                f"void Request{m}(grpc::ServerContext*, {q}* request, grpc::ServerAsyncResponseWriter<{r}>* responder, grpc::CompletionQueue*, grpc::ServerCompletionQueue* cq, void* tag)"
                f'{{ responder->VpWait(vp_state, "{name}/{m}", request, cq, tag); }}'
            )
        out.append("}; };")
    out.append("}")
    return "\n".join(out) + "\n"


def sources(repo):
    lib = os.path.join(repo, "src/cc/lib")
    res = [os.path.join(lib, f) for f in sorted(os.listdir(lib)) if f.endswith(".cc")]
    for d in ("graph", "distributed"):
        res += [os.path.join(lib, d, f) for f in sorted(os.listdir(os.path.join(lib, d))) if f.endswith(".cc")]
    return res


def inputs(repo):
    res = [os.path.abspath(__file__)]
    for root, dirs, files in os.walk(os.path.join(repo, "src/cc/lib")):
        dirs[:] = sorted(x for x in dirs if x != "benchmark")
        res += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cc", ".h", ".proto"))]
    for root, dirs, files in os.walk(os.path.join(HERE, "shim")):
        dirs.sort()
        res += [os.path.join(root, f) for f in sorted(files)]
    return res


def digest(repo, extra=()):
    h = hashlib.sha256(repr((CXX, DEFS, tuple(extra))).encode())
    for f in inputs(repo):
        h.update(os.path.relpath(f, "/").encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[:6000])


def build(repo="/repo", root=None, flags=(), verbose=False):
    root = root or os.path.join(os.path.dirname(HERE), "build")
    kind = "native-" + "".join(sorted(x.strip("-").replace("=", "") for x in flags if x.startswith("-fsan")))
    out = os.path.join(root, kind + digest(repo, flags))
    lib = os.path.join(out, "libwrapper.so")
    if os.path.exists(lib):
        return lib
    os.makedirs(root, exist_ok=True)
    for d in os.listdir(root):
        # builds of other trees; recent ones may be in use by another check
        if d.startswith("native-") and time.time() - os.path.getmtime(os.path.join(root, d)) > 6 * 3600:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    tmp = f"{out}.{os.getpid()}"
    gen = os.path.join(tmp, "gen")
    dist = os.path.join(gen, "src/cc/lib/distributed")
    os.makedirs(dist)
    try:
        proto = os.path.join(repo, "src/cc/lib/distributed/service.proto")
        run(["protoc", f"--proto_path={repo}", f"--cpp_out={gen}", proto])
        # iterators of repeated fields are plain pointers in the version of protobuf used by the repository
        patched = os.path.join(gen, "google/protobuf")
        os.makedirs(patched)
        text = open("/usr/include/google/protobuf/repeated_field.h").read()
        old = "class RepeatedIterator {\n public:\n"
        assert text.count(old) == 1
        with open(os.path.join(patched, "repeated_field.h"), "w") as f:
            f.write("#include <iterator>\n" + text.replace(old, old + "  using iterator_concept = std::contiguous_iterator_tag;\n"))
        with open(os.path.join(dist, "service.grpc.pb.h"), "w") as f:
            f.write(service_header(proto))
        inc = ["-I", gen, "-I", os.path.join(HERE, "shim"), "-I", repo, "-I", os.path.join(repo, "src/cc/lib")]
        files = sources(repo) + [os.path.join(dist, "service.pb.cc"), os.path.join(HERE, "shim/shim.cc")]

        def compile_one(f):
            o = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest() + ".o")
            t = time.time()
            run([*CXX, *flags, *DEFS, *inc, "-c", f, "-o", o])
            if verbose:
                print(f"{time.time() - t:5.1f}s {f}")
            return o

        with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
            objs = list(ex.map(compile_one, files))
        run(["g++", "-shared", *flags, "-o", os.path.join(tmp, "libwrapper.so"), *objs, "-lprotobuf", "-labsl_raw_hash_set",
             "-labsl_hash", "-labsl_city", "-labsl_low_level_hash", "-labsl_hashtablez_sampler", "-labsl_raw_logging_internal",
             "-labsl_throw_delegate", "-lpthread", "-ldl"])
        for o in objs:
            os.remove(o)
        try:
            os.rename(tmp, out)
        except OSError:
            if not os.path.exists(lib):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp)
    return lib


if __name__ == "__main__":
    t = time.time()
    print(build(os.environ.get("VERIF_REPO", "/repo"), flags=sys.argv[1:], verbose=True), f"{time.time() - t:.1f}s")
