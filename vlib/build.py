"""Builds one harness from /repo's working tree (ninja; only what the harness reaches)."""
import fcntl, os, re, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
INC = re.compile(r'^\s*#\s*include\s*[<"]([^>"]+)[>"]', re.M)
DEFINED_IN = {
    "recorder/grpc_transporter.h": ["src/recorder/no_grpc_transporter.cpp"],
    "network/dns_resolver.h": ["src/network/ares_dns_resolver/ares_dns_resolver.cpp"],
}
NEVER = {"src/recorder/no_stream_recorder.cpp", "src/network/no_dns_resolver.cpp", "src/common/version_check.cpp"}
GENERATED = {
    "collector.pb.h": "lightstep-tracer-common/collector.pb.cc",
    "lightstep_carrier.pb.h": "lightstep-tracer-common/lightstep_carrier.pb.cc",
    "tracer_configuration.pb.h": "lightstep-tracer-configuration/tracer_configuration.pb.cc",
}

COMMON_INC = ["-I{b}/headers/include", "-I{r}/include", "-I{r}/src", "-I{r}", "-isystem", "{b}/gen",
              "-isystem", "{b}/gen/lightstep-tracer-common", "-isystem", "{b}/gen/lightstep-tracer-configuration",
              "-isystem", "{r}/3rd_party/base64/include", "-I{v}/shim", "-I{v}/mc", "-I{v}/fakes", "-I{v}/harness"]
VARIANTS = {
    "asan": dict(cxx="g++", flags="-O1 -g1 -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer",
                 rt="-O1 -g1", link="-fsanitize=address,undefined"),
    "mct": dict(cxx="clang++", flags="-O1 -g1 -ftrivial-auto-var-init=pattern -fsanitize=thread -fno-omit-frame-pointer -mllvm -tsan-instrument-func-entry-exit=0",
                rt="-O2 -g1", link="-no-pie"),
    "plain": dict(cxx="g++", flags="-O1 -g1 -ftrivial-auto-var-init=pattern", rt="-O1 -g1", link=""),
}


def all_cpps():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".cpp") and not f.endswith("_windows.cpp") and "grpc_transporter/" not in p and p not in NEVER:
                out.append(p)
    return out


def closure(harness, extra, skip):
    """Every repository .cpp reachable from the harness through includes."""
    cpps = all_cpps()
    by_base = {}
    for p in cpps:
        by_base.setdefault(re.sub(r"_unix$", "", os.path.splitext(os.path.basename(p))[0]), []).append(p)
    # .cpp files matching no header name are always candidates of their directory
    todo, seen, srcs, gen = [harness] + [os.path.join(REPO, e) for e in extra], set(), set(extra), set()
    base64 = False
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        try:
            text = open(f, errors="replace").read()
        except OSError:
            continue
        for name in INC.findall(text):
            base = os.path.basename(name)
            if base in GENERATED:
                gen.add(GENERATED[base])
                continue
            if "base64/base64.h" in name:
                base64 = True
            for root in [os.path.dirname(f), REPO + "/src", REPO + "/include", REPO, VERIF + "/harness", VERIF + "/fakes"]:
                q = os.path.normpath(os.path.join(root, name))
                if os.path.isfile(q):
                    todo.append(q)
                    if q.startswith(REPO):
                        rel = os.path.relpath(q, REPO)
                        stem = re.sub(r"\.(h|hpp)$", "", rel)
                        found = [p for p in (stem + ".cpp", stem + "_unix.cpp") if p in cpps]
                        if not found:
                            found = by_base.get(os.path.basename(stem), [])
                        if rel == "include/lightstep/tracer.h" and not f.startswith(VERIF):
                            found = []  # merely names a constant or type
                        found = found + DEFINED_IN.get(re.sub("^src/", "", rel), [])
                        for p in found:
                            if p not in skip and p not in srcs and p in cpps:
                                srcs.add(p)
                                todo.append(os.path.join(REPO, p))
                    break
    if "src/tracer/tracer.cpp" in srcs:
        srcs.add("src/tracer/no_default_ssl_roots_pem.cpp")
    if any("lightstep_carrier" in g or "collector" in g for g in gen):
        gen |= {"lightstep-tracer-common/google/api/http.pb.cc", "lightstep-tracer-common/google/api/annotations.pb.cc"}
    srcs -= set(skip)
    return sorted(srcs), sorted(gen), base64


def meta(path):
    m = {"variant": "asan", "extra": "", "wrap": "", "fakes": "", "libs": "", "skip": "", "flags": "", "std": "gnu++17"}
    for line in open(path):
        if line.startswith("// mc:"):
            for kv in line[6:].split():
                k, v = kv.split("=", 1)
                m[k] = v
    return m


def build(name, quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hpath = os.path.join(VERIF, "harness", name + ".cpp")
    m = meta(hpath)
    var = VARIANTS[m["variant"]]
    ls = lambda k: [x for x in m[k].split(",") if x]
    srcs, gen, base64 = closure(hpath, ls("extra"), ls("skip"))
    fmt = lambda s: s.format(b=BUILD, r=REPO, v=VERIF)
    inc = " ".join(fmt(i) for i in COMMON_INC)
    # version.h
    hdr = os.path.join(BUILD, "headers", "include", "lightstep", "version.h")
    if not os.path.exists(hdr) or os.path.getmtime(hdr) < max(os.path.getmtime(REPO + "/version.h.in"),
                                                             os.path.getmtime(REPO + "/CMakeLists.txt")):
        r = subprocess.run(["cmake", "-S", REPO, "-B", BUILD + "/headers", "-G", "Ninja", "-DHEADERS_ONLY=ON",
                            "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "--log-level=ERROR", "--no-warn-unused-cli"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(hdr):
            sys.stderr.write(r.stdout.decode(errors="replace"))
            raise SystemExit(2)
        os.utime(hdr)
    n = ["builddir = " + BUILD,
         "rule cc\n command = $cxx -std=$std $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $out",
         "rule link\n command = $cxx @$out.rsp -o $out $lflags\n rspfile = $out.rsp\n rspfile_content = $in\n description = LINK $out",
         "rule ar\n command = rm -f $out && ar crs $out @$out.rsp\n rspfile = $out.rsp\n rspfile_content = $in\n description = AR $out",
         "rule proto\n command = mkdir -p $outdir && protoc --proto_path=$root --proto_path={r}/lightstep-tracer-common/third_party/protobuf --proto_path={r}/lightstep-tracer-common/third_party/googleapis --cpp_out=$outdir $in\n description = PROTOC $in".format(r=REPO)]
    LTC = REPO + "/lightstep-tracer-common"
    protos = [(LTC + "/third_party/googleapis", "lightstep-tracer-common/", "google/api/http"),
              (LTC + "/third_party/googleapis", "lightstep-tracer-common/", "google/api/annotations"),
              (LTC, "lightstep-tracer-common/", "collector"),
              (LTC, "lightstep-tracer-common/", "lightstep_carrier"),
              (REPO + "/lightstep-tracer-configuration", "lightstep-tracer-configuration/", "tracer_configuration")]
    ph = []
    for root, prefix, f in protos:
        o = "%s/gen/%s%s.pb" % (BUILD, prefix, f)
        n.append("build %s.cc %s.h: proto %s/%s.proto\n root = %s\n outdir = %s/gen/%s" % (o, o, root, f, root, BUILD, prefix))
        ph.append(o + ".h")
    objs = []
    vdir = "%s/%s" % (BUILD, m["variant"])
    cflags = "%s -pthread -w -DMC_VARIANT_%s=1 %s" % (var["flags"], m["variant"], inc)

    def cc(src, obj, cxx, std, flags, oo=True):
        n.append("build %s: cc %s%s\n cxx = %s\n std = %s\n flags = %s" %
                 (obj, src, " || " + " ".join(ph) if oo else "", cxx, std, flags))
        objs.append(obj)

    for s in srcs:
        cc(REPO + "/" + s, vdir + "/" + s[:-4] + ".o", var["cxx"], "gnu++11", cflags)
    if base64:
        cc(REPO + "/3rd_party/base64/src/base64.cpp", vdir + "/base64.o", var["cxx"], "gnu++11", cflags)
    lib, objs = objs, []
    for g in gen:
        cc(BUILD + "/gen/" + g, "%s/pb/%s.o" % (BUILD, g), "g++", "gnu++11", "-O1 -fPIE -pthread -w " + inc)
    cc(hpath, vdir + "/harness/" + name + ".o", var["cxx"], m["std"], cflags + " " + m["flags"].replace(";", " "))
    for f in ls("fakes"):
        # fakes are environment, not code under test: plain compile, except under asan
        fl = "%s -pthread -w -DMC_VARIANT_%s=1 %s" % (var["rt"], m["variant"], inc)
        cc(VERIF + "/fakes/" + f + ".cpp", vdir + "/fakes/" + f + ".o", var["cxx"], m["std"], fl)
    rt = "%s -pthread -Wall -DMC_VARIANT_%s=1 -I%s/mc" % (var["rt"], m["variant"], VERIF)
    cc(VERIF + "/mc/mc.cpp", vdir + "/mc.o", var["cxx"], "gnu++17", rt, False)
    if m["variant"] == "mct":
        cc(VERIF + "/mc/threads.cpp", vdir + "/threads.o", var["cxx"], "gnu++17", rt, False)
    lf = var["link"] + " -pthread"
    for w in ls("wrap"):
        lf += " -Wl,--wrap=" + w
    for l in ls("libs"):
        lf += " -l" + l
    lf += " -lprotobuf -ldl"
    exe = "%s/bin/%s" % (BUILD, name)
    if lib:
        a = "%s/bin/%s.a" % (BUILD, name)
        n.append("build %s: ar %s" % (a, " ".join(lib)))
        objs.append(a)
    n.append("build %s: link %s\n cxx = %s\n lflags = %s" % (exe, " ".join(objs), var["cxx"], lf))
    nf = "%s/%s.ninja" % (BUILD, name)
    text = "\n".join(n) + "\n"
    if not os.path.exists(nf) or open(nf).read() != text:
        open(nf, "w").write(text)
    r = subprocess.run(["ninja", "-k", "0", "-f", nf, exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=BUILD)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-12000:])
        raise SystemExit(2)
    lock.close()
    return exe


if __name__ == "__main__":
    for a in sys.argv[1:]:
        print(build(a))
