#!/usr/bin/env python3
"""Builds the checking harness of one property from /repo's current working tree and runs it.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself could not run.
"""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/amarin/gomorphy"
ZZ = "internal/zz_verif"

HARNESS = {
    **{p: "storage" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")},
    **{p: "dagcheck" for p in ("D01", "D02", "D03", "D04", "D05")},
    **{p: "indexcheck" for p in ("I01", "I02", "I03", "I04", "I05", "I06", "I08", "I09", "D06")},
    "I07": "conccheck",
    **{p: "occheck" for p in ("O01", "O02", "O03", "O04", "O05", "O06", "O08")},
    "X01": "consolecheck",
    "X02": "occheck",
    "O07": "docscheck",
}


def go_env(scratch):
    env = dict(os.environ)
    env.update(
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
        GO111MODULE="on", GOTMPDIR=scratch, HOME=env.get("HOME", "/root"),
    )
    env["PATH"] = "/usr/local/go/bin:" + env.get("PATH", "")
    for name in ("GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT"):
        env.pop(name, None)
    return env


def fail(message):
    print("ERROR: " + message, flush=True)
    sys.exit(2)


def make_modfile(scratch, libxml=VERIF + "/stubs/libxml", more=""):
    with open(os.path.join(REPO, "go.mod")) as source:
        text = source.read()
    text += "\nreplace github.com/amarin/logging => %s/stubs/logging\n" % VERIF
    text += "\nreplace github.com/amarin/libxml => %s\n" % libxml
    text += more
    path = os.path.join(scratch, "go.mod")
    with open(path, "w") as target:
        target.write(text)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    return path


def add_package(replace, name, target=None):
    folder = os.path.join(VERIF, "harness", name)
    for entry in sorted(os.listdir(folder)):
        if entry.endswith(".go"):
            replace[os.path.join(REPO, ZZ, target or name, entry)] = os.path.join(folder, entry)


def run(args, env, cwd, what):
    done = subprocess.run(args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if done.returncode != 0:
        print(done.stdout[-6000:])
        fail("can not " + what)
    return done.stdout


def build(scratch, name, env, prop=""):
    modfile = make_modfile(scratch)
    replace = {}
    add_package(replace, "mc")
    add_package(replace, name)
    flags = []

    if name in ("conccheck", "occheck"):
        # instrumented copies of the packages under test, generated from the current sources by a source rewriter
        tool = os.path.join(scratch, "instr")
        run(["go", "build", "-o", tool, "."], env, os.path.join(VERIF, "tools", "instr"), "build the instrumenter")
        out = os.path.join(scratch, "instrumented")
        os.makedirs(out)

    if name == "conccheck":
        add_package(replace, "sched")
        replace.update(json.loads(run([tool, "sched", REPO, out], env, REPO, "instrument the sources")))
        flags = ["-race"]

    if name == "occheck":
        replace.update(json.loads(run([tool, "simos", REPO, out], env, REPO, "instrument the sources")))
        for folder, source in (
            ("libxml", os.path.join(VERIF, "stubs", "libxml")),
            ("binutils", run(
                ["go", "list", "-modfile=" + modfile, "-m", "-f", "{{.Dir}}", "github.com/amarin/binutils"],
                env, REPO, "find binutils").strip()),
        ):
            os.makedirs(os.path.join(scratch, folder))
            run([tool, "copy", source, os.path.join(scratch, folder)], env, REPO, "instrument " + folder)
        modfile = make_modfile(
            scratch, os.path.join(scratch, "libxml"),
            "\nreplace github.com/amarin/binutils => %s\n\nrequire verif.local/sim v0.0.0\n\nreplace verif.local/sim => %s\n"
            % (os.path.join(scratch, "binutils"), os.path.join(VERIF, "stubs", "sim")))

    overlay = os.path.join(scratch, "overlay.json")
    with open(overlay, "w") as target:
        json.dump({"Replace": replace}, target)

    binary = os.path.join(scratch, name)
    run(
        ["go", "build"] + flags
        + ["-modfile=" + modfile, "-overlay=" + overlay, "-o", binary, "./%s/%s" % (ZZ, name)],
        env, REPO, "build the harness against the working tree",
    )

    if name == "consolecheck":
        console = os.path.join(scratch, "console")
        folder = os.path.join(scratch, "console_modfile")
        os.makedirs(folder)
        editor = make_modfile(folder, more="\nreplace github.com/chzyer/readline => %s/stubs/readline\n" % VERIF)
        run(
            ["go", "build", "-modfile=" + editor, "-o", console, "./cmd/opencorpora_test"],
            env, REPO, "build the inspection console",
        )
        env["VERIF_CONSOLE"] = console

    if prop == "X02":
        update = os.path.join(scratch, "opencorpora_update")
        folder = os.path.join(scratch, "update_modfile")
        os.makedirs(folder)
        run(
            ["go", "build", "-modfile=" + make_modfile(folder), "-o", update, "./cmd/opencorpora_update"],
            env, REPO, "build the update command",
        )
        env["VERIF_UPDATE"] = update

    return binary


def fresh(work):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)


# Ends of a process by the code under test: a fatal error of the Go runtime, or its end for taking all memory.
ENDED = (2, -9)


def limited(prop, tier=os.environ.get("VERIF_TIER", "quick")):
    """Address space for code which takes memory without end: it is to fail by itself (the race detector needs more of it)."""
    if HARNESS[prop] == "conccheck":
        return None
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    size = (24 if "thorough" in sys.argv or tier == "thorough" else 12) << 30
    if hard != resource.RLIM_INFINITY and hard < size:
        return None
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (size, hard))


def crashed(binary, env, work, scratch, prop, replay, code):
    """The code under test ended the whole process (stack overflow, concurrent map access, exit): find the case."""
    print("the harness ended with %d" % code, flush=True)
    if replay:
        if code not in ENDED:
            return 2
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    track = os.path.join(scratch, "track")
    os.makedirs(track)
    fresh(work)
    if subprocess.call([binary], env=dict(env, VERIF_TRACK=track), cwd=work, stderr=subprocess.DEVNULL, preexec_fn=limited(prop)) in (0, 1):
        print("ERROR: the harness does not end so again")
        return 2
    for name in sorted(os.listdir(track)):
        path = os.path.join(track, name)
        fresh(work)
        if subprocess.call([binary], env=dict(env, VERIF_REPLAY=path), cwd=work, stderr=subprocess.DEVNULL, preexec_fn=limited(prop)) in ENDED:
            kept = os.path.join(VERIF, "replays", prop + ".crash.json")
            os.makedirs(os.path.dirname(kept), exist_ok=True)
            shutil.copy(path, kept)
            print("VIOLATION property=%s replay=%s" % (prop, kept))
            return 1
    print("ERROR: no single case ends the harness so")
    return 2


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = ""
    prop = ""
    while args:
        arg = args.pop(0)
        if arg == "--tier":
            tier = args.pop(0)
        elif arg == "--replay":
            replay = os.path.abspath(args.pop(0))
        else:
            prop = arg
    if prop not in HARNESS:
        fail("unknown property %r" % prop)

    scratch = tempfile.mkdtemp(prefix="gomorphy_verif_")
    try:
        env = go_env(scratch)
        binary = build(scratch, HARNESS[prop], env, prop)
        work = os.path.join(scratch, "work")
        os.makedirs(work)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        env.update(
            VERIF_PROPERTY=prop, VERIF_TIER=tier, VERIF_REPLAY=replay,
            VERIF_EVIDENCE=os.path.join(VERIF, "evidence", prop + ".json"),
            VERIF_REPLAYS=os.path.join(VERIF, "replays"),
            VERIF_KNOWN=os.path.join(VERIF, "KNOWN_FINDINGS.txt"),
            VERIF_SCRATCH=work, TMPDIR=work, GOMEMLIMIT="16GiB", GOGC="400", GOTRACEBACK="single",
        )
        env.pop("VERIF_TRACK", None)
        sys.stdout.flush()
        code = subprocess.call([binary], env=env, cwd=work, preexec_fn=limited(prop))
        if code not in (0, 1):
            code = crashed(binary, env, work, scratch, prop, replay, code)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
