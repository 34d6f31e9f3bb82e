#!/usr/bin/env python3
"""prep.py REPO OUT VERIF: writes OUT/go.mod, OUT/go.sum and OUT/overlay.json.

go.mod is /repo's own (so the dependencies are the ones it pins) with the
module line replaced and /repo itself required through a replace directive.
The overlay swaps runtime/rand.go for one whose randomness is fixed and
whose map randomness comes from a state the simulator sets for every run.
"""
import json, os, re, shutil, subprocess, sys

repo, out, verif = sys.argv[1:4]

mod = open(os.path.join(repo, "go.mod")).read()
m = re.search(r"(?m)^module\s+(\S+)\s*$", mod)
if not m:
    sys.exit("prep: no module line in go.mod")
path = m.group(1)
major = re.search(r"/v(\d+)$", path)
ver = ("v%s.0.0" % major.group(1)) if major else "v0.0.0"
mod = mod.replace(m.group(0), "module verifsim", 1)
mod += "\nrequire %s %s\nreplace %s => %s\n" % (path, ver, path, repo)


def put(name, text):
    p = os.path.join(out, name)
    if os.path.exists(p) and open(p).read() == text:
        return
    open(p, "w").write(text)


put("go.mod", mod)
shutil.copyfile(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))

goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = os.path.join(goroot, "src/runtime/rand.go")
s = open(src).read()


def sub(old, new):
    global s
    if s.count(old) != 1:
        sys.exit("prep: runtime/rand.go is not as expected: %r" % old)
    s = s.replace(old, new)


sub("	if len(startupRand) >= 16 &&",
    """	startupRand = nil // verif: fixed startup randomness
	for i := range seed {
		seed[i] = byte(i*7 + 1)
	}
	if true {
	} else if len(startupRand) >= 16 &&""")
i = s.index("func maps_rand() uint64 {")
j = s.index("	return rand()\n}", i)
s = s[:j] + """	verifMapState += 0x9e3779b97f4a7c15
	z := verifMapState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

var verifMapState uint64

//go:linkname verifSetMapSeed verifsim/core.runtimeSetMapSeed
func verifSetMapSeed(x uint64) { verifMapState = x }
""" + s[j + len("	return rand()\n}"):]
put("rand.go", s)

# The outside world: the syscall package asks the simulator (world.go in
# verifsim/core) before every call to the kernel, every look at the
# environment, and before the process ends or starts another.
overlay = {src: os.path.join(out, "rand.go")}


def patch(rel, subs):
    f = os.path.join(goroot, "src", rel)
    t = open(f).read()
    for old, new in subs:
        if t.count(old) != 1:
            sys.exit("prep: %s is not as expected: %r" % (rel, old))
        t = t.replace(old, new)
    name = "std_" + rel.replace("/", "_")
    put(name, t)
    overlay[f] = os.path.join(out, name)


patch("syscall/syscall_linux.go", [
    ("func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\treturn RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n}",
     "func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif verifOn {\n\t\tvar deny bool\n\t\tif a1, a2, a3, err, deny = verifCheck(trap, a1, a2, a3); deny {\n\t\t\treturn\n\t\t}\n\t}\n\treturn verifRaw6(trap, a1, a2, a3, 0, 0, 0)\n}"),
    ("func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tvar errno uintptr\n",
     "func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif verifOn {\n\t\tvar deny bool\n\t\tif a1, a2, a3, err, deny = verifCheck(trap, a1, a2, a3); deny {\n\t\t\treturn\n\t\t}\n\t}\n\treturn verifRaw6(trap, a1, a2, a3, a4, a5, a6)\n}\n\n//go:uintptrkeepalive\n//go:nosplit\n//go:norace\nfunc verifRaw6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tvar errno uintptr\n"),
    ("func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
     "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif verifOn {\n\t\tvar deny bool\n\t\tif a1, a2, a3, err, deny = verifCheck(trap, a1, a2, a3); deny {\n\t\t\treturn\n\t\t}\n\t}\n"),
    ("	r1, r2, err = RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n", "	r1, r2, err = verifRaw6(trap, a1, a2, a3, 0, 0, 0)\n"),
    ("func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
     "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif verifOn {\n\t\tvar deny bool\n\t\tif a1, a2, a3, err, deny = verifCheck(trap, a1, a2, a3); deny {\n\t\t\treturn\n\t\t}\n\t}\n"),
    ("	r1, r2, err = RawSyscall6(trap, a1, a2, a3, a4, a5, a6)\n	runtime_exitsyscall", "	r1, r2, err = verifRaw6(trap, a1, a2, a3, a4, a5, a6)\n	runtime_exitsyscall"),
    ("func Access(path string, mode uint32) (err error) {", open(os.path.join(verif, "bin/world_syscall.go.txt")).read() + "\nfunc Access(path string, mode uint32) (err error) {"),
])
patch("syscall/env_unix.go", [
    ("func Unsetenv(key string) error {\n", "func Unsetenv(key string) error {\n\tif verifOn {\n\t\treturn verifSetenv(\"unsetenv\", key, \"\")\n\t}\n"),
    ("func Getenv(key string) (value string, found bool) {\n", "func Getenv(key string) (value string, found bool) {\n\tif verifOn {\n\t\treturn verifGetenv(key)\n\t}\n"),
    ("func Setenv(key, value string) error {\n", "func Setenv(key, value string) error {\n\tif verifOn {\n\t\treturn verifSetenv(\"setenv\", key, value)\n\t}\n"),
    ("func Clearenv() {\n", "func Clearenv() {\n\tif verifOn {\n\t\tverifSetenv(\"clearenv\", \"\", \"\")\n\t\treturn\n\t}\n"),
    ("func Environ() []string {\n", "func Environ() []string {\n\tif verifOn {\n\t\tv, _ := verifGetenv(\"*\")\n\t\treturn []string{\"CANARY=\" + v}\n\t}\n"),
])
patch("syscall/exec_unix.go", [
    ("func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
     "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif verifOn {\n\t\treturn 0, verifFork(argv0, argv)\n\t}\n"),
    ("func Exec(argv0 string, argv []string, envv []string) (err error) {\n",
     "func Exec(argv0 string, argv []string, envv []string) (err error) {\n\tif verifOn {\n\t\treturn verifFork(argv0, argv)\n\t}\n"),
])
patch("os/proc.go", [
    ("func Exit(code int) {\n", "func Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"),
    ("// Exit causes", "// VerifExit, if set, is called instead.\nvar VerifExit func(code int)\n\n// Exit causes"),
])
# every word the library's sources mention: candidates for the names of
# special forms, which are bound nowhere
words = set()
zy = os.path.join(repo, "zygo")
for f in sorted(os.listdir(zy)):
    if f.endswith(".go") and not f.endswith("_test.go") and not f.startswith("verif_"):
        t = open(os.path.join(zy, f), errors="replace").read()
        for w in re.findall(r'"([^"\\\s]{1,24})"', t) + re.findall(r'`([^`\\\s]{1,24})`', t):
            if not re.search(r"[()\[\]{};,'%~#/\"`^]|^[0-9.]|:.|\..", w):
                words.add(w)
put("words.txt", "\n".join(sorted(words)) + "\n")
corpus = []
td = os.path.join(repo, "tests")
for f in sorted(os.listdir(td)):
    if f.endswith(".zy"):
        corpus.append([f, open(os.path.join(td, f), errors="replace").read()])
put("corpus.json", json.dumps(corpus))
put("overlay.json", json.dumps({"Replace": overlay}))
