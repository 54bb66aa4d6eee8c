"""Builds the program that replays schedules: the checked IR itself, with a scheduling call before every
atomic operation, compiled by the toolchain's llc and linked with sched/rt.c."""
import os, re, subprocess

ATOMIC = re.compile(r"^\s+(%[\w.$\-]+ = )?(tail )?(load atomic|store atomic|cmpxchg|atomicrmw)\b")
RENAME = {"syscall": "vp_syscall", "sched_yield": "vp_sched_yield", "__cxa_thread_atexit_impl": "vp_cxa_thread_atexit"}
for n in ("malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc"):
    RENAME[n] = "vp_" + n
NAMES = re.compile(r"@(%s)\b(?!\.)" % "|".join(map(re.escape, RENAME)))


def build(ll, out, root, run):
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True, env=dict(os.environ, RUSTUP_TOOLCHAIN="stable")).stdout.strip()
    tools = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    base = out + ".tmp"
    entries = []
    with open(ll) as f, open(base + ".ll", "w") as g:
        for line in f:
            if ATOMIC.match(line):
                g.write("  call void @vp_sched_point()\n")
            if "@" in line:
                line = NAMES.sub(lambda m: "@" + RENAME[m.group(1)], line)
                m = re.match(r"^define .*@(h_\w+)\(", line)
                if m:
                    entries.append(m.group(1))
                line = re.sub(r"^(define .*)@main\(", r"\1@vp_rust_main(", line)
            g.write(line)
        g.write("\ndeclare void @vp_sched_point()\n")
    with open(base + ".c", "w") as g:
        g.write('#include "%s"\n' % os.path.join(root, "sched", "rt.c"))
        for e in entries:
            g.write("extern void %s(void);\n" % e)
        g.write("const struct entry vp_entries[] = {%s{0, 0}};\n" % "".join('{"%s", %s}, ' % (e, e) for e in entries))
    run([os.path.join(tools, "llc"), "-O1", "--relocation-model=pic", "-filetype=obj", base + ".ll", "-o", base + ".o"], root)
    run(["cc", "-O1", "-g", "-w", base + ".c", base + ".o", "-o", base, "-lpthread", "-lgcc_s", "-lm", "-ldl"], root)
    for x in (".ll", ".c", ".o"):
        os.remove(base + x)
    os.rename(base, out)
