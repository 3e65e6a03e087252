"""Runs instrumented workloads, collects the event logs, decides."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from build import VERIF

OUT = os.path.join(VERIF, "out")

ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob": "tcp",
    "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "OMPI_MCA_orte_abort_print_stack": "0",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:"
                    "detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:"
                    "alloc_dealloc_mismatch=0:"
                    "strict_init_order=0:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:suppress_equal_stacks=1:"
                    "suppress_equal_addresses=0:report_bugs=1:history_size=4:"
                    "ignore_noninstrumented_modules=1:report_thread_leaks=0:"
                    "report_signal_unsafe=0:detect_deadlocks=0:"
                    "external_symbolizer_path=/usr/bin/llvm-symbolizer-18",
}


# what the behavioural monitors report of the memory
MEMORY = {"memory-not-returned"}


class Stream:
    """A sequence of cases [start, start+count) of one workload."""

    def __init__(self, exe, prop, nprocs, variant, seed, start, count, tier,
                 threads=1, case_limit=90, workload=None,
                 crash_only=False):
        self.exe, self.prop, self.nprocs = exe, prop, nprocs
        self.variant, self.seed = variant, seed
        self.start, self.count, self.tier = start, count, tier
        self.threads, self.case_limit = threads, case_limit
        # the behavioural monitors are judged by other properties
        self.crash_only = crash_only
        self.reports = 0
        self.workload = workload or prop
        self.events = []
        self.viols = []
        self.inconclusive = []
        self.wall = 0.0
        self.dir = None


def _launch(st, start, count, outdir, limit, max_viol=3):
    env = dict(os.environ)
    env.update(ENV)
    env["DEAL_II_NUM_THREADS"] = str(st.threads)
    env["TMPDIR"] = outdir
    if st.variant == "tsan":
        # the shared memory of PMIx collides with that of ThreadSanitizer
        env["PMIX_MCA_gds"] = "hash"
    cmd = [st.exe, st.workload, str(st.seed), str(start), str(count), st.tier,
           st.variant, outdir, str(max_viol)]
    if st.nprocs > 1:
        cmd = ["/usr/bin/mpiexec", "-n", str(st.nprocs)] + cmd
    logs = [os.path.join(outdir, f"log.{r}.jsonl") for r in range(st.nprocs)]
    so = open(os.path.join(outdir, "stdout"), "ab")
    so_start = so.tell()
    p = subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=env,
                         cwd=outdir, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    last = None
    t_last = time.time()
    hung = False
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - t_last < 2 else 0.3)
            break
        except subprocess.TimeoutExpired:
            pass
        sz = [os.path.getsize(x) if os.path.exists(x) else 0 for x in logs]
        if sz != last:
            last, t_last = sz, time.time()
        elif time.time() - t_last > limit:
            hung = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            break
    so.close()
    with open(os.path.join(outdir, "stdout"), "rb") as f:
        f.seek(so_start)
        text = f.read().decode(errors="replace")
    return p.returncode, hung, text


def _read_logs(outdir, nprocs, offsets):
    evs = []
    for r in range(nprocs):
        path = os.path.join(outdir, f"log.{r}.jsonl")
        if not os.path.exists(path):
            continue
        with open(path, "rb") as f:
            f.seek(offsets.get(r, 0))
            data = f.read()
        # a killed process may leave an incomplete last line
        cut = data.rfind(b"\n") + 1
        offsets[r] = offsets.get(r, 0) + len(data)
        for line in data[:cut].decode(errors="replace").split("\n"):
            if line:
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                e["rank"] = r
                evs.append(e)
    return evs


def crash_signature(text):
    """A stable key for a crash report."""
    for pat, name in (
            (r"ERROR: AddressSanitizer: ([\w-]+)", "asan-"),
            (r"runtime error: (.{0,60})", "ubsan-"),
            (r"(Assertion '[^']*' failed)", "glibcxx-"),
            (r"The name and call sequence of the exception was:\s*(\w+)",
             "contract-"),
            (r"Signal: (\w+[ \w]*)\(", "signal-"),
            (r"terminate called after throwing an instance of '([^']*)'",
             "terminate-")):
        m = re.search(pat, text)
        if m:
            s = re.sub(r"0x[0-9a-f]+", "PTR", m.group(1))
            s = re.sub(r"-?\d[\d.e+-]*", "N", s)
            return (name + s.strip()).replace(" ", "_")[:90]
    return "crash"


def run_stream(st, deadline=None):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    st.dir = tempfile.mkdtemp(prefix=f"{st.prop}-n{st.nprocs}-", dir=OUT)
    pos, end = st.start, st.start + st.count
    relaunch = 0
    offsets = {}
    while pos < end:
        if deadline and time.time() > deadline:
            st.inconclusive.append(f"time budget reached before case {pos}")
            break
        rc, hung, text = _launch(st, pos, end - pos, st.dir, st.case_limit,
                                 10**9 if st.crash_only else 3)
        evs = _read_logs(st.dir, st.nprocs, offsets)
        st.events += evs
        v = [e for e in evs if e["ev"] == "viol"]
        reported_cases = {e["case"] for e in v}
        if st.crash_only:
            n = len(v)
            v = [e for e in v if e["key"] in MEMORY]
            st.reports += n - len(v)
        done = any(e["ev"] in ("done", "stop") for e in evs)
        for e in v:
            e["nprocs"], e["variant"], e["seed"] = (st.nprocs, st.variant,
                                                    st.seed)
            e["threads"], e["workload"] = st.threads, st.workload
            e["exe"] = os.path.basename(st.exe)
            st.viols.append(e)
        if any(e["ev"] == "stop" for e in evs):
            break
        if rc == 0 and not hung:
            break
        # abnormal end: which case was running?
        begun = [e["case"] for e in evs if e["ev"] == "begin"]
        if not begun:
            if relaunch >= 2:
                st.inconclusive.append(
                    f"workload does not start (rc={rc}): {text[-600:]}")
                break
            relaunch += 1
            time.sleep(1)
            continue
        cur = max(begun)
        if st.crash_only and rc == 42:
            pos = cur + 1
            continue
        reported = cur in reported_cases
        if not reported:
            # Run this one case again, alone: a failure that does not show
            # again is not a violation - but a schedule need not come again,
            # and then a report of the memory error itself is enough.
            first = crash_signature(text) if not hung else "hang"
            tries = 3 if st.threads > 1 and not hung else 1
            for _ in range(tries):
                d2 = tempfile.mkdtemp(prefix="confirm-", dir=st.dir)
                rc2, hung2, text2 = _launch(st, cur, 1, d2,
                                            2 * st.case_limit)
                ev2 = _read_logs(d2, st.nprocs, {})
                v2 = [e for e in ev2 if e["ev"] == "viol"]
                if v2 or rc2 != 0 or hung2:
                    break
            bad = rc2 != 0 or hung2
            if v2 and st.crash_only:
                n = len(v2)
                v2 = [e for e in v2 if e["key"] in MEMORY]
                st.reports += n - len(v2)
                bad = bad and rc2 != 42
            if not v2 and not bad and st.threads > 1 and re.match(
                    "asan|ubsan|glibcxx|signal-(Segm|Abort)", first):
                bad, hung2, text2 = True, False, text
            for e in v2:
                e.update(nprocs=st.nprocs, variant=st.variant, seed=st.seed,
                         threads=st.threads, workload=st.workload,
                         exe=os.path.basename(st.exe))
                st.viols.append(e)
            if not v2 and bad:
                key = "hang" if hung2 else crash_signature(text2)
                st.viols.append({
                    "ev": "viol", "case": cur, "rank": -1, "key": key,
                    "label": "", "msg": _crash_excerpt(text2) if not hung2
                    else f"no progress for {2 * st.case_limit} s",
                    "nprocs": st.nprocs, "variant": st.variant,
                    "seed": st.seed, "threads": st.threads,
                    "workload": st.workload, "exe": os.path.basename(st.exe)})
                if hung2:
                    break
            elif not v2:
                st.inconclusive.append(
                    f"case {cur} ended abnormally once (rc={rc}, hung={hung})"
                    f" and ran clean when repeated")
        if len({e["case"] for e in st.viols}) >= 4:
            break
        pos = cur + 1
    st.wall = time.time() - t0
    return st


def _crash_excerpt(text):
    keep = []
    for line in text.splitlines():
        if re.search(r"ERROR: AddressSanitizer|runtime error|Assertion|"
                     r"An error occurred in|violated condition|in function|"
                     r"Signal:|terminate called|what\(\)|/repo/|SUMMARY", line):
            keep.append(line.strip())
        if len(keep) > 12:
            break
    return " | ".join(keep)[:1500] or text[-800:]


def cleanup(st):
    if st.dir and os.path.isdir(st.dir) and st.dir.startswith(OUT + "/"):
        shutil.rmtree(st.dir, ignore_errors=True)
