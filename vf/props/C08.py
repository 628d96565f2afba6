import select, signal, threading
import ops
from world import *

LEVEL = "fault_enumeration"
RULE = ("Each case prepares stores and one command (every subcommand, several situations each), counts the file-system events of an undisturbed run "
        "and then kills the command with SIGKILL at every one of them (before it, and in the middle of every write), in thinned-out form for "
        "runs with very many events; with S3 also before and after each request is served. After each kill the stores are checked, the same command is run "
        "again (sometimes killed once more) and the state is compared with the undisturbed one. Distinct by command, remote, kind "
        "of event and position of the kill.")
ASSUMPTIONS = ["a crash is the death of the process; data the kernel has accepted is not lost (no power failures)"]


def cases(tier, rng):
    n = 3 if tier == "quick" else 40
    cs = []
    for j in range(n):
        for k in ops.ALL:
            cs.append(dict(op=k, remote="dir", big=j % 2 == 1, i=j))
            if j % 2 == 0:
                cs.append(dict(op=k, remote="s3", big=False, i=j))
    return cs


def run(d, w, obs):
    rng = w.rng
    o = ops.make(w, rng, d["op"], d["remote"], d["big"])
    # foreign files that a crash must not touch either
    write(os.path.join(w.local, "notes.txt"), b"mine")
    o.l0 = w.lfiles()
    ref = ops.reference(w, o, obs)
    evs = [e for e in ref.events if e.cls == "M"]
    points = []
    for i, e in enumerate(evs, 1):
        points.append((i, "before", e))
        if e.op == "write" and e.n > 1:
            points.append((i, "partial", e))
    points.append((len(evs), "after", evs[-1])) if evs else None
    most = 60 if ref.usage is None or ref.usage.ru_utime + ref.usage.ru_stime < .15 else 24
    if len(points) > most:
        keep = [p for p in points if p[2].op != "write"]
        rest = [p for p in points if p[2].op == "write"]
        points = keep + rng.sample(rest, max(0, min(len(rest), most - len(keep))))
    for i, mode, e in points:
        r = w.run(*o.args, shim=dict(kill=i, kmode=mode))
        what = "%s killed %s event %d of %d (%s %s)" % (d["op"], mode, i, len(evs), e.op, os.path.basename(e.path2 or e.path))
        if r.rc != -signal.SIGKILL:
            # scheduling may shorten the run (parallel uploads): it must then have succeeded
            if not r.ok:
                raise Violation("%s: not killed, but failed: %s" % (what, r))
        judge(w, o, obs, what, rng)
        obs.count("kills_judged")
        obs.key(d["op"], d["remote"], d["big"], e.op, mode, i)
    if w.srv:
        s3points(d, w, o, obs, rng, ref)
    obs.sample = dict(command=o.args[0], op=d["op"], remote=d["remote"], events=len(evs), kill_points=len(points))


def judge(w, o, obs, what, rng):
    ops.verify(w, o, what)
    tries = 0
    if rng.random() < .15:
        w.run(*o.args, shim=dict(kill=rng.randint(1, 12), kmode=rng.choice(["before", "after", "partial"])))
        ops.verify(w, o, what + ", then killed once more")
        tries = 1
    r = w.run(*o.args)
    if not r.ok:
        raise Violation("%s: the next run failed: %s" % (what, r))
    ops.verify(w, o, what + ", then run again", final=True)
    w.restore(o.saved)
    obs.count("recoveries_judged", 1 + tries)


def rec_kind(ref, i):
    return ref.requests[i]["kind"]


def slay(pid):
    """kill and see it dead, without reaping it"""
    try:
        fd = os.pidfd_open(pid)
        try:
            signal.pidfd_send_signal(fd, signal.SIGKILL)
            select.select([fd], [], [], 60)
        finally:
            os.close(fd)
    except ProcessLookupError:
        pass


def s3points(d, w, o, obs, rng, ref):
    """kill when the n-th request arrives / has been served"""
    n = len(ref.requests)
    for i in range(n):
        for mode in ("arrived", "served", "answering"):
            box, ready = [], threading.Event()
            count = [0]
            base = len(w.srv.log)

            def hook(rec):
                with w.srv.mu:
                    count[0] += 1
                    mine = count[0] == i + 1
                if not mine:
                    return None
                ready.wait(10)
                a = w.srv.serve(rec) if mode != "arrived" else None
                if mode == "answering" and a is not None:
                    a.cut = len(a.body) // 2
                    a.after = lambda: (time.sleep(.01), slay(box[0].pid))
                    return a
                slay(box[0].pid)
                import s3
                return s3.Answer(drop=True)
            w.srv.hook = hook
            h = w.start(*o.args)
            box.append(h[0])
            ready.set()
            r = w.finish(h)
            w.srv.hook = None
            what = "%s (S3) killed when request %d of %d had %s" % (d["op"], i + 1, n, mode)
            if r.ok and (mode != "answering" or rec_kind(ref, i) == "GET"):
                raise Inconclusive("kill did not happen: " + what)
            judge(w, o, obs, what, rng)
            obs.count("kills_at_requests_judged")
            obs.key(d["op"], "s3", mode, i)
