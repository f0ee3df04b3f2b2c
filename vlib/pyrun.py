"""Runs Python code of the repository over many inputs in forked children: an exception, a hang or a
dead process is the outcome of one input, never of the check."""
import multiprocessing
import os
import signal
import threading
import warnings

_ctx = multiprocessing.get_context("fork")


def _child(fn, items, todo, conn):
    warnings.simplefilter("ignore")
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    for i in todo:
        conn.send((i, None))
        try:
            r = {"ok": fn(items[i])}
        except Exception as e:
            r = {"exc": type(e).__name__, "msg": str(e)[:300]}
        conn.send((i, r))
    conn.close()


def _drive(fn, items, todo, out, timeout):
    todo = list(todo)
    while todo:
        a, b = _ctx.Pipe()
        p = _ctx.Process(target=_child, args=(fn, items, todo, b), daemon=True)
        p.start()
        b.close()
        cur, why = None, "died"
        try:
            while True:
                if not a.poll(timeout):
                    why = "hang"
                    break
                i, r = a.recv()
                cur = i
                if r is not None:
                    out[i] = r
                    todo.remove(i)
                    cur = None
        except EOFError:
            pass
        if p.is_alive():
            os.kill(p.pid, signal.SIGKILL)
        p.join()
        a.close()
        if todo:
            i = cur if cur is not None else todo[0]
            out[i] = {"exc": "Crash", "msg": why}
            todo.remove(i)


def guarded(fn, items, timeout=30, workers=7):
    """[{"ok": result} or {"exc": class name, "msg": text}] for fn over items."""
    items = list(items)
    out = [None] * len(items)
    th = [threading.Thread(target=_drive, args=(fn, items, range(w, len(items), workers), out, timeout))
          for w in range(min(workers, len(items)))]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return out
