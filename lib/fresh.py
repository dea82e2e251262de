"""
Replay in a fresh process.

A zygote is forked before the first case of a worker, that is in a process that
has just imported the library.  It forks one child per request; the child loads
a JSON file, runs it with the matplotlib backend and writes the images of the
canvases.
"""
import os, socket, struct, sys, pickle, traceback
from lib.common import *

_zygote = None


def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack("!I", len(data)) + data)


def _recv(sock):
    head = b""
    while len(head) < 4:
        part = sock.recv(4 - len(head))
        if not part:
            raise EOFError
        head += part
    size = struct.unpack("!I", head)[0]
    data = b""
    while len(data) < size:
        part = sock.recv(size - len(data))
        if not part:
            raise EOFError
        data += part
    return pickle.loads(data)


def _serve(sock):
    while True:
        try:
            job = _recv(sock)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                try:
                    result = ("ok", JOBS[job["job"]](job))
                except BaseException as exc:
                    from lib.harness import describe
                    result = ("error", describe(exc))
                data = pickle.dumps(result)
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            result = pickle.loads(data)
        except Exception:
            result = ("error", "replaying process died")
        _send(sock, result)


def start():
    """ Must be called before anything is created in this process """

    global _zygote
    if _zygote is not None and _zygote[0] == os.getpid():
        return
    a, b = socket.socketpair()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            _serve(b)
        finally:
            os._exit(1)
    b.close()
    _zygote = (os.getpid(), a)


def ask(job):
    start()
    _send(_zygote[1], job)
    status, value = _recv(_zygote[1])
    return status, value


# -- jobs ---------------------------------------------------------------
def fresh_session():
    Object.objects = {}
    Object.record = True
    gsp.io.record(True)


def load_and_run(job):
    fresh_session()
    queue = gsp.load(job["path"]) if job.get("api", "gsp") == "gsp" \
        else gsp.io.json.load(job["path"])
    n = len(queue)
    queue.run(gsp_matplotlib)
    if job.get("again"):
        path = job["path"][:-5] + "-again.json"
        gsp.save(path)
        Object.objects = {}
        queue = gsp.load(path)
        queue.run(gsp_matplotlib)
    return queue, n


def images_job(job):
    queue, n = load_and_run(job)
    out = {}
    for oid in job["canvases"]:
        out[oid] = np.array(Object.objects[oid].render(None))
    return out


def buffers_job(job):
    queue, n = load_and_run(job)
    out = {}
    for oid in job["buffers"]:
        b = Object.objects[oid]
        A = np.array(np.asarray(b))
        out[oid] = (len(b), A.dtype, A.shape, A.tobytes())
    return out


def transforms_job(job):
    queue, n = load_and_run(job)
    out = {}
    for oid in job["transforms"]:
        t = Object.objects[oid]
        with np.errstate(all="ignore"):
            out[oid] = (type(t).__name__, bool(t.bound),
                        np.array(t.evaluate(dict(job["variables"]))))
    return out


JOBS = {"transforms": transforms_job, "images": images_job, "buffers": buffers_job}
