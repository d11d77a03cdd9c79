"""Helper of the demonstrations: imports the repository from the current directory with stand-ins for
numba and gmpy2 (absent here), and joins guest and hosts with in-process queues instead of sockets."""
import os, sys, time, types, math, random as _r, pickle, queue, threading, tempfile, secrets
REPO = os.getcwd()
_scratch = tempfile.mkdtemp()
import atexit, shutil
atexit.register(shutil.rmtree, _scratch, True)
sys.path.insert(0, REPO)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
nb = types.ModuleType("numba")
def jit(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f
nb.jit = nb.njit = jit
sys.modules["numba"] = nb
g = types.ModuleType("gmpy2")
def _prime(n):
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
def next_prime(n):
    n = int(n) + 1
    while not _prime(n):
        n += 1
    return n
g.mpz = int
g.powmod = lambda a, b, c: pow(int(a), int(b), int(c))
g.invert = lambda a, b: pow(int(a), -1, int(b))
g.next_prime = next_prime
g.isqrt = math.isqrt
g.bit_set = lambda x, n: int(x) | (1 << n)
g.is_prime = lambda n: _prime(int(n))
sys.modules["gmpy2"] = g
import numpy as np
if not hasattr(np, "float"):
    np.float = float
if not hasattr(np, "int"):
    np.int = int

class Pipe:
    def __init__(self):
        self.q = queue.Queue(); self.log = []
    def put(self, x):
        b = pickle.dumps(x); self.log.append(b); self.q.put(b)
    def get(self):
        return pickle.loads(self.q.get(timeout=60))

class GuestLink:
    def __init__(self, n):
        self.to = [Pipe() for _ in range(n)]; self.fr = [Pipe() for _ in range(n)]
    def send_data_to_hosts(self, data, index):
        for p in (self.to if index == -1 else [self.to[index]]):
            p.put(data)
    def recv_data_from_hosts(self, index):
        return [p.get() for p in self.fr] if index == -1 else self.fr[index].get()

class HostLink:
    def __init__(self, gl, i):
        self.a, self.b = gl.to[i], gl.fr[i]
    def send_data_to_guest(self, data):
        self.b.put(data)
    def recv_data_from_guest(self):
        return self.a.get()

def table(X, y=None, ids=None):
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    out = []
    for i, row in enumerate(X):
        out.append(Instance(inst_id=(ids[i] if ids else i), features=np.array(row, dtype=float), label=(None if y is None else y[i])))
    t = DTable(False, out)
    t.schema["header"] = ["x%d" % j for j in range(len(X[0]))]
    return t

def together(*fs):
    """run the callables concurrently and re-raise the first exception"""
    err, res, stop = [], [None] * len(fs), threading.Event()
    def run(i, f):
        try:
            res[i] = f()
        except BaseException as e:
            import traceback
            traceback.print_exc(); err.append(e); stop.set()
    ts = [threading.Thread(target=run, args=(i, f), daemon=True) for i, f in enumerate(fs)]
    for t in ts: t.start()
    end = time.time() + 120
    while any(t.is_alive() for t in ts) and time.time() < end and not err:
        time.sleep(0.02)
    if err: raise err[0]
    assert not any(t.is_alive() for t in ts), "a party did not finish"
    return res

def parties(n_hosts, setup=None, task="classification", xgb=False):
    import importlib
    from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as H
    for q in ("ml.tree", "xgboost"):   # numpy 2 refuses float() of a one-element array, which the numpy of the repository's time allows
        importlib.import_module(q + ".hetero_secureboosting_tree_guest").float = lambda v: np.asarray(v, dtype="float64").reshape(-1)[0].item()
    m = "xgboost" if xgb else "ml.tree"
    G = importlib.import_module(m + ".hetero_secureboosting_tree_guest").HeteroSecureBoostingTreeGuest
    link = GuestLink(n_hosts)
    gs, hs = G(), [H() for _ in range(n_hosts)]
    for i, o in enumerate([gs] + hs):
        o.model_param.task_type = task
        o.model_param.encrypt_param.key_length = 256
        o.model_param.num_trees = 2
        o.model_param.tree_param.max_depth = 3
        o.flowid = "0"
        if setup: setup(o.model_param)
        o._init_model(o.model_param)
    gs.set_transfer_inst(link)
    for i, h in enumerate(hs):
        h.set_transfer_inst(HostLink(link, i)); h.set_runtime_idx(i)
    return gs, hs, link
