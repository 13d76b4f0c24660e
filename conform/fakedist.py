"""In-process process grid: every rank of an h x w grid is a thread running the real repository code; the functions of
torch.distributed are replaced by stand-ins that implement their documented contract (collectives called by every
member in the same order, contiguous buffers of the agreed sizes, point-to-point messages in order).  A missing partner,
a size mismatch or a call in a different order is reported, as the real backends would hang or fail there."""
import threading, queue
import torch
import torch.distributed as dist

_tls = threading.local()


class Mismatch(RuntimeError):
    pass


class Aborted(RuntimeError):
    pass


class Group:
    """kind: 'polar' (ranks of equal azimuth index), 'azimuth' (equal polar index) or 'world'"""

    def __init__(self, kind):
        self.kind = kind

    def size(self):
        return len(_members(self))

    def rank(self):
        return _members(self).index(_tls.rank)


class World:
    def __init__(self, h, w, limit=60.0):
        self.h, self.w, self.limit = h, w, limit
        self.cv = threading.Condition()
        self.slots = {}
        self.mail = {}
        self.dead = None


def _members(g):
    W, r = _tls.world, _tls.rank
    kind = "world" if g is None else g.kind
    if kind == "world":
        return list(range(W.h * W.w))
    i, j = divmod(r, W.w)
    return [k * W.w + j for k in range(W.h)] if kind == "polar" else [i * W.w + k for k in range(W.w)]


def _exchange(op, payload, group):
    W, r = _tls.world, _tls.rank
    mem = _members(group)
    gid = (None if group is None else group.kind, tuple(mem))
    n = _tls.seq.get(gid, 0)
    _tls.seq[gid] = n + 1
    key = (gid, n)
    with W.cv:
        s = W.slots.setdefault(key, {})
        s[r] = (op, payload)
        W.cv.notify_all()
        ok = W.cv.wait_for(lambda: W.dead is not None or len(s) == len(mem), timeout=W.limit)
        if W.dead is not None:
            raise Aborted("another rank failed")
        if not ok:
            raise Mismatch(f"rank {r} waits forever in {op} number {n} of group {gid}: only ranks {sorted(s)} called")
        ops = {q: v[0] for q, v in s.items()}
        if len(set(ops.values())) != 1:
            raise Mismatch(f"ranks call different collectives at the same point: {ops}")
    return mem, [s[q][1] for q in mem], mem.index(r)


def _contig(*ts):
    for t in ts:
        if not t.is_contiguous():
            raise Mismatch("collective called with a non-contiguous buffer")


def _put(dst, src):
    if dst.numel() != src.numel() or dst.dtype != src.dtype:
        raise Mismatch(f"buffer {tuple(dst.shape)}/{dst.dtype} receives {tuple(src.shape)}/{src.dtype}")
    with torch.no_grad():
        dst.copy_(src.reshape(dst.shape))


class _Work:
    def wait(self, *a, **k):
        return True

    def is_completed(self):
        return True


def _ret(async_op):
    return _Work() if async_op else None


def _sum(ts, op):
    out = ts[0].clone()
    for t in ts[1:]:
        if t.shape != out.shape or t.dtype != out.dtype:
            raise Mismatch(f"reduction of {tuple(out.shape)}/{out.dtype} and {tuple(t.shape)}/{t.dtype}")
        if op == dist.ReduceOp.MAX:
            out = torch.maximum(out, t)
        elif op == dist.ReduceOp.MIN:
            out = torch.minimum(out, t)
        else:
            out = out + t
    if op == dist.ReduceOp.AVG:
        out = out / len(ts)
    return out


def all_to_all(output_tensor_list, input_tensor_list, group=None, async_op=False):
    _contig(*output_tensor_list, *input_tensor_list)
    _, p, me = _exchange("all_to_all", [t.detach().clone() for t in input_tensor_list], group)
    if len(output_tensor_list) != len(p) or any(len(q) != len(p) for q in p):
        raise Mismatch("all_to_all with a list length different from the group size")
    for k, o in enumerate(output_tensor_list):
        _put(o, p[k][me])
    return _ret(async_op)


def all_to_all_single(output, input, output_split_sizes=None, input_split_sizes=None, group=None, async_op=False):
    _contig(output, input)
    n = len(_members(group))
    isz = list(input_split_sizes) if input_split_sizes else [input.shape[0] // n] * n
    osz = list(output_split_sizes) if output_split_sizes else [output.shape[0] // n] * n
    _, p, me = _exchange("all_to_all_single", list(torch.split(input.detach().clone(), isz)), group)
    off = 0
    for k in range(n):
        _put(output[off : off + osz[k]], p[k][me])
        off += osz[k]
    return _ret(async_op)


def all_gather(tensor_list, tensor, group=None, async_op=False):
    _contig(tensor)
    _, p, me = _exchange("all_gather", tensor.detach().clone(), group)
    if len(tensor_list) != len(p):
        raise Mismatch("all_gather with a list length different from the group size")
    for k, o in enumerate(tensor_list):
        _put(o, p[k])
    return _ret(async_op)


def all_gather_into_tensor(output_tensor, input_tensor, group=None, async_op=False):
    _contig(output_tensor, input_tensor)
    _, p, me = _exchange("all_gather_into_tensor", input_tensor.detach().clone(), group)
    _put(output_tensor, torch.stack([q.reshape(-1) for q in p]).reshape(-1))
    return _ret(async_op)


def all_gather_object(object_list, obj, group=None):
    _, p, me = _exchange("all_gather_object", obj, group)
    object_list[:] = p


def all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    _contig(tensor)
    _, p, me = _exchange("all_reduce", tensor.detach().clone(), group)
    _put(tensor, _sum(p, op))
    return _ret(async_op)


def reduce_scatter(output, input_list, op=dist.ReduceOp.SUM, group=None, async_op=False):
    _contig(output, *input_list)
    if len({t.numel() for t in input_list} | {output.numel()}) != 1:
        raise Mismatch("reduce_scatter with buffers of different sizes")
    _, p, me = _exchange("reduce_scatter", [t.detach().clone() for t in input_list], group)
    if any(len(q) != len(p) for q in p):
        raise Mismatch("reduce_scatter with a list length different from the group size")
    _put(output, _sum([q[me] for q in p], op))
    return _ret(async_op)


def reduce_scatter_tensor(output, input, op=dist.ReduceOp.SUM, group=None, async_op=False):
    _contig(output, input)
    n = len(_members(group))
    _, p, me = _exchange("reduce_scatter_tensor", input.detach().clone().reshape(n, -1), group)
    _put(output, _sum([q[me] for q in p], op))
    return _ret(async_op)


def broadcast(tensor, src=None, group=None, async_op=False, group_src=None):
    mem = _members(group)
    s = mem.index(src) if group_src is None else group_src
    _, p, me = _exchange("broadcast", tensor.detach().clone(), group)
    if me != s:
        _put(tensor, p[s])
    return _ret(async_op)


def barrier(group=None, async_op=False, device_ids=None):
    _exchange("barrier", None, group)
    return _ret(async_op)


class P2POp:
    def __init__(self, op, tensor, peer=None, group=None, tag=0, group_peer=None):
        if op not in (dist.isend, dist.irecv):
            raise ValueError("P2POp: op must be isend or irecv")
        self.op, self.tensor, self.group, self.tag = op, tensor, group, tag
        self.peer = peer if group_peer is None else _members(group)[group_peer]


class _Recv:
    def __init__(self, t, src, tag):
        self.t, self.src, self.tag, self.done = t, src, tag, False

    def wait(self, *a, **k):
        if self.done:
            return True
        W, r = _tls.world, _tls.rank
        key = (self.src, r, self.tag)
        with W.cv:
            ok = W.cv.wait_for(lambda: W.dead is not None or W.mail.get(key), timeout=W.limit)
            if W.dead is not None:
                raise Aborted("another rank failed")
            if not ok:
                raise Mismatch(f"rank {r} waits forever for a message from rank {self.src}")
            m = W.mail[key].pop(0)
        _put(self.t, m)
        self.done = True
        return True

    def is_completed(self):
        return self.done


def isend(tensor, dst=None, group=None, tag=0, group_dst=None):
    W, r = _tls.world, _tls.rank
    dst = dst if group_dst is None else _members(group)[group_dst]
    if dst not in _members(group):
        raise Mismatch(f"rank {r} sends to {dst}, not in its group")
    _contig(tensor)
    with W.cv:
        W.mail.setdefault((r, dst, tag), []).append(tensor.detach().clone())
        W.cv.notify_all()
    return _Work()


def irecv(tensor, src=None, group=None, tag=0, group_src=None):
    src = src if group_src is None else _members(group)[group_src]
    if src not in _members(group):
        raise Mismatch(f"rank {_tls.rank} receives from {src}, not in its group")
    _contig(tensor)
    return _Recv(tensor, src, tag)


def send(tensor, dst=None, group=None, tag=0, group_dst=None):
    isend(tensor, dst, group, tag, group_dst)


def recv(tensor, src=None, group=None, tag=0, group_src=None):
    irecv(tensor, src, group, tag, group_src).wait()


def batch_isend_irecv(ops):
    return [o.op(o.tensor, o.peer, o.group, o.tag) for o in ops]


def get_world_size(group=None):
    return len(_members(group))


def get_rank(group=None):
    return _members(group).index(_tls.rank)


def get_process_group_ranks(group=None):
    return list(_members(group))


def get_global_rank(group, group_rank):
    return _members(group)[group_rank]


def get_group_rank(group, global_rank):
    return _members(group).index(global_rank)


def is_initialized():
    return True


def get_backend(group=None):
    return "gloo"


NAMES = "all_to_all all_to_all_single all_gather all_gather_into_tensor all_gather_object all_reduce reduce_scatter reduce_scatter_tensor broadcast barrier P2POp isend irecv send recv batch_isend_irecv get_world_size get_rank get_process_group_ranks get_global_rank get_group_rank is_initialized get_backend".split()
_on = False


def install():
    global _on
    if not _on:
        for n in NAMES:
            setattr(dist, n, globals()[n])
        _on = True


def run(h, w, fn, polar=True, azimuth=True, limit=60.0):
    """fn(i, j) on every rank of an h x w grid; [[result]].  polar/azimuth False: that group is not registered."""
    install()
    import torch_harmonics.distributed as thd

    W = World(h, w, limit)
    out = [[None] * w for _ in range(h)]
    errs = []
    thd.init(Group("polar") if polar else None, Group("azimuth") if azimuth else None)

    seed = int(torch.randint(0, 2**31 - 1, (1,)))

    def body(r):
        _tls.world, _tls.rank, _tls.seq = W, r, {}
        torch.set_num_threads(1)
        try:
            out[r // w][r % w] = fn(r // w, r % w)
        except BaseException as e:
            errs.append((r, e))
            with W.cv:
                if W.dead is None:
                    W.dead = e
                W.cv.notify_all()

    try:
        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(h * w)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(limit * 2)
            if t.is_alive():
                raise Mismatch("a rank does not finish")
    finally:
        thd.init(None, None)
        thd.finalize()
    real = [e for _, e in errs if not isinstance(e, Aborted)]
    if real:
        raise real[0]
    if errs:
        raise errs[0][1]
    if any(v for v in W.mail.values()):
        raise Mismatch("a message was sent and never received")
    return out
