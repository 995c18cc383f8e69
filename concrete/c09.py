import gc
import weakref
from base import *
import rigid_body_motion as rbm


class Model:
    """What the registry and the tree should look like."""

    def __init__(self):
        self.reg, self.parent, self.kids = {}, {}, {}

    def copy(self):
        m = Model()
        m.reg = dict(self.reg)
        m.parent = dict(self.parent)
        m.kids = {k: list(v) for k, v in self.kids.items()}
        return m

    def attach(self, f, p):
        old = self.parent.get(id(f))
        if old is not None and old is not p:
            self.kids[id(old)] = [x for x in self.kids[id(old)] if x is not f]
        if p is not None and old is not p:
            self.kids.setdefault(id(p), []).append(f)
        self.parent[id(f)] = p


def arguments(rng, root):
    """(keyword arguments, valid)"""
    if rng.random() < 0.4:
        return {}, True
    n = int(rng.integers(1, 5))
    k = int(rng.integers(9))
    t, q, ts = rng.normal(size=3), quats(rng), np.arange(n, dtype=float)
    if k == 0:
        return dict(translation=t, rotation=q, inverse=bool(rng.integers(2))), not root
    if k == 1:
        return dict(translation=rng.normal(size=(n, 3)), rotation=quats(rng, n), timestamps=ts, discrete=bool(rng.integers(2))), not root
    if k == 2:
        return dict(discrete=True), False
    if k == 3:
        return dict(translation=rng.normal(size=4)), False
    if k == 4:
        return dict(rotation=rng.normal(size=(4, 1))), False
    if k == 5:
        return dict(translation=rng.normal(size=(n + 1, 3)), timestamps=ts), False
    if k == 6:
        return dict(translation=rng.normal(size=(n, 3)), rotation=quats(rng, n), timestamps=ts[:, None]), False
    if k == 7:
        return dict(timestamps=ts), not root
    return dict(rotation=q), not root


def compare(m, frames, what, exact=True):
    for k in set(m.reg) | set(rbm.registry):
        check(rbm.registry.get(k) is m.reg.get(k), what + ": registry", "%s: %s instead of %s" % (k, rbm.registry.get(k), m.reg.get(k)))
    for f in frames:
        check(f.parent is m.parent.get(id(f)), what + ": parent of %s" % f.name, "%s instead of %s" % (f.parent, m.parent.get(id(f))))
        kids = m.kids.get(id(f), [])
        check(len(f.children) == len(kids) and all(a is b for a, b in zip(f.children, kids)), what + ": children of %s" % f.name, "%s instead of %s" % (f.children, kids))


@trial("C09", 120)
def histories(rng):
    rbm.clear_registry()
    m, frames = Model(), []
    names = ["a", "b", "c", "d"]
    pick = lambda: names[int(rng.integers(len(names)))]
    log = []
    for step in range(int(rng.integers(5, 25))):
        op = ["register", "register", "register", "construct", "construct", "method", "deregister", "remove", "clear", "drop"][int(rng.integers(10))]
        before = m.copy()
        name = pick()
        try:
            if op in ("register", "construct"):
                parent, pf, good = None, None, True
                if rng.random() < 0.7:
                    r = rng.random()
                    if r < 0.4 and frames:
                        parent = pf = frames[int(rng.integers(len(frames)))]
                    elif r < 0.9:
                        parent = pick()
                        pf = m.reg.get(parent)
                        good = pf is not None
                    else:
                        parent, good = 7, False
                kw, valid = arguments(rng, parent is None)
                valid = valid and good
                log.append((op, name, str(parent), sorted(kw)))
                if op == "construct":
                    nm = name if rng.random() < 0.8 else None
                    f = rbm.ReferenceFrame(nm, parent=parent, **kw)
                    check(valid, "invalid arguments are rejected", str(log[-3:]))
                    m.attach(f, pf)
                else:
                    upd = bool(rng.integers(2))
                    valid = valid and (name not in m.reg or upd)
                    rbm.register_frame(name, parent=parent, update=upd, **kw)
                    check(valid, "invalid arguments are rejected", str(log[-3:]))
                    f = rbm.registry[name]
                    check(f.name == name and not any(f is x for x in frames), "a new frame is registered", str(log[-3:]))
                    if name in m.reg:
                        m.attach(m.reg[name], None)
                    m.attach(f, pf)
                    m.reg[name] = f
                frames.append(f)
            elif op == "method" and frames:
                f = frames[int(rng.integers(len(frames)))]
                upd = bool(rng.integers(2))
                log.append((op, f.name, upd, f.name in m.reg and m.reg[f.name] is f))
                valid = f.name is not None and (upd or f.name not in m.reg)
                f.register(update=upd)
                check(valid, "a taken name is rejected", str(log[-3:]))
                old = m.reg.get(f.name)
                if old is not None and old is not f:
                    m.attach(old, None)
                m.reg[f.name] = f
            elif op == "deregister":
                log.append((op, name))
                valid = name in m.reg
                rbm.deregister_frame(name)
                check(valid, "an unknown name is rejected", str(log[-3:]))
                del m.reg[name]
            elif op == "remove" and m.reg:
                name = sorted(m.reg)[int(rng.integers(len(m.reg)))]
                log.append((op, name))
                valid = True
                m.reg[name].deregister()
                del m.reg[name]
            elif op == "clear" and rng.random() < 0.3:
                log.append((op,))
                rbm.clear_registry()
                m.reg = {}
            elif op == "drop":
                # discard frames nobody refers to
                loose = [f for f in frames if m.parent.get(id(f)) is None and not m.kids.get(id(f)) and not any(f is x for x in m.reg.values())]
                if loose:
                    x = loose[0]
                    log.append((op, x.name))
                    frames[:] = [f for f in frames if f is not x]
                    m.parent.pop(id(x), None)
                    m.kids.pop(id(x), None)
                    ref = weakref.ref(x)
                    # an invalid registration may have left a traceback behind
                    del x, loose
                    f = old = pf = parent = before = None
                    gc.collect()
        except (ValueError, TypeError) as e:
            check(not valid, "valid operations succeed", "%s %s" % (log[-3:], e))
            e = None
            m = before
        compare(m, frames, "after " + op)
    rbm.clear_registry()


@trial("C09", 40)
def discarded(rng):
    """Discarding frames with a taken name leaves the other frame's entry."""
    rbm.clear_registry()
    rbm.register_frame("a")
    rbm.register_frame("b", parent="a")
    b = rbm.registry["b"]
    for _ in range(int(rng.integers(1, 4))):
        f = rbm.ReferenceFrame("b", parent=None)
        f.__del__()
        check(rbm.registry.get("b") is b, "another frame's entry stays")
        del f
        try:
            rbm.ReferenceFrame("b", parent="a", translation=[1.0])
        except ValueError:
            pass
        gc.collect()
        check(rbm.registry.get("b") is b, "another frame's entry stays")
        check(rbm.registry["a"].children == (b,), "a failed construction attaches nothing", str(rbm.registry["a"].children))
    g = rbm.registry["b"]
    rbm.register_frame("b", parent="a", update=True)
    check(rbm.registry["b"] is not g and rbm.registry["a"].children == (rbm.registry["b"],) and g.parent is None, "an updated entry is replaced")
    g.__del__()
    check("b" in rbm.registry, "the replaced frame does not remove the new entry")
    rbm.clear_registry()
    check(len(rbm.registry) == 0, "cleared")
