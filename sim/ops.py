"""Operations on one tree under the simulator, with the record of what they should have done."""
import copy
import pickle

from sim import core, monitor, rel
from sim.core import Violation, guarded
from sim.oracle import Shadow, nodes, snapshot


class Session(object):
    """One tree, its history, and its random streams."""

    def __init__(self, L, cfg, seed, kind, ctx):
        self.L = L
        self.cfg = cfg
        self.seed = seed
        self.kind = kind
        self.ctx = ctx
        self.tree = L.make(cfg)
        self.shadow = Shadow(cfg, self.tree)
        self.i = 0
        self.structured = cfg['type'] in ('trestle', 'dummy')
        self.on_fit = None            # called with (session, before-state) around each fit
        self.lost = False             # the batch path could not be observed

    def stream(self):
        self.i += 1
        self.ctx.steps += 1
        return core.op_stream(self.seed, self.i, self.kind)

    def note_stream(self):
        s = core.SIM.stream
        self.ctx.steps += s.draws
        if s.extreme:
            self.ctx.fault('extreme_draw', s.extreme)

    # -- fitting
    def fit_one(self, inst, ifit=None):
        tree = self.tree
        ifit = ifit or tree.ifit
        arg = copy.deepcopy(inst)
        pre = rel.root_counts(tree.root) if self.structured else None
        hook = self.on_fit(self, inst) if self.on_fit else None
        node = guarded(ifit, arg)
        if arg != inst or list(arg) != list(inst):
            raise Violation('argument', 'fit changed the instance passed in: %r -> %r' % (inst, arg))
        if self.structured:
            f, m = rel.filed(inst, pre, rel.root_counts(tree.root))
        else:
            f, m = inst, {}
        self.shadow.record(f, node)
        if hook:
            hook(f, m, node)
        return node

    def fit(self, inst):
        self.stream()
        n = self.fit_one(inst)
        self.note_stream()
        return n

    def batch(self, insts, iters, rand):
        self.stream()
        orig = self.tree.ifit
        before = len(self.shadow.hist)
        self.tree.ifit = lambda i: self.fit_one(i, orig)
        try:
            guarded(self.tree.fit, copy.deepcopy(insts), iters, rand)
        finally:
            try:
                del self.tree.ifit
            except AttributeError:
                pass
        self.note_stream()
        if len(self.shadow.hist) == before and insts and iters:
            self.lost = True

    # -- other operations
    def reject(self, inst):
        self.stream()
        try:
            self.tree.ifit(copy.deepcopy(inst))
        except core.SimStall as e:
            raise Violation('stall', str(e))
        except Exception:
            self.ctx.fault('rejected_instance')
            return True
        return False

    def query(self, fn, *a):
        self.stream()
        r = guarded(fn, *a)
        self.note_stream()
        return r

    def interrupted(self, fn, frac, mem):
        """Run fn once to learn its length, then again interrupted at a fraction of it."""
        self.stream()
        with monitor.Interrupter() as c:
            guarded(fn)
        at = 1 + int(frac * c.n)
        core.op_stream(self.seed, self.i, self.kind)
        exc = core.SimMemoryError if mem else core.SimInterrupt
        try:
            with monitor.Interrupter(at, exc) as c:
                fn()
        except exc:
            self.ctx.fault('memory_error' if mem else 'interrupt')
        except core.SimStall as e:
            raise Violation('stall', str(e))
        except Exception as e:
            if c.fired is None:
                raise Violation('exception', core.exc_text(e))
            self.ctx.fault('memory_error' if mem else 'interrupt')
        self.ctx.steps += c.n

    def checkpoint(self, how):
        self.stream()
        old = self.tree
        if how == 'pickle':
            new = guarded(lambda: pickle.loads(pickle.dumps(old)))
        else:
            new = guarded(lambda: copy.deepcopy(old))
        a, b = nodes(old), nodes(new)
        if len(a) != len(b) or snapshot(old) != snapshot(new):
            raise Violation('checkpoint', 'the restored tree differs from the saved one')
        m = {id(x): y for x, y in zip(a, b)}
        sh = self.shadow
        if any(id(n) not in m for n in sh.leaf):
            raise Violation('partition', 'a concept returned by fit is not in the tree')
        sh.leaf = [m[id(n)] for n in sh.leaf]
        sh.tree = new
        self.tree = new
        self.ctx.fault('checkpoint_' + how)

    def clear(self):
        self.stream()
        guarded(self.tree.clear)
        self.shadow.reset(self.tree)
