"""C09: the file system between the library and the disk, with faults at any call; saves and loads in the middle of histories.

Everything the library (or pandas, gzip, yaml on its behalf) opens below a watched directory goes through SimRaw, a real file
whose reads, writes and close ask the plan first; mkdir, stat, rename, replace, unlink are intercepted as well.
"""
import builtins
import errno
import hashlib
import io
import os
import shutil
import time

import numpy as np

from .callbacks import InjectedCrash
from .props import STUB, WorldProp, settle
from .restore import first_difference, near, snapshot
from .util import Violation, canon
from .world import StopRun

REAL_OPEN = io.open
OS_CALLS = ['mkdir', 'stat', 'rename', 'replace', 'unlink', 'remove', 'rmdir', 'lstat', 'listdir', 'scandir', 'link', 'symlink']


class SimDisk:
    def __init__(self, roots):
        self.roots = [os.path.join(os.path.realpath(r), '') for r in roots]
        self.fault = None           # dict(kind, n, err, torn, sticky, burst, place)
        self.place = None           # where a lasting fault lasts
        self.counts = {}
        self.fired = []
        self.dead = False           # the process "crashed": nothing reaches the disk any more
        self.short = None           # short reads/writes: granularity
        self.saved = {}

    # -- decisions --
    def watched(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return any(p.startswith(r) or p + os.sep == r for r in self.roots)

    def begin(self, fault=None, short=None):
        self.fault, self.counts, self.fired, self.dead, self.short, self.opened = fault, {}, [], False, short, []

    def end(self):
        self.fault = self.short = None
        self.dead = False

    def ask(self, kind, path=None):
        """Called before every operation: None, ('torn', fraction, exception) or raises."""
        if self.dead:
            raise InjectedCrash('dead')
        self.counts[kind] = self.counts.get(kind, 0) + 1
        f = self.fault
        if f is None:
            return None
        first = f['kind'] == kind and self.counts[kind] == f['n'] and not self.fired
        again = self.fired and f.get('sticky') and kind in ('write', 'mkdir', 'open')
        if again and f.get('burst') and len(self.fired) >= f['burst']:
            again = False                   # the trouble has passed
        if again and f.get('place') and path is not None and self.place is not None:
            again = os.path.abspath(os.fspath(path)).startswith(self.place)
        if not first and not again:
            return None
        if first:
            self.place = None if path is None else os.path.dirname(os.path.abspath(os.fspath(path)))
            if self.place is not None and f.get('place') == 'file':
                self.place = os.path.abspath(os.fspath(path))
        self.fired.append(kind)
        if f['err'] == 'CRASH':
            exc = InjectedCrash(kind)
        else:
            exc = OSError(getattr(errno, f['err']), os.strerror(getattr(errno, f['err'])))
        if kind == 'write' and f.get('torn') is not None and first:
            return f['torn'], exc
        if f['err'] == 'CRASH':
            self.dead = True
        raise exc

    # -- patches --
    def __enter__(self):
        disk = self
        self.saved = {'open': builtins.open, 'io.open': io.open, 'time': time.time}

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or opener is not None or not disk.watched(file):
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
            disk.ask('open', file)
            disk.opened.append(os.path.abspath(os.fspath(file)))
            raw = SimRaw(disk, file, mode.replace('t', '').replace('b', '').replace('U', '') or 'r')
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if 'b' in mode and buffering == 0:
                return raw
            if raw.readable() and raw.writable():
                buf = io.BufferedRandom(raw, size)
            elif raw.writable():
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if 'b' in mode:
                return buf
            text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
            text.mode = mode
            return text

        builtins.open = io.open = sim_open
        time.time = lambda: 1.6e9
        for name in OS_CALLS:
            self.saved[name] = getattr(os, name)
            setattr(os, name, self.wrap(name, getattr(os, name)))
        return self

    def wrap(self, name, fn):
        def call(*a, **k):
            if a and self.watched(a[0]):
                self.ask(name, a[0])
            return fn(*a, **k)
        return call

    def __exit__(self, *exc):
        builtins.open, io.open, time.time = self.saved['open'], self.saved['io.open'], self.saved['time']
        for name in OS_CALLS:
            setattr(os, name, self.saved[name])


class SimRaw(io.FileIO):
    def __init__(self, disk, path, mode):
        super().__init__(path, mode)
        self.disk, self.gone = disk, False

    def _ask(self, kind):
        if self.gone or self.disk.dead:
            self.gone = True
            raise InjectedCrash('dead')
        return self.disk.ask(kind, self.name)

    def write(self, b):
        b = bytes(b)
        t = self._ask('write')
        if t is not None:
            frac, exc = t
            k = int(frac * len(b))
            if k:
                super().write(b[:k])
            if isinstance(exc, InjectedCrash):
                self.disk.dead = self.gone = True
            raise exc
        if self.disk.short:
            b = b[:max(1, self.disk.short)]
        return super().write(b)

    def readinto(self, b):
        self._ask('read')
        if self.disk.short and len(b) > self.disk.short:
            data = super().read(self.disk.short)
            b[:len(data)] = data
            return len(data)
        return super().readinto(b)

    def readall(self):
        out = bytearray()
        while True:
            self._ask('read')
            chunk = super().read(self.disk.short or 65536)
            if not chunk:
                return bytes(out)
            out += chunk

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        self._ask('read')
        return super().read(min(n, self.disk.short) if self.disk.short else n)

    def close(self):
        if self.closed:
            return
        disk = getattr(self, 'disk', None)
        if disk is None or self.gone or disk.dead:
            super().close()
            return
        try:
            disk.ask('close', self.name)
        except BaseException:
            if disk.dead:
                self.gone = True
            super().close()
            raise
        super().close()


def scenario_dir():
    import pymgrid
    return os.path.join(os.path.dirname(os.path.abspath(pymgrid.__file__)), 'data', 'scenario')


def scenario_print(mg):
    out = [type(mg).__name__, mg.n_modules, mg.initial_step, mg.final_step, mg.current_step, canon(mg.state_dict())]
    for m in mg.module_list:
        ts = getattr(m, 'time_series', None)
        out.append([type(m).__name__, list(m.name), None if ts is None else hashlib.sha256(np.ascontiguousarray(ts).tobytes()).hexdigest(),
                    canon([m.production_marginal_cost, m.absorption_marginal_cost, m.min_act, m.max_act])])
    return out


class C09(WorldProp):
    technique = 'deterministic simulation with disk-fault injection: errors, torn writes, crashes and damage at any file operation of saves and loads'
    tags = ()
    weights = dict(run=8, reset=1, set_fc=0.3, save=4, load=2.5, damage=2.5, scenario=0.4)
    cfg_opts = dict(det_fc=True, p_raise=0.0, p_traj=0.3)
    env_kinds = ((1, 'env'),)
    p_env, p_yaml = 0.25, 1.0
    n = (4, 24)
    runs = dict(quick=1200, thorough=30000)
    stub = STUB + ['file system below the scratch directory: real files behind a simulated layer that injects the faults; clock of the file headers fixed']
    assumptions = WorldProp.assumptions + [
        'crash means the process dies: bytes already written survive, buffered ones are lost; losing written bytes without an error (power failure without fsync) is not simulated',
        'the text of the document itself is not damaged (plain YAML has no checksum), only its data files are']
    rule = ('a run is one random configuration and history with saves and loads under faults, drawn from one seed; non-trivial if at least one fault was '
            'injected or one file damaged; two runs are the same if their sequences of operations, faults and abstract states are')

    def plan(self, r):
        plan = super().plan(r)
        plan['flavour_kw'] = {}
        if not any(op['op'] == 'save' for op in plan['ops']):
            plan['ops'].insert(r.randint(0, len(plan['ops'])), dict(op='save', rs=1))
        for op in plan['ops']:
            if op['op'] in ('save', 'load', 'damage'):
                op['file'] = r.pick((3, 'a'), (2, 'b'), (1, 'a.b'), (1, 'sub/a'), (0.7, 'a-1'))
                op['short'] = r.pick((4, None), (1, 1), (1, 7), (1, 100))
            if op['op'] == 'save':
                op['fault'] = None if r.chance(0.25) else dict(
                    kind=r.pick((5, 'write'), (2, 'open'), (2, 'close'), (1, 'mkdir'), (1, 'stat')), frac=r.random(),
                    err=r.pick((3, 'ENOSPC'), (2, 'EIO'), (1, 'EACCES'), (1, 'ENOENT'), (1, 'EMFILE'), (3, 'CRASH')),
                    torn=r.pick((1, None), (2, r.random())), sticky=r.chance(0.6),
                    burst=r.pick((2, None), (1, r.randint(2, 6))), place=r.pick((2, None), (1, 'file'), (1, 'dir')))
                op['retry'] = r.chance(0.6)
            elif op['op'] == 'load':
                op['fault'] = None if r.chance(0.2) else dict(
                    kind=r.pick((4, 'read'), (3, 'open'), (1, 'close'), (1, 'stat')), frac=r.random(),
                    err=r.pick((3, 'EIO'), (1, 'EACCES'), (1, 'ENOENT'), (1, 'EMFILE'), (1, 'CRASH')), sticky=False)
            elif op['op'] == 'scenario':
                op['n'], op['env'], op['short'] = r.randint(0, 24), r.chance(0.3), r.pick((3, None), (1, 100))
                op['fault'] = dict(kind=r.pick((4, 'read'), (3, 'open'), (1, 'close'), (1, 'stat')), frac=r.random(),
                                   err=r.pick((3, 'EIO'), (1, 'EACCES'), (2, 'ENOENT'), (1, 'CRASH')), sticky=False)
            elif op['op'] == 'damage':
                op['how'] = r.pick((2, 'delete'), (3, 'truncate'), (4, 'flip'), (1, 'rmdir'), (1, 'empty'), (1, 'garbage'))
                op['which'], op['frac'], op['bit'] = r.random(), r.random(), r.randint(0, 7)
        return plan

    def env_kw(self, r, cfg):
        return dict(flat_spaces=r.chance(0.6))

    # -- saving and loading below the simulated disk --
    def save(self, disk, mg, path, fault=None, short=None):
        """None or the exception."""
        disk.begin(fault, short)
        try:
            with builtins.open(path, 'w') as f:
                mg.dump(f)
        except (Exception, InjectedCrash) as e:
            return e
        finally:
            fired = list(disk.fired)
            disk.end()
            disk.fired = fired
        return None

    def load(self, disk, cls, path, fault=None, short=None):
        disk.begin(fault, short)
        try:
            with builtins.open(path) as f:
                return cls.load(f), None
        except (Exception, InjectedCrash) as e:
            return None, e
        finally:
            fired = list(disk.fired)
            disk.end()
            disk.fired = fired

    def aim(self, fault, counts):
        """The n-th call of the planned kind, counted on a rehearsal without the fault."""
        if fault is None:
            return None
        kind = fault['kind']
        if not counts.get(kind):
            kind = 'write' if counts.get('write') else 'read'
        n = 1 + int(fault['frac'] * counts.get(kind, 1))
        return dict(fault, kind=kind, n=n)

    def execute(self, plan, out, scratch):
        import sys
        root, dry = os.path.join(scratch, 'ck'), os.path.join(scratch, 'dry')
        for d in (root, dry):
            os.makedirs(os.path.join(d, 'sub'))
        w = None
        hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
        try:
            w = self.world(plan, out, scratch)
            with SimDisk([root, dry, scenario_dir()]) as disk:
                saved = {}                 # file -> what restoring it must show
                for i, op in enumerate(plan['ops']):
                    if op['op'] in ('save', 'load', 'damage', 'scenario'):
                        w.count('op:' + op['op'])
                        getattr(self, 'do_' + op['op'])(i, op, w, disk, root, dry, saved, out)
                    else:
                        w.do(op)
                w.count('op:final')
                self.all_intact(w, disk, root, saved, 'at the end')
        except StopRun:
            out.stats['stopped_runs'] = out.stats.get('stopped_runs', 0) + 1
        finally:
            sys.unraisablehook = hook
        if w is not None:
            settle(w, out, ())
            out.nontrivial = any(k.startswith('fault:') for k in out.stats)

    def snap(self, w, mg=None):
        return w.guard('reading', lambda: snapshot(w, mg))

    def must_equal(self, want, got, what):
        if not near(want, got):
            raise Violation('disk', '%s: %s' % (what, first_difference(want, got)))

    def restored(self, w, mg, what):
        try:
            return snapshot(w, mg)
        except Exception as e:
            raise Violation('disk', '%s, but cannot be used: %s: %s' % (what, type(e).__name__, e))

    def all_intact(self, w, disk, root, saved, when):
        for name in sorted(saved):
            mg, err = self.load(disk, type(w.mg), os.path.join(root, name + '.yaml'))
            if err is not None:
                raise Violation('disk', 'checkpoint %s, saved without an error, cannot be loaded %s: %s: %s' % (name, when, type(err).__name__, str(err)[:200]))
            self.must_equal(saved[name], self.restored(w, mg, 'checkpoint %s loads %s' % (name, when)), 'checkpoint %s, saved without an error, differs %s' % (name, when))
            w.count('checkpoints_verified')

    def do_save(self, i, op, w, disk, root, dry, saved, out):
        path = os.path.join(root, op['file'] + '.yaml')
        before = self.snap(w)
        fault = None
        if op.get('fault'):
            # rehearse on a copy of the directory, so that the same calls are made
            shutil.rmtree(dry)
            shutil.copytree(root, dry)
            err = self.save(disk, w.mg, os.path.join(dry, op['file'] + '.yaml'), None, op.get('short'))
            if err is not None:
                raise Violation('disk', 'saving failed without any fault: %s: %s' % (type(err).__name__, str(err)[:200]))
            fault = self.aim(op['fault'], disk.counts)
        saved.pop(op['file'], None)
        err = self.save(disk, w.mg, path, fault, op.get('short'))
        fired = bool(disk.fired)
        if op.get('short'):
            w.count('fault:short_io')
        if fired:
            w.count('fault:save_%s_%s%s' % (fault['kind'], fault['err'], '_torn' if fault.get('torn') is not None and fault['kind'] == 'write' else ''))
            w.trace.append(['save', fault['kind'], fault['err'], fault['n']])
        if err is not None and not fired:
            raise Violation('disk', 'saving failed without any fault: %s: %s' % (type(err).__name__, str(err)[:200]))
        self.must_equal(before, self.snap(w), 'saving (%s) changed the running microgrid' % ('with a fault: %s' % fault if fired else 'without a fault'))
        if err is None:
            saved[op['file']] = before
            mg, e2 = self.load(disk, type(w.mg), path)
            what = 'saving returned normally although call %s number %d failed with %s' % (fault['kind'], fault['n'], fault['err']) if fired else 'saving returned normally'
            if e2 is not None:
                raise Violation('disk', '%s, but loading fails: %s: %s' % (what, type(e2).__name__, str(e2)[:200]))
            self.must_equal(before, self.restored(w, mg, what), '%s, but the restored microgrid differs' % what)
            w.count('saves_ok')
            if fired:
                w.count('saves_ok_despite_fault')
        else:
            w.count('saves_failed')
            self.all_intact(w, disk, root, saved, 'after the failed or interrupted save of %s (%s)' % (op['file'], fault))
            if op.get('retry'):
                err = self.save(disk, w.mg, path)
                if err is not None:
                    raise Violation('disk', 'saving still fails after the faults stopped: %s: %s' % (type(err).__name__, str(err)[:200]))
                saved[op['file']] = before
                w.count('saves_retried')

    def do_load(self, i, op, w, disk, root, dry, saved, out):
        if not saved:
            return
        name = op['file'] if op['file'] in saved else sorted(saved)[0]
        path = os.path.join(root, name + '.yaml')
        fault = None
        cls = type(w.mg)
        if op.get('fault'):
            _, err = self.load(disk, cls, path, None, op.get('short'))
            if err is not None:
                raise Violation('disk', 'loading %s failed without any fault: %s: %s' % (name, type(err).__name__, str(err)[:200]))
            fault = self.aim(op['fault'], disk.counts)
        before = self.snap(w)
        mg, err = self.load(disk, cls, path, fault, op.get('short'))
        fired = bool(disk.fired)
        if op.get('short'):
            w.count('fault:short_io')
        if fired:
            w.count('fault:load_%s_%s' % (fault['kind'], fault['err']))
            w.trace.append(['load', fault['kind'], fault['err'], fault['n']])
        if err is not None:
            if not fired:
                raise Violation('disk', 'loading %s failed without any fault: %s: %s' % (name, type(err).__name__, str(err)[:200]))
            w.count('loads_failed')
        else:
            what = 'loading %s returned normally%s' % (name, ' although call %s number %d failed with %s' % (fault['kind'], fault['n'], fault['err']) if fired else '')
            self.must_equal(saved[name], self.restored(w, mg, what), what + ', but with another microgrid')
        self.must_equal(before, self.snap(w), 'loading changed the running microgrid')

    def do_scenario(self, i, op, w, disk, root, dry, saved, out):
        from pymgrid import Microgrid
        from pymgrid.envs import DiscreteMicrogridEnv
        cls = DiscreteMicrogridEnv if op['env'] else Microgrid

        def get(fault):
            disk.begin(fault, op.get('short'))
            try:
                return scenario_print(cls.from_scenario(op['n'])), None
            except (Exception, InjectedCrash) as e:
                return None, e
            finally:
                fired = list(disk.fired)
                disk.end()
                disk.fired = fired
        want, err = get(None)
        if err is None:
            fault = self.aim(op['fault'], disk.counts)
            got, err = get(fault)
            if disk.fired:
                w.count('fault:scenario_%s_%s' % (fault['kind'], fault['err']))
            if err is None and got != want:
                raise Violation('disk', 'scenario %d loaded without an error although call %s number %d failed with %s, but differs' % (op['n'], fault['kind'], fault['n'], fault['err']))
            if err is not None and not disk.fired:
                raise Violation('disk', 'scenario %d cannot be loaded again: %s: %s' % (op['n'], type(err).__name__, err))
            got, err = get(None)
        if err is not None:
            raise Violation('disk', 'scenario %d cannot be loaded: %s: %s' % (op['n'], type(err).__name__, err))
        if got != want:
            raise Violation('disk', 'scenario %d differs after a failed attempt to load it' % op['n'])

    def do_damage(self, i, op, w, disk, root, dry, saved, out):
        if not saved:
            return
        name = op['file'] if op['file'] in saved else sorted(saved)[0]
        path = os.path.join(root, name + '.yaml')
        # the data files this document refers to, found by watching which ones a load opens
        _, err = self.load(disk, type(w.mg), path)
        if err is not None:
            raise Violation('disk', 'loading %s failed without any fault: %s: %s' % (name, type(err).__name__, str(err)[:200]))
        opened = {p for p in disk.opened if p != path}
        files = sorted(opened)
        if not files:
            return
        target = files[int(op['which'] * len(files))]
        backup = os.path.join(dry, 'backup')
        shutil.rmtree(backup, ignore_errors=True)
        shutil.copytree(os.path.dirname(target), backup)
        data = REAL_OPEN(target, 'rb').read()
        if op['how'] == 'delete':
            os.remove(target)
        elif op['how'] == 'rmdir':
            shutil.rmtree(os.path.dirname(target))
        else:
            if op['how'] == 'truncate':
                new = data[:int(op['frac'] * len(data))]
            elif op['how'] == 'empty':
                new = b''
            elif op['how'] == 'garbage':
                new = b'\0' * len(data)
            else:
                k = int(op['frac'] * len(data))
                new = data[:k] + bytes([data[k] ^ (1 << op['bit'])]) + data[k + 1:]
            with REAL_OPEN(target, 'wb') as f:
                f.write(new)
        w.count('fault:damage_' + op['how'])
        w.trace.append(['damage', op['how'], os.path.basename(target)])
        mg, err = self.load(disk, type(w.mg), path)
        if err is None:
            what = 'loading returned normally after damage (%s, %s)' % (op['how'], os.path.relpath(target, root))
            self.must_equal(saved[name], self.restored(w, mg, what), what + ', but with another microgrid')
            w.count('damage_harmless')
        else:
            w.count('damage_detected')
        shutil.rmtree(os.path.dirname(target), ignore_errors=True)
        shutil.copytree(backup, os.path.dirname(target))
