"""check runner: python -m vlib.main <property> [tier]"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hang(BaseException):
    """the code under test did not come back in time"""


class Enough(BaseException):
    """the first violation will do (VERIF_FAILFAST)"""


class TooManyHangs(BaseException):
    """it would take for ever to go on"""


def _on_alarm(_sig, _frm):
    raise Hang()


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random('{}/{}'.format(pid, seed))
        self.quick = tier == 'quick'
        self.states = self.transitions = self.traces = self.events = self.cases = self.crashes = self.hangs = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.models = []
        self.assumptions = []
        self.notes = {}
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            self.findings = {x['id']: x for x in json.load(f)['findings']}

    # ---- scale
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- running code under test
    def call(self, fn, secs=20):
        """outcome of fn(): ['ok', value] | ['err', exception class name] | ['hang']"""
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, secs)
        try:
            return ['ok', fn()]
        except Hang:
            self.hangs += 1
            if self.hangs >= 6:
                raise TooManyHangs()
            return ['hang']
        except MemoryError:
            return ['err', 'MemoryError']
        except Exception as e:  # pylint: disable=broad-except
            return ['err', type(e).__name__]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    # ---- spec -> code
    def model(self, module, cfg, **kw):
        """explore a model; returns the lines it printed"""
        try:
            r = tlc.run(module, cfg, workers=kw.pop('workers', 8), **kw)
        except tlc.TlcViolation as e:
            # the specification contradicts itself: machinery failure, not a finding
            sys.stdout.write(e.text)
            raise
        self.states += r.distinct
        self.transitions += r.states
        self.models.append(dict(module=module, distinct=r.distinct, generated=r.states, wall_s=round(r.wall, 1)))
        # several workers print in any order
        return {k: sorted(x, key=lambda e: json.dumps(e, sort_keys=True)) for k, x in r.lines.items()}

    def expect(self, ok, what, **detail):
        """one replayed behaviour of the model"""
        self.cases += 1
        if not ok:
            self.fail(what, detail)

    # ---- code -> spec
    def validate(self, module, traces, consts='', chunk=400, **kw):
        """traces: list of dict(name=, ev=[...]). Every event is checked by TLC against the specification."""
        bad = 0
        for at in range(0, len(traces), chunk):
            if len(self.violations) >= 40:
                # there is nothing to add
                break
            part = traces[at:at + chunk]
            payload = [{k: v for k, v in t.items() if k not in ('name', 'finding', 'info')} for t in part]
            cfg = 'INIT Init\nNEXT Next\nCONSTANTS\n Step <- TheStep\n Start <- TheStart\n' + consts
            try:
                r = tlc.run(module, cfg, data=payload, workers=kw.get('workers', 8), timeout=kw.get('timeout', 850),
                            mem=kw.get('mem', '6g'))
            except tlc.TlcError as e:
                # an observation of a kind that cannot even be compared with what is specified
                if 'evaluating' not in str(e) and 'Attempted' not in str(e):
                    raise
                if len(part) == 1:
                    bad += 1
                    self.fail(part[0]['name'], dict(trace=part[0]['name'], event=part[0]['ev'][-1],
                                                    spec='incomparable observation: ' + str(e)[-800:]))
                    continue
                if self.crashes > 6:
                    continue
                self.crashes += 1
                half = (len(part) + 1) // 2
                bad += self.validate(module, part[:half], consts, chunk, **kw)
                bad += self.validate(module, part[half:], consts, chunk, **kw)
                continue
            self.states += r.distinct
            self.transitions += r.states
            seen = {}
            for v in r.lines.get('VERDICT', []):
                seen[v['t']] = v
            if len(seen) != len(part):
                raise tlc.TlcError('{}: {} verdicts for {} traces'.format(module, len(seen), len(part)))
            for i, t in enumerate(part):
                self.traces += 1
                self.events += len(t['ev'])
                v = seen[i + 1]
                for b in v['bad']:
                    idx = b['l'] - 1
                    bad += 1
                    self.fail(t['name'], dict(trace=t['name'], at=idx, event=t['ev'][idx], spec=b['exp'],
                                              history=t['ev'][:idx], info=t.get('info')), finding=b['kf'] or t.get('finding'))
        if traces and len(self.samples) < 6:
            t = self.rng.choice(traces)
            self.samples.append(dict(trace=t['name'], events=len(t['ev']), first=_short(t['ev'][0])))
        return bad

    def fail(self, what, detail, finding=None):
        if finding and finding in self.findings and self.findings[finding]['property'] == self.pid:
            self.known.append((finding, what))
            return
        self.violations.append(dict(what=what, detail=detail))
        if os.environ.get('VERIF_FAILFAST'):
            raise Enough()


def _short(x):
    s = json.dumps(x, ensure_ascii=False, default=str)
    return s if len(s) < 600 else s[:600] + '...'


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.setrecursionlimit(3000)
    t0 = time.time()
    chk = Check(pid, tier, seed)
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        mod.run(chk)
    except tlc.TlcError:
        if not chk.violations:
            raise
        traceback.print_exc()
    except Enough:
        pass
    except TooManyHangs:
        chk.fail('the code under test does not come back', dict(where=traceback.format_exc()[-1500:]))
    except Exception as e:  # pylint: disable=broad-except
        # an error raised inside the code under test where the harness relies on it to succeed
        tb = traceback.extract_tb(e.__traceback__)
        shape = isinstance(e, (AttributeError, LookupError, TypeError, ValueError))
        if not shape and not chk.violations and not any('/pyopenapi/' in fr.filename for fr in tb[-6:]):
            raise
        # ... or objects of another kind than what it relies on
        chk.fail('what the code under test did cannot be observed', dict(error=repr(e), where=traceback.format_exc()[-1500:]))
    out = os.path.join(HERE, 'evidence')
    os.makedirs(out, exist_ok=True)
    for fid, _ in sorted(set((f, '') for f, _ in chk.known)):
        print('KNOWN-FINDING: property={} {}'.format(pid, chk.findings[fid]['what']))
    replay = None
    if os.path.exists(os.path.join(out, 'replay-{}.json'.format(pid))):
        os.remove(os.path.join(out, 'replay-{}.json'.format(pid)))
    if chk.violations:
        replay = os.path.join(out, 'replay-{}.json'.format(pid))
        with open(replay, 'w') as f:
            json.dump(chk.violations[:20], f, indent=1, default=str)
        for v in chk.violations[:3]:
            print('  ' + _short(v))
        print('VIOLATION property={} replay={}'.format(pid, replay))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=chk.states, transitions=chk.transitions,
                            traces_validated_against_impl=chk.traces + chk.cases,
                            recorded_traces=chk.traces, recorded_events=chk.events, replayed_behaviours=chk.cases,
                            models=chk.models, samples=chk.samples, **chk.notes),
              assumptions=chk.assumptions, wall_s=round(time.time() - t0, 2), violations=len(chk.violations))
    with open(os.path.join(out, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('{} {}: states={} transitions={} traces={} events={} cases={} violations={} wall={:.1f}s'.format(
        pid, tier, chk.states, chk.transitions, chk.traces, chk.events, chk.cases, len(chk.violations),
        time.time() - t0))
    return 1 if chk.violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
