"""C25: weak forms evaluate the weak form of their problem (spec: WeakForms / WeakFormsTrace)."""
from concurrent.futures import ThreadPoolExecutor

from vf import forms as W


def run(chk):
    rng = chk.rng
    with ThreadPoolExecutor(1) as pool:
        models = [pool.submit(chk.model, "WeakFormsMC", "WeakFormsMC%d%s" % (n, "" if chk.quick else "_big"), timeout=2400)
                  for n in (1, 2, 3)]
        events = make_events(chk, rng)
        for m in models:
            m.result()
    for e in events[:2]:
        chk.sample({k: v for k, v in e.items() if k != "replay"})
    chk.trace("WeakFormsTrace", None, traces=len(events), chunk=[events[i::8] for i in range(8)])


def make_events(chk, rng):
    events = []
    for it in range(chk.n(8, 30)):
        for form, (_, _, dims, _) in W.CLASSES.items():
            for dim in dims:
                if dim == 3 and it % 2 and chk.quick:
                    continue
                e = None
                for _ in range(6):
                    e = W.make(chk, rng, form, dim, "%d:%d" % (chk.seed, it))
                    if e:
                        break
                if e is None:
                    chk.count("too-large")
                    continue
                events.append(e)
                chk.count(form)
    return events
