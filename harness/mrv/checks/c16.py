"""C16  total-least-squares DMD: defining equations."""
from mrv import modal


def run(ck):
    modal.check(ck, lambda rng: modal.dmd_case(rng, True), ck.pick(500, 6000), extra=[modal.finding('tls')])
