"""C15  DMD: defining equations."""
from mrv import modal


def run(ck):
    modal.check(ck, lambda rng: modal.dmd_case(rng, False), ck.pick(500, 6000), extra=[modal.finding('dmd')])
