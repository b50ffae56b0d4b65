"""C14  balanced POD: defining equations."""
from mrv import modal


def run(ck):
    modal.check(ck, modal.bpod_case, ck.pick(600, 8000))
