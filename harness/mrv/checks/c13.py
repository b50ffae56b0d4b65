"""C13  POD: defining equations."""
from mrv import modal


def run(ck):
    modal.check(ck, modal.pod_case, ck.pick(600, 8000), extra=[modal.finding('pod')])
