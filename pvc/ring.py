"""placeholder: real-algebra back end"""


def prove(hyps, goal):
    return False
