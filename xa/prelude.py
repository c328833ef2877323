"""Models written in the analysed language: the engine interprets them like repository code."""


def unique(items):
    once = []
    for item in items:
        if item not in once:
            once.append(item)
    return once
