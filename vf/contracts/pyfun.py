"""Library functions given by their defining program."""


def reduce(function, iterable, *initial):
    if initial:
        acc = initial[0]
        for x in iterable:
            acc = function(acc, x)
        return acc
    raise NotImplementedError
