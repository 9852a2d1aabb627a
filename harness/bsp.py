"""B-splines written out from the Cox-de Boor recursion (used as oracle)."""


def span(ctx, knots, order, t):
    """Index of the last non-empty knot interval with knots[i] <= t (the end belongs to the last one)."""
    n = len(knots) - order
    i = n - 1
    while i > order - 1 and not (ctx.truth(knots[i] < knots[i + 1]) and ctx.truth(knots[i] <= t)):
        i -= 1
    return i


def basis(ctx, knots, order, t, deriv=0, i=None):
    """Values of all basis functions (or a derivative) at t, as a list."""
    n = len(knots) - order
    i = span(ctx, knots, order, t) if i is None else i
    low = order - deriv
    if low <= 0:
        return [0.0] * n
    # order 1 to low
    N = [1.0 if j == i else 0.0 for j in range(len(knots) - 1)]
    for k in range(2, low + 1):
        M = []
        for j in range(len(knots) - k):
            v = 0.0
            if not zero(N[j]):
                v = v + N[j] * (t - knots[j]) / (knots[j + k - 1] - knots[j])
            if not zero(N[j + 1]):
                v = v + N[j + 1] * (knots[j + k] - t) / (knots[j + k] - knots[j + 1])
            M.append(v)
        N = M
    for k in range(low + 1, order + 1):
        # derivative of the functions of order k from those of order k - 1
        M = []
        for j in range(len(knots) - k):
            v = 0.0
            if not zero(N[j]):
                v = v + (k - 1) * N[j] / (knots[j + k - 1] - knots[j])
            if not zero(N[j + 1]):
                v = v - (k - 1) * N[j + 1] / (knots[j + k] - knots[j + 1])
            M.append(v)
        N = M
    return N


def zero(x):
    return isinstance(x, float) and x == 0.0


def value(ctx, knots, coeffs, order, t, d, deriv=0):
    B = basis(ctx, knots, order, t, deriv)
    r = 0.0
    for j, b in enumerate(B):
        if not zero(b):
            r = r + b * coeffs[j][d]
    return r
