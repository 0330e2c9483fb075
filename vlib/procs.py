"""Random processor classes: tuples of constructor parameter kinds (0 value, 1 reference, 2 const reference, 3 int, 4 string)."""
def gen(rng, n=36):
    out = [()] + [(k,) * a for a in range(1, 7) for k in (0, 1)]
    seen = set(out)
    while len(out) < n:
        t = tuple(rng.randrange(5) for _ in range(rng.randint(2, 6)))
        if t not in seen: seen.add(t); out.append(t)
    return '\n'.join('  info<%s>(),' % ', '.join(map(str, (i,) + t)) for i, t in enumerate(out)) + '\n'
