"""Local and hopping operators, every sector of small models and rows of larger ones."""
import ham


def run(rec, rng):
    for i in range(12 if rec.quick else 120):
        n = [1, 2, 3, 2, 3, 4][i % 6]
        m = ham.model(rng, n, spins=1 + i % 2)
        qs = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        if n > 3:
            qs = [qs[k] for k in rng.choice(len(qs), 7, replace=False)]
        for q in qs:
            rec.case('sector', lambda: ham.emit(rec, rng, m, q, 500), n=n, q=list(q))
    for i in range(4 if rec.quick else 60):
        n = int(rng.choice([5, 6] if rec.quick else [5, 6, 7]))
        m = ham.model(rng, n, spins=1 + i % 2)
        for _ in range(2):
            q = tuple(int(x) for x in rng.randint(0, n + 1, 2))
            rec.case('sector', lambda: ham.emit(rec, rng, m, q, 1200), n=n, q=list(q))
    for i in range(2 if rec.quick else 30):                  # many orbitals, next to empty or full
        n = int(rng.choice([8, 10, 13, 16, 24, 30] if i % 2 else [8, 9, 12]))
        m = ham.model(rng, n, spins=1 + i % 2)
        q = tuple(int(x) for x in (rng.choice([0, 1, n - 1, n], 2) if i % 2 else rng.permutation([int(rng.choice([0, n])), int(rng.choice([2, n - 2]))])))
        rec.case('sector', lambda: ham.emit(rec, rng, m, q, 1200), n=n, q=list(q))
