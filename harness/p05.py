"""Exchange and pair hopping in spin-resolved sectors."""
import ham


def run(rec, rng):
    for i in range(12 if rec.quick else 90):
        n = [1, 2, 3, 2, 3, 4][i % 6]
        m = ham.model(rng, n, hop=i % 4 < 3, Jx=i % 3 != 1, Jp=i % 3 != 2, spins=1 + i % 2)
        qs = [(a, b) for a in range(n + 1) for b in range(n + 1)]
        if n > 3:
            qs = [qs[k] for k in rng.choice(len(qs), 8, replace=False)]
        for q in qs:
            rec.case('sector', lambda: ham.emit(rec, rng, m, q, 300), n=n, q=list(q), Jx=m['Jx'] is not None, Jp=m['Jp'] is not None)
    for i in range(2 if rec.quick else 30):
        m = ham.model(rng, 5, Jx=i % 3 != 1, Jp=i % 3 != 2)
        q = tuple(int(x) for x in rng.randint(1, 5, 2))
        rec.case('sector', lambda: ham.emit(rec, rng, m, q, 400), n=5, q=list(q), Jx=m['Jx'] is not None, Jp=m['Jp'] is not None)
