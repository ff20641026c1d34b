"""Total-charge sectors."""
import numpy as np
import ham


def run(rec, rng):
    for i in range(10 if rec.quick else 80):
        n = [1, 2, 3, 2][i % 4]
        j = i % 5
        m = ham.model(rng, n, hop=False, Jx=j in (1, 3, 4), Jp=j in (2, 3, 4), spins=1 + i % 3 // 2)
        for q in range(2 * n + 1):
            def sector():
                D = ham.emit(rec, rng, m, (q,), 450)
                parts = []
                for a in range(max(0, q - n), min(n, q) + 1):
                    H, V = ham.forms(m, rng)[0]
                    parts.append(np.linalg.eigvalsh(np.array(ham.todense(*ham.assemble(H, V, m, (a, q - a))[1]))))
                rec.emit('spectrum', n=n, q=q, charge=np.linalg.eigvalsh(D), union=np.sort(np.concatenate(parts)))
            rec.case('sector', sector, n=n, q=q, Jx=m['Jx'] is not None, Jp=m['Jp'] is not None)
    for i in range(1 if rec.quick else 15):                  # many orbitals, next to empty or full
        n = int(rng.choice([5, 8, 9] if rec.quick else [5, 8, 11, 15]))
        j = int(rng.randint(4))
        m = ham.model(rng, n, hop=False, Jx=bool(j & 1), Jp=bool(j & 2), spins=1 + i % 2)
        for q in rng.permutation([0, 1, 2 * n - 1, 2 * n] if n > 5 else [2, 2 * n - 2, 1])[:2].tolist():
            rec.case('sector', lambda: ham.emit(rec, rng, m, (q,), 80 if rec.quick else 450), n=n, q=q, Jx=m['Jx'] is not None, Jp=m['Jp'] is not None)
