"""A stand-in for random.Random whose every draw is a solver-chosen value."""


class ChoiceRng:
    def __init__(self, env, tag="draw"):
        self.env, self.tag, self.n = env, tag, 0

    def _pick(self, k):
        self.n += 1
        return 0 if k == 1 else self.env.choice(f"{self.tag} {self.n}", list(range(k)))

    def randrange(self, start, stop=None):
        if stop is None:
            start, stop = 0, start
        return start + self._pick(stop - start)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        return seq[self._pick(len(seq))]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [self.choice(population) for _ in range(k)]

    def sample(self, population, k, *, counts=None):
        pool = list(population)
        if k < 0 or k > len(pool):
            raise ValueError("Sample larger than population or is negative")
        return [pool.pop(self._pick(len(pool))) for _ in range(k)]

    def shuffle(self, x):
        for i in range(len(x) - 1):
            j = i + self._pick(len(x) - i)
            x[i], x[j] = x[j], x[i]

    def random(self):
        self.n += 1
        return self.env.real(f"{self.tag} {self.n}", 0.0, 1.0)

    def uniform(self, a, b):
        return a + (b - a) * self.random()
