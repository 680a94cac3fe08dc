"""Shared by S02 and S03: the automatic search with the planes of each entry/exit pair left open."""


class Recorder:
    """Stands in for the planes of a pair (decided by G04): records the pairs, returns the given planes."""

    def __init__(self, E, s, planes=lambda i, l, r: [], fos=lambda c: 1.5):
        self.pairs = []
        self.analysed = []

        def generate(*a, **k):
            l, r, n = (list(a) + [k[m] for m in ("l_c", "r_c", "num_circles") if m in k])[:3]
            self.pairs.append((l, r, n))
            return list(planes(len(self.pairs) - 1, l, r))

        def analyse(*a, **k):
            c = (list(a) + [k[m] for m in ("c_x", "c_y", "radius") if m in k])[:3]
            self.analysed.append(c)
            return fos(c)
        s._generate_planes = generate
        s._analyse_circular_failure_bishop = analyse

