"""Drives an implementation over the state graph of a specification whose
outcomes are decided by the implementation (random slots, ...)."""
from collections import deque
from harness.core import key


class Online:
    """Chooses inputs so that every (state, input) pair of the graph is exercised.

    label(a): hashable input of action record a; the rest of a and the target
    state are outcomes, recognised by match(a, t, observation)."""
    def __init__(self, graph, label, rng):
        self.g, self.label, self.rng = graph, label, rng
        self.inputs = {}                    # state -> {label: [edge]}
        for i, (s, a, t) in enumerate(graph.edges):
            self.inputs.setdefault(s, {}).setdefault(label(a), []).append(i)
        self.todo = {(s, x) for s, d in self.inputs.items() for x in d}
        self.total = len(self.todo)
        self.outcomes, self.tries = set(), {}

    def _towards(self, start):
        """First input of a shortest path to a state with inputs left."""
        par, dq = {start: None}, deque([start])
        while dq:
            s = dq.popleft()
            if any((s, x) in self.todo for x in self.inputs.get(s, ())):
                if s == start:
                    return None
                while par[s][0] != start:
                    s = par[s][0]
                return par[s][1]
            xs = list(self.inputs.get(s, {}).items())
            self.rng.shuffle(xs)
            for x, es in xs:
                often = self.tries.get((s, x), 0) >= 6
                for e in es:
                    if often and e not in self.outcomes:
                        continue            # an outcome the code does not choose
                    t = self.g.edges[e][2]
                    if t not in par:
                        par[t] = (s, x); dq.append(t)
        return "done"

    def walk(self, s, driver, max_len):
        """One run from initial state s; driver.apply(a) -> observation,
        driver.match(a, state, observation) recognises the outcome."""
        for _ in range(max_len):
            left = [x for x in self.inputs.get(s, ()) if (s, x) in self.todo]
            if left:
                x = self.rng.choice(left)
            else:
                x = self._towards(s)
                if x == "done" or x is None:
                    return
            es = self.inputs[s][x]
            self.todo.discard((s, x))
            self.tries[s, x] = self.tries.get((s, x), 0) + 1
            obs = driver.apply(self.g.edges[es[0]][1])
            for e in es:
                if driver.match(self.g.edges[e][1], self.g.state[self.g.edges[e][2]], obs):
                    self.outcomes.add(e)
                    s = self.g.edges[e][2]
                    break
            else:
                return                      # the recorded trace is judged by TLC

    def run(self, new_driver, max_len, max_steps):
        """new_driver(initial state) -> driver"""
        n = idle = k = 0
        while self.todo and n < max_steps and idle < 3 * len(self.g.init):
            s = self.g.init[k % len(self.g.init)]
            d = new_driver(self.g.state[s])
            before = len(self.todo)
            self.walk(s, d, max_len)
            n += max(1, d.steps)
            if len(self.todo) == before:
                idle += 1
                k += 1
            else:
                idle = 0
        return self.total - len(self.todo)
