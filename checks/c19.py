from toolruns import Tools


class CHECK(Tools):
    prop = 'C19'

    def history(self, name):
        r = self.rng
        self.world()
        self.fill()
        self.seal()
        n = r.randint(2, 8)
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            self.regrid()
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            self.moments()
        if r.random() < .2:
            self.ls.append('polarx %d %d %d %d %d' % (r.randint(-9, 9), r.randint(-9, 9), r.randint(-9, 9), r.randint(0, 9), r.choice([6, 12, 18, 30, 2, 7])))
        for _ in range(40):
            if n and self.command(['data2data', 'data2data', 'data2data', 'brdf2data', 'brdf2data', 'brdf2gnuplot', 'brdf2brdf', 'polar', 'data2moments']):
                n -= 1
        return self.scenario(name)

    def scenarios(self):
        return [self.history('tools%d' % i) for i in range(400 if self.quick else 12000)]
