from toolruns import Tools

ALL = ['data2data', 'brdf2data', 'brdf2gnuplot', 'brdf2stats', 'brdf2brdf', 'data2brdf', 'polar', 'data2stats', 'data2moments']
FAULTS = ['missing', 'noplugin', 'badparam', 'noinput', 'nodir', 'isdir', 'full', 'limit', 'badvalue', 'badvalue']


class CHECK(Tools):
    prop = 'C20'

    def history(self, name):
        r = self.rng
        self.world()
        self.fill()
        for n in 'abghku':
            if r.random() < .2:
                self.junk(n)
        self.seal()
        n = r.randint(3, 9)
        for _ in range(40):
            k = r.random()
            if not n:
                break
            if k < .05:
                self.help()
                n -= 1
            elif k < .4:
                n -= bool(self.command(ALL, fault=r.choice(FAULTS)))
            elif k < .7:
                n -= bool(self.command(ALL, bad=r.choice([('junk',), ('none',), ('func',), ('data', 'grid')])))
            else:
                n -= bool(self.command(ALL))
        return self.scenario(name)

    def scenarios(self):
        return [self.history('runs%d' % i) for i in range(400 if self.quick else 12000)]
