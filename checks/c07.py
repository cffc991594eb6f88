from core import Scenario
from textload import esc
from c06 import ArgsCheck


class CHECK(ArgsCheck):
    prop = 'C07'
    assumptions = ['recorded values contain blanks only inside brackets (others are not claimed to survive recording)']

    def header(self):
        rng, ls = self.rng, []
        if rng.random() < .5:
            ls.append(rng.choice(['#ALTA FUNC HEADER', '#ALTA DATA HEADER', '#ALTA HEADER BEGIN', '#ALTA', '#ALTA X']))
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < .6:
                k = rng.choice(['DIM', 'PARAM_IN', 'PARAM_OUT', 'VS', 'CMD', 'FORMAT', 'SAMPLE_COUNT', 'K', 'ALTAX'])
                v = rng.choice(['1 1', '2 3', 'RUSIN_TH_TD', '--a [x, y] --b', 'binary', '', 'a b  c', '3', '# 4', 'v '])
                if rng.random() < .3:
                    v = self.odd(True).strip()
                if rng.random() < .1:
                    v = v + ' ' + self.odd(True).strip()
                sep = rng.choice([' ', ' ', '  ', '\t', ' \t'])
                ls.append('#' + rng.choice(['', '', '', '\t']) + k + (sep + v if v or rng.random() < .3 else ''))
            elif r < .8:
                ls.append(rng.choice(['# comment', '#', '# DIM 9 9', '##', '#  x', '#\t', '# ALTA END HEADER']))
            elif r < .85:
                ls.append(rng.choice(['#ALTA END HEADER', '#ALTA HEADER END', '#BEGIN_STREAM', '#ALTA  END   HEADER x']))
        if rng.random() < .5:
            ls.append(rng.choice(['#ALTA END HEADER', '#ALTA HEADER END', '#BEGIN_STREAM']))
        for _ in range(rng.randint(0, 4)):
            ls.append(rng.choice(['1 2 3', '', '#LATE 5', '# c', ' 1', '\t#x', 'text']))
        if rng.random() < .15:
            ls = [x + '\r' for x in ls]
        return ls

    def scenarios(self):
        rng, res = self.rng, []
        for k in range(700 if self.quick else 12000):
            ops = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < .6:
                    ls = self.header()
                    if ls and ls[-1] == '':
                        ls.append('end')
                    ops.append('header %d %s' % (rng.randint(0, 1) if ls else 0, ' '.join(esc(x) for x in ls)))
                    ops.append('get pair DIM 0 0')
                    ops.append('get op CMD 0 0')
                else:
                    ops.append('args ' + ' '.join(esc(w) for w in self.argv()))
                    for _ in range(rng.randint(0, 2)):
                        ops.append('update %s %s' % (self.optname(), esc(rng.choice([self.plain(), self.vector()]))))
                    ops.append('record')
                ops.append('map')
            res.append(Scenario('r%d' % k, {}, ops))
        return res
