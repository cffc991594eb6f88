from textload import TextLoadCheck


class CHECK(TextLoadCheck):
    prop = 'C03'
    aspect = 'ci'

    def adapt(self, o):
        # range options are C02's business; keep a few for the interplay with dt-positive
        if self.rng.random() < .7:
            for k in ('min', 'max', 'ymin', 'ymax'):
                o[k] = [1000000000] * len(o[k])
