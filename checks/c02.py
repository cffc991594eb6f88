from textload import TextLoadCheck


class CHECK(TextLoadCheck):
    prop = 'C02'
    aspect = 'rows'

    def adapt(self, o):
        o['pos'] = False
