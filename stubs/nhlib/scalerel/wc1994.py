"""Stand-in for the nhlib library, which cannot be had here: the published
Wells and Coppersmith (1994) relations of magnitude on rupture area."""
import math


class WC1994(object):

    def get_median_mag(self, area, rake):
        if rake is None:
            a, b = 4.07, 0.98
        elif -45 <= rake <= 45 or rake >= 135 or rake <= -135:
            a, b = 3.98, 1.02
        elif rake > 0:
            a, b = 4.33, 0.90
        else:
            a, b = 3.93, 1.02
        return a + b * math.log10(area)
