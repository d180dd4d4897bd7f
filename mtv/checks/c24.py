"""Tectonic regions."""
import copy
import math
import random

from mtv.core import Check, attempt, must, need

NAMES = {'Active Shallow Crust': ('001', 30.0, 1.25e-5),
         'Subduction Interface': ('002', 49.0, 1.25e-5),
         'Subction Intraslab': ('003', 49.0, 1.25e-5),
         'Stable Continental': ('004', 29.0, 1.0e-4),
         'Volcanic': ('005', 29.0, 1.25e-5)}


def weights(rng, n):
    w = [rng.random() for _ in range(n)]
    if rng.random() < 0.5:
        w = [1. / n] * n
    elif rng.random() < 0.5 and n > 1:
        w = [round(x / sum(w), 2) for x in w]
        w[-1] = 1 - sum(w[:-1])
    else:
        w = [x / math.fsum(w) for x in w]
    return w


def part(rng, key):
    n = rng.choice([1, 1, 2, 3, 5, 10])
    if key == 'model':
        vals = [rng.choice(['Peer', 'WC1994']) for _ in range(n)]
    else:
        vals = [rng.choice([1e-5, 0.2, 30., 1, rng.uniform(.001, 100)])
                for _ in range(n)]
    return {key: vals, 'weight': weights(rng, n)}


def sound(p):
    key = 'model' if 'model' in p else 'value'
    if len(p[key]) != len(p['weight']):
        return False
    for v in p[key]:
        if key == 'model' and v not in ('Peer', 'WC1994'):
            return False
        if key == 'value' and not v > 0:
            return False
    return abs(math.fsum(p['weight']) - 1) < 1e-7


class C24(Check):
    ID = 'C24'
    RULE = ('random default and custom regions with weights that sum to one '
            'up to rounding, and ones with one defect (a missing or surplus '
            'weight, an unknown relation, a value of zero or less, weights '
            'off one by 0.001 or more, a value or weight that is no number, an '
            'unknown region); non-trivial when a '
            'custom value was accepted or a defect refused')
    QUICK = 100000
    THOROUGH = 375000
    MIN = {'refused': 500, 'accepted': 500, 'defaults': 200,
           'one_thing_other': 500,
           'unknown_name': 50}
    ANCHORS = ('mtoolkit/geo/tectonic_region.py',)

    def setup(self, env):
        from mtoolkit.geo import tectonic_region
        self.mod = tectonic_region

    def gen(self, rng, tier):
        c = {'name': rng.choice(sorted(NAMES) + [None]), 'msr': None,
             'smod': None, 'dlr': None}
        if rng.random() < 0.05:
            c['name'] = rng.choice(['volcanic', '', 'Subduction',
                                    'Subduction Intraslab', 'Craton'])
        for key, word in (('msr', 'model'), ('smod', 'value'),
                          ('dlr', 'value')):
            if c['name'] is None or rng.random() < 0.5:
                c[key] = part(rng, word)
        have = [k for k in ('msr', 'smod', 'dlr') if c[k]]
        if have and rng.random() < 0.4:
            p = c[rng.choice(have)]
            word = 'model' if 'model' in p else 'value'
            what = rng.randrange(6)
            i = rng.randrange(len(p[word]))
            if what == 0:
                p['weight'].append(0.)
            elif what == 1:
                p[word].append(p[word][0])
            elif what == 2:
                p[word][i] = rng.choice(['wc1994', 'PEER', '', 'Leonard']) \
                    if word == 'model' else rng.choice([0, 0., -1e-9, -30])
            elif what == 3:
                p['weight'][i] += rng.choice([-1, 1]) * rng.choice(
                    [0.001, 0.01, 0.5])
            elif what == 4:
                nan = float('nan')
                if word == 'value' and rng.random() < 0.5:
                    p[word][i] = nan
                else:
                    p['weight'][i] = rng.choice([nan, float('inf'),
                                                 float('-inf')])
            else:
                p['weight'] = [w * 2 for w in p['weight']]
        return c

    def nearby(self, case, given):
        """Regions that differ in one identifier, value or relation."""
        Builder = self.mod.TectonicRegionBuilder
        rng = random.Random(repr(sorted(case.items())))
        for key, part in given.items():
            word = 'model' if key == 'msr' else 'value'
            turned = copy.deepcopy(given)
            i = rng.randrange(len(part[word]))
            v = part[word][i]
            turned[key][word][i] = {'Peer': 'WC1994', 'WC1994': 'Peer'}[
                v] if word == 'model' else v * rng.choice([1.001, 2, 0.5])
            yield '%s %d of %s' % (word, i, key), must(
                Builder.create_new_tect_region, '042', *[
                    turned[k] for k in ('msr', 'smod', 'dlr')]) \
                if case['name'] is None else must(
                    Builder.create_tect_region_by_name, case['name'],
                    **turned)
        if case['name'] is None:
            for name in ('42', '043', '042 ', '0420', ''):
                yield 'identifier', must(
                    Builder.create_new_tect_region, name, *[
                        given[k] for k in ('msr', 'smod', 'dlr')])

    def run(self, case, obs):
        given = dict((k, copy.deepcopy(case[k]))
                     for k in ('msr', 'smod', 'dlr') if case[k])
        Builder = self.mod.TectonicRegionBuilder
        if case['name'] is None:
            def build():
                return Builder.create_new_tect_region(
                    '042', given['msr'], given['smod'], given['dlr'])
            want = ('042', None, None)
        else:
            def build():
                return Builder.create_tect_region_by_name(
                    case['name'], **given)
            want = NAMES.get(case['name'])
        out = attempt(build)
        if want is None:
            need(isinstance(out.exc, ValueError), 'unknown region %r: %r' % (
                case['name'], out.exc))
            obs.count('unknown_name')
            return
        if not all(sound(p) for p in given.values()):
            need(isinstance(out.exc, ValueError), 'accepted, or %r' % (
                out.exc,))
            obs.count('refused')
            obs.mark()
            return
        need(out.exc is None, 'refused: %r' % (out.exc,))
        reg = out.value
        for key, attr, default in (
                ('smod', 'shear_mod_first_value', want[1]),
                ('dlr', 'disp_length_ratio_first_value', want[2])):
            expect = case[key]['value'][0] if case[key] else default
            have = getattr(reg, attr)
            need(have == expect, '%s of %r is %r instead of %r' % (
                attr, case['name'], have, expect))
            obs.count('defaults', not case[key])
        need(given == dict((k, case[k]) for k in given),
             'the given values were changed')
        # equal regions are those with the same values
        need(reg == build() and not reg != build(), 'region not equal to '
             'its twin')
        if case['name'] is not None:
            for name in NAMES:
                other = must(Builder.create_tect_region_by_name, name, **given)
                need((other == reg) == (name == case['name']),
                     '%r and %r compare %r' % (name, case['name'],
                                               other == reg))
            spelled = [case['msr'] or {'model': ['WC1994'], 'weight': [1.0]},
                       case['smod'] or {'value': [want[1]], 'weight': [1.0]},
                       case['dlr'] or {'value': [want[2]], 'weight': [1.0]}]
            same = must(Builder.create_new_tect_region, want[0],
                        *copy.deepcopy(spelled))
            need(same == reg and not same != reg, '%r is not the region %r of '
                 'its values %r' % (case['name'], want[0], spelled))
            # building with own values leaves the defaults alone
            plain = must(Builder.create_tect_region_by_name, case['name'])
            need((plain.shear_mod_first_value,
                  plain.disp_length_ratio_first_value) == want[1:],
                 'defaults of %r changed' % case['name'])
        for key, have in given.items():
            if len(have['weight']) < 2 or len(set(have['weight'])) < 2:
                continue
            turned = copy.deepcopy(given)
            turned[key]['weight'] = have['weight'][1:] + have['weight'][:1]
            other = must(Builder.create_new_tect_region, '042', *[
                turned[k] for k in ('msr', 'smod', 'dlr')]) \
                if case['name'] is None else must(
                    Builder.create_tect_region_by_name, case['name'],
                    **turned)
            need(other != reg and not other == reg, 'equal to a region with '
                 'other weights of %s' % key)
            obs.count('other_weights')
        for what, other in self.nearby(case, given):
            need(other != reg and not other == reg and reg != other and
                 not reg == other, 'equal to a region with another %s' % what)
            obs.count('one_thing_other')
        obs.count('accepted')
        if given:
            obs.mark()


CHECK = C24()
