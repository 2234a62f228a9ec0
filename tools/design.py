#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md from the harness modules:  /opt/venv/bin/python tools/design.py"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
MARK = '## Properties and how each is decided\n'
END = '## Stand-ins and what is assumed of them\n'

# reference (oracle) of each property, and why tests don't reach it
REF = {
 'C01': 'q^2 = cos^2 i + q0^2 sin^2 i for the returned sin i, monotone in q; rotation: isometry, axis images written out, every element of an array as the scalar; elliptical radius at the four axis points and point symmetry.',
 'C02': 'value at half the FWHM is half the peak, radial symmetry, sum one; Moffat exponent; double kernel = two single ones at +-nod; kernels built by the model at the model\'s own sampling compared with the closed form at each sample.',
 'C03': 'direct double sum over the kernel, channel by channel, written with index arithmetic only; light is kept for a kernel inside the padding; the model with seeing equals the model without, convolved.',
 'C04': 'direct sum over channels with the Gaussian of the stated width; steps: rows do not mix, sum kept; symmetric and centred.',
 'C05': 'block sums written as index arithmetic; collapse over the slit columns whose centres lie within the slit; sums of any model with padding equal sums without.',
 'C06': 'cell centre in arcsec from row number, m0, shift, subpixel and padding (affine formula), slit offset perpendicular to the slit, then the C01 rotation; spacing and counts.',
 'C07': 'closed forms of arctan curve, dispersion (constant), Sersic disk with vertical Gaussian; derivative signs; total invariance under the galaxy it follows.',
 'C08': 'sum over lines and cells of flux x Gaussian at lambda(1+z)(1+v/c) with the cell\'s dispersion in wavelength; in velocity units alike; the model\'s cube compared with that sum at the C06 coordinates with C07 profiles.',
 'C09': 'threshold on dispersion against channel: upsample or floor exactly below it, by the stated factor, result equals sampling the narrow line on fine channels and averaging; parameters unchanged; two evaluations in a row.',
 'C10': 'the same public call on a fresh model with the later parameters (relational: history against none), for all pairs of parameter sets.',
 'C11': 'per row sum(m f w/e^2)/sum(m^2 w/e^2) over unmasked sky-free channels (normal equation and minimality), zero for dark rows.',
 'C12': 'the sums written pixel by pixel over the mask; reduced by pixels minus free parameters; invariance of every statistic under changes in masked pixels.',
 'C13': 'box membership by plain comparisons; posterior = prior + likelihood or -inf; not-a-number outside; end to end against C12.',
 'C14': 'list comprehension over the vary flags; wrong lengths refused; settings and inputs unchanged; whole-number starts.',
 'C15': 'relational: two objects evaluated alternately against each alone; object graphs walked and every mutable number of the copy changed.',
 'C16': 'list of the channels with lo <= wave <= hi; every per-channel array restricted to the same list; second trims; refusals.',
 'C17': 'sets of pixels written from the rules (edge runs, missing = nan or zero error, sky > cutoff x median, rows of the connected range over threshold).',
 'C18': 'objective given to the minimiser compared with the sum written out, for every slope and level; then everything derived from the minimiser\'s (arbitrary) answer.',
 'C19': 'objective of the collapsed profile (three Gaussians with nods) written out for arbitrary parameters; decision rules for edge/failed fits; trimmed rows and m0 = row index arithmetic.',
 'C20': 'inverse-proportional and optimal weights written out, normalised to one; low rows zero.',
 'C21': 'angles mod 180 with the sign of the slit; projections by cos/sin; points inside of the slit by dot products; inclination of C01.',
 'C22': 'Gaussian sum with flux normalisation and line dispersion (lambda/c sigma), polynomial continuum; residuals over the unmasked.',
 'C23': 'objective written out; control flow (refit if negative), reported values from the arbitrary answer of the minimiser, percentiles of the realisations, quadrature correction.',
 'C24': 'percentiles by order statistics of symbolic chains (ordered by construction under listed permutations); peaks of the (opaque) density; joint peaks of linked parameters; signs.',
 'C25': 'walkers inside the box; the callable given to the sampler equals prior + likelihood on every position; stopping and discarded steps by the written rules.',
 'C26': 'field by field equality of what is stored and loaded, flattening by index arithmetic.',
 'C27': 'light-weighted sums over the same cells written out, ratio to the stated radius; mirrored configurations give mirrored results.',
 'C28': 'image = C08 model at the asked-for geometry; cubes spaxel by spaxel; symmetric arrangements (turned, square) compared.',
 'C29': 'lookup by name in symbolic tables in any order; given values kept; defaults.',
 'C30': 'offset of the centroid from the slit centre, clipped to half of the slit, in wavelength by slit width/dispersion; full model against shifted channels.',
 'C31': 'relational: units scaled, values under masks changed, wavelengths beyond the range changed, prepared twice: same likelihood.',
 'C32': 'objective of the profile fit, quadrature with the seeing, percentiles of repetitions; what attaching sets and what it leaves.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    seeds = {}
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
    out = [MARK, '\n', 'Statements are in `properties.jsonl`. For each: the reference asserted against, harnesses (quick+thorough configurations), '
           'bounds, what lies outside, and the planted changes in `seeded/` that its check catches (all of them are caught).\n']
    for p in sorted(props, key=lambda p: p['id']):
        i = p['id']
        m = importlib.import_module('harness.' + i.lower())
        out.append('\n### %s %s\n\n' % (i, p['title']))
        out.append('* Reference: %s\n' % REF[i])
        out.append('* Harnesses: %s\n' % ', '.join('%s (%d%s)' % (h['name'], len(h.get('configs', [1])), '+%d' % len(h['thorough']) if h.get('thorough') else '')
                                                   for h in m.HARNESSES))
        out.append('* Bounds: %s\n' % m.BOUNDS)
        out.append('* Outside: %s\n' % m.OUTSIDE)
        if m.ASSUMPTIONS:
            out.append('* Assumed: %s\n' % '; '.join(m.ASSUMPTIONS))
        for s, q in seeds.get(i, []):
            out.append('* Catches %s: %s (needs: %s)\n' % (s, q['what_it_breaks'], q['needs']))
    out.append('\n')
    f = os.path.join(HERE, 'DESIGN.md')
    s = open(f).read()
    a, b = s.split(MARK, 1)
    tail = END + b.split(END, 1)[1] if END in b else END
    open(f, 'w').write(a + ''.join(out) + tail)


main()
