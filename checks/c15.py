"""C15: the mathematics library."""
import vlib, texrun


def main():
    chk = vlib.Check('C15', rule='A case is a random history of matrix operations (or random vectors, colours, spline control points, noise positions and periods, or random number streams) run through the real library; every result is compared with '
                     'a double precision evaluation of the defining formula, or with a defining relation (inverse, period, lattice value, continuity, constancy in a cell, range). Each case is distinct by its seed.')
    chk.assumptions = ['single precision: results are compared with tolerances scaled by the magnitudes involved', 'colour space matrices are those in the sources (CCIR 709 primaries, NTSC YIQ)']
    texrun.run(chk, {'matrix': (3000, 16, 400), 'vector': (3000, 16, 400), 'noise': (3000, 16, 400)},
               {'matrices': 50000, 'matrix_histories': 10000, 'inverses': 5000, 'colors': 10000, 'splines': 10000, 'noises': 10000, 'noise_statistics': 100, 'random_ints': 10000, 'skew:angle': 200,
                'vector:cross': 10000, 'scalar:lfloor': 10000, 'cellnoise:constant': 10000}, 'h_math')
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
