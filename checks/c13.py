"""C13: image files."""
import vlib, texrun


def main():
    chk = vlib.Check('C13', rule='A case is one image of random size, pixel type, channels, layout and metadata: written by aqsis in random pieces and read back in random pieces (io), or written by libtiff, libpng or '
                     'OpenEXR directly in an encoding of their choice and read through aqsis (foreign), or damaged (truncated, bits flipped, sizes and tags overwritten) and then opened, sampled and converted every way aqsis offers (bad). '
                     'Each case is distinct by its seed.')
    chk.assumptions = ['libtiff, libpng and OpenEXR, used directly, are the reference for the foreign encodings']
    texrun.run(chk, {'io': (400, 16, 160), 'foreign': (400, 16, 160), 'bad': (120, 24, 240)}, {'foreign_exr': 50, 'foreign_png': 50, 'foreign_tiff': 100, 'damaged_files': 500, 'open_refused': 50, 'open_ok': 50})
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
