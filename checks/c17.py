"""C17: display drivers."""
import vlib, texrun


def main():
    chk = vlib.Check('C17', rule='A case opens one to three displays of one driver with random image size, crop window, channels, pixel type and options, sends each its pixels in random rectangles (whole lines when the driver asks for them), '
                     'the displays taking turns, closes them in random order, and reads the files back with libtiff and OpenEXR or byte by byte. Each case is distinct by its seed.')
    chk.assumptions = ['libtiff and OpenEXR, used directly, are the reference readers']
    texrun.run(chk, {'file': (300, 16, 160), 'zfile': (200, 4, 40), 'shadow': (200, 12, 120), 'exr': (200, 16, 160), 'bmp': (250, 6, 60)},
               {'pixels_file': 100000, 'pixels_zfile': 10000, 'pixels_exr': 100000, 'pixels_bmp': 10000, 'cropped': 1000, 'several_open': 500, 'appended': 50, 'matrices_checked': 500, 'size_queries': 1000}, target='h_dspy')
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
