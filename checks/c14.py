"""C14: texture, environment and shadow maps."""
import vlib, texrun


def main():
    chk = vlib.Check('C14', rule='A case is one random image made into a texture, environment or shadow map with random filter, wrap modes and metadata and then looked up with random regions and options; mipmap levels are compared pixel by '
                     'pixel with an independent downsampler, looked up values with a direct evaluation of the elliptical Gaussian filter (or of percentage closer filtering for shadows), and every value with the range of the image. '
                     'Each case is distinct by its seed.')
    chk.assumptions = ['filter kernels as documented in the sources: gaussian of variance 1.3/2pi pixels, cut at the documented edge weight, axis ratio at most 20',
                       'values are compared with 1.4% of the local range on the finest level, more loosely (15%) where several mipmap levels mix']
    texrun.run(chk, {'tex': (220, 32, 320), 'env': (100, 16, 160), 'shadow': (100, 16, 160)},
               {'mip_pixels_compared': 50000, 'values_compared': 300, 'waves_compared': 20, 'ramps_compared': 10, 'fills': 100, 'env_values_cube': 300, 'env_values_latlong': 300, 'shadow_samples': 1000, 'shadow_partial': 100})
    chk.sample(dict(sorted(chk.counters.items())))
    return chk.finish()
